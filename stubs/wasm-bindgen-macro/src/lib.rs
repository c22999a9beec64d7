//! Stand-in for `#[wasm_bindgen]`: imported functions become calls of the environment, imported
//! types values of JavaScript, and exported types can be made values of JavaScript.
use proc_macro::TokenStream;
use quote::{quote, ToTokens};
use syn::{Attribute, FnArg, ForeignItem, Item, Lit, Meta, MetaList, NestedMeta, Pat, ReturnType};

fn options(attrs: &[Attribute]) -> Vec<Meta> {
    let lists = attrs.iter().filter(|a| a.path.is_ident("wasm_bindgen")).filter_map(|a| match a.parse_meta() {
        Ok(Meta::List(MetaList { nested, .. })) => Some(nested),
        _ => None,
    });
    lists.flatten().filter_map(|n| match n { NestedMeta::Meta(m) => Some(m), _ => None }).collect()
}
fn text_of(m: &[Meta], key: &str) -> Option<String> {
    m.iter().find_map(|m| match m {
        Meta::NameValue(v) if v.path.is_ident(key) => Some(match &v.lit {
            Lit::Str(s) => s.value(),
            l => l.to_token_stream().to_string(),
        }),
        // js_name = validUntil, which is no literal, is not parsed as a Meta: see `js_name`
        _ => None,
    })
}
/// `js_name = name`, the value being an identifier
fn js_name(attrs: &[Attribute]) -> Option<String> {
    attrs.iter().filter(|a| a.path.is_ident("wasm_bindgen")).find_map(|a| {
        let t = a.tokens.to_string();
        let t = &t[t.find("js_name")? + 7..];
        let t = t.trim_start().strip_prefix('=')?.trim_start();
        let end = t.find(|c: char| !c.is_alphanumeric() && c != '_' && c != '"').unwrap_or(t.len());
        Some(t[..end].trim_matches('"').to_string())
    })
}
fn flag(attrs: &[Attribute], name: &str) -> bool {
    let is_word = |t: &str| t.split(|c: char| !c.is_alphanumeric() && c != '_').any(|w| w == name);
    attrs.iter().any(|a| a.path.is_ident("wasm_bindgen") && is_word(&a.tokens.to_string()))
}

#[proc_macro_attribute]
pub fn wasm_bindgen(attr: TokenStream, item: TokenStream) -> TokenStream {
    let m = match syn::parse_macro_input!(item as Item) {
        Item::ForeignMod(m) => m,
        Item::Struct(mut s) => {
            for f in s.fields.iter_mut() {
                f.attrs.retain(|a| !a.path.is_ident("wasm_bindgen"));
            }
            let name = &s.ident;
            return quote!(#s impl From<#name> for ::wasm_bindgen::JsValue { fn from(v: #name) -> Self { ::wasm_bindgen::JsValue::opaque(v) } }).into();
        }
        Item::Fn(f) => {
            // the function as JavaScript sees it, under a name the explorer can link to
            let attr: proc_macro2::TokenStream = attr.into();
            let named: syn::ItemStruct = syn::parse_quote!(#[wasm_bindgen(#attr)] struct X;);
            let js = js_name(&named.attrs).unwrap_or_else(|| f.sig.ident.to_string());
            let package = std::env::var("CARGO_PKG_NAME").unwrap_or_default().replace('-', "_");
            let (symbol, shim) = (format!("js_{package}_{js}"), quote::format_ident!("__js_{}", f.sig.ident));
            let ident = &f.sig.ident;
            let n = f.sig.inputs.len();
            let args: Vec<_> = (0..n).map(|i| quote::format_ident!("a{i}")).collect();
            let wait = f.sig.asyncness.map(|_| quote!(.await));
            return quote! {
                #f
                #[export_name = #symbol]
                fn #shim(args: Vec<::wasm_bindgen::JsValue>) -> ::wasm_bindgen::Exported {
                    let mut args = args.into_iter();
                    #(let #args = ::wasm_bindgen::FromJs::from_js(args.next().unwrap_or(::wasm_bindgen::JsValue::UNDEFINED));)*
                    Box::pin(async move { ::wasm_bindgen::IntoJs::into_js(#ident(#(#args),*) #wait) })
                }
            }.into();
        }
        Item::Const(c) => return quote!(#[allow(dead_code)] #c).into(),
        other => return other.into_token_stream().into(),
    };
    let head: TokenStream = {
        let a: proc_macro2::TokenStream = attr.into();
        quote!(#[wasm_bindgen(#a)] struct X;).into()
    };
    let head: Vec<Meta> = syn::parse::<syn::ItemStruct>(head).map(|s| options(&s.attrs)).unwrap_or_default();
    let inline = match text_of(&head, "inline_js") {
        Some(t) => quote!(Some(#t)),
        None => quote!(None),
    };
    let mut out = quote!();
    for i in &m.items {
        if let ForeignItem::Type(t) = i {
            let (vis, name) = (&t.vis, &t.ident);
            out.extend(quote! {
                #[derive(Clone, Debug)]
                #vis struct #name(::wasm_bindgen::JsValue);
                impl From<::wasm_bindgen::JsValue> for #name { fn from(v: ::wasm_bindgen::JsValue) -> Self { Self(v) } }
                impl From<#name> for ::wasm_bindgen::JsValue { fn from(v: #name) -> Self { v.0 } }
                impl AsRef<::wasm_bindgen::JsValue> for #name { fn as_ref(&self) -> &::wasm_bindgen::JsValue { &self.0 } }
                impl ::wasm_bindgen::JsCast for #name {}
                impl ::wasm_bindgen::FromJs for #name { fn from_js(v: ::wasm_bindgen::JsValue) -> Self { Self(v) } }
                impl ::wasm_bindgen::env::Arg for &#name { fn arg(&self) -> ::wasm_bindgen::env::Value { ::wasm_bindgen::env::Value::Js(self.0.clone()) } }
            });
        }
        if let ForeignItem::Fn(f) = i {
            let docs: Vec<_> = f.attrs.iter().filter(|a| a.path.is_ident("doc")).collect();
            let (vis, sig) = (&f.vis, &f.sig);
            let name = js_name(&f.attrs).unwrap_or_else(|| sig.ident.to_string());
            let result = match &sig.output {
                ReturnType::Default => quote!(()),
                ReturnType::Type(_, t) => quote!(#t),
            };
            let names: Vec<_> = sig.inputs.iter().map(|a| match a {
                FnArg::Typed(t) => match &*t.pat {
                    Pat::Ident(p) => p.ident.clone(),
                    _ => panic!("a pattern as argument of an imported function"),
                },
                _ => panic!("self in an imported function"),
            }).collect();
            if flag(&f.attrs, "method") {
                // the first argument is the object
                let this = match &sig.inputs[0] {
                    FnArg::Typed(t) => match &*t.ty {
                        syn::Type::Reference(r) => r.elem.clone(),
                        t => Box::new(t.clone()),
                    },
                    _ => unreachable!(),
                };
                let (ident, output) = (&sig.ident, &sig.output);
                let rest: Vec<_> = sig.inputs.iter().skip(1).collect();
                let names = &names[1..];
                let body = if flag(&f.attrs, "getter") {
                    quote!(::wasm_bindgen::JsValue::member(&self.0, #name))
                } else {
                    quote!(::wasm_bindgen::env::call_sync(#name, None, vec![::wasm_bindgen::env::Value::Js(self.0.clone()), #(::wasm_bindgen::env::Arg::arg(&#names)),*]))
                };
                out.extend(quote!(impl #this { #(#docs)* #vis fn #ident(&self, #(#rest),*) #output { <#result as ::wasm_bindgen::FromJs>::from_js(#body) } }));
            } else if sig.asyncness.is_some() {
                out.extend(quote!(#(#docs)* #vis #sig { ::wasm_bindgen::env::call(#name, vec![#(::wasm_bindgen::env::Arg::arg(&#names)),*]).await }));
            } else {
                out.extend(quote!(#(#docs)* #vis #sig { <#result as ::wasm_bindgen::FromJs>::from_js(::wasm_bindgen::env::call_sync(#name, #inline, vec![#(::wasm_bindgen::env::Arg::arg(&#names)),*])) }));
            }
        }
    }
    out.into()
}
