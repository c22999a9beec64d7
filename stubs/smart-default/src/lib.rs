//! Stand-in for `smart-default`: `#[default(expr)]`, `#[default(_code = "expr")]`, `#[default]`
//! on an enum variant.
use proc_macro::TokenStream;
use quote::quote;
use syn::{parse_macro_input, Attribute, Data, DeriveInput, Fields};

fn value(attrs: &[Attribute]) -> proc_macro2::TokenStream {
    for a in attrs {
        if a.path.is_ident("default") && !a.tokens.is_empty() {
            if let Ok(syn::Meta::List(l)) = a.parse_meta() {
                if let Some(syn::NestedMeta::Meta(syn::Meta::NameValue(nv))) = l.nested.first() {
                    if nv.path.is_ident("_code") {
                        if let syn::Lit::Str(s) = &nv.lit {
                            let e: syn::Expr = s.parse().unwrap();
                            return quote!(#e);
                        }
                    }
                }
            }
            let e: syn::Expr = a.parse_args().unwrap();
            if let syn::Expr::Lit(syn::ExprLit { lit: syn::Lit::Str(s), .. }) = &e {
                return quote!(::core::convert::From::from(#s));
            }
            return quote!(#e);
        }
    }
    quote!(::core::default::Default::default())
}
fn fields(f: &Fields) -> proc_macro2::TokenStream {
    match f {
        Fields::Unit => quote!(),
        Fields::Unnamed(u) => {
            let v = u.unnamed.iter().map(|f| value(&f.attrs));
            quote!((#(#v),*))
        }
        Fields::Named(n) => {
            let v = n.named.iter().map(|f| {
                let (i, v) = (&f.ident, value(&f.attrs));
                quote!(#i: #v)
            });
            quote!({#(#v),*})
        }
    }
}
#[proc_macro_derive(SmartDefault, attributes(default))]
pub fn smart_default(input: TokenStream) -> TokenStream {
    let d = parse_macro_input!(input as DeriveInput);
    let name = &d.ident;
    let (ig, tg, wh) = d.generics.split_for_impl();
    let body = match &d.data {
        Data::Struct(s) => {
            let f = fields(&s.fields);
            quote!(#name #f)
        }
        Data::Enum(e) => {
            let v = e
                .variants
                .iter()
                .find(|v| v.attrs.iter().any(|a| a.path.is_ident("default")))
                .expect("no default variant");
            let (i, f) = (&v.ident, fields(&v.fields));
            quote!(#name::#i #f)
        }
        _ => panic!("unsupported"),
    };
    quote!(
        impl #ig ::core::default::Default for #name #tg #wh {
            fn default() -> Self { #body }
        }
    )
    .into()
}
