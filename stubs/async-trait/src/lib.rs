//! Stand-in for `async-trait`: an async method becomes one that returns a boxed future.
use proc_macro::TokenStream;
use quote::{format_ident, quote, ToTokens};
use syn::{parse_quote, Block, FnArg, Item, ImplItem, Lifetime, ReturnType, Signature, TraitItem, Type};

fn lifetimes(t: &mut Type, n: &mut usize, names: &mut Vec<Lifetime>) {
    match t {
        Type::Reference(r) => {
            if r.lifetime.is_none() {
                let l = Lifetime::new(&format!("'life{n}"), proc_macro2::Span::call_site());
                *n += 1;
                r.lifetime = Some(l.clone());
                names.push(l);
            }
            lifetimes(&mut r.elem, n, names)
        }
        Type::Tuple(t) => t.elems.iter_mut().for_each(|t| lifetimes(t, n, names)),
        Type::Slice(s) => lifetimes(&mut s.elem, n, names),
        _ => {}
    }
}

fn boxed(sig: &mut Signature, block: Option<&mut Block>, send: bool) {
    if sig.asyncness.take().is_none() {
        return;
    }
    let (mut n, mut names) = (0, vec![]);
    for a in sig.inputs.iter_mut() {
        match a {
            FnArg::Receiver(r) => {
                if let Some((_, l)) = &mut r.reference {
                    if l.is_none() {
                        let name = Lifetime::new(&format!("'life{n}"), proc_macro2::Span::call_site());
                        n += 1;
                        *l = Some(name.clone());
                        names.push(name);
                    }
                }
            }
            FnArg::Typed(t) => lifetimes(&mut t.ty, &mut n, &mut names),
        }
    }
    let out: Type = match &sig.output {
        ReturnType::Default => parse_quote!(()),
        ReturnType::Type(_, t) => (**t).clone(),
    };
    for l in &names {
        sig.generics.params.insert(0, parse_quote!(#l));
    }
    sig.generics.params.insert(0, parse_quote!('async_trait));
    let w = sig.generics.make_where_clause();
    for l in &names {
        w.predicates.push(parse_quote!(#l: 'async_trait));
    }
    w.predicates.push(parse_quote!(Self: 'async_trait));
    let send = send.then(|| quote!(+ ::core::marker::Send));
    sig.output = parse_quote!(-> ::core::pin::Pin<Box<dyn ::core::future::Future<Output = #out> #send + 'async_trait>>);
    if let Some(b) = block {
        // arguments belong to the future from the start
        let mut moves = quote!();
        for (i, a) in sig.inputs.iter_mut().enumerate() {
            if let FnArg::Typed(t) = a {
                let (p, name) = (t.pat.clone(), format_ident!("__arg{i}"));
                *t.pat = parse_quote!(#name);
                moves.extend(quote!(let #p = #name;));
            }
        }
        let body = std::mem::replace(b, parse_quote!({}));
        *b = parse_quote!({ Box::pin(async move { if let ::core::option::Option::Some(__r) = ::core::option::Option::None::<#out> { #[allow(unreachable_code)] return __r; } #moves let __r: #out = #body; #[allow(unreachable_code)] __r }) });
    }
}

#[proc_macro_attribute]
pub fn async_trait(args: TokenStream, item: TokenStream) -> TokenStream {
    let send = !args.to_string().contains("Send");
    match syn::parse_macro_input!(item as Item) {
        Item::Trait(mut t) => {
            for i in &mut t.items {
                if let TraitItem::Method(m) = i {
                    boxed(&mut m.sig, m.default.as_mut(), send);
                }
            }
            t.into_token_stream().into()
        }
        Item::Impl(mut t) => {
            for i in &mut t.items {
                if let ImplItem::Method(m) = i {
                    boxed(&mut m.sig, Some(&mut m.block), send);
                }
            }
            t.into_token_stream().into()
        }
        other => other.into_token_stream().into(),
    }
}
