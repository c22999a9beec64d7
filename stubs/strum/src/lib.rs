//! Stand-in for `strum`'s `EnumString`: unit variants by name.
use proc_macro::TokenStream;
use quote::quote;
use syn::{parse_macro_input, Data, DeriveInput};

#[proc_macro_derive(EnumString, attributes(strum))]
pub fn enum_string(input: TokenStream) -> TokenStream {
    let d = parse_macro_input!(input as DeriveInput);
    let name = &d.ident;
    let e = match &d.data {
        Data::Enum(e) => e,
        _ => panic!("unsupported"),
    };
    let arms = e.variants.iter().map(|v| {
        let i = &v.ident;
        let s = i.to_string();
        quote!(#s => ::core::result::Result::Ok(#name::#i))
    });
    quote!(
        impl ::core::str::FromStr for #name {
            type Err = ::std::fmt::Error;
            fn from_str(s: &str) -> ::core::result::Result<Self, Self::Err> {
                match s { #(#arms,)* _ => ::core::result::Result::Err(::std::fmt::Error) }
            }
        }
    )
    .into()
}
