//! Stand-in for `#[derive(NetworkBehaviour)]`: events of the first field go to the behaviour.
use proc_macro::TokenStream;
use quote::quote;

#[proc_macro_derive(NetworkBehaviour, attributes(behaviour))]
pub fn derive(item: TokenStream) -> TokenStream {
    let s = syn::parse_macro_input!(item as syn::ItemStruct);
    let f = s.fields.iter().next().expect("a field");
    let (name, field, ty) = (&s.ident, f.ident.as_ref().expect("a named field"), &f.ty);
    quote! {
        impl ::libp2p::swarm::NetworkBehaviour for #name {
            fn connected(&mut self, peer: ::libp2p::PeerId) { ::libp2p::swarm::Inner::connected(&mut self.#field, peer) }
            fn run<'a>(&'a mut self) -> ::std::pin::Pin<Box<dyn ::std::future::Future<Output = ()> + 'a>> {
                Box::pin(async move {
                    while let Some(e) = <#ty as ::libp2p::swarm::Inner>::next(&mut self.#field).await {
                        ::libp2p::swarm::NetworkBehaviourEventProcess::inject_event(self, e);
                    }
                })
            }
        }
    }
    .into()
}
