//! Stand-in for `async-trait`, for implementations whose trait spells out the boxed future with one lifetime.
use proc_macro::TokenStream;
use quote::quote;
use syn::visit_mut::{self, VisitMut};
use syn::*;

struct Elided;
impl VisitMut for Elided {
    fn visit_lifetime_mut(&mut self, l: &mut Lifetime) {
        if l.ident == "_" {
            *l = parse_quote!('async_trait);
        }
    }
    fn visit_type_reference_mut(&mut self, t: &mut TypeReference) {
        t.lifetime.get_or_insert(parse_quote!('async_trait));
        visit_mut::visit_type_reference_mut(self, t);
    }
    fn visit_receiver_mut(&mut self, r: &mut Receiver) {
        if let Some((_, l)) = &mut r.reference {
            *l = Some(parse_quote!('async_trait));
        }
        visit_mut::visit_type_mut(self, &mut r.ty);
    }
}

#[proc_macro_attribute]
pub fn async_trait(_: TokenStream, item: TokenStream) -> TokenStream {
    let mut item = parse_macro_input!(item as ItemImpl);
    for i in &mut item.items {
        let ImplItem::Fn(f) = i else { continue };
        if f.sig.asyncness.take().is_none() {
            continue;
        }
        for a in &mut f.sig.inputs {
            Elided.visit_fn_arg_mut(a);
        }
        f.sig.generics.params.insert(0, parse_quote!('async_trait));
        let out = match &f.sig.output {
            ReturnType::Default => quote!(()),
            ReturnType::Type(_, t) => quote!(#t),
        };
        f.sig.output = parse_quote!(-> ::core::pin::Pin<Box<dyn ::core::future::Future<Output = #out> + ::core::marker::Send + 'async_trait>>);
        let body = &f.block;
        f.block = parse_quote!({ Box::pin(async move #body) });
    }
    quote!(#item).into()
}
