//! Stand-in for the derives of `ssz_rs`: containers (structs with named fields) and `#[ssz(transparent)]` enums.
use proc_macro::TokenStream;
use proc_macro2::TokenStream as TS;
use quote::quote;
use syn::{parse_macro_input, Data, DeriveInput, Fields};

enum Shape {
    Struct(Vec<(syn::Ident, syn::Type)>),
    Enum(Vec<(syn::Ident, syn::Type)>),
}

fn shape(i: &DeriveInput) -> Shape {
    match &i.data {
        Data::Struct(s) => match &s.fields {
            Fields::Named(n) => {
                Shape::Struct(n.named.iter().map(|f| (f.ident.clone().unwrap(), f.ty.clone())).collect())
            }
            _ => panic!("only named fields"),
        },
        Data::Enum(e) => Shape::Enum(
            e.variants
                .iter()
                .map(|v| match &v.fields {
                    Fields::Unnamed(u) if u.unnamed.len() == 1 => (v.ident.clone(), u.unnamed[0].ty.clone()),
                    _ => panic!("only one-field variants"),
                })
                .collect(),
        ),
        _ => panic!("unions are not supported"),
    }
}

fn serializable(i: &DeriveInput) -> TS {
    let name = &i.ident;
    let (ig, tg, wc) = i.generics.split_for_impl();
    match shape(i) {
        Shape::Struct(fs) => {
            let (n, t): (Vec<_>, Vec<_>) = fs.into_iter().unzip();
            quote! {
                impl #ig ::ssz_rs::Serialize for #name #tg #wc {
                    fn serialize(&self, buffer: &mut Vec<u8>) -> ::core::result::Result<usize, ::ssz_rs::SerializeError> {
                        let mut w = ::ssz_rs::__internal::Writer::default();
                        #( w.field(&self.#n)?; )*
                        Ok(w.finish(buffer))
                    }
                }
                impl #ig ::ssz_rs::Deserialize for #name #tg #wc {
                    fn deserialize(encoding: &[u8]) -> ::core::result::Result<Self, ::ssz_rs::DeserializeError> {
                        let mut r = ::ssz_rs::__internal::Reader::new(encoding);
                        #( r.register::<#t>()?; )*
                        r.seal()?;
                        Ok(Self { #( #n: r.take::<#t>()?, )* })
                    }
                }
                impl #ig ::ssz_rs::Serializable for #name #tg #wc {
                    fn is_variable_size() -> bool { false #( || <#t as ::ssz_rs::Serializable>::is_variable_size() )* }
                    fn size_hint() -> usize {
                        if Self::is_variable_size() { 0 } else { 0 #( + <#t as ::ssz_rs::Serializable>::size_hint() )* }
                    }
                }
            }
        }
        Shape::Enum(vs) => {
            let (v, t): (Vec<_>, Vec<_>) = vs.into_iter().unzip();
            let rev: Vec<_> = v.iter().zip(t.iter()).map(|(v, t)| {
                quote! { if let Ok(x) = <#t as ::ssz_rs::Deserialize>::deserialize(encoding) { return Ok(Self::#v(x)); } }
            }).collect();
            quote! {
                impl #ig ::ssz_rs::Serialize for #name #tg #wc {
                    fn serialize(&self, buffer: &mut Vec<u8>) -> ::core::result::Result<usize, ::ssz_rs::SerializeError> {
                        match self { #( Self::#v(x) => ::ssz_rs::Serialize::serialize(x, buffer), )* }
                    }
                }
                impl #ig ::ssz_rs::Deserialize for #name #tg #wc {
                    fn deserialize(encoding: &[u8]) -> ::core::result::Result<Self, ::ssz_rs::DeserializeError> {
                        #( #rev )*
                        Err(::ssz_rs::DeserializeError::InvalidInput)
                    }
                }
                impl #ig ::ssz_rs::Serializable for #name #tg #wc {
                    fn is_variable_size() -> bool { true #( && <#t as ::ssz_rs::Serializable>::is_variable_size() )* }
                    fn size_hint() -> usize { 0 }
                }
            }
        }
    }
}

fn hash_tree_root(i: &DeriveInput) -> TS {
    let name = &i.ident;
    let (ig, tg, wc) = i.generics.split_for_impl();
    let body = match shape(i) {
        Shape::Struct(fs) => {
            let n = fs.iter().map(|f| &f.0);
            quote! { ::ssz_rs::__internal::container_root(&[ #( ::ssz_rs::HashTreeRoot::hash_tree_root(&self.#n)?, )* ]) }
        }
        Shape::Enum(vs) => {
            let v = vs.iter().map(|f| &f.0);
            quote! { match self { #( Self::#v(x) => ::ssz_rs::HashTreeRoot::hash_tree_root(x), )* } }
        }
    };
    quote! {
        impl #ig ::ssz_rs::HashTreeRoot for #name #tg #wc {
            fn hash_tree_root(&self) -> ::core::result::Result<::ssz_rs::Node, ::ssz_rs::MerkleizationError> { #body }
        }
    }
}

fn indexable(i: &DeriveInput) -> TS {
    let name = &i.ident;
    let (ig, tg, wc) = i.generics.split_for_impl();
    let (count, body) = match shape(i) {
        Shape::Struct(fs) => {
            let len = fs.len();
            let arms = fs.iter().enumerate().map(|(k, (n, t))| {
                let s = n.to_string();
                quote! { #s => <#t as ::ssz_rs::GeneralizedIndexable>::compute_generalized_index(parent * #len.next_power_of_two() + #k, rest), }
            });
            (
                quote! { #len },
                quote! {
                    let Some((head, rest)) = path.split_first() else { return Ok(parent); };
                    match head {
                        ::ssz_rs::PathElement::Field(f) => match f.as_str() {
                            #( #arms )*
                            _ => Err(::ssz_rs::MerkleizationError::InvalidPathElement(head.clone())),
                        },
                        _ => Err(::ssz_rs::MerkleizationError::InvalidPathElement(head.clone())),
                    }
                },
            )
        }
        Shape::Enum(vs) => {
            // the index of a path is a property of the type: with several variants there is none, as in ssz_rs
            let t = vs.iter().map(|f| &f.1);
            (
                quote! { { let mut n = 0usize; #( n = n.max(<#t as ::ssz_rs::GeneralizedIndexable>::chunk_count()); )* n } },
                quote! {
                    if path.is_empty() { return Ok(parent); }
                    Err(::ssz_rs::MerkleizationError::NoInnerElement)
                },
            )
        }
    };
    quote! {
        impl #ig ::ssz_rs::GeneralizedIndexable for #name #tg #wc {
            fn chunk_count() -> usize { #count }
            fn compute_generalized_index(parent: ::ssz_rs::GeneralizedIndex, path: ::ssz_rs::Path) -> ::core::result::Result<::ssz_rs::GeneralizedIndex, ::ssz_rs::MerkleizationError> {
                #body
            }
        }
    }
}

fn prove(i: &DeriveInput) -> TS {
    let name = &i.ident;
    let (ig, tg, wc) = i.generics.split_for_impl();
    let body = match shape(i) {
        Shape::Struct(fs) => {
            let n = fs.iter().map(|f| &f.0);
            quote! { ::ssz_rs::__internal::container_tree(vec![ #( ::ssz_rs::Prove::compute_tree(&self.#n)?, )* ]) }
        }
        Shape::Enum(vs) => {
            let v = vs.iter().map(|f| &f.0);
            quote! { match self { #( Self::#v(x) => ::ssz_rs::Prove::compute_tree(x), )* } }
        }
    };
    quote! {
        impl #ig ::ssz_rs::Prove for #name #tg #wc {
            fn compute_tree(&self) -> ::core::result::Result<::ssz_rs::Tree, ::ssz_rs::MerkleizationError> { #body }
        }
    }
}

#[proc_macro_derive(Serializable, attributes(ssz))]
pub fn d_serializable(i: TokenStream) -> TokenStream {
    serializable(&parse_macro_input!(i as DeriveInput)).into()
}
#[proc_macro_derive(HashTreeRoot, attributes(ssz))]
pub fn d_root(i: TokenStream) -> TokenStream {
    hash_tree_root(&parse_macro_input!(i as DeriveInput)).into()
}
#[proc_macro_derive(GeneralizedIndexable, attributes(ssz))]
pub fn d_index(i: TokenStream) -> TokenStream {
    indexable(&parse_macro_input!(i as DeriveInput)).into()
}
#[proc_macro_derive(Prove, attributes(ssz))]
pub fn d_prove(i: TokenStream) -> TokenStream {
    prove(&parse_macro_input!(i as DeriveInput)).into()
}
#[proc_macro_derive(SimpleSerialize, attributes(ssz))]
pub fn d_simple(i: TokenStream) -> TokenStream {
    let i = parse_macro_input!(i as DeriveInput);
    let (a, b, c, d) = (serializable(&i), hash_tree_root(&i), indexable(&i), prove(&i));
    let name = &i.ident;
    let (ig, tg, wc) = i.generics.split_for_impl();
    quote! { #a #b #c #d impl #ig ::ssz_rs::SimpleSerialize for #name #tg #wc {} }.into()
}
