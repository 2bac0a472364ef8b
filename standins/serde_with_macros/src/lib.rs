//! Stand-in for `serde_with_macros`: turns `#[serde_as(as = "T")]` into `#[serde(with = "As::<T>")]`.
use proc_macro::TokenStream;
use quote::{quote, ToTokens};
use syn::visit_mut::VisitMut;
use syn::{parse_macro_input, parse_quote, Field, Item, LitStr, Type};

struct Infer;
impl VisitMut for Infer {
    fn visit_type_mut(&mut self, t: &mut Type) {
        if matches!(t, Type::Infer(_)) {
            *t = parse_quote!(::serde_with::Same);
        } else {
            syn::visit_mut::visit_type_mut(self, t);
        }
    }
}

fn ty(s: &LitStr) -> syn::Result<String> {
    let mut t: Type = s.parse()?;
    Infer.visit_type_mut(&mut t);
    Ok(format!("::serde_with::As::<{}>", t.to_token_stream()))
}

fn field(f: &mut Field) -> syn::Result<()> {
    let mut add = vec![];
    let mut err = None;
    f.attrs.retain(|a| {
        if !a.path().is_ident("serde_as") {
            return true;
        }
        if let Err(e) = a.parse_nested_meta(|m| {
            let s: LitStr = m.value()?.parse()?;
            let t = ty(&s)?;
            if m.path.is_ident("as") {
                add.push(parse_quote!(#[serde(with = #t)]));
            } else if m.path.is_ident("serialize_as") {
                let t = format!("{t}::serialize");
                add.push(parse_quote!(#[serde(serialize_with = #t)]));
            } else if m.path.is_ident("deserialize_as") {
                let t = format!("{t}::deserialize");
                add.push(parse_quote!(#[serde(deserialize_with = #t)]));
            } else {
                return Err(m.error("unsupported"));
            }
            Ok(())
        }) {
            err = Some(e);
        }
        false
    });
    f.attrs.extend(add);
    err.map_or(Ok(()), Err)
}

#[proc_macro_attribute]
pub fn serde_as(_args: TokenStream, input: TokenStream) -> TokenStream {
    let mut item = parse_macro_input!(input as Item);
    let r = match &mut item {
        Item::Struct(s) => s.fields.iter_mut().try_for_each(field),
        Item::Enum(e) => e.variants.iter_mut().flat_map(|v| v.fields.iter_mut()).try_for_each(field),
        _ => Ok(()),
    };
    if let Err(e) = r {
        return e.to_compile_error().into();
    }
    quote!(#item).into()
}
