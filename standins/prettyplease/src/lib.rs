//! Stand-in for `prettyplease`: the same program, not as pretty.
pub fn unparse(f: &syn::File) -> String {
    quote::quote!(#f).to_string()
}
