use proc_macro::TokenStream;
use quote::quote;
use syn::{parse_macro_input, Data, DeriveInput};
fn repr(d: &DeriveInput) -> syn::Ident {
    for a in &d.attrs { if a.path().is_ident("repr") { let mut r = None; let _ = a.parse_nested_meta(|m| { r = m.path.get_ident().cloned(); Ok(()) }); if let Some(r) = r { return r; } } }
    quote::format_ident!("isize")
}
fn vs(d: &DeriveInput) -> Vec<syn::Ident> { let Data::Enum(e) = &d.data else { panic!() }; e.variants.iter().map(|v| v.ident.clone()).collect() }
#[proc_macro_derive(IntoPrimitive, attributes(num_enum))]
pub fn into_primitive(i: TokenStream) -> TokenStream {
    let d = parse_macro_input!(i as DeriveInput); let n = &d.ident; let r = repr(&d);
    quote!(impl ::std::convert::From<#n> for #r { fn from(x: #n) -> #r { x as #r } }).into()
}
#[proc_macro_derive(TryFromPrimitive, attributes(num_enum))]
pub fn try_from_primitive(i: TokenStream) -> TokenStream {
    let d = parse_macro_input!(i as DeriveInput); let n = &d.ident; let r = repr(&d); let v = vs(&d);
    quote!(impl ::std::convert::TryFrom<#r> for #n { type Error = ::std::string::String; fn try_from(x: #r) -> ::std::result::Result<Self, Self::Error> { #( if x == (#n::#v as #r) { return Ok(#n::#v); } )* Err(::std::string::String::from("no variant")) } }
    impl #n { pub fn try_from_primitive(x: #r) -> ::std::result::Result<Self, ::std::string::String> { ::std::convert::TryFrom::try_from(x) } }).into()
}
