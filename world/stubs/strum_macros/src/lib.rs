use proc_macro::TokenStream;
use quote::quote;
use syn::{parse_macro_input, Data, DeriveInput};
fn variants(d: &DeriveInput) -> (Vec<syn::Ident>, Vec<String>) {
    let snake = d.attrs.iter().any(|a| a.path().is_ident("strum") && quote!(#a).to_string().contains("snake_case"));
    let Data::Enum(e) = &d.data else { panic!("enum") };
    let ids: Vec<_> = e.variants.iter().map(|v| v.ident.clone()).collect();
    let names = e.variants.iter().map(|v| {
        for a in &v.attrs { if a.path().is_ident("strum") { let mut out = None; let _ = a.parse_nested_meta(|m| { let l: syn::LitStr = m.value()?.parse()?; out = Some(l.value()); Ok(()) }); if let Some(x) = out { return x; } } }
        let s = v.ident.to_string();
        if !snake { return s; }
        let mut o = String::new();
        for (i, c) in s.chars().enumerate() { if c.is_uppercase() && i > 0 { o.push('_'); } o.extend(c.to_lowercase()); }
        o
    }).collect();
    (ids, names)
}
#[proc_macro_derive(EnumIter, attributes(strum))]
pub fn enum_iter(i: TokenStream) -> TokenStream {
    let d = parse_macro_input!(i as DeriveInput); let n = &d.ident; let (v, _) = variants(&d); let k = v.len();
    quote!(impl ::strum::IntoEnumIterator for #n { type Iterator = ::std::array::IntoIter<#n, #k>; fn iter() -> Self::Iterator { [#(#n::#v),*].into_iter() } }).into()
}
#[proc_macro_derive(EnumString, attributes(strum))]
pub fn enum_string(i: TokenStream) -> TokenStream {
    let d = parse_macro_input!(i as DeriveInput); let n = &d.ident; let (v, s) = variants(&d);
    quote!(impl ::std::str::FromStr for #n { type Err = ::strum::ParseError; fn from_str(x: &str) -> ::std::result::Result<Self, Self::Err> { match x { #(#s => Ok(#n::#v),)* _ => Err(::strum::ParseError::VariantNotFound) } } }
    impl ::std::convert::TryFrom<&str> for #n { type Error = ::strum::ParseError; fn try_from(x: &str) -> ::std::result::Result<Self, Self::Error> { ::std::str::FromStr::from_str(x) } }).into()
}
#[proc_macro_derive(IntoStaticStr, attributes(strum))]
pub fn into_static(i: TokenStream) -> TokenStream {
    let d = parse_macro_input!(i as DeriveInput); let n = &d.ident; let (v, s) = variants(&d);
    quote!(impl ::std::convert::From<#n> for &'static str { fn from(x: #n) -> &'static str { match x { #(#n::#v => #s,)* } } } impl<'a> ::std::convert::From<&'a #n> for &'static str { fn from(x: &'a #n) -> &'static str { match x { #(#n::#v => #s,)* } } }).into()
}
#[proc_macro_derive(Display, attributes(strum))]
pub fn display(i: TokenStream) -> TokenStream {
    let d = parse_macro_input!(i as DeriveInput); let n = &d.ident; let (v, s) = variants(&d);
    quote!(impl ::std::fmt::Display for #n { fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result { f.pad(match self { #(#n::#v => #s,)* }) } }).into()
}
#[proc_macro_derive(AsRefStr, attributes(strum))]
pub fn as_ref_str(i: TokenStream) -> TokenStream {
    let d = parse_macro_input!(i as DeriveInput); let n = &d.ident; let (v, s) = variants(&d);
    quote!(impl ::std::convert::AsRef<str> for #n { fn as_ref(&self) -> &str { match self { #(#n::#v => #s,)* } } }).into()
}
