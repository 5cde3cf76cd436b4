//! Stand-in for protobuf-convert 0.4: the same conversions, written the same way.
use proc_macro::TokenStream;
use quote::{format_ident, quote};
use syn::{parse_macro_input, Data, DeriveInput, Fields};

fn attr(attrs: &[syn::Attribute]) -> (Option<String>, bool) {
    let (mut source, mut skip) = (None, false);
    for a in attrs {
        if a.path().is_ident("protobuf_convert") {
            let _ = a.parse_nested_meta(|m| {
                if m.path.is_ident("skip") { skip = true; return Ok(()); }
                let v: syn::LitStr = m.value()?.parse()?;
                if m.path.is_ident("source") || m.path.is_ident("pb") { source = Some(v.value()); }
                Ok(())
            });
        }
    }
    (source, skip)
}

#[proc_macro_derive(ProtobufConvert, attributes(protobuf_convert))]
pub fn derive(input: TokenStream) -> TokenStream {
    let d = parse_macro_input!(input as DeriveInput);
    let name = &d.ident;
    let (source, _) = attr(&d.attrs);
    let source: syn::Path = syn::parse_str(&source.expect("source")).unwrap();
    let (ig, tg, wh) = d.generics.split_for_impl();
    let body = match &d.data {
        Data::Struct(s) => match &s.fields {
            Fields::Named(fs) => {
                let all: Vec<_> = fs.named.iter().collect();
                let conv: Vec<_> = all.iter().filter(|f| !attr(&f.attrs).1).map(|f| f.ident.clone().unwrap()).collect();
                let skip: Vec<_> = all.iter().filter(|f| attr(&f.attrs).1).map(|f| f.ident.clone().unwrap()).collect();
                let set: Vec<_> = conv.iter().map(|f| format_ident!("set_{}", f)).collect();
                let get: Vec<_> = conv.iter().map(|f| format_ident!("get_{}", f)).collect();
                quote! {
                    fn to_pb(&self) -> Self::ProtoStruct {
                        let mut msg = Self::ProtoStruct::default();
                        #( msg.#set(ProtobufConvert::to_pb(&self.#conv).into()); )*
                        msg
                    }
                    fn from_pb(pb: Self::ProtoStruct) -> std::result::Result<Self, anyhow::Error> {
                        Ok(Self {
                            #( #conv: ProtobufConvert::from_pb(pb.#get().to_owned().into())?, )*
                            #( #skip: Default::default(), )*
                        })
                    }
                }
            }
            _ => quote! {
                fn to_pb(&self) -> Self::ProtoStruct { Self::ProtoStruct::default() }
                fn from_pb(_pb: Self::ProtoStruct) -> std::result::Result<Self, anyhow::Error> { Ok(Self) }
            },
        },
        Data::Enum(e) => {
            let v: Vec<_> = e.variants.iter().map(|v| v.ident.clone()).collect();
            let set: Vec<_> = v.iter().map(|f| format_ident!("set_{}", f)).collect();
            let get: Vec<_> = v.iter().map(|f| format_ident!("get_{}", f)).collect();
            let has: Vec<_> = v.iter().map(|f| format_ident!("has_{}", f)).collect();
            quote! {
                fn to_pb(&self) -> Self::ProtoStruct {
                    let mut inner = Self::ProtoStruct::new();
                    match self { #( Self::#v(msg) => inner.#set(ProtobufConvert::to_pb(msg).into()), )* }
                    inner
                }
                fn from_pb(pb: Self::ProtoStruct) -> std::result::Result<Self, anyhow::Error> {
                    #( if pb.#has() { return ProtobufConvert::from_pb(pb.#get().to_owned().into()).map(Self::#v); } )*
                    Err(anyhow::format_err!("Failed to decode from protobuf"))
                }
            }
        }
        _ => panic!("union"),
    };
    quote! {
        impl #ig ProtobufConvert for #name #tg #wh {
            type ProtoStruct = #source;
            #body
        }
    }.into()
}
