//! Stand-in for rust-protobuf's code generator: reads the .proto file named in the call and emits structs
//! with the fields and accessors that rust-protobuf 2 would give them.
use proc_macro::TokenStream;
use std::collections::BTreeSet;

#[derive(Clone)]
struct Field { name: String, ty: String, repeated: bool, oneof: Option<String> }
struct Msg { full: String, fields: Vec<Field>, oneofs: Vec<String> }
struct En { full: String, vals: Vec<String> }

fn toks(src: &str) -> Vec<String> {
    let mut out = vec![];
    for line in src.lines() {
        let line = line.split("//").next().unwrap();
        let mut cur = String::new();
        for c in line.chars() {
            if c.is_alphanumeric() || c == '_' || c == '.' { cur.push(c); continue; }
            if !cur.is_empty() { out.push(std::mem::take(&mut cur)); }
            if !c.is_whitespace() { out.push(c.to_string()); }
        }
        if !cur.is_empty() { out.push(cur); }
    }
    out
}

struct P { t: Vec<String>, i: usize, msgs: Vec<Msg>, ens: Vec<En> }
impl P {
    fn next(&mut self) -> String { self.i += 1; self.t[self.i - 1].clone() }
    fn peek(&self) -> &str { &self.t[self.i] }
    fn field(&mut self, first: String, oneof: Option<String>) -> Field {
        let (repeated, ty) = if first == "repeated" { (true, self.next()) } else { (false, first) };
        let name = self.next();
        while self.next() != ";" {}
        Field { name, ty, repeated, oneof }
    }
    fn enumeration(&mut self, prefix: &str) {
        let full = format!("{prefix}{}", self.next());
        self.next();
        let mut vals = vec![];
        while self.peek() != "}" { vals.push(self.next()); while self.next() != ";" {} }
        self.next();
        self.ens.push(En { full, vals });
    }
    fn message(&mut self, prefix: &str) {
        let full = format!("{prefix}{}", self.next());
        self.next();
        let mut m = Msg { full: full.clone(), fields: vec![], oneofs: vec![] };
        loop {
            let w = self.next();
            match w.as_str() {
                "}" => break,
                "message" => self.message(&format!("{full}_")),
                "enum" => self.enumeration(&format!("{full}_")),
                "oneof" => {
                    let n = self.next();
                    self.next();
                    while self.peek() != "}" { let f = self.next(); let f = self.field(f, Some(n.clone())); m.fields.push(f); }
                    self.next();
                    m.oneofs.push(n);
                }
                _ => { let f = self.field(w, None); m.fields.push(f); }
            }
        }
        self.msgs.push(m);
    }
}

#[proc_macro]
pub fn proto(input: TokenStream) -> TokenStream {
    let lit = input.to_string();
    let path = lit.trim().trim_matches('"').to_string();
    let src = std::fs::read_to_string(&path).expect("proto file");
    let mut p = P { t: toks(&src), i: 0, msgs: vec![], ens: vec![] };
    while p.i < p.t.len() {
        match p.next().as_str() {
            "message" => p.message(""),
            "enum" => p.enumeration(""),
            _ => while p.next() != ";" {},
        }
    }
    let names: BTreeSet<String> = p.msgs.iter().map(|m| m.full.clone()).collect();
    let enums: BTreeSet<String> = p.ens.iter().map(|m| m.full.clone()).collect();
    let mut s = String::from("pub mod witnet { #![allow(non_snake_case, non_camel_case_types, dead_code, clippy::all)] ");
    for e in &p.ens {
        s += &format!("#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, Default)] pub enum {} {{ #[default] {} }}", e.full, e.vals.join(","));
        s += &format!("impl {} {{ pub fn value(&self) -> i32 {{ *self as i32 }} }}", e.full);
    }
    for m in &p.msgs {
        // scalar kinds: (rust type, copy?) or message
        let resolve = |t: &str| -> (String, u8) {
            match t {
                "uint32" | "fixed32" => ("u32".into(), 0),
                "uint64" | "fixed64" => ("u64".into(), 0),
                "int32" | "sint32" | "sfixed32" => ("i32".into(), 0),
                "int64" | "sint64" | "sfixed64" => ("i64".into(), 0),
                "bool" => ("bool".into(), 0),
                "float" => ("f32".into(), 0),
                "double" => ("f64".into(), 0),
                "string" => ("::std::string::String".into(), 1),
                "bytes" => ("::std::vec::Vec<u8>".into(), 1),
                t => {
                    let mut pre = m.full.clone();
                    loop {
                        let c = if pre.is_empty() { t.to_string() } else { format!("{pre}_{t}") };
                        if enums.contains(&c) { return (c, 0); }
                        if names.contains(&c) { return (c, 2); }
                        if pre.is_empty() { panic!("unknown type {t}"); }
                        match pre.rfind('_') { Some(i) => pre.truncate(i), None => pre.clear() }
                    }
                }
            }
        };
        let mut fs = String::new();
        let mut acc = String::new();
        for o in &m.oneofs {
            let mut vs = String::new();
            for f in m.fields.iter().filter(|f| f.oneof.as_deref() == Some(o)) {
                let (t, _) = resolve(&f.ty);
                vs += &format!("{}({}),", f.name, t);
            }
            s += &format!("#[derive(Clone, PartialEq, Debug)] pub enum {}_oneof_{o} {{ {vs} }}", m.full);
            fs += &format!("pub {o}: ::std::option::Option<{}_oneof_{o}>,", m.full);
        }
        for f in &m.fields {
            let (t, k) = resolve(&f.ty);
            let n = &f.name;
            if let Some(o) = &f.oneof {
                let e = format!("{}_oneof_{o}", m.full);
                acc += &format!("pub fn has_{n}(&self) -> bool {{ matches!(self.{o}, ::std::option::Option::Some({e}::{n}(..))) }}");
                acc += &format!("pub fn set_{n}(&mut self, v: {t}) {{ self.{o} = ::std::option::Option::Some({e}::{n}(v)); }}");
                acc += &format!("pub fn take_{n}(&mut self) -> {t} {{ match self.{o}.take() {{ ::std::option::Option::Some({e}::{n}(v)) => v, _ => ::std::default::Default::default() }} }}");
                acc += &format!("pub fn get_{n}(&self) -> &{t} {{ match self.{o} {{ ::std::option::Option::Some({e}::{n}(ref v)) => v, _ => ::protobuf::default_of::<{t}>() }} }}");
                continue;
            }
            let ft = match (f.repeated, k) {
                (true, 2) | (true, 1) => format!("::protobuf::RepeatedField<{t}>"),
                (true, _) => format!("::std::vec::Vec<{t}>"),
                (false, 2) => format!("::protobuf::SingularPtrField<{t}>"),
                _ => t.clone(),
            };
            fs += &format!("pub {n}: {ft},");
            if f.repeated {
                acc += &format!("pub fn set_{n}(&mut self, v: {ft}) {{ self.{n} = v; }}");
                acc += &format!("pub fn take_{n}(&mut self) -> {ft} {{ ::std::mem::take(&mut self.{n}) }}");
                acc += &format!("pub fn get_{n}(&self) -> &[{t}] {{ &self.{n} }}");
                acc += &format!("pub fn mut_{n}(&mut self) -> &mut {ft} {{ &mut self.{n} }}");
            } else if k == 2 {
                acc += &format!("pub fn has_{n}(&self) -> bool {{ self.{n}.is_some() }}");
                acc += &format!("pub fn set_{n}(&mut self, v: {t}) {{ self.{n} = ::protobuf::SingularPtrField::some(v); }}");
                acc += &format!("pub fn take_{n}(&mut self) -> {t} {{ self.{n}.take().unwrap_or_else({t}::new) }}");
                acc += &format!("pub fn get_{n}(&self) -> &{t} {{ self.{n}.as_ref().unwrap_or_else(|| ::protobuf::default_of::<{t}>()) }}");
                acc += &format!("pub fn mut_{n}(&mut self) -> &mut {t} {{ self.{n}.mut_or_default() }}");
            } else {
                acc += &format!("pub fn set_{n}(&mut self, v: {t}) {{ self.{n} = v; }}");
                if k == 1 {
                    let r = if t.contains("String") { "str".to_string() } else { "[u8]".to_string() };
                    acc += &format!("pub fn take_{n}(&mut self) -> {t} {{ ::std::mem::take(&mut self.{n}) }}");
                    acc += &format!("pub fn get_{n}(&self) -> &{r} {{ &self.{n} }}");
                    acc += &format!("pub fn mut_{n}(&mut self) -> &mut {t} {{ &mut self.{n} }}");
                } else {
                    acc += &format!("pub fn get_{n}(&self) -> {t} {{ self.{n} }}");
                }
            }
        }
        s += &format!("#[derive(Clone, PartialEq, Debug, Default)] pub struct {0} {{ {fs} pub unknown_fields: ::protobuf::UnknownFields, pub cached_size: ::protobuf::CachedSize }}", m.full);
        s += &format!("impl {0} {{ pub fn new() -> {0} {{ ::std::default::Default::default() }} {acc} }}", m.full);
        s += &format!("impl ::protobuf::Message for {0} {{ fn new() -> Self {{ ::std::default::Default::default() }} fn write_to_bytes(&self) -> ::protobuf::ProtobufResult<::std::vec::Vec<u8>> {{ ::protobuf::encode(self) }} fn merge_from_bytes(&mut self, bytes: &[u8]) -> ::protobuf::ProtobufResult<()> {{ ::protobuf::decode(self, bytes) }} fn compute_size(&self) -> u32 {{ ::protobuf::size(self) }} }}", m.full);
    }
    s += "}";
    s.parse().expect("generated code")
}
