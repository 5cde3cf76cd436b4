pub mod value {
    use std::collections::{BTreeMap, LinkedList};
    use super::types::Tag;
    #[derive(Clone, Debug, PartialEq, PartialOrd, Eq, Ord)]
    pub enum Int { Neg(u64), Pos(u64) }
    #[derive(Clone, Debug, PartialEq)]
    pub enum Text { Text(String), Chunks(LinkedList<String>) }
    #[derive(Clone, Debug, PartialEq, PartialOrd, Eq, Ord)]
    pub enum Bytes { Bytes(Vec<u8>), Chunks(LinkedList<Vec<u8>>) }
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub enum Simple { Unassigned(u8), Reserved(u8) }
    #[derive(Clone, Debug, PartialEq)]
    pub enum Key { Bool(bool), Int(Int), Bytes(Bytes), Text(Text) }
    impl Eq for Key {}
    impl PartialOrd for Key { fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> { Some(self.cmp(o)) } }
    impl Ord for Key { fn cmp(&self, o: &Self) -> std::cmp::Ordering { format!("{self:?}").cmp(&format!("{o:?}")) } }
    impl Key { pub fn u64(n: u64) -> Key { Key::Int(Int::Pos(n)) } }
    #[derive(Clone, Debug, PartialEq)]
    pub enum Value { Array(Vec<Value>), Bool(bool), Break, Bytes(Bytes), F32(f32), F64(f64), I8(i8), I16(i16), I32(i32), I64(i64), Int(Int), Map(BTreeMap<Key, Value>), Null, Simple(Simple), Tagged(Tag, Box<Value>), Text(Text), U8(u8), U16(u16), U32(u32), U64(u64), Undefined }
}
pub mod types {
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub enum Tag { DateTime, Timestamp, Bignum, NegativeBignum, Decimal, Bigfloat, Unassigned(u64), ToBase64Url, ToBase64, ToBase16, Cbor, Uri, Base64Url, Base64, Regex, Mime, CborSelf }
    impl Tag { pub fn of(x: u64) -> Tag { if x == 0 { Tag::DateTime } else { Tag::Unassigned(x) } } pub fn to(&self) -> u64 { match self { Tag::Unassigned(x) => *x, _ => 0 } } }
}
#[derive(Clone, Debug, Default)]
pub struct Config { pub max_nesting: usize }
pub mod decoder {
    use super::{value::Value, Config};
    #[derive(Debug)]
    pub enum DecodeError { Bad, UnexpectedEOF }
    pub type DecodeResult<A> = Result<A, DecodeError>;
    impl std::fmt::Display for DecodeError { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("bad") } }
    impl std::error::Error for DecodeError {}
    pub struct GenericDecoder<R> { r: R, c: Config }
    impl<R: std::io::Read> GenericDecoder<R> {
        pub fn new(c: Config, r: R) -> Self { GenericDecoder { r, c } }
        pub fn value(&mut self) -> DecodeResult<Value> { let mut b = [0u8; 1]; let _ = (&self.c, self.r.read(&mut b)); Err(DecodeError::Bad) }
        pub fn borrow_mut(&mut self) -> &mut R { &mut self.r }
        pub fn into_inner(self) -> R { self.r }
    }
}
pub mod encoder {
    use super::value::Value;
    #[derive(Debug)]
    pub enum EncodeError { Bad }
    pub type EncodeResult = Result<(), EncodeError>;
    impl std::fmt::Display for EncodeError { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("bad") } }
    impl std::error::Error for EncodeError {}
    pub struct Encoder<W> { w: W }
    impl<W: std::io::Write> Encoder<W> { pub fn into_writer(self) -> W { self.w } }
    pub struct GenericEncoder<W> { w: Encoder<W> }
    impl<W: std::io::Write> GenericEncoder<W> {
        pub fn new(w: W) -> Self { GenericEncoder { w: Encoder { w } } }
        pub fn value(&mut self, v: &Value) -> EncodeResult { write!(self.w.w, "{v:?}").map_err(|_| EncodeError::Bad) }
        pub fn into_inner(self) -> Encoder<W> { self.w }
    }
}
pub use decoder::GenericDecoder;
pub use encoder::GenericEncoder;
