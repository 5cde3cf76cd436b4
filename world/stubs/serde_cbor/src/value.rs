use serde::{de::DeserializeOwned, Deserialize, Deserializer, Serialize, Serializer};
use std::collections::BTreeMap;
#[derive(Clone, Debug, PartialEq, PartialOrd)]
pub enum Value {
    Null, Bool(bool), Integer(i128), Float(f64), Bytes(Vec<u8>), Text(String), Array(Vec<Value>), Map(BTreeMap<Value, Value>), Tag(u64, Box<Value>),
    #[doc(hidden)] __Hidden,
}
pub struct Tagged<T> { pub tag: Option<u64>, pub value: T }
impl Eq for Value {}
impl Ord for Value { fn cmp(&self, o: &Self) -> std::cmp::Ordering { format!("{self:?}").cmp(&format!("{o:?}")) } }
impl Serialize for Value { fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_str(&format!("{self:?}")) } }
impl<'de> Deserialize<'de> for Value { fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> { String::deserialize(d).map(Value::Text) } }
macro_rules! from { ($($v:ident $t:ty;)*) => { $( impl From<$t> for Value { fn from(x: $t) -> Self { Value::$v(x.into()) } } )* } }
from! { Bool bool; Integer i8; Integer i16; Integer i32; Integer i64; Integer i128; Integer u8; Integer u16; Integer u32; Integer u64; Float f32; Float f64; Bytes Vec<u8>; Text String; Array Vec<Value>; Map BTreeMap<Value, Value>; }
pub fn from_value<T: DeserializeOwned>(v: Value) -> super::Result<T> { Err(super::Error::message(format!("{v:?}"))) }
pub fn to_value<T: Serialize>(_v: T) -> super::Result<Value> { Err(super::Error::message("")) }
