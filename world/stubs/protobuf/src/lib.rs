use std::fmt;
use std::ops::{Deref, DerefMut};

#[derive(Debug)]
pub enum ProtobufError { Wire }
pub type ProtobufResult<T> = Result<T, ProtobufError>;
impl fmt::Display for ProtobufError { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("wire") } }
impl std::error::Error for ProtobufError {}

pub trait Message: fmt::Debug + 'static {
    fn new() -> Self where Self: Sized;
    fn write_to_bytes(&self) -> ProtobufResult<Vec<u8>>;
    fn merge_from_bytes(&mut self, bytes: &[u8]) -> ProtobufResult<()>;
    fn compute_size(&self) -> u32;
}
pub fn encode<M: fmt::Debug>(m: &M) -> ProtobufResult<Vec<u8>> { Ok(format!("{m:?}").into_bytes()) }
pub fn decode<M>(_m: &mut M, bytes: &[u8]) -> ProtobufResult<()> { if bytes.is_empty() { Ok(()) } else { Err(ProtobufError::Wire) } }
pub fn size<M: fmt::Debug>(m: &M) -> u32 { format!("{m:?}").len() as u32 }
pub fn default_of<T: Default>() -> &'static T { Box::leak(Box::default()) }

#[derive(Clone, PartialEq, Eq, Debug, Default)]
pub struct UnknownFields;
#[derive(Clone, PartialEq, Eq, Debug, Default)]
pub struct CachedSize;

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct SingularPtrField<T>(Option<Box<T>>);
impl<T> Default for SingularPtrField<T> { fn default() -> Self { Self(None) } }
impl<T> SingularPtrField<T> {
    pub fn some(v: T) -> Self { Self(Some(Box::new(v))) }
    pub fn none() -> Self { Self(None) }
    pub fn is_some(&self) -> bool { self.0.is_some() }
    pub fn is_none(&self) -> bool { self.0.is_none() }
    pub fn into_option(self) -> Option<T> { self.0.map(|b| *b) }
    pub fn as_ref(&self) -> Option<&T> { self.0.as_deref() }
    pub fn as_mut(&mut self) -> Option<&mut T> { self.0.as_deref_mut() }
    pub fn take(&mut self) -> Option<T> { self.0.take().map(|b| *b) }
    pub fn unwrap(self) -> T { *self.0.unwrap() }
    pub fn map<U, F: FnOnce(T) -> U>(self, f: F) -> SingularPtrField<U> { SingularPtrField(self.0.map(|b| Box::new(f(*b)))) }
    pub fn unwrap_or_default(self) -> T where T: Default { self.0.map(|b| *b).unwrap_or_default() }
    pub fn unwrap_or(self, d: T) -> T { self.0.map(|b| *b).unwrap_or(d) }
    pub fn mut_or_default(&mut self) -> &mut T where T: Default { self.0.get_or_insert_with(Default::default) }
    pub fn clear(&mut self) { self.0 = None }
}
impl<T> From<Option<T>> for SingularPtrField<T> { fn from(o: Option<T>) -> Self { Self(o.map(Box::new)) } }

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct RepeatedField<T>(Vec<T>);
impl<T> Default for RepeatedField<T> { fn default() -> Self { Self(Vec::new()) } }
impl<T> Deref for RepeatedField<T> { type Target = Vec<T>; fn deref(&self) -> &Vec<T> { &self.0 } }
impl<T> DerefMut for RepeatedField<T> { fn deref_mut(&mut self) -> &mut Vec<T> { &mut self.0 } }
impl<T> RepeatedField<T> {
    pub fn from_vec(v: Vec<T>) -> Self { Self(v) }
    pub fn into_vec(self) -> Vec<T> { self.0 }
}
impl<T> From<Vec<T>> for RepeatedField<T> { fn from(v: Vec<T>) -> Self { Self(v) } }
impl<T> From<RepeatedField<T>> for Vec<T> { fn from(v: RepeatedField<T>) -> Self { v.0 } }
impl<T> IntoIterator for RepeatedField<T> { type Item = T; type IntoIter = std::vec::IntoIter<T>; fn into_iter(self) -> Self::IntoIter { self.0.into_iter() } }
impl<T> std::iter::FromIterator<T> for RepeatedField<T> { fn from_iter<I: IntoIterator<Item = T>>(i: I) -> Self { Self(i.into_iter().collect()) } }
