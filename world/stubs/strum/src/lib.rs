pub trait IntoEnumIterator: Sized { type Iterator: Iterator<Item = Self>; fn iter() -> Self::Iterator; }
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum ParseError { VariantNotFound }
impl std::fmt::Display for ParseError { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("variant not found") } }
impl std::error::Error for ParseError {}
