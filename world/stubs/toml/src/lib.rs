use serde::{de::DeserializeOwned, Serialize};
pub mod de { #[derive(Debug, Clone, PartialEq, Eq)] pub struct Error(pub String); impl std::fmt::Display for Error { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str(&self.0) } } impl std::error::Error for Error {} pub use super::from_str; }
pub mod ser { #[derive(Debug, Clone, PartialEq, Eq)] pub struct Error(pub String); impl std::fmt::Display for Error { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str(&self.0) } } impl std::error::Error for Error {} }
pub fn from_str<T: DeserializeOwned>(s: &str) -> Result<T, de::Error> { Err(de::Error(s.to_string())) }
pub fn to_string<T: Serialize + ?Sized>(_t: &T) -> Result<String, ser::Error> { Err(ser::Error(String::new())) }
