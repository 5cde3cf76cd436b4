pub mod value;
pub mod error { pub use super::Error; pub type Result<T> = std::result::Result<T, Error>; }
pub mod tags { pub use super::value::Tagged; }
pub use value::Value;
use serde::{de::DeserializeOwned, Deserialize, Serialize};
#[derive(Debug)]
pub struct Error(String);
pub type Result<T> = std::result::Result<T, Error>;
impl std::fmt::Display for Error { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str(&self.0) } }
impl std::error::Error for Error {}
impl Error { pub fn message<T: std::fmt::Display>(m: T) -> Self { Error(m.to_string()) } }
impl serde::de::Error for Error { fn custom<T: std::fmt::Display>(m: T) -> Self { Error(m.to_string()) } }
impl serde::ser::Error for Error { fn custom<T: std::fmt::Display>(m: T) -> Self { Error(m.to_string()) } }
extern "Rust" { fn __cbor_never(); }
fn never() { if false { unsafe { __cbor_never() } } }
pub fn to_vec<T: Serialize + ?Sized>(_v: &T) -> Result<Vec<u8>> { never(); Err(Error(String::new())) }
pub fn from_slice<'a, T: Deserialize<'a>>(b: &'a [u8]) -> Result<T> { never(); Err(Error(format!("{b:?}"))) }
pub fn from_reader<T: DeserializeOwned, R: std::io::Read>(_r: R) -> Result<T> { Err(Error(String::new())) }
pub mod ser { pub use super::to_vec; }
pub mod de { pub use super::from_slice; }
