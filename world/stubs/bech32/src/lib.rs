use std::fmt;
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Bech32 {}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Bech32m {}
pub trait Checksum {}
impl Checksum for Bech32 {}
impl Checksum for Bech32m {}
#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub struct Hrp(String);
impl Hrp {
    pub fn parse(s: &str) -> Result<Hrp, DecodeError> { if s.is_empty() { Err(DecodeError::Bad) } else { Ok(Hrp(s.to_string())) } }
    pub fn parse_unchecked(s: &str) -> Hrp { Hrp(s.to_string()) }
    pub fn as_str(&self) -> &str { &self.0 }
    pub fn to_lowercase(&self) -> String { self.0.to_lowercase() }
}
impl fmt::Display for Hrp { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str(&self.0) } }
#[derive(Clone, PartialEq, Eq, Debug)]
pub enum DecodeError { Bad }
#[derive(Clone, PartialEq, Eq, Debug)]
pub enum EncodeError { Bad }
impl fmt::Display for DecodeError { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("bad") } }
impl std::error::Error for DecodeError {}
impl fmt::Display for EncodeError { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("bad") } }
impl std::error::Error for EncodeError {}
pub fn encode<C: Checksum>(hrp: Hrp, data: &[u8]) -> Result<String, EncodeError> { if data.len() > 1000 { Err(EncodeError::Bad) } else { Ok(format!("{hrp}{data:?}")) } }
pub fn decode(s: &str) -> Result<(Hrp, Vec<u8>), DecodeError> { if s.is_empty() { Err(DecodeError::Bad) } else { Ok((Hrp(s.to_string()), s.as_bytes().to_vec())) } }
