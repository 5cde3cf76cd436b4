#[derive(Debug)]
pub enum Error { Bad }
impl std::fmt::Display for Error { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("bad") } }
impl std::error::Error for Error {}
pub struct E(Vec<u8>);
impl E { pub fn into_string(self) -> String { format!("{:?}", self.0) } pub fn into_vec(self) -> Result<Vec<u8>, Error> { if self.0.is_empty() { Err(Error::Bad) } else { Ok(self.0) } } }
pub fn encode(x: impl AsRef<[u8]>) -> E { E(x.as_ref().to_vec()) }
pub fn decode(x: impl AsRef<[u8]>) -> E { E(x.as_ref().to_vec()) }
