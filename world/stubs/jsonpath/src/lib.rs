use serde_json::Value;
pub struct Selector(String);
#[derive(Debug)]
pub struct Error;
impl std::fmt::Display for Error { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("bad") } }
impl std::error::Error for Error {}
impl Selector {
    pub fn new(s: &str) -> Result<Selector, Error> { if s.is_empty() { Err(Error) } else { Ok(Selector(s.to_string())) } }
    pub fn find<'a>(&'a self, v: &'a Value) -> impl Iterator<Item = &'a Value> + 'a { std::iter::once(v).filter(move |_| !self.0.is_empty()) }
}
