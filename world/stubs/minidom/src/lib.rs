#[derive(Debug)]
pub enum Error { Bad }
impl std::fmt::Display for Error { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("bad") } }
impl std::error::Error for Error {}
#[derive(Clone, Debug)]
pub enum Node { Element(Element), Text(String) }
#[derive(Clone, Debug)]
pub struct Element { name: String, attrs: Vec<(String, String)>, nodes: Vec<Node> }
impl Element {
    pub fn name(&self) -> &str { &self.name }
    pub fn attrs(&self) -> impl Iterator<Item = (&str, &str)> { self.attrs.iter().map(|(a, b)| (a.as_str(), b.as_str())) }
    pub fn nodes(&self) -> std::slice::Iter<'_, Node> { self.nodes.iter() }
    pub fn children(&self) -> impl Iterator<Item = &Element> { self.nodes.iter().filter_map(|n| match n { Node::Element(e) => Some(e), _ => None }) }
    pub fn text(&self) -> String { self.name.clone() }
}
impl std::str::FromStr for Element { type Err = Error; fn from_str(s: &str) -> Result<Element, Error> { if s.is_empty() { Err(Error::Bad) } else { Ok(Element { name: s.to_string(), attrs: vec![], nodes: vec![] }) } } }
