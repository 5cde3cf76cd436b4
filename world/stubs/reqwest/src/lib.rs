use std::time::Duration;
pub use http::{header, Method, StatusCode, Version};
pub use url::Url;
#[derive(Debug)]
pub struct Error;
pub type Result<T> = std::result::Result<T, Error>;
impl std::fmt::Display for Error { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("bad") } }
impl std::error::Error for Error {}
#[derive(Debug)]
pub struct Body(Vec<u8>);
impl From<Vec<u8>> for Body { fn from(v: Vec<u8>) -> Body { Body(v) } }
impl From<String> for Body { fn from(v: String) -> Body { Body(v.into_bytes()) } }
impl From<&'static str> for Body { fn from(v: &'static str) -> Body { Body(v.as_bytes().to_vec()) } }
#[derive(Debug)]
pub struct Request { pub url: Url, pub headers: header::HeaderMap, pub body: Option<Body>, pub timeout: Option<Duration>, pub method: Method }
#[derive(Debug)]
pub struct Response { status: StatusCode, headers: header::HeaderMap, text: String }
impl Response {
    pub fn status(&self) -> StatusCode { self.status }
    pub fn headers(&self) -> &header::HeaderMap { &self.headers }
    pub async fn text(self) -> Result<String> { Ok(self.text) }
    pub async fn bytes(self) -> Result<Vec<u8>> { Ok(self.text.into_bytes()) }
    pub fn content_length(&self) -> Option<u64> { Some(self.text.len() as u64) }
    pub fn url(&self) -> &Url { unimplemented!() }
}
#[derive(Debug)]
pub struct RequestBuilder(Request);
impl RequestBuilder {
    pub fn timeout(mut self, t: Duration) -> Self { self.0.timeout = Some(t); self }
    pub fn body<T: Into<Body>>(mut self, b: T) -> Self { self.0.body = Some(b.into()); self }
    pub fn headers(mut self, h: header::HeaderMap) -> Self { self.0.headers.extend(h); self }
    pub fn header<K, V>(mut self, k: K, v: V) -> Self where header::HeaderName: TryFrom<K>, header::HeaderValue: TryFrom<V> { if let (Ok(k), Ok(v)) = (header::HeaderName::try_from(k), header::HeaderValue::try_from(v)) { self.0.headers.insert(k, v); } self }
    pub fn build(self) -> Result<Request> { Ok(self.0) }
    pub async fn send(self) -> Result<Response> { Err(Error) }
}
pub mod redirect { #[derive(Debug, Clone)] pub struct Policy(usize); impl Policy { pub fn limited(n: usize) -> Policy { Policy(n) } pub fn none() -> Policy { Policy(0) } } }
#[derive(Debug, Clone)]
pub struct Proxy(Url);
impl Proxy { pub fn http(u: Url) -> Result<Proxy> { Ok(Proxy(u)) } pub fn all(u: Url) -> Result<Proxy> { Ok(Proxy(u)) } pub fn https(u: Url) -> Result<Proxy> { Ok(Proxy(u)) } }
#[derive(Debug, Clone, Default)]
pub struct Client(Option<Proxy>, Option<redirect::Policy>);
#[derive(Debug, Default)]
pub struct ClientBuilder(Client);
impl ClientBuilder {
    pub fn proxy(mut self, p: Proxy) -> Self { self.0 .0 = Some(p); self }
    pub fn redirect(mut self, p: redirect::Policy) -> Self { self.0 .1 = Some(p); self }
    pub fn build(self) -> Result<Client> { Ok(self.0) }
}
impl Client {
    pub fn new() -> Client { Client::default() }
    pub fn builder() -> ClientBuilder { ClientBuilder::default() }
    fn rb(&self, url: Url, method: Method) -> RequestBuilder { RequestBuilder(Request { url, headers: Default::default(), body: None, timeout: None, method }) }
    pub fn get(&self, u: Url) -> RequestBuilder { self.rb(u, Method::GET) }
    pub fn post(&self, u: Url) -> RequestBuilder { self.rb(u, Method::POST) }
    pub fn head(&self, u: Url) -> RequestBuilder { self.rb(u, Method::HEAD) }
    pub async fn execute(&self, r: Request) -> Result<Response> { Ok(Response { status: StatusCode::OK, headers: r.headers, text: String::new() }) }
}
