//! The HTTP client of the net crate (its JSON-RPC and TCP parts need actor crates that are not installed).
pub type Uri = reqwest::Url;
pub mod client {
    #[path = "/repo/net/src/client/http/mod.rs"]
    pub mod http;
}
