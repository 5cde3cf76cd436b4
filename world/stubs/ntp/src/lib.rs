pub struct Packet { pub receive_timestamp: u64 }
pub fn request(a: &str) -> Result<Packet, std::io::Error> { if a.is_empty() { Err(std::io::ErrorKind::Other.into()) } else { Ok(Packet { receive_timestamp: 1 }) } }
pub mod unix_time { pub struct Instant(i64, i32); impl From<u64> for Instant { fn from(x: u64) -> Self { Instant(x as i64, 0) } } impl Instant { pub fn secs(&self) -> i64 { self.0 } pub fn subsec_nanos(&self) -> i32 { self.1 } } }
