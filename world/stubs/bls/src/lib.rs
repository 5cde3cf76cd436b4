pub trait MultiSignature {
    type Error;
    fn derive_public_key(&self, secret_key: &[u8]) -> Result<Vec<u8>, Self::Error>;
    fn sign(&self, secret_key: &[u8], message: &[u8]) -> Result<Vec<u8>, Self::Error>;
    fn verify(&self, signature: &[u8], message: &[u8], public_key: &[u8]) -> Result<(), Self::Error>;
    fn aggregate_public_keys(&self, public_keys: &[&[u8]]) -> Result<Vec<u8>, Self::Error>;
    fn aggregate_signatures(&self, signatures: &[&[u8]]) -> Result<Vec<u8>, Self::Error>;
}
pub mod bn256 {
    #[derive(Debug)]
    pub enum Error { Bad }
    impl std::fmt::Display for Error { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("bad") } }
    impl std::error::Error for Error {}
    pub struct Bn256;
    pub struct PublicKey(Vec<u8>);
    pub struct PrivateKey(Vec<u8>);
    fn op(x: &[&[u8]]) -> Result<Vec<u8>, Error> { if x.is_empty() { Err(Error::Bad) } else { Ok(x.concat()) } }
    impl PublicKey {
        pub fn from_compressed(b: impl AsRef<[u8]>) -> Result<Self, Error> { op(&[b.as_ref()]).map(PublicKey) }
        pub fn from_uncompressed(b: impl AsRef<[u8]>) -> Result<Self, Error> { op(&[b.as_ref()]).map(PublicKey) }
        pub fn to_uncompressed(&self) -> Result<Vec<u8>, Error> { op(&[&self.0]) }
        pub fn to_compressed(&self) -> Result<Vec<u8>, Error> { op(&[&self.0]) }
        pub fn from_private_key(p: &PrivateKey) -> Self { PublicKey(p.0.clone()) }
    }
    impl PrivateKey {
        pub fn new(b: impl AsRef<[u8]>) -> Result<Self, Error> { op(&[b.as_ref()]).map(PrivateKey) }
        pub fn to_bytes(&self) -> Result<Vec<u8>, Error> { op(&[&self.0]) }
    }
    impl super::MultiSignature for Bn256 {
        type Error = Error;
        fn derive_public_key(&self, s: &[u8]) -> Result<Vec<u8>, Error> { op(&[s]) }
        fn sign(&self, s: &[u8], m: &[u8]) -> Result<Vec<u8>, Error> { op(&[s, m]) }
        fn verify(&self, s: &[u8], m: &[u8], p: &[u8]) -> Result<(), Error> { op(&[s, m, p]).map(|_| ()) }
        fn aggregate_public_keys(&self, k: &[&[u8]]) -> Result<Vec<u8>, Error> { op(k) }
        fn aggregate_signatures(&self, k: &[&[u8]]) -> Result<Vec<u8>, Error> { op(k) }
    }
}
