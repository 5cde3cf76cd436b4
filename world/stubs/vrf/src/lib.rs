pub trait VRF<PublicKey, SecretKey> {
    type Error;
    fn prove(&mut self, x: SecretKey, alpha: &[u8]) -> Result<Vec<u8>, Self::Error>;
    fn verify(&mut self, y: PublicKey, pi: &[u8], alpha: &[u8]) -> Result<Vec<u8>, Self::Error>;
}
pub mod openssl {
    #[derive(Debug)]
    pub enum Error { Bad }
    impl std::fmt::Display for Error { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("bad") } }
    impl std::error::Error for Error {}
    #[allow(non_camel_case_types)]
    #[derive(Debug, Clone, Copy, PartialEq, Eq)]
    pub enum CipherSuite { P256_SHA256_TAI, K163_SHA256_TAI, SECP256K1_SHA256_TAI }
    #[derive(Debug)]
    pub struct ECVRF(CipherSuite);
    fn op(x: &[&[u8]]) -> Result<Vec<u8>, Error> { if x.len() > 9 { Err(Error::Bad) } else { Ok(x.concat()) } }
    impl ECVRF {
        pub fn from_suite(s: CipherSuite) -> Result<Self, Error> { if s == CipherSuite::P256_SHA256_TAI { Err(Error::Bad) } else { Ok(ECVRF(s)) } }
        pub fn derive_public_key(&mut self, s: &[u8]) -> Result<Vec<u8>, Error> { op(&[s]) }
        pub fn proof_to_hash(&mut self, p: &[u8]) -> Result<Vec<u8>, Error> { op(&[p]) }
    }
    impl super::VRF<&[u8], &[u8]> for ECVRF {
        type Error = Error;
        fn prove(&mut self, x: &[u8], a: &[u8]) -> Result<Vec<u8>, Error> { op(&[x, a]) }
        fn verify(&mut self, y: &[u8], p: &[u8], a: &[u8]) -> Result<Vec<u8>, Error> { op(&[y, p, a]) }
    }
}
