//! Stand-in for `jsonwebtoken`: no signature is computed.
pub mod errors {
    #[derive(Debug)]
    pub struct Error(pub &'static str);
    impl std::fmt::Display for Error { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str(self.0) } }
    impl std::error::Error for Error {}
}
use errors::Error;
#[derive(Debug, Clone, Copy)] pub enum Algorithm { RS256 }
#[derive(Debug, Clone)] pub struct Header(pub Algorithm);
impl Header { pub fn new(a: Algorithm) -> Self { Header(a) } }
#[derive(Debug, Clone)] pub struct EncodingKey(Vec<u8>);
impl EncodingKey { pub fn from_rsa_pem(b: &[u8]) -> Result<Self, Error> { if b.is_empty() || b.windows(3).any(|w| w == b"BAD") { Err(Error("InvalidKeyFormat")) } else { Ok(Self(b.to_vec())) } } }
pub fn encode<T: serde::Serialize>(_: &Header, claims: &T, _: &EncodingKey) -> Result<String, Error> { serde_json::to_string(claims).map_err(|_| Error("json")) }
