//! Stand-in for `jsonwebtoken`: tokens are readable JSON, a PEM key only has to look like one.
use serde::Serialize;
pub mod errors {
    #[derive(Debug, Clone)]
    pub struct Error(pub String);
    impl std::fmt::Display for Error {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.write_str(&self.0)
        }
    }
    impl std::error::Error for Error {}
    pub type Result<T> = std::result::Result<T, Error>;
}
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Algorithm {
    HS256,
    RS256,
    RS384,
    RS512,
    ES256,
}
#[derive(Debug, Clone)]
pub struct Header {
    pub alg: Algorithm,
    pub kid: Option<String>,
}
impl Header {
    pub fn new(alg: Algorithm) -> Self {
        Header { alg, kid: None }
    }
}
#[derive(Clone)]
pub struct EncodingKey(String);
impl EncodingKey {
    pub fn from_rsa_pem(key: &[u8]) -> errors::Result<Self> {
        let k = String::from_utf8_lossy(key).into_owned();
        if k.starts_with("-----BEGIN ") && k.contains('\n') && !k.contains("\\n") {
            Ok(EncodingKey(k))
        } else {
            Err(errors::Error("InvalidKeyFormat".into()))
        }
    }
}
pub fn encode<T: Serialize>(h: &Header, claims: &T, key: &EncodingKey) -> errors::Result<String> {
    let c = serde_json::to_string(claims).map_err(|e| errors::Error(e.to_string()))?;
    Ok(format!("{:?}.{c}.{}", h.alg, key.0.replace('\n', "|")))
}
