//! Stand-in for `gcp_auth`: hands out a fixed token.
use std::future::Future;
use std::path::{Path, PathBuf};
use std::pin::Pin;
use std::sync::Arc;
#[derive(Debug)]
pub enum Error {
    NoAuthMethod(Box<Error>, Box<Error>, Box<Error>),
    Io(&'static str, std::io::Error),
    Str(&'static str),
}
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{self:?}")
    }
}
impl std::error::Error for Error {}
#[derive(Debug, Clone)]
pub struct Token(String);
impl Token {
    pub fn new(s: &str) -> Token {
        Token(s.into())
    }
    pub fn as_str(&self) -> &str {
        &self.0
    }
}
type Fut<'a, T> = Pin<Box<dyn Future<Output = Result<T, Error>> + Send + 'a>>;
pub trait TokenProvider: Send + Sync {
    fn token<'a>(&'a self, scopes: &'a [&'a str]) -> Fut<'a, Arc<Token>>;
    fn project_id<'a>(&'a self) -> Fut<'a, Arc<str>> {
        Box::pin(async { Ok(Arc::from("project")) })
    }
}
#[derive(Debug, Clone)]
pub struct CustomServiceAccount(pub PathBuf);
impl CustomServiceAccount {
    pub fn from_file<T: AsRef<Path>>(p: T) -> Result<Self, Error> {
        Ok(CustomServiceAccount(p.as_ref().to_owned()))
    }
}
impl TokenProvider for CustomServiceAccount {
    fn token<'a>(&'a self, _: &'a [&'a str]) -> Fut<'a, Arc<Token>> {
        Box::pin(async { Ok(Arc::new(Token::new("gcp-token"))) })
    }
}
pub async fn provider() -> Result<Arc<dyn TokenProvider>, Error> {
    Ok(Arc::new(CustomServiceAccount(PathBuf::new())))
}
