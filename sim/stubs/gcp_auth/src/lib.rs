//! Stand-in for `gcp_auth`: the token endpoint is the simulated network (`https://gcp-auth.sim/token`).
use std::path::Path;
use std::sync::Arc;
use std::future::Future;
use std::pin::Pin;
use std::time::Duration;
#[derive(thiserror::Error, Debug)]
pub enum Error {
    #[error("no available authentication method found: {0} {1} {2}")]
    NoAuthMethod(Box<Error>, Box<Error>, Box<Error>),
    #[error("{0}")]
    Str(&'static str),
    #[error("{0}: {1}")]
    Io(&'static str, #[source] std::io::Error),
}
#[derive(Debug)]
pub struct Token(String);
impl Token { pub fn as_str(&self) -> &str { &self.0 } pub fn has_expired(&self) -> bool { false } }
pub trait TokenProvider: Send + Sync {
    fn token<'a, 'b, 'c>(&'a self, scopes: &'b [&'c str]) -> Pin<Box<dyn Future<Output = Result<Arc<Token>, Error>> + Send + 'a>> where 'b: 'a, 'c: 'a;
}
async fn fetch() -> Result<Arc<Token>, Error> {
    let h = simnet::handler();
    let req = simnet::Req { id: simnet::next_id(), proto: "gcp", method: "GET".into(), url: "https://gcp-auth.sim/token".parse().unwrap(), headers: vec![], body: Default::default(), ip: None, accepts_invalid_certs: false };
    let plan = h.handle(&req);
    match plan.head_delay { None => std::future::pending::<()>().await, Some(d) => if d > Duration::ZERO { tokio::time::sleep(d).await } }
    if plan.status != 200 || plan.reset_before_head { return Err(Error::Str("token request failed")) }
    let b: Vec<u8> = plan.chunks.iter().flat_map(|c| c.1.to_vec()).collect();
    Ok(Arc::new(Token(String::from_utf8_lossy(&b).into_owned())))
}
pub struct CustomServiceAccount;
impl CustomServiceAccount { pub fn from_file<T: AsRef<Path>>(p: T) -> Result<Self, Error> { std::fs::read(p).map_err(|e| Error::Io("failed to read", e))?; Ok(Self) } }
impl TokenProvider for CustomServiceAccount {
    fn token<'a, 'b, 'c>(&'a self, _: &'b [&'c str]) -> Pin<Box<dyn Future<Output = Result<Arc<Token>, Error>> + Send + 'a>> where 'b: 'a, 'c: 'a { Box::pin(fetch()) }
}
pub async fn provider() -> Result<Arc<dyn TokenProvider>, Error> {
    match fetch().await {
        Ok(_) => Ok(Arc::new(CustomServiceAccount)),
        Err(e) => Err(Error::NoAuthMethod(Box::new(Error::Str("gcloud")), Box::new(e), Box::new(Error::Str("user")))),
    }
}
