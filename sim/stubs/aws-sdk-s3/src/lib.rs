//! Stand-in for the S3 client: `GetObject` through `simnet` (`https://s3.sim/<bucket>/<key>`).
use bytes::Bytes;
use std::collections::VecDeque;
use std::future::Future;
use std::pin::Pin;
use std::task::{Context, Poll};
use std::time::Duration;

#[derive(Debug, Clone)]
pub struct Client { cfg: aws_config::SdkConfig }
impl Client { pub fn new(c: &aws_config::SdkConfig) -> Self { Client { cfg: c.clone() } } pub fn get_object(&self) -> GetObjectBuilder { GetObjectBuilder { cfg: self.cfg.clone(), bucket: String::new(), key: String::new() } } }
pub struct GetObjectBuilder { cfg: aws_config::SdkConfig, bucket: String, key: String }

pub mod error {
    use super::*;
    pub trait ProvideErrorMetadata { fn code(&self) -> Option<&str>; fn message(&self) -> Option<&str>; }
    #[derive(Debug)] pub struct TimeoutError;
    #[derive(Debug)] pub struct DispatchFailure(pub String);
    #[derive(Debug)] pub struct RawStatus(pub u16);
    impl RawStatus { pub fn as_u16(&self) -> u16 { self.0 } }
    #[derive(Debug)] pub struct RawResponse(pub u16);
    impl RawResponse { pub fn status(&self) -> RawStatus { RawStatus(self.0) } }
    #[derive(Debug)] pub struct GetObjectError { pub code: Option<String>, pub message: Option<String> }
    impl ProvideErrorMetadata for GetObjectError { fn code(&self) -> Option<&str> { self.code.as_deref() } fn message(&self) -> Option<&str> { self.message.as_deref() } }
    #[derive(Debug)] pub struct ServiceError { pub err: GetObjectError, pub raw: RawResponse }
    impl ServiceError { pub fn err(&self) -> &GetObjectError { &self.err } pub fn raw(&self) -> &RawResponse { &self.raw } }
    #[derive(Debug)] pub enum SdkError { TimeoutError(TimeoutError), DispatchFailure(DispatchFailure), ServiceError(ServiceError) }
    impl std::fmt::Display for SdkError { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str(match self { Self::TimeoutError(_) => "request has timed out", Self::DispatchFailure(_) => "dispatch failure", Self::ServiceError(_) => "service error" }) } }
    impl std::error::Error for SdkError {}
    pub(crate) fn code_of(e: &SdkError) -> Option<String> { if let SdkError::ServiceError(s) = e { s.err.code.clone() } else { None } }
}
use error::*;

#[derive(Debug)] pub struct Meta { code: Option<String>, msg: Option<String> }
#[derive(Debug)] pub enum Error { NoSuchBucket(Meta), NoSuchKey(Meta), NotFound(Meta), Unhandled(Meta) }
impl std::fmt::Display for Error { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "S3Error({:?})", self.code()) } }
impl std::error::Error for Error {}
impl ProvideErrorMetadata for Error {
    fn code(&self) -> Option<&str> { match self { Self::NoSuchBucket(m) | Self::NoSuchKey(m) | Self::NotFound(m) | Self::Unhandled(m) => m.code.as_deref() } }
    fn message(&self) -> Option<&str> { match self { Self::NoSuchBucket(m) | Self::NoSuchKey(m) | Self::NotFound(m) | Self::Unhandled(m) => m.msg.as_deref() } }
}
impl From<SdkError> for Error {
    fn from(e: SdkError) -> Self {
        let code = code_of(&e);
        // Only `NoSuchKey` is a modelled error of `GetObject`; the others come out as unhandled.
        let m = Meta { msg: Some(e.to_string()), code: code.clone() };
        match code.as_deref() { Some("NoSuchKey") => Error::NoSuchKey(m), _ => Error::Unhandled(m) }
    }
}

pub struct GetObjectOutput { pub content_length: Option<i64>, pub body: primitives::ByteStream }

impl GetObjectBuilder {
    pub fn bucket(mut self, b: impl Into<String>) -> Self { self.bucket = b.into(); self }
    pub fn key(mut self, b: impl Into<String>) -> Self { self.key = b.into(); self }
    pub async fn send(self) -> Result<GetObjectOutput, SdkError> {
        let h = simnet::handler();
        let mut url: url::Url = "https://s3.sim/".parse().unwrap();
        url.path_segments_mut().unwrap().pop_if_empty().push(&self.bucket).extend(self.key.split('/'));
        let mut headers = vec![("x-bucket".to_string(), self.bucket.clone()), ("x-key".to_string(), self.key.clone())];
        if let Some(r) = self.cfg.region() { headers.push(("x-region".into(), r.to_string())) }
        if let Some(e) = self.cfg.endpoint_url() { headers.push(("x-endpoint".into(), e.to_string())) }
        if let Some(p) = self.cfg.credentials_provider() {
            use aws_credential_types::provider::ProvideCredentials;
            if let Ok(c) = p.provide_credentials().await { headers.push(("x-access-key".into(), c.access_key_id().to_string())); headers.push(("x-secret-key".into(), c.secret_access_key().to_string())) }
        }
        match h.connect(&url, Some("s3")) {
            simnet::Connect::Ok(d) => if !d.is_zero() { tokio::time::sleep(d).await },
            simnet::Connect::Hang => std::future::pending::<()>().await,
            _ => return Err(SdkError::DispatchFailure(DispatchFailure("connect".into()))),
        }
        // a custom endpoint is a server of its own
        let mut ip = None;
        if let Some(e) = self.cfg.endpoint_url() {
            let Some(host) = url::Url::parse(e).ok().and_then(|u| u.host_str().map(|h| h.trim_matches(['[', ']']).to_string())) else { return Err(SdkError::DispatchFailure(DispatchFailure("endpoint".into()))) };
            let ips = match host.parse::<std::net::IpAddr>() { Ok(ip) => vec![ip], Err(_) => h.resolve(&host) };
            match ips.first() { Some(i) => ip = Some(*i), None => return Err(SdkError::DispatchFailure(DispatchFailure("dns".into()))) }
        }
        let id = simnet::next_id();
        let req = simnet::Req { id, proto: "s3", method: "GET".into(), url, headers, body: Bytes::new(), ip, accepts_invalid_certs: false };
        let plan = h.handle(&req);
        let guard = simnet::DoneGuard { id, finished: false };
        match plan.head_delay { None => std::future::pending::<()>().await, Some(d) => if !d.is_zero() { tokio::time::sleep(d).await } }
        if plan.reset_before_head { return Err(SdkError::DispatchFailure(DispatchFailure("reset".into()))) }
        if plan.status == 599 { return Err(SdkError::TimeoutError(TimeoutError)) }
        if plan.status != 200 {
            let code = plan.headers.iter().find(|h| h.0 == "x-s3-code").map(|h| h.1.clone());
            return Err(SdkError::ServiceError(ServiceError { err: GetObjectError { code, message: Some("s3 error".into()) }, raw: RawResponse(plan.status) }));
        }
        let content_length: Option<i64> = plan.headers.iter().find(|h| h.0 == "content-length").and_then(|h| h.1.parse().ok());
        let mut end = plan.end;
        let mut chunks = plan.chunks;
        if let Some(l) = content_length {
            let total: usize = chunks.iter().map(|c| c.1.len()).sum();
            if total < l as usize { if matches!(end, simnet::End::Ok) { end = simnet::End::Reset } }
            else if total > l as usize { let mut left = l as usize; for c in &mut chunks { let n = c.1.len().min(left); c.1.truncate(n); left -= n; } end = simnet::End::Ok }
        }
        Ok(GetObjectOutput { content_length, body: primitives::ByteStream { chunks: chunks.into(), end, sleeping: None, guard, done: false } })
    }
}

pub mod primitives {
    use super::*;
    pub struct ByteStream { pub(crate) chunks: VecDeque<(Duration, Bytes)>, pub(crate) end: simnet::End, pub(crate) sleeping: Option<Pin<Box<tokio_sleep::Sleep>>>, pub(crate) guard: simnet::DoneGuard, pub(crate) done: bool }
    #[derive(Debug)] pub struct ByteStreamError;
    impl std::fmt::Display for ByteStreamError { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("streaming error") } }
    impl std::error::Error for ByteStreamError {}
    impl ByteStream {
        pub fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Result<Bytes, ByteStreamError>>> {
            if self.done { return Poll::Ready(None) }
            loop {
                if let Some(s) = &mut self.sleeping {
                    if s.as_mut().poll(cx).is_pending() { return Poll::Pending }
                    self.sleeping = None;
                    return Poll::Ready(Some(Ok(self.chunks.pop_front().unwrap().1)));
                }
                match self.chunks.front() {
                    Some((d, _)) if !d.is_zero() => { let d = *d; self.sleeping = Some(Box::pin(tokio_sleep::sleep(d))); }
                    Some(_) => { let c = self.chunks.pop_front().unwrap().1; if !c.is_empty() { return Poll::Ready(Some(Ok(c))) } }
                    None => {
                        return match self.end {
                            simnet::End::Ok => { self.done = true; self.guard.finished = true; Poll::Ready(None) }
                            simnet::End::Reset => { self.done = true; Poll::Ready(Some(Err(ByteStreamError))) }
                            simnet::End::Stall => Poll::Pending,
                        };
                    }
                }
            }
        }
    }
}
mod tokio_sleep { pub use tokio::time::{sleep, Sleep}; }
