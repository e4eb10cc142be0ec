//! The simulated network. A single process-global server answers every request of the stubbed
//! HTTP, S3 and GCP clients with a `Plan`; delays are tokio timers and hence virtual time.
use bytes::Bytes;
use std::net::IpAddr;
use std::sync::{Arc, Mutex};
use std::time::Duration;
use url::Url;

#[derive(Debug, Clone)]
pub struct Req {
    pub id: u64,
    pub proto: &'static str,
    pub method: String,
    pub url: Url,
    pub headers: Vec<(String, String)>,
    pub body: Bytes,
    /// IP address the connection was made to.
    pub ip: Option<IpAddr>,
    pub accepts_invalid_certs: bool,
}
impl Req {
    pub fn header(&self, name: &str) -> Option<&str> {
        self.headers.iter().find(|(k, _)| k.eq_ignore_ascii_case(name)).map(|(_, v)| v.as_str())
    }
}

#[derive(Debug, Clone)]
pub enum End {
    /// Clean end of the body.
    Ok,
    /// The connection is reset in the middle of the body.
    Reset,
    /// The body never ends.
    Stall,
}

#[derive(Debug, Clone)]
pub enum Connect {
    Ok(Duration),
    Refused(Duration),
    ResolveFailed(Duration),
    Hang,
}

#[derive(Debug, Clone)]
pub struct Plan {
    /// Time between the request being received and the response head being sent. `None`: never.
    pub head_delay: Option<Duration>,
    /// Connection is reset before a head is sent.
    pub reset_before_head: bool,
    pub status: u16,
    pub headers: Vec<(String, String)>,
    pub chunks: Vec<(Duration, Bytes)>,
    pub end: End,
}
impl Plan {
    pub fn status(status: u16) -> Self {
        Plan { head_delay: Some(Duration::ZERO), reset_before_head: false, status, headers: vec![], chunks: vec![], end: End::Ok }
    }
    pub fn ok(body: impl Into<Bytes>) -> Self {
        let b = body.into();
        let mut p = Plan::status(200);
        p.headers.push(("content-length".into(), b.len().to_string()));
        p.chunks.push((Duration::ZERO, b));
        p
    }
}

pub trait Handler: Send + Sync {
    /// Resolves a host to the addresses it has.
    fn resolve(&self, host: &str) -> Vec<IpAddr>;
    /// `range` is the range the request asks for; S3 requests count as `s3`.
    fn connect(&self, url: &Url, range: Option<&str>) -> Connect;
    fn handle(&self, req: &Req) -> Plan;
    /// Called when a streaming request body starts being read; returns a byte limit after which the
    /// connection is reset.
    fn upload_limit(&self, _id: u64, _method: &str, _url: &Url) -> Option<usize> { None }
    /// Delay before the body of an upload is read.
    fn upload_delay(&self, _id: u64, _method: &str, _url: &Url) -> Duration { Duration::ZERO }
    /// The client went away (dropped or finished) after `req` was handled.
    fn done(&self, _req_id: u64, _finished: bool) {}
}

static HANDLER: Mutex<Option<Arc<dyn Handler>>> = Mutex::new(None);
static NEXT: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(1);

pub fn set_handler(h: Arc<dyn Handler>) {
    *HANDLER.lock().unwrap() = Some(h);
}
pub fn handler() -> Arc<dyn Handler> {
    HANDLER.lock().unwrap().clone().expect("simnet handler")
}
pub fn next_id() -> u64 {
    NEXT.fetch_add(1, std::sync::atomic::Ordering::SeqCst)
}

/// Calls `done` when dropped.
pub struct DoneGuard { pub id: u64, pub finished: bool }
impl Drop for DoneGuard {
    fn drop(&mut self) {
        let h = HANDLER.lock().unwrap().clone();
        if let Some(h) = h { h.done(self.id, self.finished) }
    }
}
pub fn is_reset_marker() {}
