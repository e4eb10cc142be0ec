//! Stand-in for the getsentry fork of `reqwest` (with `ip_filter`), on top of `simnet`.
use bytes::Bytes;
use futures_core::Stream;
use futures_util::StreamExt;
pub use http::{header, HeaderMap, Method, StatusCode, Version};
use simnet::{Connect, End};
use std::fmt;
use std::net::IpAddr;
use std::pin::Pin;
use std::sync::Arc;
use std::task::{Context, Poll};
use std::time::Duration;
use tokio::time::Instant;
pub use url::Url;

pub type Result<T> = std::result::Result<T, Error>;
type BoxError = Box<dyn std::error::Error + Send + Sync>;

#[derive(Debug)]
enum Kind { Builder, Request, Body, Decode, Redirect, Status(StatusCode) }

pub struct Error { kind: Kind, url: Option<Url>, source: Option<BoxError> }
impl Error {
    fn new(kind: Kind, url: Option<Url>, source: Option<BoxError>) -> Self { Error { kind, url, source } }
    pub fn url(&self) -> Option<&Url> { self.url.as_ref() }
    pub fn is_timeout(&self) -> bool {
        let mut s = std::error::Error::source(self);
        while let Some(e) = s { if e.is::<TimedOut>() { return true } s = e.source(); }
        false
    }
    pub fn is_connect(&self) -> bool {
        let mut s = std::error::Error::source(self);
        while let Some(e) = s { if e.is::<ConnectError>() { return true } s = e.source(); }
        false
    }
    pub fn is_builder(&self) -> bool { matches!(self.kind, Kind::Builder) }
    pub fn is_status(&self) -> bool { matches!(self.kind, Kind::Status(_)) }
    pub fn is_body(&self) -> bool { matches!(self.kind, Kind::Body) }
    pub fn is_decode(&self) -> bool { matches!(self.kind, Kind::Decode) }
    pub fn is_request(&self) -> bool { matches!(self.kind, Kind::Request) }
    pub fn is_redirect(&self) -> bool { matches!(self.kind, Kind::Redirect) }
    pub fn status(&self) -> Option<StatusCode> { if let Kind::Status(s) = self.kind { Some(s) } else { None } }
    pub fn without_url(mut self) -> Self { self.url = None; self }
}
impl fmt::Debug for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.debug_struct("reqwest::Error").field("kind", &self.kind).field("url", &self.url).field("source", &self.source).finish()
    }
}
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match &self.kind {
            Kind::Builder => f.write_str("builder error")?,
            Kind::Request => f.write_str("error sending request")?,
            Kind::Body => f.write_str("request or response body error")?,
            Kind::Decode => f.write_str("error decoding response body")?,
            Kind::Redirect => f.write_str("error following redirect")?,
            Kind::Status(c) => write!(f, "HTTP status error ({c})")?,
        }
        if let Some(u) = &self.url { write!(f, " for url ({u})")?; }
        Ok(())
    }
}
impl std::error::Error for Error {
    fn source(&self) -> Option<&(dyn std::error::Error + 'static)> { self.source.as_ref().map(|e| &**e as _) }
}

#[derive(Debug)]
struct TimedOut;
impl fmt::Display for TimedOut { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("operation timed out") } }
impl std::error::Error for TimedOut {}
#[derive(Debug)]
struct ConnectError(String);
impl fmt::Display for ConnectError { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str(&self.0) } }
impl std::error::Error for ConnectError {}
#[derive(Debug)]
struct Msg(&'static str);
impl fmt::Display for Msg { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str(self.0) } }
impl std::error::Error for Msg {}

pub trait IntoUrl { fn into_url(self) -> Result<Url>; }
impl IntoUrl for Url { fn into_url(self) -> Result<Url> {
    if self.has_host() { Ok(self) } else { Err(Error::new(Kind::Builder, Some(self), Some(Box::new(Msg("URL scheme is not allowed"))))) }
} }
impl IntoUrl for &str { fn into_url(self) -> Result<Url> { Url::parse(self).map_err(|e| Error::new(Kind::Builder, None, Some(Box::new(e))))?.into_url() } }
impl IntoUrl for &String { fn into_url(self) -> Result<Url> { self.as_str().into_url() } }
impl IntoUrl for String { fn into_url(self) -> Result<Url> { self.as_str().into_url() } }

pub mod redirect {
    use super::*;
    pub struct Policy(pub(crate) Inner);
    pub(crate) enum Inner { Custom(Box<dyn Fn(Attempt) -> Action + Send + Sync>), Limit(usize), None }
    pub struct Attempt<'a> { pub(crate) status: StatusCode, pub(crate) next: &'a Url, pub(crate) previous: &'a [Url] }
    pub struct Action(pub(crate) ActionKind);
    pub(crate) enum ActionKind { Follow, Stop, Error(BoxError) }
    impl Default for Policy { fn default() -> Self { Policy::limited(10) } }
    impl Policy {
        pub fn limited(n: usize) -> Self { Policy(Inner::Limit(n)) }
        pub fn none() -> Self { Policy(Inner::None) }
        pub fn custom<T: Fn(Attempt) -> Action + Send + Sync + 'static>(f: T) -> Self { Policy(Inner::Custom(Box::new(f))) }
        pub fn redirect(&self, attempt: Attempt) -> Action {
            match &self.0 {
                Inner::Custom(f) => f(attempt),
                Inner::Limit(max) => if attempt.previous.len() > *max { attempt.error(Msg("too many redirects")) } else { attempt.follow() },
                Inner::None => attempt.stop(),
            }
        }
    }
    impl<'a> Attempt<'a> {
        pub fn status(&self) -> StatusCode { self.status }
        pub fn url(&self) -> &Url { self.next }
        pub fn previous(&self) -> &[Url] { self.previous }
        pub fn follow(self) -> Action { Action(ActionKind::Follow) }
        pub fn stop(self) -> Action { Action(ActionKind::Stop) }
        pub fn error<E: Into<BoxError>>(self, e: E) -> Action { Action(ActionKind::Error(e.into())) }
    }
}

struct Inner {
    gzip: bool,
    connect_timeout: Option<Duration>,
    timeout: Option<Duration>,
    policy: redirect::Policy,
    ip_filter: Option<Arc<dyn Fn(IpAddr) -> bool + Send + Sync>>,
    invalid_certs: bool,
}
#[derive(Clone)]
pub struct Client(Arc<Inner>);
impl fmt::Debug for Client { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("Client") } }
impl Default for Client { fn default() -> Self { Client::new() } }

pub struct ClientBuilder(Inner);
impl Default for ClientBuilder { fn default() -> Self { Self::new() } }
impl ClientBuilder {
    pub fn new() -> Self {
        ClientBuilder(Inner { gzip: true, connect_timeout: None, timeout: None, policy: redirect::Policy::default(), ip_filter: None, invalid_certs: false })
    }
    pub fn gzip(mut self, v: bool) -> Self { self.0.gzip = v; self }
    pub fn hickory_dns(self, _: bool) -> Self { self }
    pub fn connect_timeout(mut self, d: Duration) -> Self { self.0.connect_timeout = Some(d); self }
    pub fn timeout(mut self, d: Duration) -> Self { self.0.timeout = Some(d); self }
    pub fn pool_idle_timeout<D: Into<Option<Duration>>>(self, _: D) -> Self { self }
    pub fn danger_accept_invalid_certs(mut self, v: bool) -> Self { self.0.invalid_certs = v; self }
    pub fn redirect(mut self, p: redirect::Policy) -> Self { self.0.policy = p; self }
    pub fn ip_filter<F: Fn(IpAddr) -> bool + Send + Sync + 'static>(mut self, f: F) -> Self { self.0.ip_filter = Some(Arc::new(f)); self }
    pub fn build(self) -> Result<Client> { Ok(Client(Arc::new(self.0))) }
}

pub struct Body(BodyKind);
enum BodyKind { Bytes(Bytes), Stream(Pin<Box<dyn Stream<Item = std::result::Result<Bytes, BoxError>> + Send + Sync>>) }
impl fmt::Debug for Body { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("Body") } }
impl Body {
    pub fn wrap_stream<S>(stream: S) -> Body
    where S: futures_core::TryStream + Send + 'static, S::Error: Into<BoxError>, Bytes: From<S::Ok> {
        use futures_util::TryStreamExt;
        let s = stream.map_ok(Bytes::from).map_err(Into::into);
        Body(BodyKind::Stream(Box::pin(SyncStream(s))))
    }
    pub fn as_bytes(&self) -> Option<&[u8]> { if let BodyKind::Bytes(b) = &self.0 { Some(b) } else { None } }
}
struct SyncStream<S>(S);
unsafe impl<S: Send> Sync for SyncStream<S> {}
impl<S: Stream> Stream for SyncStream<S> {
    type Item = S::Item;
    fn poll_next(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<S::Item>> {
        unsafe { self.map_unchecked_mut(|s| &mut s.0) }.poll_next(cx)
    }
}
impl From<Bytes> for Body { fn from(b: Bytes) -> Self { Body(BodyKind::Bytes(b)) } }
impl From<Vec<u8>> for Body { fn from(b: Vec<u8>) -> Self { Body(BodyKind::Bytes(b.into())) } }
impl From<String> for Body { fn from(b: String) -> Self { Body(BodyKind::Bytes(b.into())) } }
impl From<&'static str> for Body { fn from(b: &'static str) -> Self { Body(BodyKind::Bytes(b.into())) } }

#[derive(Debug)]
pub struct Request { method: Method, url: Url, headers: HeaderMap, body: Option<Body>, timeout: Option<Duration> }
impl Request {
    pub fn new(method: Method, url: Url) -> Self { Request { method, url, headers: HeaderMap::new(), body: None, timeout: None } }
    pub fn method(&self) -> &Method { &self.method }
    pub fn url(&self) -> &Url { &self.url }
    pub fn url_mut(&mut self) -> &mut Url { &mut self.url }
    pub fn headers(&self) -> &HeaderMap { &self.headers }
    pub fn headers_mut(&mut self) -> &mut HeaderMap { &mut self.headers }
    pub fn body(&self) -> Option<&Body> { self.body.as_ref() }
    pub fn timeout_mut(&mut self) -> &mut Option<Duration> { &mut self.timeout }
    pub fn try_clone(&self) -> Option<Request> {
        let body = match &self.body { None => None, Some(Body(BodyKind::Bytes(b))) => Some(Body(BodyKind::Bytes(b.clone()))), _ => return None };
        Some(Request { method: self.method.clone(), url: self.url.clone(), headers: self.headers.clone(), body, timeout: self.timeout })
    }
}

#[derive(Debug)]
pub struct RequestBuilder { client: Client, request: Result<Request> }
impl RequestBuilder {
    pub fn header<K, V>(mut self, k: K, v: V) -> Self
    where header::HeaderName: TryFrom<K>, <header::HeaderName as TryFrom<K>>::Error: Into<http::Error>,
          header::HeaderValue: TryFrom<V>, <header::HeaderValue as TryFrom<V>>::Error: Into<http::Error> {
        let mut err = None;
        if let Ok(req) = &mut self.request {
            match header::HeaderName::try_from(k) {
                Ok(k) => match header::HeaderValue::try_from(v) {
                    Ok(v) => { req.headers.append(k, v); }
                    Err(e) => err = Some(Error::new(Kind::Builder, None, Some(Box::new(e.into())))),
                },
                Err(e) => err = Some(Error::new(Kind::Builder, None, Some(Box::new(e.into())))),
            }
        }
        if let Some(e) = err { self.request = Err(e) }
        self
    }
    pub fn headers(mut self, h: HeaderMap) -> Self { if let Ok(r) = &mut self.request { for (k, v) in h { if let Some(k) = k { r.headers.insert(k, v); } } } self }
    pub fn bearer_auth<T: fmt::Display>(self, t: T) -> Self { self.header(header::AUTHORIZATION, format!("Bearer {t}")) }
    pub fn body<T: Into<Body>>(mut self, b: T) -> Self { if let Ok(r) = &mut self.request { r.body = Some(b.into()) } self }
    pub fn timeout(mut self, d: Duration) -> Self { if let Ok(r) = &mut self.request { r.timeout = Some(d) } self }
    pub fn json<T: serde::Serialize + ?Sized>(self, v: &T) -> Self { let b = serde_json::to_vec(v).unwrap(); self.header("content-type", "application/json").body(b) }
    pub fn form<T: serde::Serialize + ?Sized>(self, v: &T) -> Self { let b = serde_json::to_vec(v).unwrap(); self.header("content-type", "application/x-www-form-urlencoded").body(b) }
    pub fn query<T: serde::Serialize + ?Sized>(self, _v: &T) -> Self { self }
    pub fn build(self) -> Result<Request> { self.request }
    pub fn build_split(self) -> (Client, Result<Request>) { (self.client, self.request) }
    pub async fn send(self) -> Result<Response> { let r = self.request?; self.client.execute(r).await }
}

impl Client {
    pub fn new() -> Client { ClientBuilder::new().build().unwrap() }
    pub fn builder() -> ClientBuilder { ClientBuilder::new() }
    pub fn request<U: IntoUrl>(&self, m: Method, u: U) -> RequestBuilder {
        RequestBuilder { client: self.clone(), request: u.into_url().map(|u| Request::new(m, u)) }
    }
    pub fn get<U: IntoUrl>(&self, u: U) -> RequestBuilder { self.request(Method::GET, u) }
    pub fn post<U: IntoUrl>(&self, u: U) -> RequestBuilder { self.request(Method::POST, u) }
    pub fn put<U: IntoUrl>(&self, u: U) -> RequestBuilder { self.request(Method::PUT, u) }
    pub fn head<U: IntoUrl>(&self, u: U) -> RequestBuilder { self.request(Method::HEAD, u) }

    pub async fn execute(&self, request: Request) -> Result<Response> {
        let deadline = request.timeout.or(self.0.timeout).map(|t| Instant::now() + t);
        let url = request.url.clone();
        let fut = self.run(request, deadline);
        match deadline {
            None => fut.await,
            Some(d) => match tokio::time::timeout_at(d, fut).await {
                Ok(r) => r,
                Err(_) => Err(Error::new(Kind::Request, Some(url), Some(Box::new(TimedOut)))),
            },
        }
    }

    async fn connect(&self, url: &Url, range: Option<&str>) -> Result<IpAddr> {
        let h = simnet::handler();
        let fail = |m: &str| Error::new(Kind::Request, Some(url.clone()), Some(Box::new(ConnectError(m.to_string()))));
        let fut = async {
            let delay = match h.connect(url, range) {
                Connect::Ok(d) => { d }
                Connect::Refused(d) => { tokio::time::sleep(d).await; return Err(fail("tcp connect error: Connection refused (os error 111)")) }
                Connect::ResolveFailed(d) => { tokio::time::sleep(d).await; return Err(fail("dns error: no record found")) }
                Connect::Hang => { futures_util::future::pending::<()>().await; unreachable!() }
            };
            let host = url.host_str().unwrap_or("").trim_start_matches('[').trim_end_matches(']').to_string();
            let mut ips = match host.parse::<IpAddr>() { Ok(ip) => vec![ip], Err(_) => h.resolve(&host) };
            if let Some(f) = &self.0.ip_filter { ips.retain(|ip| f(*ip)); if ips.is_empty() { return Err(fail("destination is restricted")) } }
            if ips.is_empty() { return Err(fail("dns error: no record found")) }
            if !delay.is_zero() { tokio::time::sleep(delay).await; }
            Ok(ips[0])
        };
        match self.0.connect_timeout {
            Some(t) => match tokio::time::timeout(t, fut).await { Ok(r) => r, Err(_) => Err(Error::new(Kind::Request, Some(url.clone()), Some(Box::new(ConnectTimeout(TimedOut))))) },
            None => fut.await,
        }
    }

    async fn run(&self, mut request: Request, deadline: Option<Instant>) -> Result<Response> {
        let h = simnet::handler();
        let mut previous: Vec<Url> = vec![];
        let mut body_bytes = Bytes::new();
        let mut body = request.body.take();
        if self.0.gzip && !request.headers.contains_key(header::ACCEPT_ENCODING) && !request.headers.contains_key(header::RANGE) {
            request.headers.insert(header::ACCEPT_ENCODING, header::HeaderValue::from_static("gzip"));
        }
        if !request.headers.contains_key(header::ACCEPT) { request.headers.insert(header::ACCEPT, header::HeaderValue::from_static("*/*")); }
        loop {
            let url = request.url.clone();
            let ip = self.connect(&url, request.headers.get(header::RANGE).and_then(|r| r.to_str().ok())).await?;
            let id = simnet::next_id();
            let mut guard = None;
            match body.take() {
                None => {}
                Some(Body(BodyKind::Bytes(b))) => body_bytes = b,
                Some(Body(BodyKind::Stream(mut s))) => {
                    guard = Some(simnet::DoneGuard { id, finished: false });
                    let limit = h.upload_limit(id, request.method.as_str(), &url);
                    let d = h.upload_delay(id, request.method.as_str(), &url);
                    if !d.is_zero() { tokio::time::sleep(d).await; }
                    let mut v: Vec<u8> = vec![];
                    while let Some(c) = s.next().await {
                        let c = c.map_err(|e| Error::new(Kind::Request, Some(url.clone()), Some(e)))?;
                        v.extend_from_slice(&c);
                        if limit.is_some_and(|l| v.len() >= l) {
                            return Err(Error::new(Kind::Request, Some(url.clone()), Some(Box::new(Msg("connection reset by peer")))));
                        }
                    }
                    body_bytes = v.into();
                }
            }
            let req = simnet::Req {
                id, proto: "http", method: request.method.to_string(), url: url.clone(),
                headers: request.headers.iter().map(|(k, v)| (k.to_string(), String::from_utf8_lossy(v.as_bytes()).into_owned())).collect(),
                body: body_bytes.clone(), ip: Some(ip), accepts_invalid_certs: self.0.invalid_certs,
            };
            let plan = h.handle(&req);
            let mut guard = guard.unwrap_or(simnet::DoneGuard { id, finished: false });
            match plan.head_delay { None => { futures_util::future::pending::<()>().await; } Some(d) => if !d.is_zero() { tokio::time::sleep(d).await } }
            if plan.reset_before_head {
                return Err(Error::new(Kind::Request, Some(url), Some(Box::new(Msg("connection closed before message completed")))));
            }
            let status = StatusCode::from_u16(plan.status).unwrap();
            let mut headers = HeaderMap::new();
            for (k, v) in &plan.headers {
                headers.append(header::HeaderName::from_bytes(k.as_bytes()).unwrap(), header::HeaderValue::from_bytes(v.as_bytes()).unwrap());
            }
            if matches!(plan.status, 301 | 302 | 303 | 307 | 308) {
                let next = headers.get(header::LOCATION).and_then(|v| v.to_str().ok()).and_then(|l| url.join(l).ok());
                if let Some(next) = next {
                    previous.push(url.clone());
                    let action = self.0.policy.redirect(redirect::Attempt { status, next: &next, previous: &previous });
                    match action.0 {
                        redirect::ActionKind::Follow => {
                            if matches!(plan.status, 301..=303) && request.method != Method::HEAD && request.method != Method::GET { request.method = Method::GET; body_bytes = Bytes::new(); }
                            let cross = next.host_str() != url.host_str() || next.port_or_known_default() != url.port_or_known_default();
                            if cross { request.headers.remove(header::AUTHORIZATION); request.headers.remove(header::COOKIE); request.headers.remove("cookie2"); request.headers.remove(header::PROXY_AUTHORIZATION); request.headers.remove(header::WWW_AUTHENTICATE); }
                            if let Ok(v) = header::HeaderValue::from_str(url.as_str()) { request.headers.insert(header::REFERER, v); }
                            request.url = next;
                            guard.finished = true;
                            continue;
                        }
                        redirect::ActionKind::Stop => {}
                        redirect::ActionKind::Error(e) => return Err(Error::new(Kind::Redirect, Some(url), Some(e))),
                    }
                }
            }
            let is_gzip = self.0.gzip && headers.get(header::CONTENT_ENCODING).is_some_and(|v| v.as_bytes() == b"gzip");
            let mut declared = headers.get(header::CONTENT_LENGTH).and_then(|v| v.to_str().ok()).and_then(|v| v.parse::<u64>().ok());
            let mut chunks = plan.chunks;
            let mut end = plan.end;
            let mut decode_error = false;
            if let Some(l) = declared {
                // A body shorter than announced is a connection error; a longer one is cut off.
                let total: u64 = chunks.iter().map(|c| c.1.len() as u64).sum();
                if total < l { if matches!(end, End::Ok) { end = End::Reset } }
                else if total > l {
                    let mut left = l as usize;
                    for c in &mut chunks { let n = c.1.len().min(left); c.1.truncate(n); left -= n; }
                    end = End::Ok;
                }
                if l == 0 { chunks.clear(); end = End::Ok }
            }
            if is_gzip {
                headers.remove(header::CONTENT_ENCODING); headers.remove(header::CONTENT_LENGTH);
                declared = None;
                use std::io::Write;
                let mut dec = flate2::write::MultiGzDecoder::new(vec![]);
                let mut out = vec![];
                for (d, c) in chunks {
                    let ok = dec.write_all(&c).and_then(|_| dec.flush()).is_ok();
                    let o = std::mem::take(dec.get_mut());
                    out.push((d, Bytes::from(o)));
                    if !ok { decode_error = true; break }
                }
                if !decode_error && matches!(end, End::Ok) {
                    match dec.finish() { Ok(o) => if !o.is_empty() { out.push((Duration::ZERO, o.into())) }, Err(_) => decode_error = true }
                }
                chunks = out;
            }
            chunks.retain(|c| !c.1.is_empty() || !c.0.is_zero());
            return Ok(Response { status, headers, url, declared, chunks: chunks.into(), end, decode_error, deadline: deadline.map(|d| Box::pin(tokio::time::sleep_until(d))), sleeping: None, guard: Some(guard), done: false });
        }
    }
}
#[derive(Debug)]
struct ConnectTimeout(TimedOut);
impl fmt::Display for ConnectTimeout { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("operation timed out") } }
impl std::error::Error for ConnectTimeout { fn source(&self) -> Option<&(dyn std::error::Error + 'static)> { Some(&self.0) } }

pub struct Response {
    status: StatusCode, headers: HeaderMap, url: Url, declared: Option<u64>,
    chunks: std::collections::VecDeque<(Duration, Bytes)>, end: End, decode_error: bool,
    deadline: Option<Pin<Box<tokio::time::Sleep>>>, sleeping: Option<Pin<Box<tokio::time::Sleep>>>, guard: Option<simnet::DoneGuard>, done: bool,
}
impl fmt::Debug for Response { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "Response({})", self.status) } }
impl Response {
    pub fn status(&self) -> StatusCode { self.status }
    pub fn headers(&self) -> &HeaderMap { &self.headers }
    pub fn url(&self) -> &Url { &self.url }
    pub fn version(&self) -> Version { Version::HTTP_11 }
    pub fn content_length(&self) -> Option<u64> { self.declared }
    pub fn bytes_stream(self) -> impl Stream<Item = Result<Bytes>> { BytesStream(self) }
    pub async fn bytes(mut self) -> Result<Bytes> {
        let mut v = vec![];
        while let Some(c) = std::future::poll_fn(|cx| self.poll_chunk(cx)).await { v.extend_from_slice(&c?) }
        Ok(v.into())
    }
    pub async fn text(self) -> Result<String> { Ok(String::from_utf8_lossy(&self.bytes().await?).into_owned()) }
    pub async fn json<T: serde::de::DeserializeOwned>(self) -> Result<T> {
        let b = self.bytes().await?;
        serde_json::from_slice(&b).map_err(|e| Error::new(Kind::Decode, None, Some(Box::new(e))))
    }
    pub async fn chunk(&mut self) -> Result<Option<Bytes>> { std::future::poll_fn(|cx| self.poll_chunk(cx)).await.transpose() }
    pub fn error_for_status(self) -> Result<Self> {
        if self.status.is_client_error() || self.status.is_server_error() { Err(Error::new(Kind::Status(self.status), Some(self.url.clone()), None)) } else { Ok(self) }
    }
    fn finish(&mut self, ok: bool) { self.done = true; if let Some(g) = &mut self.guard { g.finished = ok } self.guard = None; }
    fn poll_chunk(&mut self, cx: &mut Context<'_>) -> Poll<Option<Result<Bytes>>> {
        use std::future::Future;
        if self.done { return Poll::Ready(None) }
        if let Some(d) = &mut self.deadline {
            if d.as_mut().poll(cx).is_ready() { self.finish(false); return Poll::Ready(Some(Err(Error::new(Kind::Body, Some(self.url.clone()), Some(Box::new(TimedOut)))))) }
        }
        loop {
            if let Some(s) = &mut self.sleeping {
                if s.as_mut().poll(cx).is_pending() { return Poll::Pending }
                self.sleeping = None;
                let c = self.chunks.pop_front().unwrap().1;
                if !c.is_empty() { return Poll::Ready(Some(Ok(c))) }
            }
            match self.chunks.front() {
                Some((d, _)) if !d.is_zero() => { self.sleeping = Some(Box::pin(tokio::time::sleep(*d))); }
                Some(_) => { let c = self.chunks.pop_front().unwrap().1; if !c.is_empty() { return Poll::Ready(Some(Ok(c))) } }
                None => {
                    if self.decode_error { self.finish(false); return Poll::Ready(Some(Err(Error::new(Kind::Decode, Some(self.url.clone()), Some(Box::new(Msg("invalid gzip header"))))))) }
                    return match self.end {
                        End::Ok => { self.finish(true); Poll::Ready(None) }
                        End::Reset => { self.finish(false); Poll::Ready(Some(Err(Error::new(Kind::Body, Some(self.url.clone()), Some(Box::new(Msg("connection reset by peer"))))))) }
                        End::Stall => Poll::Pending,
                    };
                }
            }
        }
    }
}
struct BytesStream(Response);
impl Stream for BytesStream {
    type Item = Result<Bytes>;
    fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Self::Item>> { self.0.poll_chunk(cx) }
}
