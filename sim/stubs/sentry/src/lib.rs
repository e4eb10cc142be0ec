//! No-op stand-in for the Sentry SDK. Captured errors are counted.
use std::sync::Arc;
use std::future::Future;
use std::sync::atomic::{AtomicU64, Ordering};
pub static CAPTURED: AtomicU64 = AtomicU64::new(0);

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Level { Debug, Info, Warning, Error, Fatal }

#[derive(Debug, Default, Clone)]
pub struct Hub;
impl Hub {
    pub fn current() -> Arc<Hub> { Arc::new(Hub) }
    pub fn main() -> Arc<Hub> { Arc::new(Hub) }
    pub fn new_from_top<H: AsRef<Hub>>(_: H) -> Hub { Hub }
    pub fn push_scope(&self) -> ScopeGuard { ScopeGuard }
    pub fn end_session_with_status(&self, _: protocol::SessionStatus) {}
    pub fn start_session(&self) {}
    pub fn configure_scope<F, R>(&self, f: F) -> R where F: FnOnce(&mut Scope) -> R { f(&mut Scope) }
    pub fn run<F: FnOnce() -> R, R>(_: Arc<Hub>, f: F) -> R { f() }
    pub fn capture_error<E: std::error::Error + ?Sized>(&self, e: &E) { capture_error(e) }
}
impl AsRef<Hub> for Hub { fn as_ref(&self) -> &Hub { self } }
pub struct ScopeGuard;
impl Drop for ScopeGuard { fn drop(&mut self) {} }
#[derive(Debug, Default, Clone)]
pub struct Scope;
impl Scope {
    pub fn set_tag<V: ToString>(&mut self, _: &str, _: V) {}
    pub fn set_extra(&mut self, _: &str, _: protocol::Value) {}
    pub fn set_context<C: Into<protocol::Context>>(&mut self, _: &str, _: C) {}
    pub fn get_span(&self) -> Option<TransactionOrSpan> { None }
    pub fn set_span(&mut self, _: Option<TransactionOrSpan>) {}
    pub fn set_transaction(&mut self, _: Option<&str>) {}
}
pub fn configure_scope<F, R>(f: F) -> R where F: FnOnce(&mut Scope) -> R { f(&mut Scope) }
pub fn with_scope<C, F, R>(c: C, f: F) -> R where C: FnOnce(&mut Scope), F: FnOnce() -> R { c(&mut Scope); f() }
pub fn capture_error<E: std::error::Error + ?Sized>(_: &E) { CAPTURED.fetch_add(1, Ordering::SeqCst); }
pub fn capture_message(_: &str, _: Level) {}
pub fn end_session_with_status(_: protocol::SessionStatus) {}
pub fn start_session() {}
pub fn end_session() {}

#[derive(Debug, Clone)]
pub enum TransactionOrSpan { Transaction(Transaction), Span(Span) }
impl TransactionOrSpan { pub fn iter_headers(&self) -> std::vec::IntoIter<(&'static str, String)> { vec![].into_iter() } pub fn finish(self) {} pub fn set_data(&self, _: &str, _: protocol::Value) {} }
impl From<Transaction> for TransactionOrSpan { fn from(t: Transaction) -> Self { Self::Transaction(t) } }
impl From<Span> for TransactionOrSpan { fn from(t: Span) -> Self { Self::Span(t) } }
#[derive(Debug, Clone)]
pub struct Transaction;
impl Transaction { pub fn finish(self) {} pub fn set_data(&self, _: &str, _: protocol::Value) {} pub fn start_child(&self, _: &str, _: &str) -> Span { Span } }
#[derive(Debug, Clone)]
pub struct Span;
impl Span { pub fn finish(self) {} }
pub struct TransactionContext;
impl TransactionContext {
    pub fn new(_: &str, _: &str) -> Self { Self }
    pub fn continue_from_span(_: &str, _: &str, _: Option<TransactionOrSpan>) -> Self { Self }
}
pub fn start_transaction(_: TransactionContext) -> Transaction { Transaction }

pub trait SentryFutureExt: Sized {
    fn bind_hub<H: Into<Arc<Hub>>>(self, _hub: H) -> SentryFuture<Self> { SentryFuture(self) }
}
impl<F: Future> SentryFutureExt for F {}
pub struct SentryFuture<F>(F);
impl<F: Future> Future for SentryFuture<F> {
    type Output = F::Output;
    fn poll(self: std::pin::Pin<&mut Self>, cx: &mut std::task::Context<'_>) -> std::task::Poll<F::Output> {
        unsafe { self.map_unchecked_mut(|s| &mut s.0) }.poll(cx)
    }
}

pub mod protocol {
    pub use serde_json::Value;
    pub type Map<K, V> = std::collections::BTreeMap<K, V>;
    #[derive(Debug, Clone)]
    pub enum Context { Other(Map<String, Value>) }
    #[derive(Debug, Clone, Copy)]
    pub enum SessionStatus { Ok, Crashed, Abnormal, Exited }
}
pub mod types {
    pub use symbolic_common::{CodeId, DebugId};
    pub use uuid::Uuid;
    #[derive(Debug, Clone, PartialEq, Eq)]
    pub struct Dsn(String);
    impl std::str::FromStr for Dsn { type Err = std::convert::Infallible; fn from_str(s: &str) -> Result<Self, Self::Err> { Ok(Dsn(s.into())) } }
    impl std::fmt::Display for Dsn { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str(&self.0) } }
    impl serde::Serialize for Dsn { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_str(&self.0) } }
    impl<'de> serde::Deserialize<'de> for Dsn { fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> { String::deserialize(d).map(Dsn) } }
}
pub mod integrations { pub mod anyhow { pub fn capture_anyhow<E>(_: &E) {} } pub mod tracing {
    pub struct Layer;
    impl<S: ::tracing::Subscriber> tracing_subscriber::Layer<S> for Layer {}
    pub fn layer() -> Layer { Layer }
} }
