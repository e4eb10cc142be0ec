//! Stand-in for `cadence`: lines are recorded in memory instead of being sent by UDP.
use std::io;
use std::net::{SocketAddr, UdpSocket};
use std::sync::{Arc, Mutex};
pub static LINES: Mutex<Vec<String>> = Mutex::new(Vec::new());
/// Called for every line, where set.
pub static HOOK: std::sync::OnceLock<fn(&str)> = std::sync::OnceLock::new();
pub trait MetricSink { fn emit(&self, metric: &str) -> io::Result<usize>; fn flush(&self) -> io::Result<()> { Ok(()) } }
#[derive(Debug)]
pub struct BufferedUdpMetricSink;
impl BufferedUdpMetricSink { pub fn from<A>(_: A, _: UdpSocket) -> io::Result<Self> where A: std::net::ToSocketAddrs { Ok(Self) } }
impl MetricSink for BufferedUdpMetricSink { fn emit(&self, m: &str) -> io::Result<usize> { if let Some(h) = HOOK.get() { h(m); return Ok(m.len()) } LINES.lock().unwrap().push(m.to_string()); Ok(m.len()) } }
pub struct QueuingMetricSink(Box<dyn MetricSink + Send + Sync>);
impl std::fmt::Debug for QueuingMetricSink { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("QueuingMetricSink") } }
impl QueuingMetricSink { pub fn from<T: MetricSink + Send + Sync + 'static>(s: T) -> Self { Self(Box::new(s)) } }
impl MetricSink for QueuingMetricSink { fn emit(&self, m: &str) -> io::Result<usize> { self.0.emit(m) } }
#[derive(Clone)]
pub struct StatsdClient(#[allow(dead_code)] Arc<Box<dyn MetricSink + Send + Sync>>);
impl std::fmt::Debug for StatsdClient { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("StatsdClient") } }
pub struct StatsdClientBuilder(Box<dyn MetricSink + Send + Sync>);
impl StatsdClient { pub fn builder<T: MetricSink + Send + Sync + 'static>(_: &str, s: T) -> StatsdClientBuilder { StatsdClientBuilder(Box::new(s)) } }
impl StatsdClientBuilder { pub fn with_tag<K, V>(self, _: K, _: V) -> Self { self } pub fn build(self) -> StatsdClient { StatsdClient(Arc::new(self.0)) } }
pub fn unused(_: SocketAddr) {}
