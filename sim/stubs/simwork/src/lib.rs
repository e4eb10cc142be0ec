//! The work of a simulated request, as its scenario describes it.
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::sync::OnceLock;
use std::time::Duration;
pub static LOG: OnceLock<fn(&str, Value)> = OnceLock::new();
fn log(e: &str, v: Value) { (LOG.get().unwrap())(e, v) }

#[derive(Debug, Clone, Default, Serialize, Deserialize)]
#[serde(default)]
pub struct Work {
    pub id: u64,
    /// ms of waiting, step by step; 0 only yields
    pub steps: Vec<u64>,
    /// ms for which the thread is blocked at the end
    pub block: u64,
    /// ok, err, panic or hang
    pub end: String,
    /// number of candidates in the response
    pub cands: u32,
}
struct Guard(u64, bool);
impl Drop for Guard {
    fn drop(&mut self) { if !self.1 { log("work", json!({"r": self.0, "end": if std::thread::panicking() { "panic" } else { "dropped" }})) } }
}
impl Work {
    pub async fn run(self) -> anyhow::Result<Self> {
        let mut g = Guard(self.id, false);
        log("begin", json!({"r": self.id}));
        for s in &self.steps {
            if *s == 0 { tokio::task::yield_now().await } else { tokio::time::sleep(Duration::from_millis(*s)).await }
        }
        if self.block > 0 { std::thread::sleep(Duration::from_millis(self.block)) }
        match &*self.end {
            "hang" => std::future::pending::<()>().await,
            "panic" => panic!("planned panic of request {}", self.id),
            _ => {}
        }
        g.1 = true;
        log("work", json!({"r": self.id, "end": self.end}));
        if self.end == "err" { return Err(anyhow::anyhow!("planned failure of request {}", self.id)) }
        Ok(self)
    }
    /// For work that cannot fail.
    pub async fn run_ok(self) -> Self {
        let id = self.id;
        match self.run().await { Ok(w) => w, Err(_) => Work { id, ..Default::default() } }
    }
}
