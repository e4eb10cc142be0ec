//! Stand-in for native symbolication: the work of a request is what its scenario says.
pub mod interface {
    use serde::{Deserialize, Serialize};
    use simwork::Work;
    #[derive(Debug, Clone, Default, Serialize, Deserialize)]
    pub struct Module { #[serde(default, skip_serializing_if = "Vec::is_empty")] pub candidates: Vec<u32> }
    #[derive(Debug, Clone, Default, Serialize, Deserialize)]
    pub struct CompletedSymbolicationResponse { pub value: u64, pub modules: Vec<Module> }
    impl From<Work> for CompletedSymbolicationResponse {
        fn from(w: Work) -> Self { Self { value: w.id, modules: (0..3).map(|m| Module { candidates: (0..w.cands).map(|c| m * 100 + c).collect() }).collect() } }
    }
    #[derive(Debug, Clone)]
    pub struct SymbolicateStacktraces { pub work: Work }
    #[derive(Debug)]
    pub struct ProcessMinidump { pub work: Work }
}
use interface::*;
use std::io::Read;
#[derive(Debug, Clone)]
pub struct SymbolicationActor;
impl SymbolicationActor {
    pub fn new(_: &symbolicator_service::services::SharedServices) -> Self { Self }
    pub async fn symbolicate(&self, r: SymbolicateStacktraces) -> anyhow::Result<CompletedSymbolicationResponse> { Ok(r.work.run().await?.into()) }
    pub async fn process_minidump(&self, r: ProcessMinidump) -> anyhow::Result<CompletedSymbolicationResponse> { Ok(r.work.run().await?.into()) }
    pub async fn process_apple_crash_report(&self, _: Option<symbolicator_service::types::Platform>, _: symbolicator_service::types::Scope, mut report: std::fs::File, _: std::sync::Arc<[symbolicator_sources::SourceConfig]>, _: symbolicator_service::types::ScrapingConfig) -> anyhow::Result<CompletedSymbolicationResponse> {
        let mut s = String::new();
        report.read_to_string(&mut s)?;
        Ok(serde_json::from_str::<simwork::Work>(&s)?.run().await?.into())
    }
}
