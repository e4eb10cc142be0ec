//! Stand-in for JavaScript symbolication: the work of a request is what its scenario says.
pub mod interface {
    use serde::{Deserialize, Serialize};
    #[derive(Debug, Clone, Default, Serialize, Deserialize)]
    pub struct CompletedJsSymbolicationResponse { pub value: u64, pub js: bool }
    #[derive(Debug, Clone)]
    pub struct SymbolicateJsStacktraces { pub work: simwork::Work }
}
use interface::*;
#[derive(Debug, Clone)]
pub struct SourceMapService;
impl SourceMapService {
    pub fn new(_: &symbolicator_service::services::SharedServices) -> Self { Self }
    pub async fn symbolicate_js(&self, r: SymbolicateJsStacktraces) -> CompletedJsSymbolicationResponse { CompletedJsSymbolicationResponse { value: r.work.run_ok().await.id, js: true } }
}
