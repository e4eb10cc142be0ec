//! Stand-in for JVM symbolication: the work of a request is what its scenario says.
pub mod interface {
    use serde::{Deserialize, Serialize};
    #[derive(Debug, Clone, Default, Serialize, Deserialize)]
    pub struct CompletedJvmSymbolicationResponse { pub value: u64, pub jvm: bool }
    #[derive(Debug, Clone)]
    pub struct SymbolicateJvmStacktraces { pub work: simwork::Work }
}
use interface::*;
#[derive(Debug, Clone)]
pub struct ProguardService;
impl ProguardService {
    pub fn new(_: &symbolicator_service::services::SharedServices) -> Self { Self }
    pub async fn symbolicate_jvm(&self, r: SymbolicateJvmStacktraces) -> CompletedJvmSymbolicationResponse { CompletedJvmSymbolicationResponse { value: r.work.run_ok().await.id, jvm: true } }
}
