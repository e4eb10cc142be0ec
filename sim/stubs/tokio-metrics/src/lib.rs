//! Stand-in for `tokio-metrics`: instrumented tasks run unchanged, all metrics are zero.
use std::time::Duration;
#[derive(Debug, Clone, Default)]
pub struct TaskMonitor;
#[derive(Debug, Clone, Copy, Default)]
pub struct TaskMetrics { pub instrumented_count: u64, pub dropped_count: u64, pub first_poll_count: u64, pub total_first_poll_delay: Duration, pub total_idled_count: u64, pub total_idle_duration: Duration, pub total_scheduled_count: u64, pub total_scheduled_duration: Duration, pub total_poll_count: u64, pub total_poll_duration: Duration, pub total_fast_poll_count: u64, pub total_fast_poll_duration: Duration, pub total_slow_poll_count: u64, pub total_slow_poll_duration: Duration }
impl TaskMonitor {
    pub fn new() -> Self { Self }
    pub fn intervals(&self) -> impl Iterator<Item = TaskMetrics> { std::iter::repeat(TaskMetrics::default()) }
    pub fn cumulative(&self) -> TaskMetrics { TaskMetrics::default() }
    pub fn instrument<F>(&self, f: F) -> F { f }
}
