//! Stand-in for `tokio-metrics`: nothing is measured.
use std::time::Duration;

#[derive(Clone, Debug, Default)]
pub struct TaskMonitor;

impl TaskMonitor {
    pub fn new() -> Self {
        TaskMonitor
    }
    pub fn instrument<F: std::future::Future>(&self, f: F) -> F {
        f
    }
    pub fn intervals(&self) -> std::iter::Empty<TaskMetrics> {
        std::iter::empty()
    }
}

#[derive(Clone, Copy, Debug, Default)]
pub struct TaskMetrics {
    pub instrumented_count: u64,
    pub dropped_count: u64,
    pub first_poll_count: u64,
    pub total_first_poll_delay: Duration,
    pub total_idled_count: u64,
    pub total_idle_duration: Duration,
    pub total_scheduled_count: u64,
    pub total_scheduled_duration: Duration,
    pub total_poll_count: u64,
    pub total_poll_duration: Duration,
    pub total_fast_poll_count: u64,
    pub total_fast_poll_duration: Duration,
    pub total_slow_poll_count: u64,
    pub total_slow_poll_duration: Duration,
}
