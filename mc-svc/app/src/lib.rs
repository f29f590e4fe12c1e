//! The modules of /repo/crates/symbolicator that serve requests.
pub use symbolicator_service::{config, metric, utils};

#[path = "/repo/crates/symbolicator/src/endpoints/mod.rs"]
pub mod endpoints;
#[path = "/repo/crates/symbolicator/src/service.rs"]
pub mod service;
