//! Stand-in for `apple-crash-report-parser`: the report is JSON of the same structure.
use chrono::{DateTime, Utc};
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use uuid::Uuid;

#[derive(Clone, Copy, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Serialize, Deserialize)]
pub struct Addr(pub u64);
#[derive(Debug, Default, Serialize, Deserialize)]
#[serde(default)]
pub struct AppleCrashReport {
    pub incident_identifier: Uuid,
    pub timestamp: Option<DateTime<Utc>>,
    pub code_type: Option<String>,
    pub path: Option<String>,
    pub application_specific_information: Option<String>,
    pub report_version: u32,
    pub metadata: BTreeMap<String, String>,
    pub threads: Vec<Thread>,
    pub binary_images: Vec<BinaryImage>,
}
#[derive(Debug, Default, Serialize, Deserialize)]
#[serde(default)]
pub struct BinaryImage {
    pub addr: Addr,
    pub size: u64,
    pub uuid: Uuid,
    pub arch: String,
    pub version: Option<String>,
    pub name: String,
    pub path: String,
}
#[derive(Debug, Default, Serialize, Deserialize)]
#[serde(default)]
pub struct Frame {
    pub module: Option<String>,
    pub symbol: Option<String>,
    pub filename: Option<String>,
    pub lineno: Option<u32>,
    pub instruction_addr: Addr,
}
#[derive(Debug, Default, Serialize, Deserialize)]
#[serde(default)]
pub struct Thread {
    pub id: u64,
    pub name: Option<String>,
    pub frames: Vec<Frame>,
    pub crashed: bool,
    pub registers: Option<BTreeMap<String, Addr>>,
}
#[derive(Debug)]
pub struct ParseError(serde_json::Error);
impl std::fmt::Display for ParseError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        self.0.fmt(f)
    }
}
impl std::error::Error for ParseError {}
impl AppleCrashReport {
    pub fn from_reader<R: std::io::Read>(r: R) -> Result<AppleCrashReport, ParseError> {
        serde_json::from_reader(r).map_err(ParseError)
    }
}
