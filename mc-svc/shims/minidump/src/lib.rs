//! Stand-in for `minidump`: `MDMP`, the length of a JSON description, the description and after
//! it the raw streams.
use debugid::{CodeId, DebugId};
use serde::{Deserialize, Serialize};
use std::borrow::Cow;
use std::ops::Deref;
use std::sync::Arc;

pub mod system_info {
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub enum Os {
        Windows,
        MacOs,
        Ios,
        Linux,
        Solaris,
        Android,
        Ps3,
        NaCl,
        Unknown(u32),
    }
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub enum Cpu {
        X86,
        X86_64,
        Ppc,
        Ppc64,
        Sparc,
        Arm,
        Arm64,
        Mips,
        Mips64,
        Unknown(u16),
    }
    impl std::fmt::Display for Cpu {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            write!(f, "{self:?}")
        }
    }
}
#[derive(Debug, thiserror::Error)]
pub enum Error {
    #[error("File not found")]
    FileNotFound,
    #[error("I/O error")]
    IoError,
    #[error("No minidump header found")]
    MissingHeader,
    #[error("Stream not found")]
    StreamNotFound,
    #[error("Stream read failure")]
    StreamReadFailure,
    #[error("Stream size mismatch")]
    StreamSizeMismatch { expected: usize, actual: usize },
}

pub trait Module {
    fn base_address(&self) -> u64;
    fn size(&self) -> u64;
    fn code_file(&self) -> Cow<'_, str>;
    fn code_identifier(&self) -> Option<CodeId>;
    fn debug_file(&self) -> Option<Cow<'_, str>>;
    fn debug_identifier(&self) -> Option<DebugId>;
    fn version(&self) -> Option<Cow<'_, str>>;
}
#[derive(Clone, Debug, Default, Serialize, Deserialize)]
#[serde(default)]
pub struct MinidumpModule {
    pub base: u64,
    pub size: u64,
    pub code_file: String,
    pub code_id: Option<String>,
    pub debug_file: Option<String>,
    pub debug_id: Option<String>,
}
impl Module for MinidumpModule {
    fn base_address(&self) -> u64 {
        self.base
    }
    fn size(&self) -> u64 {
        self.size
    }
    fn code_file(&self) -> Cow<'_, str> {
        self.code_file.as_str().into()
    }
    fn code_identifier(&self) -> Option<CodeId> {
        self.code_id.clone().map(CodeId::new)
    }
    fn debug_file(&self) -> Option<Cow<'_, str>> {
        self.debug_file.as_deref().map(Into::into)
    }
    fn debug_identifier(&self) -> Option<DebugId> {
        self.debug_id.as_ref()?.parse().ok()
    }
    fn version(&self) -> Option<Cow<'_, str>> {
        None
    }
}
#[derive(Clone, Debug, Default)]
pub struct MinidumpModuleList(Arc<[MinidumpModule]>);
impl MinidumpModuleList {
    pub fn by_addr(&self) -> impl DoubleEndedIterator<Item = &MinidumpModule> {
        let mut v: Vec<_> = self.0.iter().collect();
        v.sort_by_key(|m| m.base);
        v.into_iter()
    }
    pub fn iter(&self) -> impl Iterator<Item = &MinidumpModule> {
        self.0.iter()
    }
    pub fn module_at_address(&self, a: u64) -> Option<&MinidumpModule> {
        self.0.iter().find(|m| a >= m.base && a - m.base < m.size)
    }
}
#[derive(Clone, Debug)]
pub struct MinidumpSystemInfo {
    pub os: system_info::Os,
    pub cpu: system_info::Cpu,
}
#[derive(Clone, Debug, Default)]
pub struct MinidumpContext(pub Vec<(&'static str, u64)>);
impl MinidumpContext {
    pub fn valid_registers(&self) -> impl Iterator<Item = (&'static str, u64)> + '_ {
        self.0.iter().copied()
    }
}

/// The description of what is in the dump.
#[derive(Clone, Debug, Default, Serialize, Deserialize)]
#[serde(default)]
pub struct Description {
    pub os: Option<String>,
    pub cpu: String,
    pub time: u64,
    pub modules: Option<Vec<MinidumpModule>>,
    pub threads: Vec<Thread>,
    pub requesting: Option<usize>,
    pub os_version: Option<String>,
    pub os_build: Option<String>,
    pub exception: Option<(String, u64)>,
    pub assertion: Option<String>,
    pub fails: bool,
    /// type, offset after the description, length
    pub streams: Vec<(u32, usize, usize)>,
}
#[derive(Clone, Debug, Default, Serialize, Deserialize)]
#[serde(default)]
pub struct Thread {
    pub id: u32,
    pub name: Option<String>,
    pub registers: Vec<(String, u64)>,
    /// address and how it is found: `context`, `cfi`, `scan`, `fp`
    pub frames: Vec<(u64, String)>,
}
#[derive(Debug)]
pub struct Minidump<'a, T: Deref<Target = [u8]> + 'a> {
    data: T,
    base: usize,
    pub description: Arc<Description>,
    marker: std::marker::PhantomData<&'a [u8]>,
}
impl<'a, T: Deref<Target = [u8]> + 'a> Minidump<'a, T> {
    pub fn read(data: T) -> Result<Self, Error> {
        let head = data.get(..8).ok_or(Error::MissingHeader)?;
        if &head[..4] != b"MDMP" {
            return Err(Error::MissingHeader);
        }
        let n = u32::from_le_bytes(head[4..].try_into().unwrap()) as usize;
        let json = data.get(8..8 + n).ok_or(Error::StreamReadFailure)?;
        let description = serde_json::from_slice(json).map_err(|_| Error::StreamReadFailure)?;
        Ok(Minidump { data, base: 8 + n, description: Arc::new(description), marker: std::marker::PhantomData })
    }
    pub fn get_stream<S: Stream>(&self) -> Result<S, Error> {
        S::read(&self.description)
    }
    pub fn get_raw_stream(&self, ty: u32) -> Result<&[u8], Error> {
        let (_, at, n) = self.description.streams.iter().find(|s| s.0 == ty).ok_or(Error::StreamNotFound)?;
        self.data.get(self.base + at..self.base + at + n).ok_or(Error::StreamReadFailure)
    }
}
pub trait Stream: Sized {
    fn read(d: &Description) -> Result<Self, Error>;
}
impl Stream for MinidumpModuleList {
    fn read(d: &Description) -> Result<Self, Error> {
        Ok(MinidumpModuleList(d.modules.clone().ok_or(Error::StreamNotFound)?.into()))
    }
}
impl Stream for MinidumpSystemInfo {
    fn read(d: &Description) -> Result<Self, Error> {
        use system_info::{Cpu, Os};
        let os = match d.os.as_deref().ok_or(Error::StreamNotFound)? {
            "windows" => Os::Windows,
            "macos" => Os::MacOs,
            "ios" => Os::Ios,
            "linux" => Os::Linux,
            "solaris" => Os::Solaris,
            "android" => Os::Android,
            "ps3" => Os::Ps3,
            "nacl" => Os::NaCl,
            _ => Os::Unknown(7),
        };
        let cpu = match d.cpu.as_str() {
            "x86" => Cpu::X86,
            "x86_64" => Cpu::X86_64,
            "ppc" => Cpu::Ppc,
            "ppc64" => Cpu::Ppc64,
            "sparc" => Cpu::Sparc,
            "arm" => Cpu::Arm,
            "arm64" => Cpu::Arm64,
            "mips" => Cpu::Mips,
            "mips64" => Cpu::Mips64,
            _ => Cpu::Unknown(7),
        };
        Ok(MinidumpSystemInfo { os, cpu })
    }
}
