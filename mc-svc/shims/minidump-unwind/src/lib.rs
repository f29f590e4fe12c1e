//! Stand-in for `minidump-unwind`: the unwinder's view of symbols.
use minidump::{MinidumpContext, MinidumpModule, Module};
use std::path::PathBuf;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum FrameTrust {
    None,
    Scan,
    CfiScan,
    FramePointer,
    CallFrameInfo,
    PreWalked,
    Context,
}
#[derive(Debug, thiserror::Error)]
#[error("no symbol")]
pub struct FillSymbolError {}
#[derive(Debug, thiserror::Error)]
pub enum FileError {
    #[error("file not found")]
    NotFound,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum FileKind {
    BreakpadSym,
    Binary,
    ExtraDebugInfo,
}
pub trait FrameSymbolizer {
    fn get_instruction(&self) -> u64;
    fn set_function(&mut self, name: &str, base: u64, parameter_size: u32);
    fn set_source_file(&mut self, file: &str, line: u32, base: u64);
}
pub trait FrameWalker {
    fn get_instruction(&self) -> u64;
}
#[async_trait::async_trait]
pub trait SymbolProvider {
    async fn fill_symbol(&self, module: &(dyn Module + Sync), frame: &mut (dyn FrameSymbolizer + Send)) -> Result<(), FillSymbolError>;
    async fn walk_frame(&self, module: &(dyn Module + Sync), walker: &mut (dyn FrameWalker + Send)) -> Option<()>;
    async fn get_file_path(&self, module: &(dyn Module + Sync), kind: FileKind) -> Result<PathBuf, FileError>;
}
#[derive(Debug, thiserror::Error)]
#[error("no symbol file")]
pub struct SymbolError;
/// Ranges of addresses of a module.
#[derive(Clone, Debug, Default)]
pub struct RangeMap(Vec<(u64, u64)>);
impl RangeMap {
    pub fn is_empty(&self) -> bool {
        self.0.is_empty()
    }
    pub fn get(&self, a: u64) -> Option<&(u64, u64)> {
        self.0.iter().find(|r| a >= r.0 && a - r.0 < r.1)
    }
}
#[derive(Clone, Debug, Default)]
pub struct SymbolFile {
    pub cfi_stack_info: RangeMap,
}
impl SymbolFile {
    pub fn from_bytes(b: &[u8]) -> Result<Self, SymbolError> {
        let text = std::str::from_utf8(b).map_err(|_| SymbolError)?;
        if !text.starts_with("MODULE ") {
            return Err(SymbolError);
        }
        Ok(SymbolFile { cfi_stack_info: RangeMap(text.lines().filter_map(symbolic::cfi::rule).collect()) })
    }
    pub fn walk_frame(&self, module: &dyn Module, walker: &mut dyn FrameWalker) -> Option<()> {
        self.cfi_stack_info.get(walker.get_instruction().checked_sub(module.base_address())?).map(|_| ())
    }
}
#[derive(Clone, Debug)]
pub struct StackFrame {
    pub instruction: u64,
    pub resume_address: u64,
    pub module: Option<MinidumpModule>,
    pub trust: FrameTrust,
    pub context: MinidumpContext,
}
#[derive(Clone, Debug)]
pub struct CallStack {
    pub frames: Vec<StackFrame>,
    pub thread_id: u32,
    pub thread_name: Option<String>,
}
