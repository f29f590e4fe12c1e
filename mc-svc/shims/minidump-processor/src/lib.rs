//! Stand-in for `minidump-processor`: the threads are walked at the same time, each frame is
//! looked up with the provider of symbols as `minidump-unwind` does.  A described frame that is
//! found by unwind information or scanning is only there if the provider agrees.
use minidump::{Minidump, MinidumpContext, MinidumpModule, MinidumpModuleList, MinidumpSystemInfo, Module};
use minidump_unwind::{CallStack, FrameSymbolizer, FrameTrust, FrameWalker, StackFrame, SymbolProvider};
use std::ops::Deref;
use std::time::{Duration, SystemTime};

#[derive(Debug, thiserror::Error)]
pub enum ProcessError {
    #[error("Failed to read minidump: {0}")]
    MinidumpReadError(#[from] minidump::Error),
    #[error("The system information stream was not found")]
    MissingSystemInfo,
    #[error("The thread list stream was not found")]
    MissingThreadList,
}
#[derive(Clone, Debug)]
pub struct SystemInfo {
    pub os: minidump::system_info::Os,
    pub os_version: Option<String>,
    pub os_build: Option<String>,
    pub cpu: minidump::system_info::Cpu,
}
#[derive(Clone, Copy, Debug)]
pub struct Address(pub u64);
#[derive(Clone, Debug)]
pub struct ExceptionInfo {
    pub reason: String,
    pub address: Address,
}
#[derive(Clone, Debug)]
pub struct ProcessState {
    pub time: SystemTime,
    pub system_info: SystemInfo,
    pub exception_info: Option<ExceptionInfo>,
    pub assertion: Option<String>,
    pub requesting_thread: Option<usize>,
    pub threads: Vec<CallStack>,
    pub modules: MinidumpModuleList,
}
impl ProcessState {
    pub fn crashed(&self) -> bool {
        self.exception_info.is_some()
    }
}
struct At {
    instruction: u64,
    name: Option<String>,
}
impl FrameSymbolizer for At {
    fn get_instruction(&self) -> u64 {
        self.instruction
    }
    fn set_function(&mut self, name: &str, _base: u64, _parameters: u32) {
        self.name = Some(name.into());
    }
    fn set_source_file(&mut self, _file: &str, _line: u32, _base: u64) {}
}
impl FrameWalker for At {
    fn get_instruction(&self) -> u64 {
        self.instruction
    }
}
pub async fn process_minidump<'a, T, P>(dump: &Minidump<'a, T>, provider: &P) -> Result<ProcessState, ProcessError>
where
    T: Deref<Target = [u8]> + 'a,
    P: SymbolProvider + Sync,
{
    let info: MinidumpSystemInfo = dump.get_stream().map_err(|_| ProcessError::MissingSystemInfo)?;
    let d = &dump.description;
    if d.fails {
        return Err(ProcessError::MissingThreadList);
    }
    let modules: MinidumpModuleList = dump.get_stream().unwrap_or_default();
    let threads = futures::future::join_all(d.threads.iter().map(|t| walk(t, &modules, provider))).await;
    Ok(ProcessState {
        time: SystemTime::UNIX_EPOCH + Duration::from_secs(d.time),
        system_info: SystemInfo { os: info.os, os_version: d.os_version.clone(), os_build: d.os_build.clone(), cpu: info.cpu },
        exception_info: d.exception.clone().map(|(reason, a)| ExceptionInfo { reason, address: Address(a) }),
        assertion: d.assertion.clone(),
        requesting_thread: d.requesting,
        threads,
        modules,
    })
}
async fn walk<P: SymbolProvider + Sync>(t: &minidump::Thread, modules: &MinidumpModuleList, provider: &P) -> CallStack {
    let mut frames: Vec<StackFrame> = vec![];
    for (address, how) in &t.frames {
        let trust = match how.as_str() {
            "context" => FrameTrust::Context,
            "cfi" => FrameTrust::CallFrameInfo,
            "cfiscan" => FrameTrust::CfiScan,
            "scan" => FrameTrust::Scan,
            "fp" => FrameTrust::FramePointer,
            "prewalked" => FrameTrust::PreWalked,
            _ => FrameTrust::None,
        };
        let instruction = if frames.is_empty() { *address } else { address.wrapping_sub(1) };
        // the callers that need unwind information of the callee
        if trust == FrameTrust::CallFrameInfo {
            if let Some((m, i)) = frames.last().and_then(|f| Some((f.module.as_ref()?, f.instruction))) {
                if provider.walk_frame(m, &mut At { instruction: i, name: None }).await.is_none() {
                    break;
                }
            }
        }
        let module: Option<&MinidumpModule> = modules.module_at_address(instruction);
        if let Some(m) = module {
            let mut at = At { instruction, name: None };
            let found = provider.fill_symbol(m, &mut at).await;
            // success without a name: no valid instruction, the scan goes on
            if trust == FrameTrust::Scan && found.is_ok() && at.name.is_none() {
                continue;
            }
            debug_assert!(m.size() > 0);
        }
        frames.push(StackFrame {
            instruction,
            resume_address: *address,
            module: module.cloned(),
            trust,
            context: MinidumpContext(if frames.is_empty() { t.registers.iter().map(|(n, v)| (&*n.clone().leak(), *v)).collect() } else { vec![] }),
        });
    }
    CallStack { frames, thread_id: t.id, thread_name: t.name.clone() }
}
