//! Runs the real binaries, plain, with an injected fault, or under a controlled schedule.

use std::collections::BTreeMap;
use std::ffi::CString;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU32, Ordering};
use std::time::{Duration, Instant};

pub const FAULT_SO: &str = env!("FAULT_SO");

pub fn bin(name: &str) -> PathBuf {
    let dir = std::env::var_os("VERIF_BIN").map(PathBuf::from).unwrap_or_else(|| vmc::verif_dir().join("target/debug"));
    dir.join(name)
}

#[derive(Debug, Clone)]
pub struct Outcome {
    pub code: Option<i32>,
    pub stdout: Vec<u8>,
    pub stderr: String,
}

const SLOTS: usize = 16;

#[repr(C)]
struct Slot {
    state: AtomicU32,
    op: [u8; 12],
    who: [u8; 64],
    path: [u8; 160],
}

#[repr(C)]
pub struct Shm {
    count: AtomicU32,
    at: u32,
    mode: u32,
    err: u32,
    gate: u32,
    hit: AtomicU32,
    hit_op: [u8; 12],
    hit_path: [u8; 160],
    slots: [Slot; SLOTS],
}

fn cstr(b: &[u8]) -> String {
    let n = b.iter().position(|&c| c == 0).unwrap_or(b.len());
    String::from_utf8_lossy(&b[..n]).into_owned()
}

/// The shared page between the controller and the preloaded library.
unsafe impl Send for Fault {}
pub struct Fault {
    path: PathBuf,
    map: *mut Shm,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Mode {
    None,
    Kill(u32),
    Torn(u32),
    Err(u32, i32),
    Full(u32),
}

impl Fault {
    pub fn new(dir: &Path) -> Fault {
        let path = dir.join("shm");
        std::fs::write(&path, vec![0u8; std::mem::size_of::<Shm>()]).unwrap();
        let c = CString::new(path.to_str().unwrap()).unwrap();
        let map = unsafe {
            let fd = libc::open(c.as_ptr(), libc::O_RDWR | libc::O_CLOEXEC);
            assert!(fd >= 0);
            let m = libc::mmap(
                std::ptr::null_mut(),
                std::mem::size_of::<Shm>(),
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_SHARED,
                fd,
                0,
            );
            libc::close(fd);
            assert!(m != libc::MAP_FAILED);
            m as *mut Shm
        };
        Fault { path, map }
    }
    fn reset(&self, mode: Mode, gate: bool) {
        unsafe {
            std::ptr::write_bytes(self.map as *mut u8, 0, std::mem::size_of::<Shm>());
            let s = &mut *self.map;
            let (at, m, e) = match mode {
                Mode::None => (0, 0, 0),
                Mode::Kill(n) => (n, 1, 0),
                Mode::Torn(n) => (n, 2, 0),
                Mode::Err(n, e) => (n, 3, e as u32),
                Mode::Full(n) => (n, 4, libc::ENOSPC as u32),
            };
            s.at = at;
            s.mode = m;
            s.err = e;
            s.gate = gate as u32;
        }
    }
    pub fn count(&self) -> u32 {
        unsafe { (*self.map).count.load(Ordering::SeqCst) }
    }
    /// The operation the fault hit, if it was reached.
    pub fn hit(&self) -> Option<(String, String)> {
        unsafe {
            let s = &*self.map;
            (s.hit.load(Ordering::SeqCst) != 0).then(|| (cstr(&s.hit_op), cstr(&s.hit_path)))
        }
    }
}
impl Drop for Fault {
    fn drop(&mut self) {
        unsafe {
            libc::munmap(self.map as *mut libc::c_void, std::mem::size_of::<Shm>());
        }
    }
}

pub struct Cmd<'a> {
    pub exe: PathBuf,
    pub args: Vec<String>,
    pub cwd: &'a Path,
    /// operations below this directory count
    pub root: &'a Path,
    pub input: &'a Path,
    pub threads: u32,
}

impl Cmd<'_> {
    fn command(&self, f: Option<&Fault>) -> Command {
        let mut c = Command::new(&self.exe);
        c.args(&self.args)
            .current_dir(self.cwd)
            .env("RAYON_NUM_THREADS", self.threads.to_string())
            .env("NO_COLOR", "1")
            .env_remove("RUST_BACKTRACE")
            .stdin(Stdio::null())
            .stdout(Stdio::piped())
            .stderr(Stdio::piped());
        if let Some(f) = f {
            c.env("LD_PRELOAD", FAULT_SO).env("FI_SHM", &f.path).env("FI_ROOT", self.root).env("FI_IN", self.input);
        }
        c
    }

    pub fn run(&self) -> Outcome {
        let o = self.command(None).output().expect("run");
        Outcome { code: o.status.code(), stdout: o.stdout, stderr: String::from_utf8_lossy(&o.stderr).into_owned() }
    }

    pub fn run_fault(&self, f: &Fault, mode: Mode) -> Outcome {
        f.reset(mode, false);
        let o = self.command(Some(f)).output().expect("run");
        Outcome { code: o.status.code(), stdout: o.stdout, stderr: String::from_utf8_lossy(&o.stderr).into_owned() }
    }

    /// Runs with every thread stopping before each file system operation; `pick` chooses among the
    /// waiting `(input file, operation, path)`s, which are sorted.
    pub fn run_sched(&self, f: &Fault, mut pick: impl FnMut(&[(String, String, String)]) -> usize) -> Result<Outcome, String> {
        f.reset(Mode::None, true);
        let mut child = self.command(Some(f)).spawn().expect("run");
        let out = child.stdout.take().unwrap();
        let err = child.stderr.take().unwrap();
        let rd = |mut p: Box<dyn std::io::Read + Send>| {
            std::thread::spawn(move || {
                let mut v = vec![];
                let _ = p.read_to_end(&mut v);
                v
            })
        };
        let (ho, he) = (rd(Box::new(out)), rd(Box::new(err)));
        let pid = child.id();
        let s = unsafe { &*f.map };
        let deadline = Instant::now() + Duration::from_secs(60);
        let status = loop {
            if let Some(st) = child.try_wait().expect("wait") {
                break st;
            }
            if Instant::now() > deadline {
                let _ = child.kill();
                let _ = child.wait();
                return Err("no progress".into());
            }
            if !quiescent(pid) {
                std::thread::sleep(Duration::from_micros(30));
                continue;
            }
            let mut waiting: Vec<(String, String, String, usize)> = vec![];
            let mut filling = false;
            for (i, sl) in s.slots.iter().enumerate() {
                match sl.state.load(Ordering::SeqCst) {
                    2 => waiting.push((cstr(&sl.who), cstr(&sl.op), cstr(&sl.path), i)),
                    1 => filling = true,
                    3 => filling = true,
                    _ => {}
                }
            }
            if filling || waiting.is_empty() {
                std::thread::sleep(Duration::from_micros(30));
                continue;
            }
            waiting.sort();
            let labels: Vec<_> = waiting.iter().map(|w| (w.0.clone(), w.1.clone(), w.2.clone())).collect();
            let i = waiting[pick(&labels)].3;
            s.slots[i].state.store(3, Ordering::SeqCst);
            unsafe {
                libc::syscall(libc::SYS_futex, &s.slots[i].state, libc::FUTEX_WAKE, i32::MAX, 0, 0, 0);
            }
        };
        Ok(Outcome {
            code: status.code(),
            stdout: ho.join().unwrap(),
            stderr: String::from_utf8_lossy(&he.join().unwrap()).into_owned(),
        })
    }
}

/// Every thread of the process sleeps, and went on sleeping between two looks.
fn quiescent(pid: u32) -> bool {
    let look = || -> Option<Vec<(String, u64)>> {
        let mut v = vec![];
        for t in std::fs::read_dir(format!("/proc/{pid}/task")).ok()? {
            let t = t.ok()?.path();
            let stat = std::fs::read_to_string(t.join("stat")).ok()?;
            let state = stat.rsplit(") ").next()?.chars().next()?;
            if state != 'S' {
                return None;
            }
            // voluntary and involuntary switches: a thread that ran in between shows up
            let status = std::fs::read_to_string(t.join("status")).ok()?;
            let n: u64 = status
                .lines()
                .filter(|l| l.contains("ctxt_switches"))
                .filter_map(|l| l.split_whitespace().last()?.parse::<u64>().ok())
                .sum();
            v.push((t.to_string_lossy().into_owned(), n));
        }
        v.sort();
        Some(v)
    };
    let a = look();
    if a.is_none() || a.as_ref().is_some_and(|v| v.is_empty()) {
        return false;
    }
    std::thread::sleep(Duration::from_micros(60));
    a == look()
}

#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub enum Node {
    Dir,
    File(Vec<u8>),
    Other,
}

pub type Tree = BTreeMap<String, Node>;

pub fn snapshot(dir: &Path) -> Tree {
    fn go(base: &Path, d: &Path, t: &mut Tree) {
        let Ok(rd) = std::fs::read_dir(d) else { return };
        for e in rd.flatten() {
            let p = e.path();
            let rel = p.strip_prefix(base).unwrap().to_string_lossy().into_owned();
            match e.file_type() {
                Ok(ft) if ft.is_dir() => {
                    t.insert(rel, Node::Dir);
                    go(base, &p, t);
                }
                Ok(ft) if ft.is_file() => {
                    t.insert(rel, Node::File(std::fs::read(&p).unwrap_or_default()));
                }
                _ => {
                    t.insert(rel, Node::Other);
                }
            }
        }
    }
    let mut t = Tree::new();
    go(dir, dir, &mut t);
    t
}

pub fn fresh(dir: &Path) {
    let _ = std::fs::remove_dir_all(dir);
    std::fs::create_dir_all(dir).unwrap();
}
