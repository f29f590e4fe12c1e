//! Control over what the code under test sees of the operating system: the clock and the file
//! system calls.  This binary defines the libc symbols itself, so that every call of the Rust
//! code in this process comes here first.  A thread is affected only while it belongs to a
//! `World`; other threads pass straight through.

#![allow(invalid_runtime_symbol_definitions)]

use std::cell::Cell;
use std::collections::BTreeMap;
use std::ffi::CStr;
use std::os::raw::{c_char, c_int, c_long, c_uint, c_void};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU64, AtomicU8, Ordering};
use std::sync::Mutex;

/// Virtual wall clock at the start of a world: long before the real time.
pub const WALL0: u64 = 1_000_000_000;
/// Virtual monotonic clock at the start: far ahead of the real one, so that idle threads of the
/// process that wait with a (virtual) deadline do not spin.
const MONO0: u64 = 2_000_000_000;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum Kind {
    Open,
    Create,
    Write,
    Truncate,
    Rename,
    Unlink,
    Mkdir,
    Rmdir,
    Utime,
    Stat,
}
impl Kind {
    pub fn mutates(self) -> bool {
        !matches!(self, Kind::Open | Kind::Stat)
    }
}
#[derive(Clone, Debug)]
pub struct Op {
    pub kind: Kind,
    pub path: PathBuf,
    /// Target of a rename, number of bytes of a write.
    pub to: Option<PathBuf>,
    pub len: usize,
}
#[derive(Clone, Debug)]
pub enum Act {
    Go,
    Err(i32),
    /// Write only this many bytes.
    Short(usize),
}
pub type Hook = std::sync::Arc<dyn Fn(&Op) -> Act + Send + Sync>;

pub struct World {
    off: AtomicU64,
    root: Mutex<PathBuf>,
    hook: Mutex<Option<Hook>>,
    hooked: AtomicU8,
}

thread_local! {
    static CUR: Cell<*const World> = const { Cell::new(std::ptr::null()) };
    static BUSY: Cell<bool> = const { Cell::new(false) };
    static T0: Cell<Option<tokio::time::Instant>> = const { Cell::new(None) };
    static ACTOR: Cell<usize> = const { Cell::new(usize::MAX) };
}

/// The actor this thread works for (set by `join`).
pub fn actor() -> usize {
    ACTOR.with(|a| a.get())
}

impl World {
    pub fn new() -> &'static World {
        Box::leak(Box::new(World {
            off: AtomicU64::new(0),
            root: Mutex::new(PathBuf::new()),
            hook: Mutex::new(None),
            hooked: AtomicU8::new(0),
        }))
    }
    /// Makes the calling thread part of this world.
    pub fn join(&'static self, actor: usize) {
        CUR.with(|c| c.set(self));
        ACTOR.with(|a| a.set(actor));
    }
    pub fn leave() {
        CUR.with(|c| c.set(std::ptr::null()));
    }
    pub fn reset(&self, root: &Path) {
        self.off.store(0, Ordering::SeqCst);
        *self.root.lock().unwrap() = root.to_owned();
        self.set_hook(None);
    }
    pub fn set_hook(&self, h: Option<Hook>) {
        self.hooked.store(h.is_some() as u8, Ordering::SeqCst);
        *self.hook.lock().unwrap() = h;
    }
    /// Nanoseconds since the start of the world.
    pub fn now_ns(&self) -> u64 {
        self.off.load(Ordering::SeqCst)
    }
    pub fn wall(&self) -> u64 {
        WALL0 + self.now_ns() / 1_000_000_000
    }
    /// Moves the clock of a world without a runtime.
    pub fn advance(&self, ns: u64) {
        self.off.fetch_add(ns, Ordering::SeqCst);
    }
    /// The runtime of this thread starts now: its clock drives the world's from here on.
    pub fn attach_runtime(&self) {
        let base = self.now_ns();
        let t = tokio::time::Instant::now();
        T0.with(|c| c.set(Some(t - std::time::Duration::from_nanos(base))));
    }
    pub fn detach_runtime() {
        T0.with(|c| c.set(None));
    }
    /// Files written since the last call carry the real time: they get the virtual one.
    pub fn restamp(&self) {
        busy(|| {
            let root = self.root.lock().unwrap().clone();
            let ns = self.now_ns();
            stamp(&root, WALL0 + ns / 1_000_000_000, (ns % 1_000_000_000) as u32);
        })
    }
}

fn stamp(dir: &Path, secs: u64, ns: u32) {
    let Ok(rd) = std::fs::read_dir(dir) else { return };
    for e in rd.flatten() {
        let p = e.path();
        let Ok(m) = e.metadata() else { continue };
        if m.is_dir() {
            stamp(&p, secs, ns);
        } else {
            use std::os::unix::fs::MetadataExt;
            if m.mtime() as u64 > WALL0 + 700_000_000 {
                let _ = filetime::set_file_mtime(&p, filetime::FileTime::from_unix_time(secs as i64, ns));
            }
        }
    }
}

/// Runs `f` with the interception switched off for this thread.
pub fn busy<R>(f: impl FnOnce() -> R) -> R {
    let old = BUSY.with(|b| b.replace(true));
    let r = f();
    BUSY.with(|b| b.set(old));
    r
}

/// Files of a directory tree: relative path -> (content, mtime seconds, nanoseconds); directories
/// have no content.
pub type Tree = BTreeMap<PathBuf, Option<(Vec<u8>, i64, u32)>>;
pub fn snapshot(root: &Path) -> Tree {
    fn walk(base: &Path, d: &Path, out: &mut Tree) {
        let Ok(rd) = std::fs::read_dir(d) else { return };
        for e in rd.flatten() {
            let p = e.path();
            let rel = p.strip_prefix(base).unwrap().to_owned();
            let Ok(m) = std::fs::symlink_metadata(&p) else { continue };
            if m.is_dir() {
                out.insert(rel, None);
                walk(base, &p, out);
            } else {
                let ft = filetime::FileTime::from_last_modification_time(&m);
                out.insert(rel, Some((std::fs::read(&p).unwrap_or_default(), ft.unix_seconds(), ft.nanoseconds())));
            }
        }
    }
    busy(|| {
        let mut t = Tree::new();
        walk(root, root, &mut t);
        t
    })
}
pub fn restore(root: &Path, t: &Tree) {
    busy(|| {
        let _ = std::fs::remove_dir_all(root);
        std::fs::create_dir_all(root).unwrap();
        for (p, c) in t {
            let p = root.join(p);
            match c {
                None => std::fs::create_dir_all(&p).unwrap(),
                Some((b, s, n)) => {
                    std::fs::create_dir_all(p.parent().unwrap()).unwrap();
                    std::fs::write(&p, b).unwrap();
                    filetime::set_file_mtime(&p, filetime::FileTime::from_unix_time(*s, *n)).unwrap();
                }
            }
        }
    })
}

// ------------------------------------------------------------------ interception

#[inline]
unsafe fn raw(n: c_long, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> isize {
    let r: isize;
    std::arch::asm!("syscall",
        inlateout("rax") n as isize => r,
        in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f,
        lateout("rcx") _, lateout("r11") _, options(nostack));
    r
}
#[inline]
unsafe fn ret(r: isize) -> isize {
    if r < 0 && r > -4096 {
        *libc::__errno_location() = -r as i32;
        -1
    } else {
        r
    }
}
fn errno(e: i32) -> isize {
    unsafe { *libc::__errno_location() = e };
    -1
}

fn cur() -> Option<&'static World> {
    let p = CUR.with(|c| c.get());
    if p.is_null() {
        None
    } else {
        Some(unsafe { &*p })
    }
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: libc::clockid_t, ts: *mut libc::timespec) -> c_int {
    let Some(w) = cur() else {
        return ret(raw(libc::SYS_clock_gettime, clk as usize, ts as usize, 0, 0, 0, 0)) as c_int;
    };
    if !BUSY.with(|b| b.replace(true)) {
        if let Some(t0) = T0.with(|t| t.get()) {
            if tokio::runtime::Handle::try_current().is_ok() {
                let ns = (tokio::time::Instant::now() - t0).as_nanos() as u64;
                w.off.fetch_max(ns, Ordering::SeqCst);
            }
        }
        BUSY.with(|b| b.set(false));
    }
    let off = w.off.load(Ordering::SeqCst);
    let base = match clk {
        libc::CLOCK_REALTIME | libc::CLOCK_REALTIME_COARSE => WALL0,
        libc::CLOCK_MONOTONIC | libc::CLOCK_MONOTONIC_RAW | libc::CLOCK_MONOTONIC_COARSE | libc::CLOCK_BOOTTIME => MONO0,
        _ => return ret(raw(libc::SYS_clock_gettime, clk as usize, ts as usize, 0, 0, 0, 0)) as c_int,
    };
    (*ts).tv_sec = (base + off / 1_000_000_000) as i64;
    (*ts).tv_nsec = (off % 1_000_000_000) as i64;
    0
}

/// Descriptors of files below a world's root.
static FDS: [AtomicU8; 4096] = [const { AtomicU8::new(0) }; 4096];

fn hook(kind: Kind, path: Option<PathBuf>, to: Option<PathBuf>, len: usize) -> Act {
    let Some(w) = cur() else { return Act::Go };
    if w.hooked.load(Ordering::Relaxed) == 0 || BUSY.with(|b| b.get()) {
        return Act::Go;
    }
    let Some(path) = path else { return Act::Go };
    busy(|| {
        if !path.starts_with(&*w.root.lock().unwrap()) {
            return Act::Go;
        }
        let op = Op { kind, path, to, len };
        // A gate blocks inside the hook: the lock must not be held meanwhile.
        let h = w.hook.lock().unwrap().clone();
        match h {
            Some(h) => h(&op),
            None => Act::Go,
        }
    })
}
fn watching() -> bool {
    cur().is_some_and(|w| w.hooked.load(Ordering::Relaxed) != 0) && !BUSY.with(|b| b.get())
}
unsafe fn at(dir: c_int, p: *const c_char) -> Option<PathBuf> {
    use std::os::unix::ffi::OsStrExt;
    if p.is_null() {
        return None;
    }
    let s = Path::new(std::ffi::OsStr::from_bytes(CStr::from_ptr(p).to_bytes()));
    if s.is_absolute() {
        return Some(s.to_owned());
    }
    if dir == libc::AT_FDCWD {
        return None;
    }
    Some(fd_path(dir)?.join(s))
}
fn fd_path(fd: c_int) -> Option<PathBuf> {
    busy(|| std::fs::read_link(format!("/proc/self/fd/{fd}")).ok())
}

unsafe fn do_open(dir: c_int, p: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    let mut mark = false;
    if watching() {
        if let Some(path) = at(dir, p) {
            let kind = if flags & (libc::O_CREAT | libc::O_TRUNC) != 0 { Kind::Create } else { Kind::Open };
            mark = true;
            if let Act::Err(e) = hook(kind, Some(path), None, 0) {
                return errno(e) as c_int;
            }
        }
    }
    let r = ret(raw(libc::SYS_openat, dir as isize as usize, p as usize, (flags | libc::O_CLOEXEC) as usize, mode as usize, 0, 0)) as c_int;
    if mark && r >= 0 {
        if let Some(f) = FDS.get(r as usize) {
            f.store(1, Ordering::Relaxed);
        }
    }
    r
}
#[no_mangle]
pub unsafe extern "C" fn open64(p: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    do_open(libc::AT_FDCWD, p, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn open(p: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    do_open(libc::AT_FDCWD, p, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat64(d: c_int, p: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    do_open(d, p, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat(d: c_int, p: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    do_open(d, p, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    if let Some(f) = FDS.get(fd as usize) {
        f.store(0, Ordering::Relaxed);
    }
    ret(raw(libc::SYS_close, fd as usize, 0, 0, 0, 0, 0)) as c_int
}
fn tracked(fd: c_int) -> bool {
    FDS.get(fd as usize).is_some_and(|f| f.load(Ordering::Relaxed) != 0)
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, n: usize) -> isize {
    let mut n = n;
    if tracked(fd) && watching() {
        match hook(Kind::Write, fd_path(fd), None, n) {
            Act::Err(e) => return errno(e),
            Act::Short(k) => n = n.min(k),
            Act::Go => {}
        }
    }
    ret(raw(libc::SYS_write, fd as usize, buf as usize, n, 0, 0, 0))
}
#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: c_int, buf: *const c_void, n: usize, off: i64) -> isize {
    let mut n = n;
    if tracked(fd) && watching() {
        match hook(Kind::Write, fd_path(fd), None, n) {
            Act::Err(e) => return errno(e),
            Act::Short(k) => n = n.min(k),
            Act::Go => {}
        }
    }
    ret(raw(libc::SYS_pwrite64, fd as usize, buf as usize, n, off as usize, 0, 0))
}
#[no_mangle]
pub unsafe extern "C" fn pwrite(fd: c_int, buf: *const c_void, n: usize, off: i64) -> isize {
    pwrite64(fd, buf, n, off)
}
#[no_mangle]
pub unsafe extern "C" fn fcntl64(fd: c_int, cmd: c_int, arg: usize) -> c_int {
    let r = ret(raw(libc::SYS_fcntl, fd as usize, cmd as usize, arg, 0, 0, 0)) as c_int;
    if matches!(cmd, libc::F_DUPFD | libc::F_DUPFD_CLOEXEC) && r >= 0 && tracked(fd) {
        if let Some(f) = FDS.get(r as usize) {
            f.store(1, Ordering::Relaxed);
        }
    }
    r
}
#[no_mangle]
pub unsafe extern "C" fn fcntl(fd: c_int, cmd: c_int, arg: usize) -> c_int {
    fcntl64(fd, cmd, arg)
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: c_int, len: i64) -> c_int {
    if tracked(fd) && watching() {
        if let Act::Err(e) = hook(Kind::Truncate, fd_path(fd), None, len as usize) {
            return errno(e) as c_int;
        }
    }
    ret(raw(libc::SYS_ftruncate, fd as usize, len as usize, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate(fd: c_int, len: i64) -> c_int {
    ftruncate64(fd, len)
}
unsafe fn do_rename(da: c_int, a: *const c_char, db: c_int, b: *const c_char, flags: c_uint) -> c_int {
    if watching() {
        if let Act::Err(e) = hook(Kind::Rename, at(da, a), at(db, b), 0) {
            return errno(e) as c_int;
        }
    }
    ret(raw(libc::SYS_renameat2, da as isize as usize, a as usize, db as isize as usize, b as usize, flags as usize, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn rename(a: *const c_char, b: *const c_char) -> c_int {
    do_rename(libc::AT_FDCWD, a, libc::AT_FDCWD, b, 0)
}
#[no_mangle]
pub unsafe extern "C" fn renameat(da: c_int, a: *const c_char, db: c_int, b: *const c_char) -> c_int {
    do_rename(da, a, db, b, 0)
}
#[no_mangle]
pub unsafe extern "C" fn renameat2(da: c_int, a: *const c_char, db: c_int, b: *const c_char, f: c_uint) -> c_int {
    do_rename(da, a, db, b, f)
}
#[no_mangle]
pub unsafe extern "C" fn link(a: *const c_char, b: *const c_char) -> c_int {
    linkat(libc::AT_FDCWD, a, libc::AT_FDCWD, b, 0)
}
#[no_mangle]
pub unsafe extern "C" fn linkat(da: c_int, a: *const c_char, db: c_int, b: *const c_char, f: c_int) -> c_int {
    if watching() {
        if let Act::Err(e) = hook(Kind::Rename, at(da, a), at(db, b), 0) {
            return errno(e) as c_int;
        }
    }
    ret(raw(libc::SYS_linkat, da as isize as usize, a as usize, db as isize as usize, b as usize, f as usize, 0)) as c_int
}
unsafe fn do_unlink(d: c_int, p: *const c_char, flags: c_int) -> c_int {
    if watching() {
        let kind = if flags & libc::AT_REMOVEDIR != 0 { Kind::Rmdir } else { Kind::Unlink };
        if let Act::Err(e) = hook(kind, at(d, p), None, 0) {
            return errno(e) as c_int;
        }
    }
    ret(raw(libc::SYS_unlinkat, d as isize as usize, p as usize, flags as usize, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn unlink(p: *const c_char) -> c_int {
    do_unlink(libc::AT_FDCWD, p, 0)
}
#[no_mangle]
pub unsafe extern "C" fn rmdir(p: *const c_char) -> c_int {
    do_unlink(libc::AT_FDCWD, p, libc::AT_REMOVEDIR)
}
#[no_mangle]
pub unsafe extern "C" fn unlinkat(d: c_int, p: *const c_char, f: c_int) -> c_int {
    do_unlink(d, p, f)
}
#[no_mangle]
pub unsafe extern "C" fn mkdir(p: *const c_char, mode: c_uint) -> c_int {
    if watching() {
        if let Act::Err(e) = hook(Kind::Mkdir, at(libc::AT_FDCWD, p), None, 0) {
            return errno(e) as c_int;
        }
    }
    ret(raw(libc::SYS_mkdirat, libc::AT_FDCWD as isize as usize, p as usize, mode as usize, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn utimensat(d: c_int, p: *const c_char, ts: *const libc::timespec, f: c_int) -> c_int {
    if watching() {
        let path = if p.is_null() { fd_path(d) } else { at(d, p) };
        if let Act::Err(e) = hook(Kind::Utime, path, None, 0) {
            return errno(e) as c_int;
        }
    }
    ret(raw(libc::SYS_utimensat, d as isize as usize, p as usize, ts as usize, f as usize, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn futimens(fd: c_int, ts: *const libc::timespec) -> c_int {
    utimensat(fd, std::ptr::null(), ts, 0)
}
#[no_mangle]
pub unsafe extern "C" fn statx(d: c_int, p: *const c_char, flags: c_int, mask: c_uint, buf: *mut c_void) -> c_int {
    if watching() && !p.is_null() && *p != 0 {
        if let Act::Err(e) = hook(Kind::Stat, at(d, p), None, 0) {
            return errno(e) as c_int;
        }
    }
    ret(raw(libc::SYS_statx, d as isize as usize, p as usize, flags as usize, mask as usize, buf as usize, 0)) as c_int
}
/// `filetime` and others go through `syscall`.
#[no_mangle]
pub unsafe extern "C" fn syscall(n: c_long, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> c_long {
    match n {
        libc::SYS_utimensat => utimensat(a as c_int, b as _, c as _, d as c_int) as c_long,
        libc::SYS_statx => statx(a as c_int, b as _, c as c_int, d as c_uint, e as _) as c_long,
        libc::SYS_renameat2 => do_rename(a as c_int, b as _, c as c_int, d as _, e as c_uint) as c_long,
        _ => ret(raw(n, a, b, c, d, e, f)) as c_long,
    }
}
