//! Interrupts a thread after any number of its machine instructions.
//!
//! The thread runs with the processor's trap flag set.  After instruction number `at` it is stopped
//! until the other thread has done what it wanted, or is itself stuck waiting for the first one.
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicI32, AtomicU32, AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Mutex, Once};

/// Where a thread is: instruction, depth of its stack, how often it has been there before.
pub type Place = (usize, usize, usize);
pub struct Step {
    at: Place,
    /// the depth of the stack at the first instruction
    base: AtomicUsize,
    /// all places on the way, if nobody is interested in one
    way: Mutex<Vec<(usize, usize)>>,
    count: AtomicUsize,
    /// 1: interrupted, 2: over
    go: AtomicU32,
    back: AtomicBool,
    stuck: AtomicBool,
    other: AtomicI32,
}
thread_local! {
    static STEP: Cell<*const Step> = const { Cell::new(std::ptr::null()) };
}

impl Step {
    fn tell(&self, n: u32) {
        if self.go.compare_exchange(0, n, SeqCst, SeqCst).is_ok() {
            unsafe { sys(libc::SYS_futex, self.go.as_ptr() as usize, libc::FUTEX_WAKE as usize, 1) };
        }
    }
}
unsafe fn sys(n: libc::c_long, a: usize, b: usize, c: usize) -> isize {
    sys4(n, a, b, c, 0)
}
unsafe fn sys4(n: libc::c_long, a: usize, b: usize, c: usize, d: usize) -> isize {
    let r: isize;
    std::arch::asm!("syscall", inlateout("rax") n as isize => r, in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d,
        lateout("rcx") _, lateout("r11") _, options(nostack));
    r
}
/// Whether the thread sleeps.
unsafe fn sleeps(tid: i32) -> bool {
    let mut path = *b"/proc/self/task/0000000000/stat\0";
    let mut t = tid;
    for i in (16..26).rev() {
        path[i] = b'0' + (t % 10) as u8;
        t /= 10;
    }
    // no leading zeros
    let first = (16..26).find(|&i| path[i] != b'0').unwrap_or(25);
    path.copy_within(first.., 16);
    let fd = sys(libc::SYS_open, path.as_ptr() as usize, libc::O_RDONLY as usize, 0);
    if fd < 0 {
        return false;
    }
    let mut b = [0u8; 128];
    let n = sys(libc::SYS_read, fd as usize, b.as_mut_ptr() as usize, b.len());
    sys(libc::SYS_close, fd as usize, 0, 0);
    let b = &b[..n.max(0) as usize];
    b.iter().rposition(|&c| c == b')').is_some_and(|i| b.get(i + 2) == Some(&b'S'))
}
extern "C" fn trap(_: libc::c_int, _: *mut libc::siginfo_t, ctx: *mut libc::c_void) {
    unsafe {
        let flags = &mut (*(ctx as *mut libc::ucontext_t)).uc_mcontext.gregs[libc::REG_EFL as usize];
        let s = STEP.with(|s| s.get());
        if s.is_null() {
            *flags &= !0x100;
            return;
        }
        let s = &*s;
        let regs = &(*(ctx as *mut libc::ucontext_t)).uc_mcontext.gregs;
        let (ip, sp) = (regs[libc::REG_RIP as usize] as usize, regs[libc::REG_RSP as usize] as usize);
        if s.base.load(SeqCst) == 0 {
            s.base.store(sp, SeqCst);
        }
        let depth = s.base.load(SeqCst).wrapping_sub(sp);
        if s.at.0 == 0 {
            // room was made before
            if let Ok(mut w) = s.way.try_lock() {
                if w.len() < w.capacity() {
                    w.push((ip, depth));
                }
            }
            return;
        }
        if (ip, depth) != (s.at.0, s.at.1) || s.count.fetch_add(1, SeqCst) != s.at.2 {
            return;
        }
        *flags &= !0x100;
        s.tell(1);
        let mut asleep = 0;
        let mut last = core::arch::x86_64::_rdtsc();
        while !s.back.load(SeqCst) {
            sys(libc::SYS_sched_yield, 0, 0, 0);
            let now = core::arch::x86_64::_rdtsc();
            if now.wrapping_sub(last) > 300_000 {
                last = now;
                asleep = if sleeps(s.other.load(SeqCst)) { asleep + 1 } else { 0 };
                if asleep == 4 {
                    s.stuck.store(true, SeqCst);
                    break;
                }
            }
        }
    }
}

/// A thread that was started and interrupted, unless it is over already.
pub struct Interrupted<A> {
    step: Arc<Step>,
    thread: std::thread::JoinHandle<std::thread::Result<A>>,
}
/// What happened.
pub struct Seen<A> {
    pub result: A,
    /// all places, without an interruption
    pub way: Vec<(usize, usize)>,
    pub interrupted: bool,
    /// the other thread had to wait for the interrupted one
    pub stuck: bool,
}

/// Starts `first` on a thread of its own and returns at the place `at`, or after its end.
pub fn start<A: Send + 'static>(at: Option<Place>, before: impl FnOnce() + Send + 'static, first: impl FnOnce() -> A + Send + 'static) -> Interrupted<A> {
    static ONCE: Once = Once::new();
    ONCE.call_once(|| unsafe {
        let mut a: libc::sigaction = std::mem::zeroed();
        a.sa_sigaction = trap as usize;
        a.sa_flags = libc::SA_SIGINFO | libc::SA_RESTART;
        assert_eq!(libc::sigaction(libc::SIGTRAP, &a, std::ptr::null_mut()), 0);
    });
    let f = || AtomicBool::new(false);
    let me = unsafe { sys(libc::SYS_gettid, 0, 0, 0) } as i32;
    let step = Arc::new(Step { at: at.unwrap_or((0, 0, 0)), base: AtomicUsize::new(0), way: Mutex::new(Vec::with_capacity(if at.is_none() { 1_000_000 } else { 0 })), count: AtomicUsize::new(0), go: AtomicU32::new(0), back: f(), stuck: f(), other: AtomicI32::new(me) });
    let s = step.clone();
    let thread = std::thread::spawn(move || {
        before();
        STEP.with(|x| x.set(&*s));
        let result = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            unsafe { std::arch::asm!("pushfq", "or qword ptr [rsp], 0x100", "popfq") };
            let r = first();
            unsafe { std::arch::asm!("pushfq", "and qword ptr [rsp], -257", "popfq") };
            r
        }));
        unsafe { std::arch::asm!("pushfq", "and qword ptr [rsp], -257", "popfq") };
        STEP.with(|x| x.set(std::ptr::null()));
        s.tell(2);
        result
    });
    while step.go.load(SeqCst) == 0 {
        // waits until the number is no longer 0
        unsafe { sys4(libc::SYS_futex, step.go.as_ptr() as usize, libc::FUTEX_WAIT as usize, 0, 0) };
    }
    Interrupted { step, thread }
}
impl<A> Interrupted<A> {
    /// Lets the thread go on to its end.
    pub fn end(self) -> Seen<A> {
        let s = self.step;
        let interrupted = s.go.load(SeqCst) == 1;
        s.back.store(true, SeqCst);
        let result = self.thread.join().unwrap().unwrap_or_else(|p| std::panic::resume_unwind(p));
        let way = std::mem::take(&mut *s.way.lock().unwrap());
        Seen { result, way, interrupted, stuck: s.stuck.load(SeqCst) }
    }
}

/// Whether the instruction belongs to this program and not to a shared library.
pub fn ours(ip: usize) -> bool {
    extern "C" {
        static __executable_start: u8;
        static etext: u8;
    }
    unsafe { (&raw const __executable_start as usize..&raw const etext as usize).contains(&ip) }
}
