//! The controller: a run of the real code on one thread, whose tasks stop at gates.  The harness
//! decides what happens next at every point where the program is quiescent.

use crate::sys::World;
use std::any::Any;
use std::cell::RefCell;
use std::future::Future;
use std::path::Path;
use std::time::Duration;
use tokio::sync::oneshot;

pub type Word = Box<dyn Any + Send>;

struct Gate {
    label: String,
    tx: oneshot::Sender<Word>,
}

thread_local! {
    static WORLD: RefCell<Option<&'static World>> = const { RefCell::new(None) };
    static GATES: RefCell<Vec<Gate>> = const { RefCell::new(vec![]) };
    static LOG: RefCell<Vec<String>> = const { RefCell::new(vec![]) };
}

/// This thread's world.
pub fn world() -> &'static World {
    WORLD.with(|w| *w.borrow_mut().get_or_insert_with(World::new))
}

/// Makes another thread's world this thread's.
pub fn adopt(x: &'static World) {
    WORLD.with(|w| *w.borrow_mut() = Some(x))
}

pub fn log(s: impl Into<String>) {
    LOG.with(|l| l.borrow_mut().push(s.into()))
}
pub fn take_log() -> Vec<String> {
    LOG.with(|l| std::mem::take(&mut *l.borrow_mut()))
}

/// Waits at a gate until the controller answers with a `T`.  Never returns if the controller
/// drops the gate.
pub fn gate<T: 'static>(label: impl Into<String>) -> impl Future<Output = T> + Send {
    let (tx, rx) = oneshot::channel();
    GATES.with(|g| g.borrow_mut().push(Gate { label: label.into(), tx }));
    async move {
        match rx.await {
            Ok(w) => *w.downcast::<T>().expect("type of the answer"),
            Err(_) => std::future::pending().await,
        }
    }
}

/// Labels of the gates somebody waits at.
pub fn waiting() -> Vec<String> {
    GATES.with(|g| {
        let mut g = g.borrow_mut();
        g.retain(|x| !x.tx.is_closed());
        g.sort_by(|a, b| a.label.cmp(&b.label));
        g.iter().map(|x| x.label.clone()).collect()
    })
}
/// Opens the i-th of the `waiting` gates.
pub fn answer<T: Send + 'static>(i: usize, word: T) {
    let g = GATES.with(|g| g.borrow_mut().remove(i));
    let _ = g.tx.send(Box::new(word));
}

/// Lets the program run until nothing can happen without the controller (or the passing of time).
pub async fn settle() {
    tokio::time::sleep(Duration::from_millis(1)).await;
    world().restamp();
}

/// Lets time pass.
pub async fn pass(d: Duration) {
    tokio::time::sleep(d).await;
    world().restamp();
}

/// Runs `f` in a fresh world (clock at its start, files below `root` are watched).
pub fn run<R>(root: &Path, f: impl Future<Output = R>) -> R {
    let w = world();
    w.reset(root);
    resume(f)
}

/// Runs `f` in the world as an earlier run left it: a restarted process.
pub fn resume<R>(f: impl Future<Output = R>) -> R {
    resume_as(0, f)
}
/// The same for a thread that acts as another process.
pub fn resume_as<R>(me: usize, f: impl Future<Output = R>) -> R {
    let w = world();
    GATES.with(|g| g.borrow_mut().clear());
    w.join(me);
    let rt = tokio::runtime::Builder::new_current_thread()
        .enable_all()
        .start_paused(true)
        .max_blocking_threads(4)
        .on_thread_start(move || w.join(me))
        .build()
        .unwrap();
    let r = rt.block_on(async {
        w.attach_runtime();
        let r = f.await;
        w.now_ns();
        World::detach_runtime();
        r
    });
    GATES.with(|g| g.borrow_mut().clear());
    drop(rt);
    World::leave();
    r
}
