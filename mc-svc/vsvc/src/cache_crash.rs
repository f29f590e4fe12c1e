//! C21: crashes and failing file operations never produce a wrong item.
use super::*;
use crate::sys::{self, Act, Kind, Op, Tree};
use std::sync::Mutex;

/// One step of a history.
#[derive(Clone, Debug)]
enum Do {
    /// Requests the item; the computation, if there is one, does this.
    Ask(Dir),
    /// Requests from a process that knows the newer version.
    AskNew(Dir),
    Pass(u64),
    Restart,
}

fn scenarios(thorough: bool) -> Vec<(String, Vec<Do>)> {
    use CacheError::*;
    let ok = |b: &[u8]| Dir::Ok(b.to_vec());
    let big: Vec<u8> = (0..70_000u32).map(|i| (i % 251) as u8).collect();
    let outcomes: Vec<(&str, Dir)> = vec![
        ("content", ok(b"the complete content")),
        ("big content", Dir::Ok(big)),
        ("swapped content", Dir::Swap(b"unpacked content".to_vec())),
        ("missing", Dir::Dirty(b"leftover bytes".to_vec(), NotFound)),
        ("malformed", Dir::Dirty(b"leftover".to_vec(), Malformed("bad magic".into()))),
        ("denied", Dir::Dirty(b"leftover bytes that are longer than the error".to_vec(), PermissionDenied("403".into()))),
        ("timeout", Dir::err(Timeout(Duration::from_secs(5)))),
        ("failed", Dir::Dirty(vec![b'l'; 9000], DownloadError("502 Bad Gateway".into()))),
        ("unsupported", Dir::err(Unsupported("format".into()))),
        ("internal", Dir::Dirty(b"half of the con".to_vec(), InternalError)),
    ];
    let mut v = vec![];
    for (n, d) in &outcomes {
        v.push((format!("fresh {n}"), vec![Do::Ask(d.clone())]));
        // an expired entry is replaced
        for (n0, d0, wait) in [
            ("content", ok(b"older content, quite a bit longer than what follows"), 25 * 3600),
            ("error", Dir::err(DownloadError("an older error message that is long".into())), 3700),
        ] {
            v.push((format!("{n0} then {n}"), vec![Do::Ask(d0), Do::Pass(wait), Do::Ask(d.clone())]));
        }
        v.push((format!("older version then {n}"), vec![Do::Ask(ok(b"old version")), Do::Restart, Do::AskNew(d.clone())]));
    }
    v.push(("used again after two hours".into(), vec![Do::Ask(ok(b"content")), Do::Pass(7200), Do::Ask(ok(b"other"))]));
    if thorough {
        for (n, d) in &outcomes {
            for (n1, d1) in &outcomes {
                v.push((
                    format!("{n}, {n1}, content"),
                    vec![Do::Ask(d.clone()), Do::Pass(3700), Do::Restart, Do::Ask(d1.clone()), Do::Pass(25 * 3600), Do::Ask(ok(b"last content"))],
                ));
                v.push((
                    format!("older version {n}, then {n1}, again"),
                    vec![Do::Ask(d.clone()), Do::Restart, Do::AskNew(d1.clone()), Do::Pass(3700), Do::AskNew(ok(b"last content"))],
                ));
            }
        }
    }
    v
}

#[derive(Clone, Default)]
struct Seen {
    /// Everything a computation produced so far, the last is the newest.
    made: Vec<Got>,
}

fn visible(root: &Path, p: &Path) -> bool {
    !p.starts_with(root.join("tmp")) && p.extension() != Some(std::ffi::OsStr::new("metadata")) && p.extension().is_none()
}

/// What is in the way of the operations of a history.
#[derive(Clone, Copy, Debug)]
enum Fault {
    None,
    /// The n-th operation fails.
    Err(usize, i32),
    /// The n-th operation writes only half, the next one fails.
    Torn(usize),
}

struct Run {
    /// State before each operation, and at the end.
    points: Vec<(String, Tree, u64, Seen)>,
    ops: usize,
    answers: Vec<(Got, Got)>,
    in_place: Vec<String>,
}

fn execute(steps: &[Do], fault: Fault, root: &Path, record: bool) -> Run {
    let run = Arc::new(Mutex::new(Run { points: vec![], ops: 0, answers: vec![], in_place: vec![] }));
    let seen: Arc<Mutex<Seen>> = Default::default();
    let next: Arc<Mutex<Dir>> = Arc::new(Mutex::new(Dir::Panic));
    {
        let (next, seen) = (next.clone(), seen.clone());
        behave(move |_, _| {
            let d = next.lock().unwrap().clone();
            if let Some(g) = d.outcome() {
                seen.lock().unwrap().made.push(g);
            }
            d
        });
    }
    ctl::run(root, async {
        let w = world();
        let hook = {
            let (run, seen, root) = (run.clone(), seen.clone(), root.to_owned());
            let torn = std::sync::atomic::AtomicBool::new(false);
            move |op: &Op| -> Act {
                if !op.kind.mutates() {
                    return Act::Go;
                }
                let mut r = run.lock().unwrap();
                r.ops += 1;
                let n = r.ops;
                if matches!(op.kind, Kind::Write | Kind::Truncate) && visible(&root, &op.path) {
                    r.in_place.push(format!("{:?} {}", op.kind, op.path.display()));
                }
                if record {
                    let t = sys::snapshot(&root);
                    let rel = op.path.strip_prefix(&root).unwrap_or(&op.path).display().to_string();
                    let s = seen.lock().unwrap().clone();
                    if op.kind == Kind::Write && op.len > 1 {
                        // the file with only a part of the write in it
                        let mut half = t.clone();
                        if let Some(Some((b, _, _))) = half.get_mut(op.path.strip_prefix(&root).unwrap()) {
                            b.extend(std::iter::repeat(b'?').take(op.len / 2));
                            r.points.push((format!("half of operation {n}: {:?} {rel}", op.kind), half, world_ns(w), s.clone()));
                        }
                    }
                    r.points.push((format!("before operation {n}: {:?} {rel}", op.kind), t, world_ns(w), s));
                }
                match fault {
                    Fault::Err(k, e) if k == n => Act::Err(e),
                    Fault::Torn(k) if k == n && op.kind == Kind::Write => {
                        torn.store(true, std::sync::atomic::Ordering::SeqCst);
                        Act::Short(op.len / 2)
                    }
                    Fault::Torn(k) if n == k + 1 && torn.load(std::sync::atomic::Ordering::SeqCst) => Act::Err(libc::ENOSPC),
                    _ => Act::Go,
                }
            }
        };
        w.set_hook(Some(Arc::new(hook)));
        let mut old = cacher::<0>(root, DISK);
        let mut new: Option<Cacher<Req<1>>> = None;
        for s in steps {
            match s {
                Do::Pass(t) => ctl::pass(Duration::from_secs(*t)).await,
                Do::Restart => {
                    old = cacher::<0>(root, DISK);
                    new = None;
                }
                Do::Ask(d) | Do::AskNew(d) => {
                    *next.lock().unwrap() = d.clone();
                    let got = if matches!(s, Do::Ask(_)) {
                        ask(&old, "a").await
                    } else {
                        let c = new.get_or_insert_with(|| cacher::<1>(root, DISK)).clone();
                        ask(&c, "a").await
                    };
                    settle().await;
                    settle().await;
                    run.lock().unwrap().answers.push((got, d.outcome().unwrap()));
                }
            }
        }
        w.set_hook(None);
        if record {
            let t = sys::snapshot(root);
            let s = seen.lock().unwrap().clone();
            run.lock().unwrap().points.push(("the end".into(), t, world_ns(w), s));
        }
    });
    let r = std::mem::replace(&mut *run.lock().unwrap(), Run { points: vec![], ops: 0, answers: vec![], in_place: vec![] });
    r
}
fn world_ns(w: &sys::World) -> u64 {
    w.now_ns()
}

const AGAIN: &[u8] = b"computed again";

/// A new process finds this tree.  Returns its answers and the number of computations.
fn recover(tree: &Tree, now: u64, new: bool, clean: bool, root: &Path) -> (Vec<Got>, u32) {
    sys::restore(root, tree);
    reset_counts();
    behave(|_, _| Dir::Ok(AGAIN.to_vec()));
    let w = world();
    w.reset(root);
    w.advance(now);
    ctl::resume(async {
        w.restamp();
        if clean {
            let cfg = config(root, true);
            let c = Caches::from_config(&cfg).unwrap();
            c.clear_tmp(&cfg).unwrap();
        }
        let mut out = vec![];
        let mut n = 0;
        for i in 0..2 {
            // the second request reads what the first left on disk
            if new {
                let c = cacher::<1>(root, DISK);
                out.push(ask(&c, "a").await);
                // served from disk, or computed because nothing was there
                if i == 0 {
                    n = computed("a");
                }
                settle().await;
            } else {
                let c = cacher::<0>(root, DISK);
                out.push(ask(&c, "a").await);
                if i == 0 {
                    n = computed("a");
                }
                settle().await;
            }
        }
        (out, n)
    })
}

fn allowed(seen: &Seen, got: &Got) -> bool {
    got.as_deref() == Ok(AGAIN) || seen.made.iter().any(|m| m == got && *m != Err(CacheError::InternalError))
}

pub fn c21() {
    let check = Check::new(
        "C21",
        "fault_injection_enumeration",
        "every history x (crash before, after and in the middle of every file operation | failure of every file operation) followed by a restart",
    );
    check.assume("a crash ends the process, not the machine: completed file operations survive it");
    let sc = scenarios(check.thorough());
    vmc::parallel(sc.len(), |i| {
        let (name, steps) = &sc[i];
        let dir = Scratch::new("c21");
        let root = dir.0.join("r");
        std::fs::create_dir_all(&root).unwrap();
        let base = execute(steps, Fault::None, &root, true);
        check.extra_add("histories", 1);
        for (got, _) in &base.answers {
            if !matches!(got, Ok(_)) && !base.answers.iter().any(|a| a.1 == *got) {
                check.fail(&format!("{name}: answer"), json!({"got": show(got)}));
            }
        }
        for p in &base.in_place {
            check.fail(&format!("{name}: a visible file is modified in place"), json!({"operation": p}));
        }
        let newer = steps.iter().any(|s| matches!(s, Do::AskNew(_)));
        let mig = newer.then(|| steps.iter().position(|s| matches!(s, Do::AskNew(_))).unwrap());
        // ---- crashes
        let out = dir.0.join("x");
        for (label, tree, now, seen) in &base.points {
            for clean in [false, true] {
                let k = || format!("{name}: crash {label}, tmp cleared {clean}");
                check.guarded(k, || {
                    let (answers, n) = recover(tree, *now, newer, clean, &out);
                    for (i, a) in answers.iter().enumerate() {
                        if !allowed(seen, a) {
                            check.fail(&format!("{}: answer {} after the restart", k(), i + 1), json!({"got": show(a), "made": seen.made.iter().map(show).collect::<Vec<_>>()}));
                        }
                    }
                    let last = seen.made.last();
                    let keeps = !matches!(last, Some(Err(CacheError::InternalError)) | Some(Err(CacheError::Malformed(_))) | None);
                    if label == "the end" && keeps && n != 0 && !(newer && last.is_some_and(|l| l.is_err())) {
                        check.fail(&format!("{}: the entry is lost", k()), json!({"computations": n}));
                    }
                    // An older version stays usable until the new one is there.
                    if newer && seen.made.len() >= 2 && mig == Some(2) && steps.len() == 3 && last.is_some_and(|l| l.is_ok()) && answers[0].as_deref() == Ok(AGAIN) {
                        check.fail(&format!("{}: the migrated entry is lost", k()), json!({}));
                    }
                });
                check.eval(Some(vmc::hash64(&k())));
            }
        }
        // ---- failing operations
        for n in 1..=base.ops {
            let mut faults = vec![Fault::Torn(n)];
            for e in [libc::ENOSPC, libc::EIO, libc::EACCES, libc::ENOENT] {
                faults.push(Fault::Err(n, e));
            }
            for f in faults {
                let k = || format!("{name}: {f:?}");
                check.guarded(k, || {
                    let _ = std::fs::remove_dir_all(&out);
                    std::fs::create_dir_all(&out).unwrap();
                    let r = match vmc::no_panic(|| execute(steps, f, &out, false)) {
                        Ok(r) => r,
                        // the cache directory itself cannot be created: that stops the start
                        Err(p) if p.contains("called `Result::unwrap()`") => return,
                        Err(p) => panic!("{p}"),
                    };
                    let made: Vec<Got> = base.points.last().unwrap().3.made.clone();
                    let wanted: Vec<&Got> = r.answers.iter().map(|a| &a.1).chain(&made).collect();
                    for (i, (got, _)) in r.answers.iter().enumerate() {
                        if *got != Err(CacheError::InternalError) && !wanted.iter().any(|w| *w == got) {
                            check.fail(&format!("{}: answer {}", k(), i + 1), json!({"got": show(got)}));
                        }
                    }
                    let now = base.points.last().unwrap().2;
                    let tree = sys::snapshot(&out);
                    let all = Seen { made: wanted.into_iter().cloned().collect() };
                    let (answers, _) = recover(&tree, now, newer, false, &out);
                    for (i, a) in answers.iter().enumerate() {
                        if !allowed(&all, a) {
                            check.fail(&format!("{}: answer {} after the restart", k(), i + 1), json!({"got": show(a)}));
                        }
                    }
                });
                check.eval(Some(vmc::hash64(&k())));
            }
        }
        check.sample(|| json!({"history": name, "operations": base.ops, "crash points": base.points.iter().map(|p| p.0.clone()).collect::<Vec<_>>()}));
    });
    check.finish()
}
