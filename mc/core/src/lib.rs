//! Shared machinery of the checks: exhaustive enumeration, counters, evidence, known findings.
//!
//! Every check is one process that enumerates a stated finite space completely.  `Check` counts
//! what was really executed and writes the evidence file; `explore` is the stateless depth-first
//! explorer (a run is a sequence of choices, all choice sequences are enumerated by replay).

use std::any::Any;
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::Instant;

pub use serde_json;
use serde_json::{json, Map, Value};

pub fn hash64<T: Hash + ?Sized>(t: &T) -> u64 {
    let mut h = DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

pub fn verif_dir() -> PathBuf {
    std::env::var_os("VERIF_DIR").map(PathBuf::from).unwrap_or_else(|| "/verif".into())
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

const SHARDS: usize = 64;
/// Violations kept (the first is reported, some more are written into the replay file).
const KEEP: usize = 25;

pub struct Check {
    pub id: &'static str,
    pub tier: Tier,
    pub seed: u64,
    level: &'static str,
    rule: String,
    start: Instant,
    evals: AtomicU64,
    transitions: AtomicU64,
    traces: AtomicU64,
    distinct: Vec<Mutex<HashSet<u64>>>,
    samples: Mutex<Vec<Value>>,
    extra: Mutex<Map<String, Value>>,
    assumptions: Mutex<Vec<String>>,
    known: BTreeMap<String, String>,
    known_hit: Mutex<BTreeSet<String>>,
    violations: Mutex<Vec<(String, Value)>>,
    nviol: AtomicU64,
    exhaustive: std::sync::atomic::AtomicBool,
    only: Option<String>,
}

/// Text of a panic payload.
pub fn panic_text(p: &(dyn Any + Send)) -> String {
    if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "<non-string panic>".into()
    }
}

thread_local! {
    static QUIET: std::cell::Cell<u32> = const { std::cell::Cell::new(0) };
}

/// Runs `f`, turning a panic into `Err(text)`, without printing the panic message.
pub fn no_panic<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    QUIET.with(|q| q.set(q.get() + 1));
    let r = catch_unwind(AssertUnwindSafe(f)).map_err(|p| panic_text(&*p));
    QUIET.with(|q| q.set(q.get() - 1));
    r
}

impl Check {
    pub fn new(id: &'static str, level: &'static str, rule: &str) -> Check {
        let prev = std::panic::take_hook();
        std::panic::set_hook(Box::new(move |info| {
            if QUIET.with(|q| q.get()) == 0 {
                prev(info)
            }
        }));
        let tier = match std::env::var("VERIF_TIER").as_deref() {
            Ok("thorough") => Tier::Thorough,
            _ => Tier::Quick,
        };
        let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
        let mut known = BTreeMap::new();
        if let Ok(text) = std::fs::read_to_string(verif_dir().join("known-findings.txt")) {
            for line in text.lines() {
                // `known: property=<id> key=<exact key> | <what fails>`
                if let Some(rest) = line.strip_prefix("known: property=") {
                    if let Some((pid, rest)) = rest.split_once(" key=") {
                        if pid == id {
                            let (k, what) = rest.split_once(" | ").unwrap_or((rest, ""));
                            known.insert(k.to_string(), what.to_string());
                        }
                    }
                }
            }
        }
        Check {
            id,
            tier,
            seed,
            level,
            rule: rule.to_string(),
            start: Instant::now(),
            evals: AtomicU64::new(0),
            transitions: AtomicU64::new(0),
            traces: AtomicU64::new(0),
            distinct: (0..SHARDS).map(|_| Mutex::new(HashSet::new())).collect(),
            samples: Mutex::new(vec![]),
            extra: Mutex::new(Map::new()),
            assumptions: Mutex::new(vec![]),
            known,
            known_hit: Mutex::new(BTreeSet::new()),
            violations: Mutex::new(vec![]),
            nviol: AtomicU64::new(0),
            exhaustive: std::sync::atomic::AtomicBool::new(true),
            only: std::env::var("VERIF_ONLY").ok(),
        }
    }

    pub fn thorough(&self) -> bool {
        self.tier == Tier::Thorough
    }

    /// One executed case.  `nontrivial`: the hash of the case if it counts as non-trivial.
    pub fn eval(&self, nontrivial: Option<u64>) {
        self.evals.fetch_add(1, Ordering::Relaxed);
        if let Some(h) = nontrivial {
            self.distinct[(h as usize >> 5) % SHARDS].lock().unwrap().insert(h);
        }
    }

    /// A visited state of an explored state space; true if it was new.
    pub fn state(&self, h: u64) -> bool {
        self.distinct[(h as usize >> 5) % SHARDS].lock().unwrap().insert(h)
    }
    pub fn transition(&self, n: u64) {
        self.transitions.fetch_add(n, Ordering::Relaxed);
    }
    /// A complete run executed on the real code and compared with the model.
    pub fn trace(&self) {
        self.traces.fetch_add(1, Ordering::Relaxed);
        self.evals.fetch_add(1, Ordering::Relaxed);
    }

    pub fn evals(&self) -> u64 {
        self.evals.load(Ordering::Relaxed)
    }

    /// Offers a sample for the evidence file; a few, spread over the run, are kept.
    pub fn sample(&self, f: impl FnOnce() -> Value) {
        let n = self.evals();
        let mut s = self.samples.lock().unwrap();
        if s.len() < 12 && n >= 7u64.saturating_pow(s.len() as u32) {
            s.push(f());
        }
    }

    pub fn extra(&self, k: &str, v: impl Into<Value>) {
        self.extra.lock().unwrap().insert(k.into(), v.into());
    }
    pub fn extra_add(&self, k: &str, n: u64) {
        let mut e = self.extra.lock().unwrap();
        let v = e.get(k).and_then(|v| v.as_u64()).unwrap_or(0);
        e.insert(k.into(), (v + n).into());
    }
    pub fn assume(&self, s: &str) {
        self.assumptions.lock().unwrap().push(s.into());
    }
    pub fn not_exhaustive(&self) {
        self.exhaustive.store(false, Ordering::Relaxed);
    }

    /// A violation.  `key` identifies the failing input / history exactly (known findings match
    /// on it); `detail` is what a reader needs to see.
    pub fn fail(&self, key: &str, detail: Value) {
        if self.known.contains_key(key) {
            self.known_hit.lock().unwrap().insert(key.to_string());
            return;
        }
        self.nviol.fetch_add(1, Ordering::Relaxed);
        let mut v = self.violations.lock().unwrap();
        if v.len() < KEEP {
            v.push((key.to_string(), detail));
        }
    }

    pub fn failed(&self) -> bool {
        self.nviol.load(Ordering::Relaxed) > 0
    }
    /// Enough violations were collected, a harness may stop early.
    pub fn saturated(&self) -> bool {
        self.nviol.load(Ordering::Relaxed) >= KEEP as u64
    }

    /// Compares an observed with an expected value.
    pub fn expect<T: PartialEq + std::fmt::Debug>(
        &self,
        key: impl FnOnce() -> String,
        what: &str,
        got: &T,
        want: &T,
    ) -> bool {
        if got != want {
            let k = format!("{}: {what}", key());
            self.fail(&k, json!({"what": what, "expected": format!("{want:?}"), "observed": format!("{got:?}")}));
            return false;
        }
        true
    }

    /// Runs a case, a panic inside is a violation.
    pub fn guarded(&self, key: impl Fn() -> String, f: impl FnOnce()) {
        if let Some(only) = &self.only {
            if !key().starts_with(only.as_str()) {
                return;
            }
        }
        if let Err(p) = no_panic(f) {
            self.fail(&format!("{}: panic", key()), json!({"panic": p}));
        }
    }

    pub fn finish(self) -> ! {
        let id = self.id;
        let wall = self.start.elapsed().as_secs_f64();
        let distinct: usize = self.distinct.iter().map(|s| s.lock().unwrap().len()).sum();
        let mut cov = self.extra.into_inner().unwrap();
        let evals = self.evals.load(Ordering::Relaxed);
        if self.level == "model_checking" {
            cov.insert("states".into(), distinct.into());
            cov.insert("transitions".into(), self.transitions.load(Ordering::Relaxed).into());
            cov.insert(
                "traces_validated_against_impl".into(),
                self.traces.load(Ordering::Relaxed).into(),
            );
        } else {
            cov.insert("evaluations".into(), evals.into());
            cov.insert("distinct_nontrivial".into(), distinct.into());
        }
        cov.insert("rule".into(), self.rule.clone().into());
        cov.insert("samples".into(), Value::Array(self.samples.into_inner().unwrap()));
        cov.insert("exhaustive".into(), self.exhaustive.load(Ordering::Relaxed).into());
        let nviol = self.nviol.load(Ordering::Relaxed);
        let ev = json!({
            "property": id,
            "tier": if self.tier == Tier::Quick { "quick" } else { "thorough" },
            "seed": self.seed,
            "level": self.level,
            "coverage": cov,
            "assumptions": self.assumptions.into_inner().unwrap(),
            "wall_s": wall,
            "violations": nviol,
        });
        let dir = verif_dir();
        let _ = std::fs::create_dir_all(dir.join("evidence"));
        std::fs::write(
            dir.join("evidence").join(format!("{id}.json")),
            serde_json::to_string_pretty(&ev).unwrap() + "\n",
        )
        .expect("evidence");
        for k in self.known_hit.lock().unwrap().iter() {
            println!("KNOWN-FINDING: property={id} {k} {}", self.known[k]);
        }
        println!(
            "{id}: {evals} executions, {distinct} distinct, {nviol} violations, {wall:.1}s"
        );
        if nviol > 0 {
            let v = self.violations.into_inner().unwrap();
            let rdir = dir.join("replays");
            let _ = std::fs::create_dir_all(&rdir);
            let path = rdir.join(format!("{id}.json"));
            let all: Vec<Value> = v
                .iter()
                .map(|(k, d)| json!({"key": k, "detail": d}))
                .collect();
            let _ = std::fs::write(
                &path,
                serde_json::to_string_pretty(&json!({
                    "property": id,
                    "rerun": format!("VERIF_ONLY='<key prefix>' ./check {id}"),
                    "violations": all,
                }))
                .unwrap(),
            );
            for (k, d) in v.iter().take(5) {
                println!("  {k}\n    {d}");
            }
            println!("VIOLATION property={id} replay={}", path.display());
            std::process::exit(1);
        }
        if distinct == 0 {
            eprintln!("{id}: nothing was explored");
            std::process::exit(2);
        }
        std::process::exit(0);
    }
}

/// One run of the depth-first explorer: a sequence of choices.
pub struct Chooser {
    path: Vec<(usize, usize)>,
    pos: usize,
}

impl Chooser {
    /// A chooser that replays a fixed sequence and picks 0 afterwards.
    pub fn replay(choices: &[usize]) -> Chooser {
        Chooser { path: choices.iter().map(|&c| (c, usize::MAX)).collect(), pos: 0 }
    }
    pub fn choose(&mut self, n: usize) -> usize {
        assert!(n > 0, "choice among nothing");
        if self.pos == self.path.len() {
            self.path.push((0, n));
        }
        let e = &mut self.path[self.pos];
        if e.1 == usize::MAX {
            e.1 = n;
        }
        assert!(e.1 == n, "non-deterministic run: choice {} had {} options, now {}", self.pos, e.1, n);
        self.pos += 1;
        e.0.min(n - 1)
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.choose(xs.len())]
    }
    pub fn flag(&mut self) -> bool {
        self.choose(2) == 1
    }
    pub fn choices(&self) -> Vec<usize> {
        self.path[..self.pos].iter().map(|c| c.0).collect()
    }
    pub fn depth(&self) -> usize {
        self.pos
    }
}

/// Enumerates every choice sequence of `run`.  Returns the number of runs.
/// `run` returns false to stop the whole exploration.
pub fn explore(mut run: impl FnMut(&mut Chooser) -> bool) -> u64 {
    let mut ch = Chooser { path: vec![], pos: 0 };
    let mut n = 0;
    loop {
        ch.pos = 0;
        n += 1;
        if !run(&mut ch) {
            return n;
        }
        ch.path.truncate(ch.pos);
        loop {
            match ch.path.last_mut() {
                None => return n,
                Some(l) if l.0 + 1 < l.1 => {
                    l.0 += 1;
                    break;
                }
                Some(_) => {
                    ch.path.pop();
                }
            }
        }
    }
}

/// Like `explore` on all cores: the choice sequences are split by their first `depth` choices.
pub fn explore_parallel(depth: usize, run: impl Fn(&mut Chooser) -> bool + Sync) -> u64 {
    // The distinct beginnings, found by running the first continuation of each.
    let mut starts: Vec<Vec<(usize, usize)>> = vec![];
    let mut ch = Chooser { path: vec![], pos: 0 };
    'find: loop {
        ch.pos = 0;
        if !run(&mut ch) {
            return starts.len() as u64 + 1;
        }
        ch.path.truncate(ch.pos.min(depth));
        starts.push(ch.path.clone());
        loop {
            match ch.path.last_mut() {
                None => break 'find,
                Some(l) if l.0 + 1 < l.1 => {
                    l.0 += 1;
                    break;
                }
                Some(_) => {
                    ch.path.pop();
                }
            }
        }
    }
    let total = AtomicU64::new(0);
    let stop = std::sync::atomic::AtomicBool::new(false);
    parallel(starts.len(), |i| {
        let keep = starts[i].len();
        let mut ch = Chooser { path: starts[i].clone(), pos: 0 };
        loop {
            if stop.load(Ordering::Relaxed) {
                return;
            }
            ch.pos = 0;
            total.fetch_add(1, Ordering::Relaxed);
            if !run(&mut ch) {
                stop.store(true, Ordering::Relaxed);
                return;
            }
            ch.path.truncate(ch.pos);
            loop {
                if ch.path.len() <= keep {
                    return;
                }
                let l = ch.path.last_mut().unwrap();
                if l.0 + 1 < l.1 {
                    l.0 += 1;
                    break;
                }
                ch.path.pop();
            }
        }
    });
    total.into_inner()
}

/// Runs `f(i)` for all `i < n` on all cores; each index is one unit of work.
pub fn parallel(n: usize, f: impl Fn(usize) + Sync) {
    let next = AtomicU64::new(0);
    let workers = std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4).min(8);
    std::thread::scope(|s| {
        for _ in 0..workers {
            s.spawn(|| loop {
                let i = next.fetch_add(1, Ordering::Relaxed) as usize;
                if i >= n {
                    break;
                }
                f(i);
            });
        }
    });
}

/// A scratch directory that is removed when dropped.
pub struct Scratch(pub PathBuf);
impl Scratch {
    pub fn new(tag: &str) -> Scratch {
        static N: AtomicU64 = AtomicU64::new(0);
        let base = if std::path::Path::new("/dev/shm").is_dir() { "/dev/shm" } else { "/tmp" };
        let p = PathBuf::from(format!(
            "{base}/verif-{tag}-{}-{}",
            std::process::id(),
            N.fetch_add(1, Ordering::Relaxed)
        ));
        std::fs::create_dir_all(&p).expect("scratch dir");
        Scratch(p)
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}
