//! The caching layer: `Cacher`, `Cache`, cleanup, shared cache.

use crate::ctl::{self, answer, gate, settle, waiting, world};
use futures::future::BoxFuture;
use std::cell::RefCell;
use std::io::Write as _;
use std::path::{Path, PathBuf};
use std::sync::atomic::AtomicIsize;
use std::sync::Arc;
use std::time::Duration;
use symbolic::common::ByteView;
use symbolicator_service::caches::{CachePathFormat, CacheVersion, CacheVersions};
use symbolicator_service::caching::*;
use symbolicator_service::config::{CacheConfig, Config};
use symbolicator_service::types::Scope;
use tempfile::NamedTempFile;
use vmc::serde_json::json;
use vmc::{Check, Chooser, Scratch};

#[path = "cache_expiry.rs"]
mod expiry;
pub use expiry::{c22, c23};
#[path = "cache_crash.rs"]
mod crash;
pub use crash::c21;
#[path = "cache_cleanup.rs"]
mod cleaning;
pub use cleaning::c24;
#[path = "cache_versions.rs"]
mod versions;
pub use versions::c25;
#[path = "cache_shared.rs"]
mod shared;
pub use shared::c26;

/// What a computation does.
#[derive(Clone, Debug)]
pub enum Dir {
    Ok(Vec<u8>),
    /// Replaces the temporary file by another one, as decompression does.
    Swap(Vec<u8>),
    /// Leaves bytes behind and fails.
    Dirty(Vec<u8>, CacheError),
    Panic,
}
impl Dir {
    pub fn err(e: CacheError) -> Dir {
        Dir::Dirty(vec![], e)
    }
    /// What a requester gets, `None`: it panics.
    pub fn outcome(&self) -> Option<Got> {
        match self {
            Dir::Ok(b) | Dir::Swap(b) => Some(Ok(b.clone())),
            Dir::Dirty(_, e) => Some(Err(e.clone())),
            Dir::Panic => None,
        }
    }
}

pub type Got = Result<Vec<u8>, CacheError>;
pub fn show(g: &Got) -> String {
    match g {
        Ok(b) => format!("Ok({:?})", String::from_utf8_lossy(&b[..b.len().min(40)])),
        Err(e) => format!("{e:?}"),
    }
}

type Behave = Arc<dyn Fn(&str, u32) -> Dir + Send + Sync>;
thread_local! {
    /// Computations that are answered at once.
    static BEHAVE: RefCell<Option<Behave>> = const { RefCell::new(None) };
    static COUNT: RefCell<std::collections::BTreeMap<String, u32>> = const { RefCell::new(std::collections::BTreeMap::new()) };
}
pub fn behave(f: impl Fn(&str, u32) -> Dir + Send + Sync + 'static) {
    BEHAVE.with(|b| *b.borrow_mut() = Some(Arc::new(f)))
}
pub fn behave_gated() {
    BEHAVE.with(|b| *b.borrow_mut() = None)
}
/// Number of computations started for a key since the last reset.
pub fn computed(key: &str) -> u32 {
    COUNT.with(|c| c.borrow().get(key).copied().unwrap_or(0))
}
pub fn reset_counts() {
    COUNT.with(|c| c.borrow_mut().clear())
}

pub const fn ver(n: u32) -> CacheVersion {
    CacheVersion::new(n, CachePathFormat::V2)
}
pub const fn ver1(n: u32) -> CacheVersion {
    CacheVersion::new(n, CachePathFormat::V1)
}

/// A request for the item `key`; `V` selects the versioning scheme.
#[derive(Clone)]
pub struct Req<const V: usize> {
    pub key: String,
    pub shared: bool,
}
impl<const V: usize> Req<V> {
    pub fn new(key: &str) -> Self {
        Req { key: key.into(), shared: true }
    }
}
pub fn versions(v: usize) -> CacheVersions {
    match v {
        0 => <Req<0> as CacheItemRequest>::VERSIONS,
        1 => <Req<1> as CacheItemRequest>::VERSIONS,
        _ => <Req<2> as CacheItemRequest>::VERSIONS,
    }
}
impl<const V: usize> CacheItemRequest for Req<V> {
    type Item = Vec<u8>;
    const VERSIONS: CacheVersions = match V {
        0 => CacheVersions { current: ver1(1), fallbacks: &[], previous: &[] },
        1 => CacheVersions { current: ver(2), fallbacks: &[ver1(1)], previous: &[ver1(1)] },
        // version 1 is incompatible
        _ => CacheVersions {
            current: ver(4),
            fallbacks: &[ver(3), ver1(2)],
            previous: &[ver1(1), ver1(2), ver(3)],
        },
    };
    fn compute<'a>(&'a self, temp_file: &'a mut NamedTempFile) -> BoxFuture<'a, CacheContents> {
        let n = COUNT.with(|c| {
            let mut c = c.borrow_mut();
            let e = c.entry(self.key.clone()).or_default();
            *e += 1;
            *e
        });
        let now = BEHAVE.with(|b| b.borrow().as_ref().map(|f| f(&self.key, n)));
        let wait = now.is_none().then(|| gate::<Dir>(format!("compute {} {n}", self.key)));
        Box::pin(async move {
            let d = match (now, wait) {
                (Some(d), _) => d,
                (None, Some(w)) => w.await,
                _ => unreachable!(),
            };
            match d {
                Dir::Ok(b) => {
                    temp_file.as_file_mut().write_all(&b)?;
                    Ok(())
                }
                Dir::Swap(b) => {
                    temp_file.as_file_mut().write_all(b"compressed, not the content")?;
                    let dir = temp_file.path().parent().unwrap().to_owned();
                    let mut other = tempfile::Builder::new().prefix("tmp").tempfile_in(dir)?;
                    other.as_file_mut().write_all(&b)?;
                    std::mem::swap(temp_file, &mut other);
                    Ok(())
                }
                Dir::Dirty(b, e) => {
                    temp_file.as_file_mut().write_all(&b)?;
                    Err(e)
                }
                Dir::Panic => panic!("computation panics"),
            }
        })
    }
    fn load(&self, data: ByteView<'static>) -> CacheContents<Vec<u8>> {
        Ok(data.to_vec())
    }
    fn use_shared_cache(&self) -> bool {
        self.shared
    }
}

pub fn key(scope: &Scope, name: &str) -> CacheKey {
    use std::fmt::Write as _;
    let mut b = CacheKey::scoped_builder(scope);
    write!(b, "item: {name}\n").unwrap();
    b.build()
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Setup {
    pub disk: bool,
    pub capacity: u64,
    pub refreshes: isize,
}
pub const DISK: Setup = Setup { disk: true, capacity: 100 * 1024, refreshes: 2 };

pub fn config(root: &Path, disk: bool) -> Config {
    Config { cache_dir: disk.then(|| root.to_owned()), ..Config::default() }
}
pub fn cache(root: &Path, s: Setup, cc: CacheConfig) -> Cache {
    Cache::from_config(
        CacheName::Objects,
        &config(root, s.disk),
        cc,
        Arc::new(AtomicIsize::new(s.refreshes)),
        s.capacity,
    )
    .unwrap()
}
pub fn cacher<const V: usize>(root: &Path, s: Setup) -> Cacher<Req<V>> {
    Cacher::new(cache(root, s, CacheConfig::from(Config::default().caches.downloaded)), Default::default())
}
pub async fn ask<const V: usize>(c: &Cacher<Req<V>>, name: &str) -> Got {
    ask_in(c, &Scope::Scoped("7".into()), name).await
}
pub async fn ask_in<const V: usize>(c: &Cacher<Req<V>>, scope: &Scope, name: &str) -> Got {
    c.compute_memoized(Req::new(name), key(scope, name)).await.into_contents()
}

// ------------------------------------------------------------------ C20

#[derive(Clone, Debug, PartialEq)]
enum Client {
    New,
    Running,
    Gone,
    Done(Got),
    Panicked,
}

pub fn c20() {
    let check = Check::new(
        "C20",
        "model_checking",
        "every order of starting, cancelling and finishing clients and computations",
    );
    check.assume("moka is replaced by a model of its documented behaviour (coalescing with hand-over to a waiting caller)");
    let q = !check.thorough();
    let mut cases = vec![];
    for s in [DISK, Setup { disk: false, ..DISK }, Setup { capacity: 0, ..DISK }] {
        for keys in [&["a", "a", "a"][..], &["a", "a", "b"], &["a", "b", "a"]] {
            cases.push((s, keys, 2));
        }
    }
    if !q {
        for s in [DISK, Setup { disk: false, ..DISK }] {
            cases.push((s, &["a", "a", "a", "a"][..], 2));
            cases.push((s, &["a", "a", "b", "b"][..], 2));
        }
    }
    for (s, keys, cancels) in cases {
        vmc::explore_parallel(3, |ch| {
            let r = vmc::no_panic(|| c20_run(&check, s, keys, cancels, ch));
            if let Err(p) = r {
                check.fail(&format!("{s:?} {keys:?} {:?}: panic", ch.choices()), json!({"panic": p}));
            }
            !check.saturated()
        });
    }
    check.finish()
}

fn c20_run(check: &Check, s: Setup, keys: &[&str], cancels: usize, ch: &mut Chooser) {
    let dir = Scratch::new("c20");
    behave_gated();
    reset_counts();
    let mut steps: Vec<String> = vec![];
    let fail = |steps: &[String], what: &str, detail: String| {
        check.fail(
            &format!("{s:?} clients {keys:?} [{}]: {what}", steps.join(", ")),
            json!({"what": what, "steps": steps, "detail": detail}),
        )
    };
    ctl::run(&dir.0, async {
        let c = cacher::<0>(&dir.0, s);
        let mut clients = vec![Client::New; keys.len()];
        let mut handles: Vec<Option<tokio::task::JoinHandle<Got>>> = keys.iter().map(|_| None).collect();
        let mut cancelled = 0;
        // outcome of the last finished computation of a key
        let mut last: std::collections::BTreeMap<&str, Got> = Default::default();
        let mut panics = 0;
        let mut bad = 0;
        loop {
            #[derive(Debug)]
            enum Ev {
                Start(usize),
                Cancel(usize),
                Finish(usize, String),
            }
            let mut evs = vec![];
            for (i, l) in waiting().into_iter().enumerate() {
                evs.push(Ev::Finish(i, l));
            }
            if let Some(i) = clients.iter().position(|c| *c == Client::New) {
                evs.push(Ev::Start(i));
            }
            if cancelled < cancels {
                for (i, c) in clients.iter().enumerate() {
                    if *c == Client::Running {
                        evs.push(Ev::Cancel(i));
                    }
                }
            }
            if evs.is_empty() {
                break;
            }
            let before = clients.clone();
            check.transition(1);
            match evs.swap_remove(ch.choose(evs.len())) {
                Ev::Start(i) => {
                    steps.push(format!("start {i}"));
                    let n0 = computed(keys[i]);
                    let busy = clients.iter().zip(keys).any(|(c, k)| *c == Client::Running && *k == keys[i]);
                    let (c2, k) = (c.clone(), keys[i].to_string());
                    handles[i] = Some(tokio::spawn(async move { ask(&c2, &k).await }));
                    clients[i] = Client::Running;
                    settle().await;
                    let n = computed(keys[i]) - n0;
                    let retained = match last.get(keys[i]) {
                        None => false,
                        Some(Err(CacheError::InternalError)) => false,
                        Some(_) => s.disk || s.capacity > 0,
                    };
                    let uncertain = last.get(keys[i]) == Some(&Err(CacheError::InternalError));
                    if busy && n > 0 {
                        fail(&steps, "second computation of the same item", String::new());
                    } else if retained && n > 0 {
                        fail(&steps, "a stored item is computed again", String::new());
                    } else if !busy && !retained && !uncertain && n != 1 {
                        fail(&steps, "no computation", format!("{n}"));
                    }
                    let done = handles[i].as_ref().unwrap().is_finished();
                    if (retained && !busy) || (uncertain && done) {
                        // answered from the cache
                        let h = handles[i].take().unwrap();
                        if done {
                            let got = h.await.unwrap();
                            if &got != last.get(keys[i]).unwrap() {
                                fail(&steps, "wrong item", show(&got));
                            }
                            clients[i] = Client::Done(got);
                        } else {
                            fail(&steps, "no answer from the cache", String::new());
                            return;
                        }
                    }
                }
                Ev::Cancel(i) => {
                    steps.push(format!("cancel {i}"));
                    cancelled += 1;
                    handles[i].take().unwrap().abort();
                    clients[i] = Client::Gone;
                    settle().await;
                }
                Ev::Finish(g, label) => {
                    let k = label.split(' ').nth(1).unwrap().to_string();
                    let mut opts = vec![Dir::Ok(format!("content of {label}").into_bytes())];
                    if bad < 2 {
                        opts.push(Dir::Dirty(b"junk".to_vec(), CacheError::NotFound));
                        opts.push(Dir::err(CacheError::InternalError));
                    }
                    if panics < 1 {
                        opts.push(Dir::Panic);
                    }
                    let d = ch.pick(&opts).clone();
                    steps.push(format!("{label} -> {d:?}"));
                    match &d {
                        Dir::Panic => panics += 1,
                        Dir::Ok(_) => {}
                        _ => bad += 1,
                    }
                    answer(g, d.clone());
                    settle().await;
                    let mine: Vec<usize> =
                        (0..keys.len()).filter(|&i| clients[i] == Client::Running && keys[i] == k).collect();
                    match d.outcome() {
                        Some(want) => {
                            last.insert(keys[keys.iter().position(|x| *x == k).unwrap()], want.clone());
                            for i in mine {
                                let h = handles[i].take().unwrap();
                                if !h.is_finished() {
                                    fail(&steps, "a client is not answered", format!("client {i}"));
                                    return;
                                }
                                match h.await {
                                    Ok(got) if got == want => clients[i] = Client::Done(got),
                                    Ok(got) => {
                                        fail(&steps, "wrong item", show(&got));
                                        clients[i] = Client::Done(got);
                                    }
                                    Err(e) => {
                                        fail(&steps, "client failed", format!("{e}"));
                                        return;
                                    }
                                }
                            }
                        }
                        None => {
                            let mut hit = 0;
                            for i in mine {
                                if handles[i].as_ref().unwrap().is_finished() {
                                    hit += 1;
                                    clients[i] = Client::Panicked;
                                    if handles[i].take().unwrap().await.is_ok() {
                                        fail(&steps, "answer out of a panic", String::new());
                                    }
                                }
                            }
                            if hit != 1 {
                                fail(&steps, "a panic reaches other than its own client", format!("{hit}"));
                            }
                        }
                    }
                }
            }
            // Nobody else moved.
            for (i, c) in before.iter().enumerate() {
                if *c == Client::Running && clients[i] == Client::Running && handles[i].as_ref().unwrap().is_finished() {
                    // answered without a computation of its own finishing: from memory
                    let got = handles[i].take().unwrap().await;
                    match (got, last.get(keys[i])) {
                        (Ok(g), Some(w)) if g == *w => clients[i] = Client::Done(g),
                        (g, _) => {
                            fail(&steps, "unexpected answer", format!("client {i}: {g:?}"));
                            return;
                        }
                    }
                }
            }
            // Exactly one computation per item that somebody waits for.
            let w = waiting();
            for k in ["a", "b"] {
                let live = clients.iter().zip(keys).any(|(c, x)| *c == Client::Running && *x == k);
                let running = w.iter().filter(|l| l.split(' ').nth(1) == Some(k)).count();
                if running != live as usize {
                    fail(&steps, "computations and waiting clients do not match", format!("item {k}: {running} computations, waiting: {live}"));
                    return;
                }
            }
            let st = (format!("{s:?}"), keys.to_vec(), format!("{clients:?} {w:?} {last:?}"));
            check.state(vmc::hash64(&st));
        }
        // every client came to an end
        for (i, c) in clients.iter().enumerate() {
            if matches!(c, Client::New | Client::Running) {
                fail(&steps, "client never answered", format!("{i} {c:?}"));
            }
        }
    });
    check.trace();
    check.sample(|| json!({"setup": format!("{s:?}"), "clients": keys, "steps": steps}));
}
