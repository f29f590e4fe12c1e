//! C24: cleanup removes exactly what is expired, also next to a running server.
use super::*;
use crate::sched::Sched;
use crate::sys::{self, Act, World, WALL0};

/// Runs `f` with a rayon pool of one thread that lives in this world.
fn with_pool<R: Send>(w: &'static World, actor: usize, f: impl FnOnce() -> R + Send) -> R {
    let pool = rayon::ThreadPoolBuilder::new()
        .num_threads(1)
        .start_handler(move |_| w.join(actor))
        .exit_handler(|_| World::leave())
        .build()
        .unwrap();
    pool.install(f)
}

const T: u64 = 3000 * 3600;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum File {
    /// status (index), expired, metadata: 0 none, 1 private, 2 broken
    Entry(usize, bool, u8),
    /// metadata without an entry
    Orphan,
    EmptyDir,
    NestedEmptyDir,
}
const STATUS: [(&str, &[u8]); 4] = [("ok", b"content"), ("notfound", b""), ("malformed", b"malformed x"), ("timeout", b"timeout1s")];

fn put(dir: &Path, name: &str, f: File, limits: [u64; 4]) -> Option<bool> {
    std::fs::create_dir_all(dir).unwrap();
    let p = dir.join(name);
    match f {
        File::Entry(s, expired, md) => {
            let age = if expired { limits[s] + 2 } else { limits[s].saturating_sub(2) };
            std::fs::write(&p, STATUS[s].1).unwrap();
            // a used item may be old, an old error may have been looked at recently
            let created = WALL0 + T - age;
            let mtime = if md == 1 && s != 0 { WALL0 + T - 1 } else { created };
            if md > 0 {
                let m = dir.join(format!("{name}.metadata"));
                let c = if s == 0 { WALL0 } else { created };
                std::fs::write(&m, if md == 1 { format!("{{\"scope\":\"7\",\"time_created\":{c},\"debug\":null}}") } else { "{\"sco".into() }).unwrap();
            }
            filetime::set_file_mtime(&p, filetime::FileTime::from_unix_time(mtime as i64, 0)).unwrap();
            Some(expired)
        }
        File::Orphan => {
            std::fs::write(dir.join(format!("{name}.metadata")), "{\"scope\":null,\"time_created\":1,\"debug\":null}").unwrap();
            None
        }
        File::EmptyDir => {
            std::fs::create_dir_all(&p).unwrap();
            None
        }
        File::NestedEmptyDir => {
            std::fs::create_dir_all(p.join("x/y")).unwrap();
            None
        }
    }
}

fn files(t: &sys::Tree) -> Vec<PathBuf> {
    t.iter().filter(|e| e.1.is_some()).map(|e| e.0.clone()).collect()
}

pub fn c24() {
    let check = Check::new(
        "C24",
        "stateless_exploration",
        "every tree of up to three entries x dry run x failing operation; every cache with its own configuration; every schedule of a cleanup and a request with bounded preemptions at file operations",
    );
    trees(&check);
    all_caches(&check);
    races(&check);
    check.finish()
}

fn limits_of(name: &str, cfg: &Config) -> [u64; 4] {
    let (u, m, b) = match name {
        "objects" | "auxdifs" | "il2cpp" | "sourcefiles" | "proguard" => {
            let c = cfg.caches.downloaded;
            (c.max_unused_for, c.retry_misses_after, c.retry_malformed_after)
        }
        "source_index" => {
            let c = cfg.caches.index;
            (c.max_unused_for, c.retry_misses_after, c.retry_malformed_after)
        }
        "diagnostics" => (cfg.caches.diagnostics.retention, None, None),
        _ => {
            let c = cfg.caches.derived;
            (c.max_unused_for, c.retry_misses_after, c.retry_malformed_after)
        }
    };
    // u64::MAX: for ever
    let s = |d: Option<Duration>| d.map_or(u64::MAX, |d| d.as_secs());
    [s(u), s(m), s(b), s(m)]
}

fn start(w: &'static World, root: &Path, secs: u64) {
    w.reset(root);
    w.join(0);
    w.advance(secs * 1_000_000_000);
}

fn trees(check: &Check) {
    let mut kinds = vec![File::Orphan, File::EmptyDir, File::NestedEmptyDir];
    for s in 0..STATUS.len() {
        for e in [false, true] {
            for md in 0..3 {
                if md == 2 && s > 1 {
                    continue;
                }
                kinds.push(File::Entry(s, e, md));
            }
        }
    }
    let places = ["v1/aa/bb", "v1/aa/bc", "v1/ab/00", "v2/aa/bb"];
    let mut cases: Vec<Vec<(File, usize)>> = vec![];
    for &a in &kinds {
        cases.push(vec![(a, 0)]);
        for &b in &kinds {
            for p in 0..places.len() {
                cases.push(vec![(a, 0), (b, p)]);
            }
        }
    }
    if check.thorough() {
        for &a in &kinds {
            for &b in &kinds {
                for &c in &kinds {
                    for (p, q) in [(0, 0), (0, 1), (1, 2), (2, 3)] {
                        cases.push(vec![(a, 0), (b, p), (c, q)]);
                    }
                }
            }
        }
    }
    let limits = limits_of("objects", &Config::default());
    vmc::parallel(cases.len(), |i| {
        let case = &cases[i];
        let scratch = Scratch::new("c24");
        let root = scratch.0.join("r");
        let w = world();
        let run = |dry: bool, fail: Option<usize>, k: &dyn Fn() -> String| -> usize {
            start(w, &root, 0);
            let _ = std::fs::remove_dir_all(&root);
            let c = cache(&root, DISK, CacheConfig::from(Config::default().caches.downloaded));
            w.advance(T * 1_000_000_000);
            let base = root.join("objects");
            let mut keep = vec![];
            for (j, (f, p)) in case.iter().enumerate() {
                let name = format!("f{j}");
                if put(&base.join(places[*p]), &name, *f, limits) == Some(false) {
                    keep.push(PathBuf::from(places[*p]).join(name));
                }
            }
            let before = sys::snapshot(&base);
            let ops = Arc::new(std::sync::atomic::AtomicUsize::new(0));
            let o2 = ops.clone();
            // metadata that cannot be read counts as broken
            let unread = Arc::new(std::sync::Mutex::new(None));
            let u2 = unread.clone();
            let b2 = base.clone();
            w.set_hook(Some(Arc::new(move |op: &sys::Op| {
                let n = o2.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                if Some(n) == fail {
                    *u2.lock().unwrap() = op.path.strip_prefix(&b2).ok().filter(|p| p.extension().is_some()).map(|p| p.to_owned());
                    Act::Err(libc::EIO)
                } else {
                    Act::Go
                }
            })));
            let r = with_pool(w, 0, || vmc::no_panic(|| c.cleanup(dry)));
            w.set_hook(None);
            World::leave();
            let after = sys::snapshot(&base);
            let unread = unread.lock().unwrap().clone();
            match r {
                Err(p) => check.fail(&format!("{}: panic", k()), json!({"panic": p})),
                Ok(Err(e)) if fail.is_none() => check.fail(&format!("{}: error", k()), json!({"error": format!("{e:?}")})),
                Ok(_) => {}
            }
            // what lives stays, untouched (broken metadata may go)
            for p in &keep {
                if after.get(p) != before.get(p) {
                    check.fail(&format!("{}: an entry that is not expired is removed or changed", k()), json!({"entry": p.display().to_string()}));
                }
                let md = p.with_extension("metadata");
                let broken = Some(&md) == unread.as_ref() || matches!(before.get(&md), Some(Some((b, ..))) if b.len() < 10);
                if !broken && after.get(&md) != before.get(&md) {
                    check.fail(&format!("{}: metadata of a live entry is removed or changed", k()), json!({"entry": p.display().to_string()}));
                }
            }
            if dry {
                for p in files(&before) {
                    let broken = Some(&p) == unread.as_ref() || matches!(&before[&p], Some((b, ..)) if b.len() < 10 && p.extension().is_some());
                    if !broken && after.get(&p) != before.get(&p) {
                        check.fail(&format!("{}: a dry run changes something", k()), json!({"path": p.display().to_string()}));
                    }
                }
                for (p, c) in &before {
                    if c.is_none() && !after.contains_key(p) {
                        check.fail(&format!("{}: a dry run removes a directory", k()), json!({"path": p.display().to_string()}));
                    }
                }
            } else if fail.is_none() {
                for p in files(&after) {
                    let entry = if p.extension().is_some() { p.with_extension("") } else { p.clone() };
                    // metadata without an entry only goes together with its directory
                    let orphan = !before.contains_key(&entry);
                    if !keep.contains(&entry) && !orphan {
                        check.fail(&format!("{}: an expired entry or its metadata stays", k()), json!({"path": p.display().to_string()}));
                    }
                }
                for (p, c) in &after {
                    if c.is_none() && !keep.iter().any(|e| e.starts_with(p)) {
                        check.fail(&format!("{}: a directory without live entries stays", k()), json!({"path": p.display().to_string()}));
                    }
                }
            }
            let n = ops.load(std::sync::atomic::Ordering::SeqCst);
            n
        };
        let name = format!("{:?}", case.iter().map(|(f, p)| (f, places[*p])).collect::<Vec<_>>());
        for dry in [false, true] {
            let k = || format!("tree {name} dry run {dry}");
            let n = run(dry, None, &k);
            check.eval(Some(vmc::hash64(&k())));
            let deep = case.len() == 1 || check.thorough() || i % 7 == 0 || matches!(case[0].0, File::Entry(0, false, 0));
            if deep && case.len() < 3 {
                for f in 0..n {
                    let k = || format!("tree {name} dry run {dry}, operation {f} fails");
                    run(dry, Some(f), &k);
                    check.eval(Some(vmc::hash64(&k())));
                }
            }
        }
        check.sample(|| json!({"tree": name}));
    });
}

/// The whole set of caches with distinct settings; another directory beside them stays.
fn all_caches(check: &Check) {
    let names = [
        "objects", "object_meta", "auxdifs", "il2cpp", "symcaches", "cficaches", "ppdb_caches", "sourcemap_caches", "sourcefiles", "diagnostics", "proguard", "source_index",
    ];
    let d = |s: u64| Some(Duration::from_secs(s));
    let mut cfgs = vec![Config::default()];
    let mut c = Config::default();
    c.caches.downloaded.max_unused_for = d(5000);
    c.caches.downloaded.retry_misses_after = d(300);
    c.caches.downloaded.retry_malformed_after = d(700);
    c.caches.derived.max_unused_for = d(9000);
    c.caches.derived.retry_misses_after = d(1300);
    c.caches.derived.retry_malformed_after = d(1700);
    c.caches.index.max_unused_for = d(13_000);
    c.caches.index.retry_misses_after = d(2300);
    c.caches.index.retry_malformed_after = d(2700);
    c.caches.diagnostics.retention = d(17_000);
    cfgs.push(c.clone());
    c.caches.derived.retry_misses_after = None;
    c.caches.downloaded.max_unused_for = None;
    c.caches.diagnostics.retention = None;
    cfgs.push(c);
    vmc::parallel(cfgs.len() * STATUS.len() * 2, |i| {
        let cfg0 = &cfgs[i % cfgs.len()];
        let s = i / cfgs.len() % STATUS.len();
        let expired = i / cfgs.len() / STATUS.len() == 1;
        let scratch = Scratch::new("c24a");
        let root = scratch.0.join("r");
        let w = world();
        start(w, &root, 0);
        let cfg = Config { cache_dir: Some(root.clone()), ..cfg0.clone() };
        let caches = Caches::from_config(&cfg).unwrap();
        w.advance(T * 1_000_000_000);
        let mut want = vec![];
        for n in names {
            let l = limits_of(n, cfg0);
            let e = expired && l[s] != u64::MAX;
            let mut lim = l;
            if lim[s] == u64::MAX {
                lim[s] = 2000 * 3600;
            }
            put(&root.join(n).join("v1/aa"), "e", File::Entry(s, e, 1), lim);
            if !e {
                want.push(format!("{n}/v1/aa/e"));
            }
        }
        std::fs::create_dir_all(root.join("tmp")).unwrap();
        std::fs::write(root.join("tmp/busy"), "in use").unwrap();
        std::fs::write(root.join("unrelated"), "x").unwrap();
        want.extend(["tmp/busy".to_string(), "unrelated".into()]);
        let r = with_pool(w, 0, || vmc::no_panic(|| caches.cleanup(false)));
        World::leave();
        let k = || format!("all caches config {} {} expired {expired}", i % cfgs.len(), STATUS[s].0);
        if !matches!(r, Ok(Ok(()))) {
            check.fail(&format!("{}: error", k()), json!({"result": format!("{r:?}")}));
        }
        let t = sys::snapshot(&root);
        let mut got: Vec<String> = files(&t).iter().map(|p| p.display().to_string()).filter(|p| !p.ends_with(".metadata")).collect();
        got.sort();
        want.sort();
        check.expect(k, "remaining entries", &got, &want);
        check.eval(Some(vmc::hash64(&k())));
    });
}

/// A request while the cleanup runs.
fn races(check: &Check) {
    // (name, state of entry "a", a neighbour in the same directory tree)
    let l = limits_of("objects", &Config::default());
    // what is there, what a request may still be answered with
    let states: Vec<(&str, Option<(&[u8], u64)>, Option<Got>)> = vec![
        ("nothing", None, None),
        ("live content", Some((b"live", 60)), Some(Ok(b"live".to_vec()))),
        ("live content to be touched", Some((b"live", 2 * 3600)), Some(Ok(b"live".to_vec()))),
        ("expired content", Some((b"expired", l[0] + 100)), None),
        ("live error", Some((b"", 60)), Some(Err(CacheError::NotFound))),
        ("expired error", Some((b"downloaderror503", l[1] + 100)), None),
        ("content that expires meanwhile", Some((b"just", l[0] - 1)), Some(Ok(b"just".to_vec()))),
    ];
    let bound = if check.thorough() { 3 } else { 2 };
    for (name, entry, live) in &states {
        for neighbour in [false, true] {
            for md in [true, false] {
                let n = vmc::explore_parallel(4, |ch| {
                    race(check, name, entry, live, neighbour, md, bound, ch);
                    !check.saturated()
                });
                check.extra_add("schedules of a request and a cleanup", n);
            }
        }
    }
    check.extra("preemption bound", bound);
}

#[allow(clippy::too_many_arguments)]
fn race(check: &Check, name: &str, entry: &Option<(&[u8], u64)>, live: &Option<Got>, neighbour: bool, md: bool, bound: usize, ch: &mut Chooser) {
    let scratch = Scratch::new("c24r");
    let root = scratch.0.join("r");
    let w = world();
    start(w, &root, 0);
    let cfg = CacheConfig::from(Config::default().caches.downloaded);
    let cleaner = cache(&root, DISK, cfg);
    w.advance(T * 1_000_000_000);
    let k = key(&Scope::Scoped("7".into()), "a");
    let path = root.join("objects").join(k.cache_path(versions(0).current));
    let dir = path.parent().unwrap().to_owned();
    let stem = path.file_name().unwrap().to_str().unwrap().to_string();
    if let Some((bytes, age)) = entry {
        std::fs::create_dir_all(&dir).unwrap();
        std::fs::write(&path, bytes).unwrap();
        let at = WALL0 + T - age;
        if md {
            std::fs::write(dir.join(format!("{stem}.metadata")), format!("{{\"scope\":\"7\",\"time_created\":{at},\"debug\":null}}")).unwrap();
        }
        filetime::set_file_mtime(&path, filetime::FileTime::from_unix_time(at as i64, 0)).unwrap();
    }
    if neighbour {
        std::fs::create_dir_all(&dir).unwrap();
        let p = dir.join("neighbour");
        std::fs::write(&p, b"old").unwrap();
        filetime::set_file_mtime(&p, filetime::FileTime::from_unix_time(WALL0 as i64, 0)).unwrap();
    }
    World::leave();
    let sched = Sched::install(w, 2);
    let (s0, s1) = (sched.clone(), sched.clone());
    let (r0, c0) = (root.clone(), cleaner.clone());
    let (got, trace) = std::thread::scope(|s| {
        let server = s.spawn(move || {
            behave(|_, _| Dir::Ok(b"fresh".to_vec()));
            ctl::adopt(w);
            let r = vmc::no_panic(|| {
                ctl::resume(async {
                    let c = cacher::<0>(&r0, DISK);
                    ask(&c, "a").await
                })
            });
            s0.done(0);
            r
        });
        let cleaning = s.spawn(move || {
            w.join(1);
            let r = with_pool(w, 1, || vmc::no_panic(|| c0.cleanup(false)));
            World::leave();
            s1.done(1);
            r
        });
        let trace = vmc::no_panic(|| sched.drive(ch, bound));
        sched.release();
        let got = server.join().unwrap();
        let _ = cleaning.join();
        (got, trace)
    });
    w.set_hook(None);
    let trace = match trace {
        Ok(t) => t,
        Err(p) => {
            check.fail(&format!("race {name} neighbour {neighbour}: stuck"), json!({"panic": p}));
            return;
        }
    };
    let steps = || -> Vec<String> {
        trace
            .iter()
            .map(|(a, o)| format!("{} {:?} {}", ["request", "cleanup"][*a], o.kind, o.path.strip_prefix(&root).unwrap_or(&o.path).display()))
            .collect()
    };
    let switches: Vec<usize> = trace.windows(2).enumerate().filter(|(_, w)| w[0].0 != w[1].0).map(|(i, _)| i).collect();
    let kk = || format!("race {name} neighbour {neighbour} metadata {md} switches {switches:?} first {:?}", trace.first().map(|t| t.0));
    let good = |g: &Got| g.as_deref() == Ok(b"fresh") || Some(g) == live.as_ref();
    match &got {
        Err(p) => check.fail(&format!("{}: panic", kk()), json!({"panic": p, "schedule": steps()})),
        Ok(g) if !good(g) => check.fail(&format!("{}: answer", kk()), json!({"got": show(g), "schedule": steps()})),
        _ => {}
    }
    // and what is left is right
    behave(|_, _| Dir::Ok(b"fresh".to_vec()));
    let later = vmc::no_panic(|| {
        ctl::resume(async {
            let c = cacher::<0>(&root, DISK);
            ask(&c, "a").await
        })
    });
    match &later {
        Ok(g) if good(g) => {}
        r => check.fail(&format!("{}: later answer", kk()), json!({"got": format!("{r:?}"), "schedule": steps()})),
    }
    let t = sys::snapshot(&root.join("tmp"));
    check.expect(kk, "temporary files left", &t.len(), &0);
    check.eval(Some(vmc::hash64(&(name, neighbour, md, trace.iter().map(|t| (t.0, t.1.kind)).collect::<Vec<_>>()))));
    check.sample(|| json!({"race": name, "schedule": steps()}));
}
