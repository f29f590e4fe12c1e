//! C22: errors survive a restart.  C23: entries live exactly as long as configured.
use super::*;
use symbolicator_service::config::*;
use crate::sys::WALL0;

fn messages() -> Vec<String> {
    let mut v: Vec<String> = ["", "x", "404 Not Found", "two\nlines\r\n", "ünïcödé \u{1F980}", "notfound", "malformed", "timeout5s", "downloaderror", "cut\0here", "\0", " padded "]
        .iter()
        .map(|s| s.to_string())
        .collect();
    for n in [100, 4096, 70_000] {
        v.push("e".repeat(n));
    }
    v
}

fn errors() -> Vec<CacheError> {
    let mut v = vec![CacheError::NotFound, CacheError::InternalError];
    for m in messages() {
        v.push(CacheError::PermissionDenied(m.clone()));
        v.push(CacheError::DownloadError(m.clone()));
        v.push(CacheError::Malformed(m.clone()));
        v.push(CacheError::Unsupported(m));
    }
    for d in [0, 1, 999_999_999, 1_000_000_000, 15_000_000_000, 300_000_000_000, 3_725_004_000_000, 86_400_000_000_000, 40_000_000_000_000_000, 3_000_000_000_000_000_000] {
        v.push(CacheError::Timeout(Duration::from_nanos(d)));
    }
    v
}

/// What comes back from disk: a message ends at its first NUL byte.
fn stored(e: &CacheError) -> CacheError {
    let cut = |s: &str| s.split('\0').next().unwrap().to_string();
    match e {
        CacheError::PermissionDenied(m) => CacheError::PermissionDenied(cut(m)),
        CacheError::DownloadError(m) => CacheError::DownloadError(cut(m)),
        CacheError::Malformed(m) => CacheError::Malformed(cut(m)),
        CacheError::Unsupported(m) => CacheError::Unsupported(cut(m)),
        e => e.clone(),
    }
}

fn brief(e: &CacheError) -> String {
    let s = format!("{e:?}");
    if s.len() > 60 {
        format!("{}..{}", s.chars().take(40).collect::<String>(), s.len())
    } else {
        s
    }
}

pub fn c22() {
    let check = Check::new("C22", "exhaustive_enumeration", "every kind of error x message x bytes left in the file, written, read back from memory, from disk and by a restarted process; every class of content likewise");
    let errs = errors();
    let junk: Vec<Vec<u8>> = vec![vec![], b"j".to_vec(), b"permissiondenied and more of the same".to_vec(), vec![b'j'; 100_000]];
    vmc::parallel(errs.len(), |i| {
        for j in &junk {
            for old in [false, true] {
                for capacity in [0, DISK.capacity] {
                    let e = &errs[i];
                    let k = || format!("error {} junk {} old {old} memory {}", brief(e), j.len(), capacity > 0);
                    check.guarded(k, || roundtrip(&check, k, &Dir::Dirty(j.clone(), e.clone()), old, capacity));
                }
            }
        }
    });
    // Contents.  Names of the classes are keys of known findings.
    let contents: Vec<(&str, Vec<u8>)> = vec![
        ("one byte", b"x".to_vec()),
        ("one zero byte", vec![0]),
        ("text", b"some text\n".to_vec()),
        ("zeros", vec![0; 5000]),
        ("large", (0..300_000u32).map(|i| (i * 7 + i / 251) as u8).collect()),
        ("part of a marker", b"malforme".to_vec()),
        ("part of a marker 2", b"permission".to_vec()),
        ("marker inside", b" malformed timeout".to_vec()),
        ("other case", b"Malformed".to_vec()),
        ("empty", vec![]),
        ("starts with malformed", b"malformed things are common".to_vec()),
        ("starts with timeout", b"timeout 30".to_vec()),
        ("starts with permissiondenied", b"permissiondenied:".to_vec()),
        ("starts with downloaderror", b"downloaderror".to_vec()),
        ("starts with unsupported", b"unsupported\n".to_vec()),
    ];
    vmc::parallel(contents.len(), |i| {
        let (name, c) = &contents[i];
        for (n, d) in [("written", Dir::Ok(c.clone())), ("swapped", Dir::Swap(c.clone()))] {
            let k = || format!("content {name} ({n})");
            check.guarded(k, || roundtrip(&check, k, &d, false, 0));
        }
    });
    check.finish()
}

fn roundtrip(check: &Check, k: impl Fn() -> String, d: &Dir, old: bool, capacity: u64) {
    let dir = Scratch::new("c22");
    reset_counts();
    let setup = Setup { capacity, ..DISK };
    let want = d.outcome().unwrap();
    let want2 = want.clone().map_err(|e| stored(&e));
    let d2 = d.clone();
    behave(move |_, n| if old && n == 1 { Dir::err(CacheError::DownloadError("older and much longer".repeat(20))) } else { d2.clone() });
    ctl::run(&dir.0, async {
        let c = cacher::<0>(&dir.0, setup);
        if old {
            let _ = ask(&c, "a").await;
            settle().await;
            ctl::pass(Duration::from_secs(3600 + 2)).await;
        }
        let base = old as u32;
        let got = ask(&c, "a").await;
        settle().await;
        check.expect(&k, "first answer", &show(&got), &show(&want));
        check.expect(&k, "computations for the first answer", &computed("a"), &(base + 1));
        let internal = want == Err(CacheError::InternalError);
        ctl::pass(Duration::from_secs(1)).await;
        // The same process: from memory, or from disk if nothing is kept in memory.
        let n = computed("a");
        let got = ask(&c, "a").await;
        settle().await;
        let expect = if capacity == 0 { &want2 } else { &want };
        if let (Ok(_), Err(e)) = (&want, &got) {
            // An item whose content looks like an error marker.
            check.fail(&format!("{} is read back as {}", k(), format!("{e:?}").split('(').next().unwrap()), json!({"got": show(&got)}));
            return;
        }
        check.expect(&k, "second answer", &show(&got), &show(expect));
        if !internal {
            check.expect(&k, "computations for the second answer", &(computed("a") - n), &0);
        }
        // A restarted process.
        ctl::pass(Duration::from_secs(2)).await;
        let n = computed("a");
        let c = cacher::<0>(&dir.0, setup);
        let got = ask(&c, "a").await;
        settle().await;
        let again = internal || matches!(want, Err(CacheError::Malformed(_)));
        check.expect(&k, "answer after a restart", &show(&got), &show(if again { &want } else { &want2 }));
        check.expect(&k, "computations after a restart", &(computed("a") - n), &(again as u32));
    });
    check.eval(Some(vmc::hash64(&k())));
    check.sample(|| json!({"case": k()}));
}

// ------------------------------------------------------------------ C23

const H: u64 = 3600;
type Life = Option<u64>;
#[derive(Clone, Copy, Debug)]
struct Cfg {
    unused: Life,
    miss: Life,
    miss_public: Life,
    bad: Life,
}
impl Cfg {
    /// Around every limit of the configuration, and in between.
    fn pauses(&self) -> Vec<u64> {
        let mut v = vec![60, H + 10];
        for l in [self.unused, self.miss, self.miss_public, self.bad].into_iter().flatten() {
            v.extend([l - 10, l + 10]);
        }
        if self.unused.is_none() {
            v.push(40_000_000);
        }
        v.sort();
        v.dedup();
        v
    }
    fn make(&self, kind: usize) -> CacheConfig {
        let d = |x: Life| x.map(Duration::from_secs);
        match kind {
            0 => CacheConfig::from(DownloadedCacheConfig {
                max_unused_for: d(self.unused),
                retry_misses_after: d(self.miss),
                retry_misses_after_public: d(self.miss_public),
                retry_malformed_after: d(self.bad),
                ..Default::default()
            }),
            1 => CacheConfig::from(DerivedCacheConfig {
                max_unused_for: d(self.unused),
                retry_misses_after: d(self.miss),
                retry_misses_after_public: d(self.miss_public),
                retry_malformed_after: d(self.bad),
                ..Default::default()
            }),
            _ => CacheConfig::from(IndexCacheConfig {
                max_unused_for: d(self.unused),
                retry_misses_after: d(self.miss),
                retry_misses_after_public: d(self.miss_public),
                retry_malformed_after: d(self.bad),
                ..Default::default()
            }),
        }
    }
}

fn scopes() -> [Scope; 2] {
    [Scope::Global, Scope::Scoped("7".into())]
}

pub fn c23() {
    let check = Check::new(
        "C23",
        "model_checking",
        "every history of requests, pauses and restarts up to the depth x configuration x outcome; every age of a stored file x configuration",
    );
    check.assume("creation times of entries have a resolution of one second; the clock does not run backwards");
    stored_files(&check);
    let cfgs = [
        Cfg { unused: Some(2 * H), miss: Some(H), miss_public: Some(3 * H), bad: Some(2 * H) },
        Cfg { unused: Some(24 * H), miss: Some(600), miss_public: Some(300), bad: Some(600) },
        Cfg { unused: Some(1200), miss: Some(3 * H), miss_public: Some(H), bad: Some(300) },
        Cfg { unused: None, miss: None, miss_public: None, bad: None },
    ];
    let depth = if check.thorough() { 3 } else { 2 };
    let mut cases = vec![];
    for c in cfgs {
        for (kind, capacity) in [(0, DISK.capacity), (1, DISK.capacity), (2, 0)] {
            for (s, _) in scopes().iter().enumerate() {
                cases.push((c, kind, capacity, s));
            }
        }
    }
    for (c, kind, capacity, s) in cases {
        vmc::explore_parallel(2, |ch| {
            if let Err(p) = vmc::no_panic(|| history(&check, c, kind, capacity, s, depth, ch)) {
                check.fail(&format!("{c:?} kind {kind} memory {} scope {s} {:?}: panic", capacity > 0, ch.choices()), json!({"panic": p}));
            }
            !check.saturated()
        });
    }
    check.finish()
}

/// The oracle: what the configuration promises about an entry.
#[derive(Clone, Debug)]
struct Entry {
    got: Got,
    created: f64,
    /// Last time it was handed out.
    used: f64,
    /// Last time it was handed out without memory being involved.
    restarted: bool,
}
#[derive(PartialEq, Debug)]
enum Must {
    Serve,
    Compute,
    Either,
}
fn promise(c: &Cfg, public: bool, e: &Entry, now: f64) -> Must {
    let over = |life: Life, age: f64, slack: f64| match life {
        None => Must::Serve,
        Some(l) => {
            let l = l as f64;
            if age >= l + 0.1 {
                Must::Compute
            } else if age <= l - slack - 0.1 {
                Must::Serve
            } else {
                Must::Either
            }
        }
    };
    match &e.got {
        Ok(_) => match c.unused {
            None => Must::Serve,
            Some(l) => {
                let idle = now - e.used;
                // The time of the last use is noted once an hour, and an item stays in memory
                // for up to an hour.
                if idle > (l as f64).max(H as f64) + 0.1 {
                    Must::Compute
                } else if idle < l as f64 - H as f64 - 0.1 {
                    Must::Serve
                } else {
                    Must::Either
                }
            }
        },
        Err(CacheError::InternalError) => Must::Either,
        Err(CacheError::Malformed(_)) => {
            if e.restarted {
                Must::Compute
            } else {
                over(c.bad, now - e.created, 1.0)
            }
        }
        Err(_) => over(if public { c.miss_public } else { c.miss }, now - e.created, 1.0),
    }
}

fn history(check: &Check, c: Cfg, kind: usize, capacity: u64, s: usize, depth: usize, ch: &mut Chooser) {
    let dir = Scratch::new("c23");
    reset_counts();
    behave_gated();
    let scope = &scopes()[s];
    let setup = Setup { capacity, ..DISK };
    let mut steps: Vec<String> = vec![];
    let outcomes = [
        Dir::Ok(b"content".to_vec()),
        Dir::err(CacheError::NotFound),
        Dir::err(CacheError::Malformed("m".into())),
        Dir::err(CacheError::Timeout(Duration::from_secs(3))),
    ];
    let pauses = c.pauses();
    ctl::run(&dir.0, async {
        let mut cacher: Cacher<Req<0>> = Cacher::new(cache(&dir.0, setup, c.make(kind)), Default::default());
        let mut entry: Option<Entry> = None;
        ctl::pass(Duration::from_millis(1500)).await;
        for i in 0..=depth {
            if i > 0 {
                let p = *ch.pick(&pauses);
                ctl::pass(Duration::from_secs(p)).await;
                steps.push(format!("+{p}s"));
                if ch.flag() {
                    steps.push("restart".into());
                    cacher = Cacher::new(cache(&dir.0, setup, c.make(kind)), Default::default());
                    if let Some(e) = &mut entry {
                        e.restarted = true;
                    }
                    ctl::pass(Duration::from_millis(1500)).await;
                }
            }
            let now = world().now_ns() as f64 / 1e9;
            let must = match &entry {
                None => Must::Compute,
                Some(e) => promise(&c, s == 0, e, now),
            };
            let c2 = cacher.clone();
            let sc = scope.clone();
            let h = tokio::spawn(async move { ask_in(&c2, &sc, "a").await });
            settle().await;
            check.transition(1);
            let w = waiting();
            let did = !w.is_empty();
            let (st, en) = (steps.clone(), entry.clone());
            let fail = |what: &str, detail: String| {
                check.fail(
                    &format!("{c:?} kind {kind} memory {} scope {s} [{}] entry {:?}: {what}", capacity > 0, st.join(" "), en.as_ref().map(|e| show(&e.got))),
                    json!({"what": what, "detail": detail, "steps": st}),
                )
            };
            match (&must, did) {
                (Must::Serve, true) => fail("computed again before its time", format!("{entry:?} at {now}")),
                (Must::Compute, false) => fail("served after its time", format!("{entry:?} at {now}")),
                _ => {}
            }
            if did {
                let d = if i == 0 { ch.pick(&outcomes) } else { ch.pick(&outcomes[..2]) };
                steps.push(format!("computes {}", show(&d.outcome().unwrap())));
                answer(0, d.clone());
                settle().await;
                let t = world().now_ns() as f64 / 1e9;
                entry = Some(Entry { got: d.outcome().unwrap(), created: t, used: t, restarted: false });
            } else {
                steps.push("served".into());
            }
            if !h.is_finished() {
                fail("no answer", String::new());
                return;
            }
            let got = h.await.unwrap_or(Err(CacheError::Unsupported("the request panics".into())));
            let e = entry.as_mut().unwrap();
            e.used = world().now_ns() as f64 / 1e9;
            if got != e.got {
                let (g, w) = (show(&got), show(&e.got));
                check.fail(
                    &format!("{c:?} kind {kind} memory {} scope {s} [{}]: wrong answer", capacity > 0, steps.join(" ")),
                    json!({"got": g, "want": w}),
                );
                return;
            }
            check.state(vmc::hash64(&(format!("{c:?} {kind} {capacity} {s}"), format!("{:?} {:?} {must:?}", e.got, (now - e.created) as u64))));
        }
    });
    check.trace();
    check.sample(|| json!({"config": format!("{c:?}"), "steps": steps}));
}

/// Every age of a file as it lies on disk: hit or miss, and whether its use is noted.
fn stored_files(check: &Check) {
    let lifes: Vec<Life> = vec![Some(0), Some(600), Some(H), Some(3 * H), None];
    let ages = [0u64, 1, 599, 600, 601, H - 1, H, H + 1, 3 * H - 1, 3 * H, 3 * H + 1, 100 * H];
    let kinds: [(&str, &[u8]); 7] = [
        ("ok", b"content"),
        ("notfound", b""),
        ("malformed", b"malformed because"),
        ("timeout", b"timeout3s"),
        ("denied", b"permissiondenied"),
        ("download", b"downloaderror503"),
        ("unsupported", b"unsupported"),
    ];
    #[derive(Clone, Copy, Debug, PartialEq)]
    enum Md {
        None,
        Public,
        Private,
        Broken,
        Empty,
    }
    let mds = [Md::None, Md::Public, Md::Private, Md::Broken, Md::Empty];
    vmc::parallel(lifes.len() * kinds.len(), |n| {
        let life = lifes[n % lifes.len()];
        let (kind, bytes) = kinds[n / lifes.len()];
        let dir = Scratch::new("c23f");
        let w = world();
        for ck in 0..4usize {
            for &mage in &ages {
                for &cage in &ages {
                    for md in mds {
                        for restarted in [false, true] {
                            // everything else is "long", so that only the right setting counts
                            let long = Some(1000 * H);
                            let mut c = Cfg { unused: long, miss: long, miss_public: long, bad: long };
                            let public = md == Md::Public;
                            match kind {
                                "ok" => c.unused = life,
                                "malformed" => c.bad = life,
                                _ if public => c.miss_public = life,
                                _ => c.miss = life,
                            }
                            let cc = if ck == 3 {
                                CacheConfig::from(DiagnosticsCacheConfig { retention: life.map(Duration::from_secs) })
                            } else {
                                c.make(ck)
                            };
                            let life = match (ck, kind) {
                                (3, "ok") => life,
                                (3, _) => None,
                                _ => life,
                            };
                            let k = || format!("file {kind} {life:?} kind {ck} mtime age {mage} created {cage} {md:?} restarted {restarted}");
                            w.reset(&dir.0);
                            w.join(0);
                            let t = 2000 * H;
                            // the process starts after or long before the creation
                            w.advance((if restarted { t } else { t - 1000 * H }) * 1_000_000_000);
                            let cache = cache(&dir.0, DISK, cc);
                            if !restarted {
                                w.advance(1000 * H * 1_000_000_000);
                            }
                            let path = dir.0.join("objects/v1/aa/file");
                            std::fs::create_dir_all(path.parent().unwrap()).unwrap();
                            let mut mdp = path.clone();
                            mdp.set_extension("metadata");
                            let _ = std::fs::remove_file(&mdp);
                            std::fs::write(&path, bytes).unwrap();
                            let m0 = (WALL0 + t - mage) as i64;
                            filetime::set_file_mtime(&path, filetime::FileTime::from_unix_time(m0, 0)).unwrap();
                            let created = WALL0 + t - cage;
                            match md {
                                Md::None => {}
                                Md::Public => std::fs::write(&mdp, format!("{{\"scope\":null,\"time_created\":{created},\"debug\":null}}")).unwrap(),
                                Md::Private => std::fs::write(&mdp, format!("{{\"scope\":\"7\",\"time_created\":{created},\"debug\":{{\"key_data\":\"k\"}}}}")).unwrap(),
                                Md::Broken => std::fs::write(&mdp, "{\"scope\":null,\"time_cre").unwrap(),
                                Md::Empty => std::fs::write(&mdp, "").unwrap(),
                            }
                            let r = cache.open_cachefile(&path);
                            crate::sys::World::leave();
                            let has = matches!(md, Md::Public | Md::Private);
                            let cage = if has { cage } else { mage };
                            let hit = match kind {
                                "ok" => life.is_none_or(|l| mage <= l),
                                "malformed" => !(restarted && cage > 0) && life.is_none_or(|l| cage < l),
                                _ => life.is_none_or(|l| cage < l),
                            };
                            let touched = hit && kind == "ok" && mage >= H;
                            let m1 = filetime::FileTime::from_last_modification_time(&std::fs::metadata(&path).unwrap()).unix_seconds();
                            check.expect(k, "hit", &format!("{:?}", r.as_ref().map(|x| x.is_some())), &format!("Ok({hit})"));
                            check.expect(k, "time of use", &m1, &if touched { (WALL0 + t) as i64 } else { m0 });
                            check.expect(k, "content", &(std::fs::read(&path).unwrap() == bytes), &true);
                            check.eval(Some(vmc::hash64(&k())));
                        }
                    }
                }
            }
        }
    });
}
