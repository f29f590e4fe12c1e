//! C25: entries of older versions bridge an upgrade, and are brought up to date in the background.
use super::*;
use crate::sys::WALL0;

const T: u64 = 3000 * 3600;

/// What a version's place on disk holds.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Old {
    Absent,
    Live,
    LiveError,
    Expired,
    ExpiredError,
}
const OLD: [Old; 5] = [Old::Absent, Old::Live, Old::LiveError, Old::Expired, Old::ExpiredError];

fn outcomes() -> Vec<Dir> {
    vec![
        Dir::Ok(b"new".to_vec()),
        Dir::Dirty(b"part".to_vec(), CacheError::NotFound),
        Dir::err(CacheError::DownloadError("503".into())),
        Dir::err(CacheError::InternalError),
        Dir::Panic,
    ]
}
const ORDER: [CacheVersion; 4] = [ver(4), ver(3), ver1(2), ver1(1)];

fn content(v: usize) -> Got {
    Ok(format!("content of version {}", 4 - v).into_bytes())
}
fn old_error(v: usize) -> Got {
    Err(if v % 2 == 0 { CacheError::NotFound } else { CacheError::DownloadError(format!("old {v}")) })
}

/// Puts an entry of version `ORDER[v]`.
fn seed(base: &Path, k: &CacheKey, v: usize, o: Old) {
    let p = base.join(k.cache_path(ORDER[v]));
    let (bytes, age): (Vec<u8>, u64) = match o {
        Old::Absent => return,
        Old::Live => (content(v).unwrap(), 60),
        Old::Expired => (content(v).unwrap(), 2000 * 3600),
        Old::LiveError | Old::ExpiredError => (
            match old_error(v) {
                Err(CacheError::NotFound) => vec![],
                _ => format!("downloaderrorold {v}").into_bytes(),
            },
            if o == Old::LiveError { 60 } else { 2000 * 3600 },
        ),
    };
    std::fs::create_dir_all(p.parent().unwrap()).unwrap();
    std::fs::write(&p, bytes).unwrap();
    let at = WALL0 + T - age;
    let mut md = p.clone().into_os_string();
    md.push(".metadata");
    std::fs::write(&md, format!("{{\"scope\":\"7\",\"time_created\":{at},\"debug\":null}}")).unwrap();
    filetime::set_file_mtime(&p, filetime::FileTime::from_unix_time(at as i64, 0)).unwrap();
}
fn present(base: &Path, k: &CacheKey, v: usize) -> (bool, bool) {
    let p = base.join(k.cache_path(ORDER[v]));
    let mut md = p.clone().into_os_string();
    md.push(".metadata");
    (p.exists(), Path::new(&md).exists())
}

pub fn c25() {
    let check = Check::new(
        "C25",
        "model_checking",
        "every content of the current, fallback and incompatible versions x outcome of the refresh x limit; every order of requests and ends of refreshes on several items; the limits of all caches",
    );
    states(&check);
    orders(&check);
    categories(&check);
    check.finish()
}

fn states(check: &Check) {
    let outs = outcomes();
    let limits: &[isize] = &[0, 1, 2];
    let n = OLD.len().pow(4) * outs.len() * limits.len();
    vmc::parallel(n, |i| {
        let mut x = i;
        let mut take = |m: usize| {
            let r = x % m;
            x /= m;
            r
        };
        let st: Vec<Old> = (0..4).map(|_| OLD[take(OLD.len())]).collect();
        let d = &outs[take(outs.len())];
        let limit = limits[take(limits.len())];
        let k = || format!("versions 4,3,2,1: {st:?}, computation {d:?}, limit {limit}");
        if let Err(p) = vmc::no_panic(|| state(check, &st, d, limit, &k)) {
            check.fail(&format!("{}: panic", k()), json!({"panic": p}));
        }
        check.eval(Some(vmc::hash64(&k())));
        check.sample(|| json!({"case": k()}));
    });
}

fn state(check: &Check, st: &[Old], d: &Dir, limit: isize, k: &dyn Fn() -> String) {
    let scratch = Scratch::new("c25");
    let root = scratch.0.join("r");
    behave_gated();
    reset_counts();
    let s = Setup { refreshes: limit, ..DISK };
    // what the lookup finds: the first usable version
    let found = (0..3).find(|&v| matches!(st[v], Old::Live | Old::LiveError));
    let answer_now: Option<Got> = found.map(|v| if st[v] == Old::Live { content(v) } else { old_error(v) });
    let fallback = found.is_some_and(|v| v > 0);
    let refreshing = fallback && limit > 0;
    let key7 = key(&Scope::Scoped("7".into()), "a");
    let base = root.join("objects");
    ctl::run(&root, async {
        world().advance(T * 1_000_000_000);
        for (v, o) in st.iter().enumerate() {
            seed(&base, &key7, v, *o);
        }
        let before = crate::sys::snapshot(&base);
        let c = cacher::<2>(&root, s);
        let c2 = c.clone();
        let mut h = tokio::spawn(async move { ask(&c2, "a").await });
        settle().await;
        let w = waiting();
        let want_running = (found.is_none() || refreshing) as usize;
        if w.len() != want_running {
            check.fail(&format!("{}: computations", k()), json!({"running": w, "want": want_running}));
            return;
        }
        match &answer_now {
            Some(want) => {
                if !h.is_finished() {
                    check.fail(&format!("{}: a usable entry is not used at once", k()), json!({"running": w}));
                    return;
                }
                match (&mut h).await {
                    Ok(g) => {
                        check.expect(k, "answer", &show(&g), &show(want));
                    }
                    Err(e) => check.fail(&format!("{}: request fails", k()), json!({"error": e.to_string()})),
                }
            }
            None if h.is_finished() => {
                check.fail(&format!("{}: an unusable entry is used", k()), json!({"got": format!("{:?}", h.await)}));
                return;
            }
            None => {}
        }
        if !w.is_empty() {
            answer(0, d.clone());
            settle().await;
        }
        if answer_now.is_none() {
            if !h.is_finished() {
                check.fail(&format!("{}: no answer", k()), json!({}));
                return;
            }
            match (h.await, d.outcome()) {
                (Ok(g), Some(want)) => {
                    check.expect(k, "answer of the computation", &show(&g), &show(&want));
                }
                (Err(_), None) => {}
                (r, want) => check.fail(&format!("{}: answer of the computation", k()), json!({"got": format!("{r:?}"), "want": format!("{want:?}")})),
            }
        }
        // what is on disk now
        let computed = !w.is_empty();
        let stored: Option<Got> = d.outcome().filter(|g| computed && *g != Err(CacheError::InternalError));
        if stored.is_some() {
            for v in 1..4 {
                let p = present(&base, &key7, v);
                if p != (false, false) {
                    check.fail(&format!("{}: version {} is left after the update", k(), 4 - v), json!({"entry, metadata": p}));
                }
            }
            if present(&base, &key7, 0) != (true, true) {
                check.fail(&format!("{}: the new version is not stored", k()), json!({}));
            }
        } else {
            let after = crate::sys::snapshot(&base);
            let same = before.iter().all(|(p, e)| match (e, after.get(p)) {
                (Some((b, ..)), Some(Some((b2, ..)))) => b == b2,
                (None, Some(None)) => true,
                _ => false,
            });
            if !same {
                check.fail(&format!("{}: entries of older versions are lost without a new one", k()), json!({}));
            }
        }
        // a later process
        drop(c);
        reset_counts();
        let c = cacher::<2>(&root, Setup { refreshes: 1, ..s });
        let c2 = c.clone();
        let h = tokio::spawn(async move { ask(&c2, "a").await });
        settle().await;
        match stored.or(answer_now.clone()) {
            Some(want) => {
                if !h.is_finished() {
                    check.fail(&format!("{}: later request is not answered at once", k()), json!({}));
                    return;
                }
                check.expect(k, "later answer", &format!("{:?}", h.await.map(|g| show(&g)).ok()), &format!("{:?}", Some(show(&want))));
            }
            None => {
                if h.is_finished() {
                    check.fail(&format!("{}: later request is answered with nothing usable stored", k()), json!({"got": format!("{:?}", h.await)}));
                }
            }
        }
    });
}

/// Several items, all with a usable older version.
fn orders(check: &Check) {
    let mut cases = vec![];
    let depth = if check.thorough() { 8 } else { 6 };
    for limit in [1, 2] {
        for capacity in [100 * 1024, 0] {
            for keys in [2usize, 3] {
                cases.push((limit, capacity, keys));
            }
        }
    }
    for (limit, capacity, keys) in cases {
        let depth = if keys == 3 { depth - 1 } else { depth };
        vmc::explore_parallel(3, |ch| {
            if let Err(p) = vmc::no_panic(|| order(check, limit, capacity, keys, depth, ch)) {
                check.fail(&format!("limit {limit} memory {capacity} items {keys} {:?}: panic", ch.choices()), json!({"panic": p}));
            }
            !check.saturated()
        });
    }
    check.extra("depth of the orders", depth);
}

fn order(check: &Check, limit: isize, capacity: u64, n: usize, depth: usize, ch: &mut Chooser) {
    let scratch = Scratch::new("c25o");
    let root = scratch.0.join("r");
    let base = root.join("objects");
    behave_gated();
    reset_counts();
    let names = ["a", "b", "c"];
    let mut steps: Vec<String> = vec![];
    ctl::run(&root, async {
        world().advance(T * 1_000_000_000);
        for x in &names[..n] {
            seed(&base, &key(&Scope::Scoped("7".into()), x), 1, Old::Live);
        }
        // the limit is shared by two caches' worth of requests
        let c = cacher::<2>(&root, Setup { disk: true, capacity, refreshes: limit });
        let c1 = c.clone();
        let name = |steps: &[String]| format!("limit {limit} memory {capacity} items {n} [{}]", steps.join(", "));
        // per item: outcome of the finished refresh, what memory may hold
        let mut disk: Vec<Option<Got>> = vec![None; n];
        let mut memory: Vec<Vec<Got>> = vec![vec![]; n];
        let mut running: Vec<usize> = vec![];
        for _ in 0..depth {
            let ends = running.len();
            let e = ch.choose(n + ends);
            check.transition(1);
            if e < n {
                steps.push(format!("ask {}", names[e]));
                let (c2, x) = (if e % 2 == 0 { c.clone() } else { c1.clone() }, names[e]);
                let h = tokio::spawn(async move { ask(&c2, x).await });
                settle().await;
                if !h.is_finished() {
                    check.fail(&format!("{}: a request waits for the refresh", name(&steps)), json!({"steps": steps}));
                    return;
                }
                let got = h.await.unwrap();
                let from_memory = !memory[e].is_empty();
                let want = if from_memory {
                    memory[e].clone()
                } else {
                    vec![disk[e].clone().unwrap_or(content(1))]
                };
                if !want.contains(&got) {
                    check.fail(&format!("{}: answer", name(&steps)), json!({"got": show(&got), "want": want.iter().map(show).collect::<Vec<_>>()}));
                    return;
                }
                if capacity > 0 {
                    memory[e] = vec![got];
                }
                let now = running_items(&names[..n]);
                let mut may = running.clone();
                let starts = !from_memory && disk[e].is_none() && !running.contains(&e) && (running.len() as isize) < limit;
                if starts {
                    may.push(e);
                    may.sort();
                }
                if now != may {
                    check.fail(&format!("{}: running refreshes", name(&steps)), json!({"running": now, "want": may}));
                    return;
                }
                running = now;
            } else {
                let i = running[e - n];
                let d = ch.pick(&outcomes()).clone();
                steps.push(format!("refresh of {} -> {d:?}", names[i]));
                let at = waiting().iter().position(|l| l.split(' ').nth(1) == Some(names[i])).unwrap();
                answer(at, d.clone());
                settle().await;
                running.retain(|x| *x != i);
                let now = running_items(&names[..n]);
                if now != running {
                    check.fail(&format!("{}: running refreshes", name(&steps)), json!({"running": now, "want": running}));
                    return;
                }
                match d.outcome() {
                    Some(Err(CacheError::InternalError)) => {
                        // not stored; what memory answers meanwhile is open
                        if capacity > 0 {
                            memory[i].push(Err(CacheError::InternalError));
                        }
                    }
                    Some(g) => {
                        disk[i] = Some(g.clone());
                        if capacity > 0 {
                            memory[i] = vec![g];
                        }
                    }
                    None => {}
                }
            }
            check.state(vmc::hash64(&(limit, capacity, n, format!("{disk:?} {memory:?} {running:?}"))));
        }
        // nothing is used up: after everything came to an end, another item is refreshed
        while !waiting().is_empty() {
            answer(0, Dir::Panic);
            settle().await;
        }
        for x in ["y", "z"] {
            seed(&base, &key(&Scope::Scoped("7".into()), x), 2, Old::Live);
            let c2 = c.clone();
            let h = tokio::spawn(async move { ask(&c2, x).await });
            settle().await;
            if !h.is_finished() {
                check.fail(&format!("{}: a request waits for the refresh", name(&steps)), json!({"steps": steps}));
            }
        }
        let w = waiting().len() as isize;
        if w != limit.min(2) {
            check.fail(&format!("{}: the limit is not what it was", name(&steps)), json!({"running": w}));
        }
    });
    check.trace();
    check.sample(|| json!({"limit": limit, "memory": capacity, "steps": steps}));
}
fn running_items(names: &[&str]) -> Vec<usize> {
    let mut v: Vec<usize> = waiting().iter().filter_map(|l| names.iter().position(|x| l.split(' ').nth(1) == Some(x))).collect();
    v.sort();
    v
}

/// The configured limit covers all caches of a category, and only those.
fn categories(check: &Check) {
    let groups: [&[&str]; 3] = [
        &["objects", "auxdifs", "il2cpp", "sourcefiles", "proguard"],
        &["object_meta", "symcaches", "cficaches", "ppdb_caches", "sourcemap_caches"],
        &["source_index"],
    ];
    let settings = [[1isize, 2, 3], [3, 1, 2], [2, 3, 1], [0, -1, 0], [1, 1, 4]];
    for lim in settings {
        let k = || format!("limits downloaded {} derived {} index {}", lim[0], lim[1], lim[2]);
        let scratch = Scratch::new("c25c");
        let root = scratch.0.join("r");
        behave_gated();
        reset_counts();
        ctl::run(&root, async {
            world().advance(T * 1_000_000_000);
            let mut cfg = config(&root, true);
            cfg.caches.downloaded.max_lazy_redownloads = lim[0];
            cfg.caches.derived.max_lazy_recomputations = lim[1];
            cfg.caches.index.max_lazy_recomputations = lim[2];
            let cs = Caches::from_config(&cfg).unwrap();
            let all = [
                ("objects", cs.objects),
                ("object_meta", cs.object_meta),
                ("auxdifs", cs.auxdifs),
                ("il2cpp", cs.il2cpp),
                ("symcaches", cs.symcaches),
                ("cficaches", cs.cficaches),
                ("ppdb_caches", cs.ppdb_caches),
                ("sourcemap_caches", cs.sourcemap_caches),
                ("sourcefiles", cs.sourcefiles),
                ("proguard", cs.proguard),
                ("source_index", cs.source_index),
            ];
            for (dir, c) in all {
                let c: Cacher<Req<2>> = Cacher::new(c, Default::default());
                for x in 0..4 {
                    let x = format!("{dir}-{x}");
                    seed(&root.join(dir), &key(&Scope::Scoped("7".into()), &x), 1, Old::Live);
                    let c2 = c.clone();
                    let h = tokio::spawn(async move { ask(&c2, &x).await });
                    settle().await;
                    let ok = h.is_finished() && h.await.is_ok_and(|g| g == content(1));
                    if !ok {
                        check.fail(&format!("{}: {dir} does not use the older version", k()), json!({}));
                    }
                }
            }
            let w = waiting();
            for (g, l) in groups.iter().zip(lim) {
                let n = w.iter().filter(|l| g.contains(&l.split(' ').nth(1).unwrap().split('-').next().unwrap())).count();
                check.expect(k, &format!("refreshes of {}", g[0]), &n, &(l.max(1) as usize));
            }
        });
        check.eval(Some(vmc::hash64(&k())));
    }
}
