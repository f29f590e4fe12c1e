//! C26: a shared cache only saves work, it never changes an answer.
use super::*;
use crate::wire::{self, Chunk, Wire};
use std::sync::Mutex;
use symbolicator_service::caching::{CacheStoreReason, SharedCacheConfig, SharedCacheRef, SharedCacheService};

fn gcs(uploads: usize, queue: usize) -> SharedCacheConfig {
    vmc::serde_json::from_value(json!({
        "max_concurrent_uploads": uploads, "max_upload_queue_size": queue,
        "gcs": {"bucket": "the bucket", "service_account_path": "/nonexistent/key.json"},
    }))
    .unwrap()
}
fn folder(p: &Path) -> SharedCacheConfig {
    vmc::serde_json::from_value(json!({"filesystem": {"path": p}})).unwrap()
}
async fn service(c: SharedCacheConfig) -> SharedCacheRef {
    let s = SharedCacheService::new(Some(c), tokio::runtime::Handle::current());
    settle().await;
    s
}
fn with_shared<const V: usize>(root: &Path, s: Setup, shared: &SharedCacheRef) -> Cacher<Req<V>> {
    Cacher::new(cache(root, s, CacheConfig::from(Config::default().caches.downloaded)), shared.clone())
}
fn the_key() -> CacheKey {
    key(&Scope::Scoped("7".into()), "a")
}

pub fn c26() {
    let check = Check::new(
        "C26",
        "model_checking",
        "every response of the shared cache x outcome of the computation x local cache; every order of requests and ends of uploads; every failing file operation and every cut-off of a store; every interleaving of two instances with bounded preemptions",
    );
    check.assume("Google Cloud Storage is a scripted server behind a stand-in of the HTTP client");
    responses(&check);
    cancelled(&check);
    uploads(&check);
    refresh(&check);
    instances(&check);
    faults(&check);
    races(&check);
    check.finish()
}

const SHARED: &[u8] = b"content out of the shared cache";
fn is_get(h: &reqwest::Hop) -> bool {
    h.method == reqwest::Method::GET
}
fn name_of(h: &reqwest::Hop) -> Option<String> {
    h.url.query_pairs().find(|q| q.0 == "name").map(|q| q.1.into_owned())
}

fn responses(check: &Check) {
    let half = &SHARED[..SHARED.len() / 2];
    let rest = &SHARED[SHARED.len() / 2..];
    let n = Some(SHARED.len());
    let d = |b: &[u8]| Chunk::Data(b.to_vec());
    let s = Duration::from_secs;
    // (response, whether it is a hit)
    let mut wires: Vec<(&str, Wire, bool)> = vec![
        ("complete", Wire::ok(200, SHARED), true),
        ("complete, in parts", Wire::body(n, vec![d(half), d(rest)]), true),
        ("complete, without length", Wire::body(None, vec![d(half), Chunk::Wait(s(3)), d(rest)]), true),
        ("slow but in time", Wire::body(n, vec![d(half), Chunk::Wait(s(50)), d(rest)]), true),
        ("headers in time", Wire::Late(Duration::from_millis(400), Box::new(Wire::ok(200, SHARED))), true),
        ("too slow", Wire::body(n, vec![d(half), Chunk::Wait(s(70)), d(rest)]), false),
        ("stops at once", Wire::body(n, vec![Chunk::Hang]), false),
        ("stops half way", Wire::body(n, vec![d(half), Chunk::Hang]), false),
        ("breaks at once", Wire::body(n, vec![Chunk::Break]), false),
        ("breaks half way", Wire::body(n, vec![d(half), Chunk::Break]), false),
        ("breaks before the end", Wire::body(n, vec![d(&SHARED[..SHARED.len() - 1]), Chunk::Break]), false),
        ("breaks half way, chunked", Wire::body(None, vec![d(half), Chunk::Break]), false),
        ("too short", Wire::body(n, vec![d(half)]), false),
        ("late headers", Wire::Late(s(2), Box::new(Wire::ok(200, SHARED))), false),
        ("no response", Wire::Hang, false),
        ("no connection", Wire::Refused, false),
        ("broken connection", Wire::Broken, false),
    ];
    for st in [400, 401, 403, 404, 408, 410, 412, 429, 500, 502, 503, 504] {
        wires.push(("status", Wire::status(st), false));
    }
    let outs = vec![
        Dir::Ok(b"own".to_vec()),
        Dir::Ok(vec![b'o'; 100_000]),
        Dir::Swap(b"own".to_vec()),
        Dir::Dirty(b"part".to_vec(), CacheError::NotFound),
        Dir::err(CacheError::DownloadError("503".into())),
        Dir::Dirty(b"part".to_vec(), CacheError::InternalError),
        Dir::Panic,
    ];
    let setups = [DISK, Setup { disk: false, ..DISK }];
    let total = wires.len() * outs.len() * setups.len() * 2;
    vmc::parallel(total, |i| {
        let (wname, w, hit) = &wires[i % wires.len()];
        let out = &outs[i / wires.len() % outs.len()];
        let setup = setups[i / wires.len() / outs.len() % 2];
        let use_shared = i / wires.len() / outs.len() / 2 == 0;
        let k = || format!("shared cache answers {wname} {}; own computation {out:?}; disk {}; shared cache used {use_shared}", brief(w), setup.disk);
        let r = vmc::no_panic(|| response(check, w, *hit && use_shared, use_shared, out, setup, &k));
        if let Err(p) = r {
            check.fail(&format!("{}: panic", k()), json!({"panic": p}));
        }
        check.eval(Some(vmc::hash64(&k())));
        check.sample(|| json!({"case": k()}));
    });
}
fn brief(w: &Wire) -> String {
    match w {
        Wire::Reply { status, .. } => status.to_string(),
        _ => String::new(),
    }
}
fn abridged(d: &Dir) -> Option<String> {
    d.outcome().map(|g| show(&g))
}

fn response(check: &Check, w: &Wire, hit: bool, use_shared: bool, out: &Dir, setup: Setup, k: &dyn Fn() -> String) {
    let scratch = Scratch::new("c26");
    let root = scratch.0.join("r");
    reset_counts();
    let out2 = out.clone();
    behave(move |_, _| out2.clone());
    ctl::run(&root, async {
        let w2 = w.clone();
        wire::install(move |h| if is_get(h) { w2.clone() } else { Wire::ok(200, b"{}") });
        let sh = service(gcs(2, 2)).await;
        let c = with_shared::<0>(&root, setup, &sh);
        let c2 = c.clone();
        let mut req = Req::new("a");
        req.shared = use_shared;
        let h = tokio::spawn(async move { c2.compute_memoized(req, the_key()).await.into_contents() });
        // connecting, streaming: 60 s and a bit
        ctl::pass(Duration::from_secs(65)).await;
        if !h.is_finished() {
            check.fail(&format!("{}: the request waits for the shared cache", k()), json!({}));
            return;
        }
        let got = h.await;
        let want = if hit { Some(Ok(SHARED.to_vec())) } else { out.outcome() };
        match (&got, &want) {
            (Ok(g), Some(x)) if g == x => {}
            (Err(_), None) => {}
            _ => check.fail(&format!("{}: answer", k()), json!({"got": got.as_ref().map(show).ok(), "want": want.as_ref().map(show)})),
        }
        check.expect(k, "computations", &computed("a"), &(!hit as u32));
        let hops = wire::take_hops();
        let gets = hops.iter().filter(|h| is_get(h)).count();
        check.expect(k, "lookups", &gets, &(use_shared as usize));
        for h in &hops {
            if is_get(h) {
                let path: Vec<String> = h.url.path_segments().unwrap().map(|s| s.to_string()).collect();
                let want = format!("objects/{}", the_key().cache_path(versions(0).current)).replace('/', "%2F");
                check.expect(k, "looked up", &path, &vec!["storage".into(), "v1".into(), "b".into(), "the%20bucket".into(), "o".into(), want]);
                check.expect(k, "lookup mode", &h.url.query(), &Some("alt=media"));
            }
        }
        // own content is shared, nothing else
        let posts: Vec<_> = hops.iter().filter(|h| !is_get(h)).collect();
        let upload = use_shared && !hit && matches!(out.outcome(), Some(Ok(_)));
        check.expect(k, "uploads", &posts.len(), &(upload as usize));
        for p in posts {
            check.expect(k, "uploaded as", &name_of(p), &Some(format!("objects/{}", the_key().cache_path(versions(0).current))));
            let b = p.body.as_ref().map(|b| b.to_vec()).unwrap_or_default();
            if Some(Ok(b)) != out.outcome() {
                check.fail(&format!("{}: other content is uploaded", k()), json!({}));
            }
            if !p.url.query_pairs().any(|q| q.0 == "ifGenerationMatch" && q.1 == "0") {
                check.fail(&format!("{}: an existing object could be replaced", k()), json!({"url": p.url.as_str()}));
            }
            check.expect(k, "credentials", &p.headers.get("authorization").and_then(|v| v.to_str().ok()), &Some("Bearer gcp-token"));
        }
        // later: the local copy is the answer
        drop(c);
        if setup.disk {
            let stored = want.filter(|g| *g != Err(CacheError::InternalError));
            let n = computed("a");
            wire::install(|_| Wire::Refused);
            let c = with_shared::<0>(&root, setup, &sh);
            if let Some(x) = stored {
                let g = ask(&c, "a").await;
                check.expect(k, "later answer", &show(&g), &show(&x));
                check.expect(k, "later computations", &computed("a"), &n);
                if !wire::take_hops().is_empty() {
                    check.fail(&format!("{}: the shared cache is asked for a local item", k()), json!({}));
                }
            }
            check.expect(k, "temporary files left", &crate::sys::snapshot(&root.join("tmp")).len(), &0);
        }
    });
}

/// The client goes away while the shared cache answers.
fn cancelled(check: &Check) {
    let n = Some(SHARED.len());
    let half = Chunk::Data(SHARED[..9].to_vec());
    let wires = [Wire::Hang, Wire::body(n, vec![Chunk::Hang]), Wire::body(n, vec![half, Chunk::Hang])];
    for (i, w) in wires.iter().enumerate() {
        for after in [1u64, 400, 20_000] {
            for second in [false, true] {
                let k = || format!("client gone after {after} ms, response {i}, another client {second}");
                let scratch = Scratch::new("c26c");
                let root = scratch.0.join("r");
                reset_counts();
                behave(|_, _| Dir::Ok(b"own".to_vec()));
                ctl::run(&root, async {
                    let w2 = w.clone();
                    wire::install(move |h| if is_get(h) { w2.clone() } else { Wire::ok(200, b"{}") });
                    let sh = service(gcs(2, 2)).await;
                    let c = with_shared::<0>(&root, DISK, &sh);
                    let c2 = c.clone();
                    let h = tokio::spawn(async move { ask(&c2, "a").await });
                    settle().await;
                    let c3 = c.clone();
                    let h2 = second.then(|| tokio::spawn(async move { ask(&c3, "a").await }));
                    ctl::pass(Duration::from_millis(after)).await;
                    h.abort();
                    let _ = h.await;
                    let h2 = h2.unwrap_or_else(|| {
                        let c3 = c.clone();
                        tokio::spawn(async move { ask(&c3, "a").await })
                    });
                    ctl::pass(Duration::from_secs(130)).await;
                    if !h2.is_finished() {
                        check.fail(&format!("{}: the other client is not answered", k()), json!({}));
                        return;
                    }
                    check.expect(k, "answer", &h2.await.ok().map(|g| show(&g)), &Some(show(&Ok(b"own".to_vec()))));
                    check.expect(k, "temporary files left", &crate::sys::snapshot(&root.join("tmp")).len(), &0);
                });
                check.eval(Some(vmc::hash64(&k())));
            }
        }
    }
}

/// Uploads run beside the requests, in bounded numbers.
fn uploads(check: &Check) {
    let n = if check.thorough() { 5 } else { 4 };
    for max in [1usize, 2] {
        for queue in [1usize, 2] {
            vmc::explore_parallel(3, |ch| {
                if let Err(p) = vmc::no_panic(|| upload(check, max, queue, n, ch)) {
                    check.fail(&format!("uploads {max} queue {queue} {:?}: panic", ch.choices()), json!({"panic": p}));
                }
                !check.saturated()
            });
        }
    }
    // Settings that make no sense do not harm requests.
    for (max, queue) in [(0, 2), (2, 0), (0, 0)] {
        let scratch = Scratch::new("c26z");
        behave(|_, _| Dir::Ok(b"own".to_vec()));
        let k = || format!("uploads {max} queue {queue}");
        let _ = vmc::no_panic(|| ctl::run(&scratch.0, async {
            wire::install(|h| if is_get(h) { Wire::status(404) } else { Wire::ok(200, b"{}") });
            let sh = service(gcs(max, queue)).await;
            let c = with_shared::<0>(&scratch.0, DISK, &sh);
            for x in ["a", "b", "c"] {
                let c2 = c.clone();
                let h = tokio::spawn(async move { ask(&c2, x).await });
                settle().await;
                if !h.is_finished() || h.await.ok() != Some(Ok(b"own".to_vec())) {
                    check.fail(&format!("{}: a request is not answered", k()), json!({}));
                }
            }
        }));
        check.eval(Some(vmc::hash64(&k())));
    }
}

fn upload(check: &Check, max: usize, queue: usize, n: usize, ch: &mut Chooser) {
    let scratch = Scratch::new("c26u");
    behave(|k, _| Dir::Ok(format!("content of {k}").into_bytes()));
    reset_counts();
    let mut steps: Vec<String> = vec![];
    ctl::run(&scratch.0, async {
        wire::install(|h| {
            if is_get(h) {
                return Wire::status(404);
            }
            let b = String::from_utf8(h.body.as_ref().unwrap().to_vec()).unwrap();
            Wire::Gate(b.replace("content of", "upload"))
        });
        let sh = service(gcs(max, queue)).await;
        let c = with_shared::<0>(&scratch.0, DISK, &sh);
        let name = |s: &[String]| format!("uploads {max} queue {queue} [{}]", s.join(", "));
        let names = ["a", "b", "c", "d", "e"];
        let mut asked = 0;
        let (mut running, mut queued): (Vec<&str>, Vec<&str>) = (vec![], vec![]);
        loop {
            let news = (asked < n) as usize;
            if news + running.len() == 0 {
                break;
            }
            let e = ch.choose(news + running.len());
            check.transition(1);
            if e < news {
                let x = names[asked];
                asked += 1;
                steps.push(format!("ask {x}"));
                let c2 = c.clone();
                let h = tokio::spawn(async move { ask(&c2, x).await });
                settle().await;
                if !h.is_finished() {
                    check.fail(&format!("{}: a request waits for an upload", name(&steps)), json!({}));
                    return;
                }
                check.expect(|| name(&steps), "answer", &show(&h.await.unwrap()), &show(&Ok(format!("content of {x}").into_bytes())));
                if running.len() < max {
                    running.push(x);
                } else if queued.len() < queue {
                    queued.push(x);
                }
            } else {
                let x = running.remove(e - news);
                let at = waiting().iter().position(|l| *l == format!("upload {x}")).unwrap();
                let mut ws = vec![Wire::ok(200, b"{}"), Wire::status(500), Wire::Hang];
                if check.thorough() {
                    ws.extend([Wire::status(412), Wire::Broken]);
                }
                let w = ch.pick(&ws).clone();
                steps.push(format!("upload {x} -> {w:?}"));
                let hang = w == Wire::Hang;
                answer(at, w);
                settle().await;
                if hang {
                    // given up after a minute; others may time out as well: they are just started again never
                    ctl::pass(Duration::from_secs(61)).await;
                    // every other running upload, and those that came up, are over as well
                    running.clear();
                    let k = queued.len().min(max);
                    running = queued.drain(..k).collect();
                    // what started at the end of the minute is still running
                } else if !queued.is_empty() {
                    running.push(queued.remove(0));
                }
            }
            let mut now: Vec<String> = waiting();
            let mut want: Vec<String> = running.iter().map(|x| format!("upload {x}")).collect();
            now.sort();
            want.sort();
            if now != want {
                check.fail(&format!("{}: running uploads", name(&steps)), json!({"running": now, "want": want}));
                return;
            }
            check.state(vmc::hash64(&(max, queue, asked, &now, &queued)));
        }
    });
    check.trace();
    check.sample(|| json!({"uploads": max, "queue": queue, "steps": steps}));
}

/// A refreshed item is only uploaded if it is not there.
fn refresh(check: &Check) {
    for (name, exists, upload) in [
        ("there", Wire::ok(200, b"{}"), false),
        ("not there", Wire::status(404), true),
        ("unknown", Wire::status(500), true),
        ("forbidden", Wire::status(403), true),
        ("no answer", Wire::Hang, true),
        ("no connection", Wire::Refused, true),
    ] {
        let scratch = Scratch::new("c26r");
        let k = || format!("refresh of an object that is {name}");
        ctl::run(&scratch.0, async {
            let e = exists.clone();
            wire::install(move |h| if is_get(h) { e.clone() } else { Wire::ok(200, b"{}") });
            let sh = service(gcs(2, 2)).await;
            let mut hops = vec![];
            // most refreshes are dropped at random
            for _ in 0..3000 {
                let _ = sh.get().unwrap().store(CacheName::Symcaches, "v5/aa/bb", ByteView::from_slice(b"content"), CacheStoreReason::Refresh);
                ctl::pass(Duration::from_secs(1)).await;
                hops = wire::take_hops();
                if !hops.is_empty() {
                    break;
                }
            }
            let gets: Vec<_> = hops.iter().filter(|h| is_get(h)).map(|h| h.url.path().to_string()).collect();
            check.expect(k, "looked up", &gets, &vec!["/storage/v1/b/the%20bucket/o/symcaches%2Fv5%2Faa%2Fbb".to_string()]);
            let posts: Vec<_> = hops.iter().filter(|h| !is_get(h)).filter_map(name_of).collect();
            let want: Vec<String> = upload.then(|| "symcaches/v5/aa/bb".to_string()).into_iter().collect();
            check.expect(k, "uploaded", &posts, &want);
        });
        check.eval(Some(vmc::hash64(&k())));
    }
}

/// Several instances on one folder: histories of requests for two items, two versions, two caches.
fn instances(check: &Check) {
    let depth = if check.thorough() { 5 } else { 4 };
    vmc::explore_parallel(2, |ch| {
        let scratch = Scratch::new("c26i");
        let root = scratch.0.join("r");
        let shared = root.join("shared");
        behave_gated();
        reset_counts();
        let mut steps: Vec<String> = vec![];
        ctl::run(&root, async {
            let mut svc = vec![];
            for _ in 0..2 {
                svc.push(service(folder(&shared)).await);
            }
            // 0, 1: objects of version 1; 2: the other cache; 3: objects of the newer version
            let dirs = [root.join("i0"), root.join("i1")];
            let cc = || CacheConfig::from(Config::default().caches.downloaded);
            let mk = |d: &Path, n| Cache::from_config(n, &config(d, true), cc(), Arc::new(AtomicIsize::new(0)), 0).unwrap();
            let mut pool: std::collections::BTreeMap<(&str, u32, &str), Vec<u8>> = Default::default();
            let mut local: std::collections::BTreeMap<(usize, &str, &str), std::collections::BTreeMap<u32, Got>> = Default::default();
            let mut n = 0;
            for _ in 0..depth {
                let who = ch.choose(4);
                let item = ["a", "b"][ch.choose(2)];
                let (inst, cname, version) = match who {
                    0 => (0, "objects", 1),
                    1 => (1, "objects", 1),
                    2 => (1, "auxdifs", 1),
                    _ => (1, "objects", 2),
                };
                let cn = if cname == "objects" { CacheName::Objects } else { CacheName::Auxdifs };
                let store = mk(&dirs[inst], cn);
                let h = if version == 1 {
                    let c: Cacher<Req<0>> = Cacher::new(store, svc[inst].clone());
                    tokio::spawn(async move { ask(&c, item).await })
                } else {
                    let c: Cacher<Req<1>> = Cacher::new(store, svc[inst].clone());
                    tokio::spawn(async move { ask(&c, item).await })
                };
                settle().await;
                let mine = local.entry((inst, cname, item)).or_default();
                let pooled = pool.get(&(cname, version, item)).cloned();
                // an older version answers at once, a newer one is of no use
                let usable = mine.range(..=version).next_back().map(|e| e.1.clone());
                let step = format!("instance {inst} asks for {item} in {cname} version {version}");
                let want: Got = if let Some(g) = usable {
                    g
                } else if let Some(b) = pooled {
                    mine.retain(|v, _| *v > version);
                    mine.insert(version, Ok(b.clone()));
                    Ok(b)
                } else {
                    let w = waiting();
                    if w.len() != 1 {
                        steps.push(step);
                        check.fail(&format!("instances [{}]: computations", steps.join(", ")), json!({"running": w}));
                        return;
                    }
                    n += 1;
                    let d = if ch.choose(2) == 0 { Dir::Ok(format!("content {n}").into_bytes()) } else { Dir::err(CacheError::NotFound) };
                    answer(0, d.clone());
                    settle().await;
                    let g = d.outcome().unwrap();
                    if let Ok(b) = &g {
                        pool.entry((cname, version, item)).or_insert(b.clone());
                    }
                    mine.retain(|v, _| *v > version);
                    mine.insert(version, g.clone());
                    g
                };
                steps.push(format!("{step} -> {}", show(&want)));
                check.transition(1);
                if !waiting().is_empty() || !h.is_finished() {
                    check.fail(&format!("instances [{}]: not answered without a computation", steps.join(", ")), json!({"running": waiting()}));
                    return;
                }
                let got = h.await.unwrap();
                check.expect(|| format!("instances [{}]", steps.join(", ")), "answer", &show(&got), &show(&want));
                check.state(vmc::hash64(&(format!("{pool:?} {local:?}"), who)));
            }
            let files = crate::sys::snapshot(&shared);
            let mut have: Vec<String> = files.iter().filter_map(|(p, e)| e.as_ref().map(|e| format!("{} {}", p.display(), String::from_utf8_lossy(&e.0)))).collect();
            let k = key(&Scope::Scoped("7".into()), "a");
            let k2 = key(&Scope::Scoped("7".into()), "b");
            let mut want: Vec<String> = pool
                .iter()
                .map(|((c, v, i), b)| format!("{c}/{} {}", if *i == "a" { &k } else { &k2 }.cache_path(versions(*v as usize - 1).current), String::from_utf8_lossy(b)))
                .collect();
            have.sort();
            want.sort();
            check.expect(|| format!("instances [{}]", steps.join(", ")), "shared files", &have, &want);
        });
        check.trace();
        check.sample(|| json!({"steps": steps}));
        !check.saturated()
    });
    check.extra("depth of the histories of instances", depth);
}

/// Every failing or torn operation, every cut-off of one instance's request; another one asks later.
fn faults(check: &Check) {
    use crate::sys::{self, Act, Kind, Op, Tree};
    let contents: Vec<Vec<u8>> = vec![b"own content".to_vec(), vec![b'x'; 70_000], vec![]];
    for content in &contents {
        for seeded in [false, true] {
            let own: Got = Ok(content.clone());
            let old: Got = Ok(SHARED.to_vec());
            let want = if seeded { &old } else { &own };
            // fault: 0 none, 2n+1 the n-th fails, 2n+2 the n-th is torn
            let go = |fault: usize, record: bool| -> (usize, Vec<(String, Tree)>, Got, Got) {
                let scratch = Scratch::new("c26f");
                let root = scratch.0.join("r");
                let shared = root.join("shared");
                reset_counts();
                let c2 = content.clone();
                behave(move |_, _| Dir::Ok(c2.clone()));
                let st = Arc::new(Mutex::new((0usize, Vec::<(String, Tree)>::new(), false)));
                ctl::run(&root, async {
                    let sh = service(folder(&shared)).await;
                    let p = shared.join("objects").join(the_key().cache_path(versions(0).current));
                    if seeded {
                        std::fs::create_dir_all(p.parent().unwrap()).unwrap();
                        std::fs::write(&p, SHARED).unwrap();
                    }
                    let c = with_shared::<0>(&root.join("i0"), DISK, &sh);
                    let (s2, root2) = (st.clone(), root.clone());
                    world().set_hook(Some(Arc::new(move |op: &Op| {
                        let mut s = s2.lock().unwrap();
                        s.0 += 1;
                        let n = s.0;
                        if record && op.kind.mutates() {
                            let t = sys::snapshot(&root2);
                            if op.kind == Kind::Write && op.len > 1 {
                                let mut half = t.clone();
                                if let Some(Some((b, _, _))) = half.get_mut(op.path.strip_prefix(&root2).unwrap()) {
                                    b.extend(std::iter::repeat(b'?').take(op.len / 2));
                                    s.1.push((format!("half of operation {n} {:?}", op.kind), half));
                                }
                            }
                            s.1.push((format!("before operation {n} {:?}", op.kind), t));
                        }
                        if fault == 2 * n + 1 {
                            return Act::Err(libc::EIO);
                        }
                        if fault == 2 * n + 2 && op.kind == Kind::Write {
                            s.2 = true;
                            return Act::Short(op.len / 2);
                        }
                        if s.2 && fault == 2 * n {
                            return Act::Err(libc::ENOSPC);
                        }
                        Act::Go
                    })));
                    let g = ask(&c, "a").await;
                    ctl::pass(Duration::from_secs(5)).await;
                    world().set_hook(None);
                    drop(c);
                    if record {
                        let t = sys::snapshot(&root);
                        st.lock().unwrap().1.push(("at the end".into(), t));
                    }
                    // another instance
                    behave(|_, _| Dir::Ok(b"computed by another".to_vec()));
                    let c = with_shared::<0>(&root.join("i1"), DISK, &service(folder(&shared)).await);
                    let later = ask(&c, "a").await;
                    let s = st.lock().unwrap();
                    (s.0, s.1.clone(), g, later)
                })
            };
            let other: Got = Ok(b"computed by another".to_vec());
            let name = format!("content of {} bytes, shared before {seeded}", content.len());
            let (n, points, g, later) = go(0, true);
            check.expect(|| name.clone(), "answer", &show(&g), &show(want));
            check.expect(|| name.clone(), "answer of the other instance", &show(&later), &show(want));
            for (at, t) in &points {
                let scratch = Scratch::new("c26g");
                let root = scratch.0.join("r");
                behave(|_, _| Dir::Ok(b"computed by another".to_vec()));
                let later = ctl::run(&root, async {
                    sys::restore(&root, t);
                    let c = with_shared::<0>(&root.join("i1"), DISK, &service(folder(&root.join("shared"))).await);
                    ask(&c, "a").await
                });
                if &later != want && (later != other || seeded) {
                    check.fail(&format!("{name}, cut off {at}: answer of another instance"), json!({"got": show(&later)}));
                }
                check.eval(Some(vmc::hash64(&(&name, at))));
            }
            for fault in 3..2 * n + 3 {
                let k = || format!("{name}, operation {} {}", (fault - 1) / 2, if fault % 2 == 1 { "fails" } else { "is torn" });
                match vmc::no_panic(|| go(fault, false)) {
                    Err(p) => check.fail(&format!("{}: panic", k()), json!({"panic": p})),
                    Ok((_, _, g, later)) => {
                        if &g != want && g != own && !matches!(g, Err(CacheError::InternalError)) {
                            check.fail(&format!("{}: answer", k()), json!({"got": show(&g)}));
                        }
                        if &later != want && later != own && (later != other || seeded) {
                            check.fail(&format!("{}: answer of another instance", k()), json!({"got": show(&later)}));
                        }
                    }
                }
                check.eval(Some(vmc::hash64(&k())));
            }
        }
    }
}

/// Two instances at the same time on the same folder.
fn races(check: &Check) {
    let bound = if check.thorough() { 3 } else { 2 };
    let n = vmc::explore_parallel(4, |ch| {
        race(check, bound, ch);
        !check.saturated()
    });
    check.extra("schedules of two instances", n);
    check.extra("preemption bound", bound);
}
fn race(check: &Check, bound: usize, ch: &mut Chooser) {
    use crate::sched::Sched;
    let scratch = Scratch::new("c26p");
    let root = scratch.0.join("r");
    let shared = root.join("shared");
    let w = world();
    w.reset(&root);
    let sched = Sched::install(w, 2);
    let (got, trace) = std::thread::scope(|s| {
        let hs: Vec<_> = (0..2)
            .map(|i| {
                let (sc, root, shared) = (sched.clone(), root.clone(), shared.clone());
                s.spawn(move || {
                    behave(move |_, _| Dir::Ok(format!("content of instance {i}").into_bytes()));
                    ctl::adopt(w);
                    let r = vmc::no_panic(|| {
                        ctl::resume_as(i, async {
                            let sh = service(folder(&shared)).await;
                            let c = with_shared::<0>(&root.join(format!("i{i}")), DISK, &sh);
                            let g = ask(&c, "a").await;
                            settle().await;
                            g
                        })
                    });
                    sc.done(i);
                    r
                })
            })
            .collect();
        let trace = vmc::no_panic(|| sched.drive(ch, bound));
        sched.release();
        (hs.into_iter().map(|h| h.join().unwrap()).collect::<Vec<_>>(), trace)
    });
    w.set_hook(None);
    let Ok(trace) = trace else {
        check.fail("two instances: stuck", json!({}));
        return;
    };
    let steps = || -> Vec<String> { trace.iter().map(|(a, o)| format!("{a} {:?} {}", o.kind, o.path.strip_prefix(&root).unwrap_or(&o.path).display())).collect() };
    let switches: Vec<usize> = trace.windows(2).enumerate().filter(|(_, w)| w[0].0 != w[1].0).map(|(i, _)| i).collect();
    let k = || format!("two instances, switches {switches:?} first {:?}", trace.first().map(|t| t.0));
    let good = |g: &Got| matches!(g, Ok(b) if b == b"content of instance 0" || b == b"content of instance 1");
    for g in &got {
        if !matches!(g, Ok(g) if good(g)) {
            check.fail(&format!("{}: answer", k()), json!({"got": format!("{g:?}"), "schedule": steps()}));
        }
    }
    behave(|_, _| Dir::Ok(b"none".to_vec()));
    let later = ctl::resume(async {
        let sh = service(folder(&shared)).await;
        let c = with_shared::<0>(&root.join("i2"), DISK, &sh);
        ask(&c, "a").await
    });
    if !good(&later) {
        check.fail(&format!("{}: answer of a third instance", k()), json!({"got": show(&later), "schedule": steps()}));
    }
    check.eval(Some(vmc::hash64(&trace.iter().map(|t| (t.0, t.1.kind)).collect::<Vec<_>>())));
}
