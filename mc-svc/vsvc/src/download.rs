//! The download service.
use crate::ctl::{self, world};
use crate::sys::{Act, Kind};
use crate::wire::{self, Chunk, Wire};
use std::path::Path;
use std::sync::{Arc, Mutex};
use std::time::Duration;
use symbolicator_service::caching::{CacheContents, CacheError};
use symbolicator_service::config::Config;
use symbolicator_service::download::DownloadService;
use symbolicator_sources::{HttpRemoteFile, RemoteFile, SourceConfig, SourceLocation};
use vmc::serde_json::{json, Value};
use vmc::{Check, Scratch};

const S: fn(u64) -> Duration = Duration::from_secs;

pub fn service(c: &Config) -> Arc<DownloadService> {
    DownloadService::new(c, tokio::runtime::Handle::current())
}
pub fn source(v: Value) -> SourceConfig {
    vmc::serde_json::from_value(v).expect("source")
}
/// A file of an HTTP source.
pub fn http(id: &str, host: &str, path: &str) -> RemoteFile {
    let SourceConfig::Http(c) = source(json!({"type": "http", "id": id, "url": format!("http://{host}/")})) else { unreachable!() };
    HttpRemoteFile::new(c, SourceLocation::new(path)).into()
}
pub fn show(r: &CacheContents, to: &Path) -> String {
    match r {
        Ok(()) => match std::fs::read(to) {
            Ok(b) => format!("Ok({})", brief(&b)),
            Err(e) => format!("Ok, but {e}"),
        },
        Err(e) => format!("{e:?}"),
    }
}
fn brief(b: &[u8]) -> String {
    if b.len() < 60 {
        format!("{:?}", String::from_utf8_lossy(b))
    } else {
        format!("{} bytes, {:x}", b.len(), vmc::hash64(b))
    }
}

// ------------------------------------------------------------------------------------ C27

pub const BODY: &[u8] = b"the file that is downloaded";

/// The reference: what one response means.
#[derive(Clone, Debug, PartialEq)]
enum Out {
    Body(Vec<u8>),
    NotFound,
    Denied(String),
    /// After this time.
    Timeout(Duration),
    /// `Some`: with this text.
    Failed(Option<String>),
    /// Another request without range follows.
    Again,
    /// The server contradicts itself.
    Whatever,
}
const MAX: Duration = Duration::from_secs(300);
const HEAD: Duration = Duration::from_secs(5);

/// What a response leads to and when.
fn meaning(w: &Wire, ranged: bool) -> (Out, Duration) {
    match w {
        Wire::Refused | Wire::Broken => (Out::Failed(None), Duration::ZERO),
        Wire::Hang => (Out::Timeout(HEAD), HEAD),
        Wire::Late(d, w) => {
            if *d >= HEAD {
                return (Out::Timeout(HEAD), HEAD);
            }
            let (o, t) = meaning(w, ranged);
            (o, t + *d)
        }
        Wire::Reply { status, headers, body } => {
            let h = |k: &str| headers.iter().find(|h| h.0 == k).map(|h| h.1.as_str());
            let text = match status {
                500 => "500 Internal Server Error",
                502 => "502 Bad Gateway",
                503 => "503 Service Unavailable",
                401 => "401 Unauthorized",
                403 => "403 Forbidden",
                304 => "304 Not Modified",
                _ => "",
            };
            let out = match status {
                401 | 403 => Out::Denied(text.into()),
                416 if ranged => Out::Again,
                206 if !ranged => Out::Whatever,
                206 => Out::Again,
                400..=499 => Out::NotFound,
                300..=399 | 500..=599 => Out::Failed(Some(text.into())),
                _ => {
                    let len = h("content-length").map(|l| l.parse::<usize>().unwrap());
                    let limit = if len.is_some() { S(10) } else { MAX };
                    let mut t = Duration::ZERO;
                    let mut b: Vec<u8> = vec![];
                    for c in body {
                        if len.is_some_and(|l| b.len() >= l) {
                            break;
                        }
                        match c {
                            Chunk::Data(d) => b.extend(d),
                            Chunk::Break => return (Out::Failed(None), t),
                            Chunk::Hang => t = limit,
                            Chunk::Wait(d) => t += *d,
                            Chunk::Gate(_) => unreachable!(),
                        }
                        if t >= limit {
                            return (Out::Timeout(limit), limit);
                        }
                    }
                    if let Some(l) = len {
                        if b.len() < l {
                            return (Out::Failed(None), t);
                        }
                        b.truncate(l);
                    }
                    return (Out::Body(b), t);
                }
            };
            (out, Duration::ZERO)
        }
        Wire::Gate(_) => unreachable!(),
    }
}

/// The whole download: outcome, duration, number of requests, requests without range (by number).
fn expected(wires: &[Wire]) -> (Out, Duration, usize) {
    let (mut t, mut n) = (Duration::ZERO, 0);
    let next = |n: &mut usize| {
        let w = &wires[(*n).min(wires.len() - 1)];
        *n += 1;
        w
    };
    for attempt in 1.. {
        let (mut o, d) = meaning(next(&mut n), true);
        t += d;
        if o == Out::Again && t < MAX {
            let (o2, d) = meaning(next(&mut n), false);
            o = o2;
            t += d;
        }
        if t >= MAX {
            return (Out::Timeout(MAX), MAX, n);
        }
        match o {
            Out::Failed(_) | Out::Timeout(_) if attempt < 3 => t += Duration::from_millis(20),
            _ => return (o, t, n),
        }
    }
    unreachable!()
}

pub fn c27() {
    let check = Check::new(
        "C27",
        "model_checking",
        "every sequence of responses to the (up to six) requests of a download x chunking; every failing file operation of it; every limit",
    );
    check.assume("the network is a scripted server behind a stand-in of the HTTP client");
    sequences(&check);
    broken_disk(&check);
    big(&check);
    limits(&check);
    check.finish()
}

fn wires(full: bool) -> Vec<Wire> {
    let d = |b: &[u8]| Chunk::Data(b.to_vec());
    let (half, rest) = BODY.split_at(11);
    let n = Some(BODY.len());
    let mut v = vec![
        Wire::ok(200, BODY),
        Wire::ok(200, b"another file"),
        Wire::ok(200, b""),
        Wire::body(n, vec![d(half), Chunk::Wait(S(3)), d(rest)]),
        Wire::body(None, vec![d(half), Chunk::Wait(S(30)), d(rest)]),
        Wire::body(n, vec![d(half)]),
        Wire::body(n, vec![d(half), Chunk::Break]),
        Wire::body(None, vec![d(BODY), Chunk::Break]),
        Wire::body(n, vec![d(half), Chunk::Hang]),
        Wire::body(None, vec![d(half), Chunk::Hang]),
        Wire::body(n, vec![d(half), Chunk::Wait(S(11)), d(rest)]),
        Wire::status(403),
        Wire::status(404),
        Wire::status(416),
        Wire::status(429),
        Wire::status(500),
        Wire::status(503),
        Wire::status(304),
        Wire::ok(206, half).header("content-range", "bytes 0-10/*"),
        Wire::Refused,
        Wire::Broken,
        Wire::Hang,
        Wire::Late(S(4), Box::new(Wire::ok(200, BODY))),
    ];
    if full {
        v.extend([
            Wire::ok(201, BODY),
            Wire::status(400),
            Wire::status(401),
            Wire::status(410),
            Wire::status(502),
            Wire::Late(S(6), Box::new(Wire::ok(200, BODY))),
            Wire::Late(S(4), Box::new(Wire::status(404))),
            Wire::ok(206, half).header("content-range", "bits 0-10/27"),
            Wire::ok(206, half).header("content-range", "bytes 10-0/27"),
            Wire::body(Some(11), vec![d(half)]),
            Wire::body(None, vec![]),
        ]);
    }
    v
}

fn sequences(check: &Check) {
    let ws = wires(check.thorough());
    let depth = if check.thorough() { 4 } else { 3 };
    let mut n = 1;
    for _ in 0..depth {
        n *= ws.len();
    }
    vmc::parallel(n, |i| {
        let mut j = i;
        let mut seq = vec![];
        for _ in 0..depth {
            seq.push(ws[j % ws.len()].clone());
            j /= ws.len();
        }
        let (out, time, reqs) = expected(&seq);
        // the same prefix, the same run
        if seq[reqs.min(depth)..].iter().any(|w| *w != ws[0]) || out == Out::Whatever || check.saturated() {
            return;
        }
        seq.truncate(reqs.min(depth));
        let k = || format!("{seq:?}");
        check.guarded(k, || {
            let scratch = Scratch::new("c27");
            let to = scratch.0.join("file");
            let seq2 = seq.clone();
            ctl::run(&scratch.0, async {
                let count = Mutex::new(0);
                wire::install(move |_| {
                    let mut c = count.lock().unwrap();
                    *c += 1;
                    seq2[(*c - 1).min(seq2.len() - 1)].clone()
                });
                let svc = service(&Config::default());
                let t0 = tokio::time::Instant::now();
                let r = svc.download(http("s", "symbols.example.com", "a/b"), to.clone()).await;
                let took = t0.elapsed();
                let want = match &out {
                    Out::Body(b) => format!("Ok({})", brief(b)),
                    Out::NotFound => "NotFound".into(),
                    Out::Denied(s) => format!("PermissionDenied({s:?})"),
                    Out::Timeout(d) => format!("Timeout({d:?})"),
                    Out::Failed(Some(s)) => format!("DownloadError({s:?})"),
                    Out::Failed(None) => "DownloadError".into(),
                    Out::Again | Out::Whatever => unreachable!(),
                };
                let got = match &r {
                    Err(CacheError::DownloadError(_)) if out == Out::Failed(None) => "DownloadError".into(),
                    r => show(r, &to),
                };
                check.expect(k, "outcome", &got, &want);
                let late = took.as_millis() as i64 - time.as_millis() as i64;
                if !(0..=20).contains(&late) {
                    check.fail(&format!("{}: duration", k()), json!({"took": format!("{took:?}"), "expected": format!("{time:?}")}));
                }
                let hops = wire::take_hops();
                check.expect(k, "requests", &hops.len(), &reqs);
            });
        });
        check.eval((reqs > 1).then(|| vmc::hash64(&k())));
        check.state(vmc::hash64(&(format!("{out:?}"), time, reqs)));
        check.transition(reqs as u64);
        check.trace();
        check.sample(|| json!({"responses": k(), "outcome": format!("{out:?}")}));
    });
}

/// Some file operation fails: the file is not reported as downloaded.
fn broken_disk(check: &Check) {
    let d = |b: &[u8]| Chunk::Data(b.to_vec());
    let (half, rest) = BODY.split_at(11);
    let long: Vec<u8> = (0..300_000u32).map(|x| (x % 251) as u8).collect();
    let cases: Vec<(&str, Vec<Wire>, Vec<u8>)> = vec![
        ("one chunk", vec![Wire::ok(200, BODY)], BODY.to_vec()),
        ("two chunks", vec![Wire::body(None, vec![d(half), d(rest)])], BODY.to_vec()),
        ("two chunks, a while between them", vec![Wire::body(None, vec![d(half), Chunk::Wait(S(1)), d(rest)])], BODY.to_vec()),
        ("second attempt", vec![Wire::status(500), Wire::ok(200, BODY)], BODY.to_vec()),
        ("long", vec![Wire::ok(200, &long)], long.clone()),
        ("two long chunks", vec![Wire::body(None, long.chunks(150_000).map(d).collect())], long.clone()),
        ("range", vec![Wire::ok(206, BODY).header("content-range", "bytes 0-26/27")], BODY.to_vec()),
        ("two ranges", vec![], BODY[..8].to_vec()),
        ("five ranges", vec![], BODY.to_vec()),
    ];
    let acts: [(&str, fn() -> Act); 3] = [("EIO", || Act::Err(libc::EIO)), ("ENOSPC", || Act::Err(libc::ENOSPC)), ("half", || Act::Short(5))];
    for (name, wires, content) in &cases {
        for (aname, act) in acts {
            for from in [false, true] {
                for file in [false, true] {
                    let mut at = 0;
                    loop {
                        let k = || format!("{name}, {aname} at operation {at}{}, local file {file}", if from { " and later" } else { "" });
                        let mut ops = 0;
                        check.guarded(k, || ops = disk(check, wires, content, act, from, at, file, &k));
                        check.eval((ops > at).then(|| vmc::hash64(&k())));
                        if ops <= at {
                            break;
                        }
                        at += 1;
                    }
                }
            }
        }
    }
}
#[allow(clippy::too_many_arguments)]
fn disk(check: &Check, wires: &[Wire], content: &[u8], act: fn() -> Act, from: bool, at: usize, file: bool, k: &dyn Fn() -> String) -> usize {
    let scratch = Scratch::new("c27d");
    let to = scratch.0.join("w/file");
    std::fs::create_dir_all(scratch.0.join("w")).unwrap();
    std::fs::create_dir_all(scratch.0.join("src")).unwrap();
    std::fs::write(scratch.0.join("src/a"), content).unwrap();
    let n = Arc::new(Mutex::new(0));
    let n2 = n.clone();
    let w2 = wires.to_vec();
    ctl::run(&scratch.0.join("w"), async {
        let count = Mutex::new(0);
        let all = content.to_vec();
        wire::install(move |hop| {
            let mut c = count.lock().unwrap();
            *c += 1;
            match w2.len() {
                0 => {
                    let (a, b) = crate::ranges::range_of(hop).unwrap();
                    crate::ranges::piece(&all, a, b.min(all.len() - 1), false)
                }
                n => w2[(*c - 1) % n].clone(),
            }
        });
        world().set_hook(Some(Arc::new(move |op| {
            if !matches!(op.kind, Kind::Create | Kind::Write | Kind::Truncate) {
                return Act::Go;
            }
            let mut n = n2.lock().unwrap();
            *n += 1;
            match act() {
                Act::Short(_) if op.kind != Kind::Write => Act::Go,
                a if *n - 1 == at || (from && *n > at) => a,
                _ => Act::Go,
            }
        })));
        let f = if file { local(&scratch.0.join("src"), "a") } else { http("s", "symbols.example.com", "a/b") };
        let r = service(&Config::default()).download(f, to.clone()).await;
        world().set_hook(None);
        if r.is_ok() {
            check.expect(k, "downloaded file", &show(&r, &to), &format!("Ok({})", brief(content)));
        }
    });
    let n = *n.lock().unwrap();
    n
}
pub fn local(dir: &Path, path: &str) -> RemoteFile {
    let SourceConfig::Filesystem(c) = source(json!({"type": "filesystem", "id": "local", "path": dir})) else { unreachable!() };
    symbolicator_sources::FilesystemRemoteFile::new(c, SourceLocation::new(path)).into()
}

/// Sizes around the buffers on the way.
fn big(check: &Check) {
    let m = 1usize << 20;
    let mut sizes = vec![1, 4095, 8192, 8193, 65_536, m, 2 * m - 1, 2 * m, 2 * m + 1, 3 * m, 5 * m + 3];
    if check.thorough() {
        sizes.extend([10 * m, 33 * m + 7]);
    }
    let chunks = [1 << 12, 1 << 16, m, 2 * m, 2 * m + 1, 100 * m];
    let jobs: Vec<(usize, usize, u8)> = sizes.iter().flat_map(|s| chunks.iter().flat_map(move |c| (0..4).map(move |v| (*s, *c, v)))).collect();
    vmc::parallel(jobs.len(), |i| {
        let (size, chunk, variant) = jobs[i];
        let k = || format!("{size} bytes in chunks of {chunk}, {}", ["with length", "without length", "range", "local file"][variant as usize]);
        check.guarded(k, || {
            let content: Vec<u8> = (0..size as u32).map(|x| (x.wrapping_mul(2654435761) >> 13) as u8).collect();
            let scratch = Scratch::new("c27b");
            let to = scratch.0.join("file");
            if variant == 3 {
                std::fs::write(scratch.0.join("a"), &content).unwrap();
            }
            ctl::run(&scratch.0, async {
                let body: Vec<Chunk> = content.chunks(chunk).map(|c| Chunk::Data(c.to_vec())).collect();
                let w = match variant {
                    0 => Wire::body(Some(size), body),
                    1 => Wire::body(None, body),
                    _ => Wire::Reply {
                        status: 206,
                        headers: vec![("content-range".into(), format!("bytes 0-{}/{size}", size - 1)), ("content-length".into(), size.to_string())],
                        body,
                    },
                };
                wire::install(move |_| w.clone());
                let f = if variant == 3 { local(&scratch.0, "a") } else { http("s", "symbols.example.com", "a/b") };
                let r = service(&Config::default()).download(f, to.clone()).await;
                check.expect(k, "downloaded file", &show(&r, &to), &format!("Ok({})", brief(&content)));
            });
        });
        check.eval(Some(vmc::hash64(&k())));
    });
}

/// The configured limits, whatever they are.
fn limits(check: &Check) {
    let ms = Duration::from_millis;
    let d = |b: &[u8]| Chunk::Data(b.to_vec());
    let (half, rest) = BODY.split_at(11);
    let slow = |n: u64| Wire::body(None, vec![d(half), Chunk::Wait(ms(n)), d(rest)]);
    for max in [ms(0), ms(100), S(3), S(20), S(300)] {
        for head in [ms(0), ms(50), S(5), S(400)] {
            for (name, w) in [
                ("no response", Wire::Hang),
                ("no body", Wire::body(Some(9), vec![Chunk::Hang])),
                ("half a body", Wire::body(None, vec![d(half), Chunk::Hang])),
                ("drops", Wire::body(None, (0..500).flat_map(|_| [d(b"x"), Chunk::Wait(S(1))]).collect())),
                ("slow", slow(2000)),
                ("late", Wire::Late(ms(80), Box::new(Wire::ok(200, BODY)))),
            ] {
                for abandoned in [None, Some(ms(60)), Some(S(2))] {
                    let k = || format!("{name}, at most {max:?}, headers within {head:?}, abandoned {abandoned:?}");
                    check.guarded(k, || {
                        let scratch = Scratch::new("c27l");
                        let to = scratch.0.join("file");
                        ctl::run(&scratch.0, async {
                            let w = w.clone();
                            wire::install(move |_| w.clone());
                            let svc = service(&Config { max_download_timeout: max, head_timeout: head, ..Config::default() });
                            let t0 = tokio::time::Instant::now();
                            let f = http("s", "symbols.example.com", "a/b");
                            let (svc2, to2) = (svc.clone(), to.clone());
                            let h = tokio::spawn(async move { svc2.download(f, to2).await });
                            if let Some(a) = abandoned {
                                ctl::pass(a).await;
                                if !h.is_finished() {
                                    h.abort();
                                    let _ = h.await;
                                    ctl::settle().await;
                                    let n = wire::take_hops().len();
                                    let before = std::fs::read(&to).ok();
                                    ctl::pass(S(1000)).await;
                                    if !wire::take_hops().is_empty() || std::fs::read(&to).ok() != before {
                                        check.fail(&format!("{}: it goes on", k()), json!({"requests before": n}));
                                    }
                                    return;
                                }
                            }
                            let r = h.await.unwrap();
                            let took = t0.elapsed();
                            if took > max + ms(5) && abandoned.is_none() {
                                check.fail(&format!("{}: takes {took:?}", k()), json!({}));
                            }
                            match r {
                                Ok(()) => {
                                    if !matches!(name, "slow" | "late") || std::fs::read(&to).unwrap() != BODY {
                                        check.fail(&format!("{}: complete", k()), json!({}));
                                    }
                                }
                                Err(CacheError::Timeout(_)) => {
                                    // nothing times out early
                                    let need = match name {
                                        "slow" => S(2),
                                        "late" => ms(80),
                                        _ => S(100_000),
                                    };
                                    if need < max && (name == "slow" && head > ms(0) || need < head) {
                                        check.fail(&format!("{}: times out after {took:?}", k()), json!({}));
                                    }
                                }
                                Err(CacheError::DownloadError(s)) if s.contains("timed out") => {}
                                Err(e) => check.fail(&format!("{}: {e:?}", k()), json!({})),
                            }
                        });
                    });
                    check.eval(Some(vmc::hash64(&k())));
                }
            }
        }
    }
}
