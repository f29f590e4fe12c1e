//! Downloads in parts.
use crate::ctl::{self, answer, settle, waiting};
use crate::download::{http, service, show};
use crate::wire::{self, Chunk, Wire};
use reqwest::Hop;
use std::sync::{Arc, Mutex};
use std::time::Duration;
use symbolicator_service::caching::{CacheContents, CacheError};
use symbolicator_service::config::Config;
use vmc::serde_json::json;
use vmc::{Check, Scratch};

fn content(len: usize) -> Vec<u8> {
    (0..len).map(|i| b'A' + (i % 57) as u8).collect()
}

/// How the server responds to a request.
#[derive(Clone, Copy, Debug, PartialEq)]
enum How {
    Exact,
    /// No length of the body, every byte a chunk.
    Bytes,
    /// No ranges: everything.
    Full,
    Status(u16),
    /// Begins later.
    Shift,
    /// Ends earlier.
    Clip,
    /// Ends later (up to the end of the file).
    More,
    /// A different total size.
    Total(i64),
    /// The body is shorter or longer than the range says.
    Short,
    Long,
    /// ... and the length of the body says so, too.
    ShortLen,
    LongLen,
    Break,
    Hang,
    NoResponse,
    Refused,
    /// Another Content-Range.
    Header(Option<&'static str>),
    /// A range beyond the end.
    Beyond,
    Slow,
}
use How::*;
const HOWS: [How; 27] = [
    Bytes,
    Full,
    Status(403),
    Status(404),
    Status(416),
    Status(500),
    Status(302),
    Shift,
    Clip,
    More,
    Total(1),
    Total(-1),
    Short,
    Long,
    ShortLen,
    LongLen,
    Break,
    Hang,
    NoResponse,
    Refused,
    Header(None),
    Header(Some("bytes 0-3/*")),
    Header(Some("bytes */21")),
    Header(Some("something 0-3/21")),
    Header(Some("bytes 0/21")),
    Beyond,
    Slow,
];

pub fn range_of(hop: &Hop) -> Option<(usize, usize)> {
    let v = hop.headers.get("range")?.to_str().ok()?;
    let (a, b) = v.strip_prefix("bytes=")?.split_once('-')?;
    Some((a.parse().ok()?, b.parse().ok()?))
}

/// The response and whether it is a correct and complete answer to the request.
fn respond(how: How, file: &[u8], range: Option<(usize, usize)>) -> (Wire, bool) {
    let all = || Wire::ok(200, file);
    let n = file.len();
    match how {
        Status(s) => return (Wire::status(s), false),
        NoResponse => return (Wire::Hang, false),
        Refused => return (Wire::Refused, false),
        _ => {}
    }
    // Every server has to say something about the range of an empty file.
    let Some((a, b)) = range.filter(|r| r.0 < n) else {
        return match how {
            Break => (Wire::body(Some(n), vec![Chunk::Break]), n == 0),
            Hang => (Wire::body(Some(n), vec![Chunk::Hang]), n == 0),
            Bytes => (Wire::body(None, file.iter().map(|b| Chunk::Data(vec![*b])).collect()), true),
            _ => (all(), range.is_none() || n == 0),
        };
    };
    let b = b.min(n - 1);
    let head = a == 0;
    let part = |a: usize, b: usize, total: i64, body: Vec<Chunk>, len: Option<usize>| {
        let mut w = Wire::Reply { status: 206, headers: vec![("content-range".into(), format!("bytes {a}-{b}/{total}"))], body };
        if let Some(l) = len {
            w = w.header("content-length", l);
        }
        w
    };
    let d = |b: &[u8]| vec![Chunk::Data(b.to_vec())];
    let t = n as i64;
    let good = &file[a..=b];
    let len = Some(good.len());
    let mut longer = good.to_vec();
    longer.push(b'!');
    let shorter = &good[..good.len() - 1];
    match how {
        Exact => (part(a, b, t, d(good), len), true),
        Bytes => (part(a, b, t, good.iter().map(|b| Chunk::Data(vec![*b])).collect(), None), true),
        Full => (all(), head),
        Shift if a + 1 <= b => (part(a + 1, b, t, d(&file[a + 1..=b]), Some(b - a)), false),
        Shift => (part(a + 1, b + 1, t + 1, d(b"!"), Some(1)), false),
        Clip if a + 1 <= b => (part(a, b - 1, t, d(shorter), Some(b - a)), head),
        Clip => (part(a, b, t, d(good), len), true),
        More if b + 1 < n => (part(a, n - 1, t, d(&file[a..]), Some(n - a)), head),
        More => (part(a, b, t, d(good), len), true),
        Total(x) if t + x > b as i64 => (part(a, b, t + x, d(good), len), false),
        Total(x) => (part(a, b, t + x.abs(), d(good), len), false),
        Short => (part(a, b, t, d(shorter), None), false),
        Long => (part(a, b, t, d(&longer), None), false),
        ShortLen => (part(a, b, t, d(shorter), Some(shorter.len())), false),
        LongLen => (part(a, b, t, d(&longer), Some(longer.len())), false),
        Break => (part(a, b, t, vec![Chunk::Data(shorter.to_vec()), Chunk::Break], len), false),
        Hang => (part(a, b, t, vec![Chunk::Data(shorter.to_vec()), Chunk::Hang], len), false),
        Slow => (part(a, b, t, vec![Chunk::Data(shorter.to_vec()), Chunk::Wait(Duration::from_secs(3)), Chunk::Data(good[shorter.len()..].to_vec())], len), true),
        // A part that says nothing about its range may still be asked for again without one.
        Header(None) => (Wire::ok(206, good), false),
        Header(Some(h)) => (Wire::ok(206, good).header("content-range", h), false),
        Beyond => (part(a, n + 3, t, d(&longer), Some(longer.len())), false),
        Status(_) | NoResponse | Refused => unreachable!(),
    }
}

#[derive(Default)]
struct Log {
    /// Per attempt: requested ranges and whether every response was good.
    attempts: Vec<(Vec<Option<(usize, usize)>>, bool)>,
}

pub fn c28() {
    let check = Check::new(
        "C28",
        "model_checking",
        "every file size x every deviation of the server at any one request of any attempt, every pair of deviations of files of one to five parts, every order in which parts arrive",
    );
    check.assume("the network is a scripted server behind a stand-in of the HTTP client; parts are of at least 2 bytes instead of 64 MiB (cfg vmc)");
    sizes(&check);
    pairs(&check);
    orders(&check);
    check.finish()
}

type Deviation = (usize, usize, How);

fn case(check: &Check, len: usize, devs: &[Deviation]) {
    let file = content(len);
    let k = || format!("file of {len} bytes, the server deviates in (attempt, request, how) {devs:?}");
    check.guarded(k, || {
        let scratch = Scratch::new("c28");
        let to = scratch.0.join("file");
        let log = Arc::new(Mutex::new(Log::default()));
        let (l2, f2, d2) = (log.clone(), file.clone(), devs.to_vec());
        let mut used = 0;
        ctl::run(&scratch.0, async {
            wire::install(move |hop| {
                let mut l = l2.lock().unwrap();
                let r = range_of(hop);
                if r.is_some_and(|r| r.0 == 0) || l.attempts.is_empty() {
                    l.attempts.push((vec![], true));
                }
                let a = l.attempts.len();
                let last = l.attempts.last_mut().unwrap();
                let j = last.0.len();
                last.0.push(r);
                let how = d2.iter().find(|d| d.0 == a && d.1 == j).map_or(Exact, |d| d.2);
                let (w, good) = respond(how, &f2, r);
                last.1 &= good || r.is_none();
                w
            });
            let r = service(&Config::default()).download(http("s", "symbols.example.com", "a/b"), to.clone()).await;
            let l = log.lock().unwrap();
            for (reqs, _) in &l.attempts {
                used += reqs.len();
                let parts: Vec<(usize, usize)> = reqs[1..].iter().flatten().copied().collect();
                if reqs.len() > 6 || reqs[0].is_none_or(|r| r.0 != 0) || parts.iter().any(|r| r.0 > r.1 || r.1 >= len + 1) {
                    check.fail(&k(), json!({"requests of an attempt": format!("{reqs:?}"), "result": show(&r, &to)}));
                }
            }
            if l.attempts.len() > 3 {
                check.fail(&k(), json!({"attempts": l.attempts.len()}));
            }
            let result = show(&r, &to);
            let want = format!("Ok({:?})", String::from_utf8_lossy(&file));
            let detail = || json!({"result": result, "file": want, "requests": format!("{:?}", l.attempts)});
            // A server that says so from the start has a shorter file.
            let head = devs.iter().find(|d| d.0 == l.attempts.len() && d.1 == 0);
            let shorter = len > 4 && head.is_some_and(|d| d.2 == Total(-1));
            let is = r.is_ok().then(|| std::fs::read(&to).unwrap());
            if is.is_some_and(|b| b != file[..len - shorter as usize]) {
                check.fail(&format!("{}: not the file", k()), detail());
            }
            let good = l.attempts.iter().any(|a| a.1);
            if r.is_err() && good {
                check.fail(&format!("{}: the server answered every request of an attempt correctly", k()), detail());
            }
            if let [(a, j, how)] = devs {
                // The attempt after a single deviation is in order.
                let happened = l.attempts.get(a - 1).is_some_and(|x| x.0.len() > *j);
                let ranged = happened && l.attempts[a - 1].0[*j].is_some();
                let want = match how {
                    _ if !happened => "Ok",
                    Status(403) | Status(302) => "PermissionDenied",
                    Status(404) => "NotFound",
                    Status(416) if *j > 0 && ranged => "NotFound",
                    _ => "Ok",
                };
                if kind(&r) != want {
                    check.fail(&format!("{}: outcome", k()), json!({"result": result, "expected": want, "requests": format!("{:?}", l.attempts)}));
                }
            } else if devs.is_empty() {
                let n = l.attempts[0].0.len();
                if r.is_err() || n > 5 {
                    check.fail(&k(), detail());
                }
            }
            check.state(vmc::hash64(&(kind(&r), format!("{:?}", l.attempts))));
            check.transition(used as u64);
        });
        check.eval((!devs.is_empty() && used > 1).then(|| vmc::hash64(&k())));
        check.trace();
        check.sample(|| json!({"case": k()}));
    });
}
fn kind(r: &CacheContents) -> &'static str {
    match r {
        Ok(()) => "Ok",
        Err(CacheError::NotFound) => "NotFound",
        Err(CacheError::PermissionDenied(_)) => "PermissionDenied",
        Err(CacheError::Timeout(_)) => "Timeout",
        Err(CacheError::DownloadError(_)) => "DownloadError",
        Err(_) => "other",
    }
}

fn sizes(check: &Check) {
    let max = if check.thorough() { 90 } else { 60 };
    let mut jobs: Vec<(usize, Vec<Deviation>)> = (0..=max).map(|l| (l, vec![])).collect();
    for len in if check.thorough() { 0..=42 } else { 0..=26 } {
        for j in 0..6 {
            for how in HOWS {
                jobs.push((len, vec![(1, j, how)]));
            }
        }
    }
    vmc::parallel(jobs.len(), |i| case(check, jobs[i].0, &jobs[i].1));
}

fn pairs(check: &Check) {
    let lens: &[usize] = if check.thorough() { &[0, 3, 4, 5, 7, 9, 12, 13, 16, 20, 21, 26] } else { &[9, 21] };
    let attempts = if check.thorough() { 3 } else { 2 };
    let slots: Vec<Deviation> = (1..=attempts).flat_map(|a| (0..5).flat_map(move |j| HOWS.iter().map(move |h| (a, j, *h)))).collect();
    let mut jobs = vec![];
    for &len in lens {
        let parts = if len <= 4 { 1 } else { 1 + (len - 4).div_ceil(4).min(4) };
        for (i, d) in slots.iter().enumerate() {
            for e in &slots[i + 1..] {
                // a later attempt needs the first to fail
                if d.0 != 1 || (d.0, d.1) == (e.0, e.1) || d.1 > parts || e.1 > parts {
                    continue;
                }
                jobs.push((len, vec![*d, *e]));
            }
        }
    }
    // The server never does better.
    for len in 0..=26 {
        for how in HOWS {
            for from in 0..2 {
                jobs.push((len, (1..=3).flat_map(|a| (from..6).map(move |j| (a, j, how))).collect()));
            }
        }
    }
    vmc::parallel(jobs.len(), |i| {
        if !check.saturated() {
            case(check, jobs[i].0, &jobs[i].1)
        }
    });
}

/// Responses and their pieces arrive in any order.
fn orders(check: &Check) {
    let cases: &[(usize, bool, bool)] = if check.thorough() { &[(20, true, false), (20, false, true), (12, true, true), (16, true, true)] } else { &[(20, true, false), (20, false, true), (12, true, true)] };
    for &(len, heads, bodies) in cases {
        let n = vmc::explore_parallel(3, |ch| {
            let scratch = Scratch::new("c28o");
            let to = scratch.0.join("file");
            let file = content(len);
            let mut order = vec![];
            let mut got = String::new();
            ctl::run(&scratch.0, async {
                let f = file.clone();
                wire::install(move |hop| {
                    let (a, b) = range_of(hop).unwrap_or((0, f.len() - 1));
                    let b = b.min(f.len() - 1);
                    if a > 0 && heads {
                        return Wire::Gate(format!("response {a:02}-{b:02}"));
                    }
                    piece(&f, a, b, bodies)
                });
                let svc = service(&Config::default());
                let to2 = to.clone();
                let mut task = tokio::spawn(async move { svc.download(http("s", "symbols.example.com", "a/b"), to2).await });
                let r = loop {
                    settle().await;
                    let w = waiting();
                    if w.is_empty() {
                        break (&mut task).await.unwrap();
                    }
                    let i = ch.choose(w.len());
                    order.push(w[i].clone());
                    if let Some(r) = w[i].strip_prefix("response ") {
                        let (a, b) = r.split_once('-').unwrap();
                        answer(i, piece(&file, a.parse().unwrap(), b.parse().unwrap(), bodies));
                    } else {
                        answer(i, ());
                    }
                };
                got = show(&r, &to);
            });
            let want = format!("Ok({:?})", String::from_utf8_lossy(&file));
            check.expect(|| format!("file of {len} bytes, order {order:?}"), "result", &got, &want);
            check.eval(Some(vmc::hash64(&(len, &order))));
            check.transition(order.len() as u64);
            !check.saturated()
        });
        check.extra(&format!("orders of the parts of {len} bytes (responses {heads}, pieces {bodies})"), n);
    }
}
/// A part of a file.
pub fn piece(f: &[u8], a: usize, b: usize, gates: bool) -> Wire {
    let mid = (a + b) / 2 + 1;
    let mut body = vec![Chunk::Data(f[a..mid].to_vec())];
    if gates {
        body.push(Chunk::Gate(format!("body {a:02}")));
    }
    body.push(Chunk::Data(f[mid..=b].to_vec()));
    Wire::Reply {
        status: 206,
        headers: vec![("content-range".into(), format!("bytes {a}-{b}/{}", f.len())), ("content-length".into(), (b - a + 1).to_string())],
        body,
    }
}
