//! The life of a request: from its submission to the last time it can be polled.
use crate::ctl;
use crate::download::source;
use crate::wire::{self, Wire};
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};
use std::sync::Arc;
use std::time::Duration;
use symbolicator::service::{MaxRequestsError, RequestId, RequestOptions, RequestService};
use symbolicator_native::interface::{ProcessMinidump, SymbolicateStacktraces};
use symbolicator_proguard::interface::{JvmException, JvmFrame, JvmModule, JvmModuleType, JvmStacktrace, SymbolicateJvmStacktraces};
use symbolicator_service::config::Config;
use symbolicator_service::types::Scope;
use symbolicator_sources::SourceConfig;
use tokio::time::Instant;
use vmc::serde_json::{self, json, Value};
use vmc::{Check, Scratch};

const PANICS: &str = "vmc.Panic -> p.p:\n    1:1:void f():1:1 -> f\n";

fn config(limit: Option<usize>) -> Config {
    let long = Duration::from_secs(100_000);
    Config { max_concurrent_requests: limit, max_download_timeout: long, head_timeout: long, connect_timeout: long, streaming_timeout: long, ..Config::default() }
}
fn service(limit: Option<usize>) -> RequestService {
    let handle = tokio::runtime::Handle::current();
    RequestService::create(config(limit), handle.clone(), handle).unwrap()
}
fn sources(n: usize) -> Arc<[SourceConfig]> {
    vec![source(json!({"type": "sentry", "id": "sentry", "url": format!("http://sentry.example.com/{n}"), "token": "t"}))].into()
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Kind {
    /// done when it runs
    Quick,
    Fails,
    Panics,
    /// waits for a file
    Waits,
    /// the same, and panics then
    WaitsAndPanics,
}
const KINDS: [Kind; 5] = [Kind::Quick, Kind::Waits, Kind::Panics, Kind::Fails, Kind::WaitsAndPanics];

/// Request number `n`, recognisable by the exception in its result.
fn jvm(n: usize, kind: Kind) -> SymbolicateJvmStacktraces {
    let frame = JvmFrame { module: "p.p".into(), function: "f".into(), lineno: Some(1), ..Default::default() };
    SymbolicateJvmStacktraces {
        platform: None,
        scope: Scope::Global,
        sources: sources(n),
        exceptions: vec![JvmException { ty: format!("Request{n}"), module: "m".into() }],
        stacktraces: vec![JvmStacktrace { frames: vec![frame] }],
        modules: match kind {
            Kind::Quick => vec![],
            _ => vec![JvmModule { uuid: "00000000-0000-0000-0000-000000000001".parse().unwrap(), r#type: JvmModuleType::Proguard }],
        },
        apply_source_context: false,
        release_package: None,
        classes: vec![],
    }
}
fn submit(svc: &RequestService, n: usize, kind: Kind) -> Result<RequestId, MaxRequestsError> {
    match kind {
        Kind::Fails => {
            let (file, path) = tempfile::NamedTempFile::new().unwrap().into_parts();
            drop(file);
            std::fs::write(&path, b"nonsense").unwrap();
            let request = ProcessMinidump { platform: None, scope: Scope::Global, minidump_file: path, sources: sources(n), scraping: Default::default(), rewrite_first_module: Default::default() };
            svc.process_minidump(request, RequestOptions::default())
        }
        _ => svc.symbolicate_jvm_stacktraces(jvm(n, kind)),
    }
}
fn network(kinds: Vec<Kind>) {
    wire::install(move |hop| {
        let n: usize = hop.url.path()[1..].parse().unwrap();
        if !hop.url.query().unwrap().starts_with("id=") {
            return Wire::ok(200, format!(r#"[{{"id": "f{n}", "symbolType": "proguard"}}]"#).as_bytes());
        }
        match kinds.get(n) {
            Some(Kind::Panics) => Wire::ok(200, PANICS.as_bytes()),
            _ => Wire::Gate(format!("{n:03}")),
        }
    });
}

/// What is known of a request.
#[derive(Debug)]
struct Known {
    kind: Kind,
    id: RequestId,
    n: usize,
    started: Instant,
    /// the result and when it was there, once the request ran
    done: Option<(Instant, Value)>,
    released: bool,
}
const LIMIT: Duration = Duration::from_secs(15 * 60);
const KEPT: Duration = Duration::from_secs(90);
const GONE: &str = "gone";
impl Known {
    fn completed(&self) -> Value {
        let errors = match self.kind {
            Kind::Quick => json!([]),
            _ => json!([{"uuid": "00000000-0000-0000-0000-000000000001", "type": "missing"}]),
        };
        json!({"status": "completed", "exceptions": [{"type": format!("Request{}", self.n), "module": "m"}],
            "stacktraces": [{"frames": [{"function": "f", "module": "p.p", "lineno": 1, "index": 0}]}], "classes": {}, "errors": errors})
    }
    /// The task had its turn at `now`.
    fn run(&mut self, now: Instant) {
        if self.done.is_some() {
            return;
        }
        let end = self.started + LIMIT;
        self.done = match self.kind {
            Kind::Quick => Some((now, self.completed())),
            Kind::Fails => Some((now, json!({"status": "failed", "message": "?"}))),
            Kind::Panics => Some((now, json!(GONE))),
            Kind::WaitsAndPanics if self.released => Some((now, json!(GONE))),
            Kind::Waits if self.released => Some((now, self.completed())),
            _ if now >= end => Some((end, json!({"status": "timeout"}))),
            _ => None,
        };
    }
    /// What a poll of it gives, if it starts now.
    fn poll(&self, now: Instant, timeout: Option<Duration>) -> Value {
        match &self.done {
            Some((_, v)) if *v == json!(GONE) => Value::Null,
            Some((at, v)) => match now < *at + KEPT {
                true => v.clone(),
                false => Value::Null,
            },
            None => match timeout {
                Some(t) if now + t < self.started + LIMIT => json!({"status": "pending", "request_id": self.id, "retry_after": 30}),
                _ => json!({"status": "timeout"}),
            },
        }
    }
}
fn shown(r: &Option<symbolicator::service::SymbolicationResponse>) -> Value {
    let mut v = json!(r);
    if v["status"] == "failed" && v["message"].as_str().is_some_and(|m| !m.is_empty()) {
        v["message"] = json!("?");
    }
    v
}

pub fn c45() {
    let check = Check::new(
        "C45",
        "model_checking",
        "all histories of submissions of five kinds, polls with and without a time limit, replies and passing time; all points at which one submission is interrupted by others or by the end of a request",
    );
    check.assume("the network is a scripted server behind a stand-in of the HTTP client; a mapping file makes the stand-in of the library for these panic");
    histories(&check);
    candidates(&check);
    if !check.saturated() {
        interruptions(&check);
    }
    check.finish()
}

fn histories(check: &Check) {
    let depth = if check.thorough() { 5 } else { 4 };
    for limit in [Some(1), Some(2), None] {
        let n = vmc::explore_parallel(2, |ch| {
            if check.saturated() {
                return false;
            }
            let scratch = Scratch::new("c45");
            let mut log = vec![];
            let text = |log: &Vec<String>| format!("limit {limit:?}: {}", log.join(", "));
            let mut bad: Option<(String, Value, Value)> = None;
            let r = vmc::no_panic(|| {
                ctl::run(&scratch.0, async {
                    let svc = service(limit);
                    let mut kinds = vec![];
                    let mut known: Vec<Known> = vec![];
                    let mut waiting: Vec<(usize, tokio::task::JoinHandle<Value>)> = vec![];
                    let mut fresh = false;
                    for step in 0..depth {
                        let now = Instant::now();
                        let op = match step {
                            0 => ch.choose(5),
                            _ => ch.choose(15),
                        };
                        // a poll just after the submission comes before the request had its turn
                        let mut ran = false;
                        match op {
                            0..=4 => {
                                let kind = KINDS[op];
                                log.push(format!("submit {kind:?}"));
                                let n = kinds.len();
                                kinds.push(kind);
                                network(kinds.clone());
                                let busy = known.iter().filter(|k| k.done.is_none()).count();
                                let got = submit(&svc, n, kind);
                                let want = limit.is_none_or(|l| busy < l);
                                if got.is_ok() != want {
                                    bad = bad.take().or(Some((text(&log), json!(got.is_ok()), json!(want))));
                                    return;
                                }
                                if let Ok(id) = got {
                                    known.push(Known { kind, id, n, started: now, done: None, released: false });
                                }
                                fresh = true;
                                continue;
                            }
                            5 => {
                                let gates = ctl::waiting();
                                let Some(g) = gates.first() else { return };
                                log.push(format!("reply for {g}"));
                                let n: usize = g.parse().unwrap();
                                let k = known.iter_mut().find(|k| k.n == n).unwrap();
                                k.released = true;
                                let w = if k.kind == Kind::WaitsAndPanics { Wire::ok(200, PANICS.as_bytes()) } else { Wire::status(404) };
                                ctl::answer(0, w);
                                ran = true;
                            }
                            6..=10 => {
                                let (which, timeout) = [(0, None), (0, Some(7)), (1, None), (1, Some(0)), (2, None)][op - 6];
                                let k = match which {
                                    0 => known.last(),
                                    1 => known.first().filter(|_| known.len() > 1),
                                    _ => None,
                                };
                                if k.is_none() && which != 2 {
                                    return;
                                }
                                let immediate = fresh && which == 0;
                                if fresh && !immediate {
                                    ctl::settle().await;
                                    let now = Instant::now();
                                    known.iter_mut().for_each(|k| k.run(now));
                                }
                                let now = Instant::now();
                                let timeout = timeout.map(Duration::from_secs);
                                log.push(format!("poll {} for {timeout:?}", ["last", "first", "unknown"][which]));
                                let last = known.len().saturating_sub(1);
                                let id = match which {
                                    2 => RequestId::new(Default::default()),
                                    0 => known[last].id,
                                    _ => known[0].id,
                                };
                                let got = shown(&svc.get_response(id, timeout.map(|t| t.as_secs())).await);
                                let before = now;
                                let now = Instant::now();
                                if immediate {
                                    known.iter_mut().for_each(|k| k.run(before));
                                }
                                let want = match which {
                                    2 => Value::Null,
                                    _ => {
                                        let k = &mut known[if which == 0 { last } else { 0 }];
                                        if immediate {
                                            if matches!(&k.done, Some((_, v)) if *v == json!(GONE)) {
                                                // its end is seen by those who were waiting
                                                json!({"status": "internal_error"})
                                            } else {
                                                k.poll(before, timeout)
                                            }
                                        } else {
                                            k.poll(before, timeout)
                                        }
                                    }
                                };
                                if got != want {
                                    bad = bad.take().or(Some((text(&log), got, want)));
                                    return;
                                }
                                known.iter_mut().for_each(|k| k.run(now));
                                ran = now > before;
                            }
                            11 => {
                                // somebody waits for the result in the background
                                let Some(k) = known.last() else { return };
                                log.push("wait for the last".into());
                                let (svc, id) = (svc.clone(), k.id);
                                if !fresh && k.done.is_some() {
                                    return;
                                }
                                waiting.push((known.len() - 1, tokio::spawn(async move { shown(&svc.get_response(id, None).await) })));
                                if fresh {
                                    // the request has its turn first
                                    tokio::task::yield_now().await;
                                }
                                ran = true;
                            }
                            _ => {
                                let s = [60.0, 89.5, 899.5][op - 12];
                                log.push(format!("{s} s pass"));
                                known.iter_mut().for_each(|k| k.run(now));
                                ctl::pass(Duration::from_secs_f64(s)).await;
                                ran = true;
                            }
                        }
                        fresh = false;
                        let _ = ran;
                        ctl::settle().await;
                        let now = Instant::now();
                        known.iter_mut().for_each(|k| k.run(now));
                    }
                    ctl::settle().await;
                    let now = Instant::now();
                    known.iter_mut().for_each(|k| k.run(now));
                    // in the end everything is over, and there is room again
                    ctl::pass(Duration::from_secs(1000)).await;
                    let now = Instant::now();
                    known.iter_mut().for_each(|k| k.run(now));
                    for (i, w) in waiting {
                        let got = w.await.unwrap();
                        let k = &known[i];
                        let done = &k.done.as_ref().unwrap().1;
                        let want = if *done == json!(GONE) { json!({"status": "internal_error"}) } else { done.clone() };
                        // a waiter may also come too late for a request that panicked
                        let late = *done == json!(GONE) && got.is_null() && k.kind == Kind::Panics;
                        if got != want && !late {
                            bad = bad.take().or(Some((format!("{}; result of the waiter for {}", text(&log), k.n), got, want)));
                        }
                    }
                    for k in &known {
                        ctl::settle().await;
                        let got = shown(&svc.get_response(k.id, Some(0)).await);
                        let want = k.poll(Instant::now(), Some(Duration::ZERO));
                        if got != want {
                            bad = bad.take().or(Some((format!("{}; later poll of {}", text(&log), k.n), got, want)));
                        }
                    }
                    let room = limit.unwrap_or(3);
                    for i in 0..=room {
                        let ok = submit(&svc, 900 + i, Kind::Waits).is_ok();
                        let want = limit.is_none() || i < room;
                        if ok != want {
                            bad = bad.take().or(Some((format!("{}; room for request {i} in the end", text(&log)), json!(ok), json!(want))));
                        }
                    }
                })
            });
            check.trace();
            check.state(vmc::hash64(&text(&log)));
            check.transition(log.len() as u64);
            check.sample(|| json!(text(&log)));
            if let Err(p) = r {
                check.fail(&format!("{}: panic", text(&log)), json!({"panic": p}));
            }
            if let Some((k, got, want)) = bad {
                check.fail(&k, json!({"observed": got, "expected": want}));
            }
            true
        });
        check.extra(&format!("histories_{limit:?}"), n);
    }
}

/// Lists of candidates are part of the result if they are asked for.
fn candidates(check: &Check) {
    for asked in [true, false] {
        for several in [1u8, 3] {
            let k = || format!("candidates asked for: {asked}, {several} modules");
            check.trace();
            check.state(vmc::hash64(&k()));
            let scratch = Scratch::new("c45");
            check.guarded(&k, || {
                ctl::run(&scratch.0, async {
                    wire::install(|hop| match crate::native::number(&hop.url) {
                        1 => Wire::ok(200, &crate::native::lib("x86_64", 1)),
                        _ => Wire::status(404),
                    });
                    let svc = service(None);
                    let frames = (1..=several).map(|n| crate::native::frame(symbolicator_native::interface::AddrMode::Abs, n as u64 * 0x10000 + 0x12)).collect();
                    let request: SymbolicateStacktraces = crate::native::request(vec![frames], (1..=several).map(|n| crate::native::module(n, n as u64 * 0x10000, Some(0x1000))).collect());
                    let options = RequestOptions { dif_candidates: asked, apply_source_context: true };
                    let id = svc.symbolicate_stacktraces(request.clone(), options).unwrap();
                    let got = json!(svc.get_response(id, None).await);
                    let direct = json!(crate::native::actor(&scratch).symbolicate(request).await.unwrap());
                    let mut want = direct;
                    for m in want["modules"].as_array_mut().unwrap() {
                        if m["candidates"].as_array().is_none_or(|c| c.is_empty()) {
                            check.fail(&format!("{}: the actor has no candidates", k()), json!(m));
                        }
                        if !asked {
                            m.as_object_mut().unwrap().remove("candidates");
                        }
                    }
                    want["status"] = json!("completed");
                    check.expect(&k, "response", &got, &want);
                })
            });
        }
    }
}

/// One submission, interrupted after any of its instructions by other submissions and by the end of
/// an earlier request.
fn interruptions(check: &Check) {
    #[derive(Clone, Copy, Debug, PartialEq)]
    enum Other {
        Submits,
        SubmitsTwice,
        Ends,
        EndsAndSubmits,
    }
    use Other::*;
    let everywhere = check.thorough();
    let others = if check.thorough() { vec![Submits, SubmitsTwice, Ends, EndsAndSubmits] } else { vec![Submits, Ends] };
    for limit in if check.thorough() { vec![1usize, 2, 3] } else { vec![2] } {
        for other in others.iter().copied() {
            let (missed, stuck) = (AtomicUsize::new(0), AtomicUsize::new(0));
            let ending = matches!(other, Ends | EndsAndSubmits);
            let trial = |n: usize, at: Option<crate::step::Place>| -> Vec<(usize, usize)> {
                let k = || format!("limit {limit}: submission interrupted at place {n}; meanwhile: {other:?}");
                let scratch = Scratch::new("c45");
                let mut way = vec![];
                check.guarded(&k, || {
                    ctl::run(&scratch.0, async {
                        let svc = service(Some(limit));
                        network(vec![Kind::Waits; 8]);
                        // one place is left, or the last one is about to be
                        let mut ids = vec![];
                        for i in 0..limit - 1 {
                            ids.push(submit(&svc, i, Kind::Waits).unwrap());
                        }
                        ctl::settle().await;
                        if ending {
                            submit(&svc, 5, Kind::Quick).unwrap();
                        }
                        let world = ctl::world();
                        let request = jvm(6, Kind::Waits);
                        let other_svc = svc.clone();
                        let unrelated = service(None);
                        // what a thread does only once has been done
                        let warm = move || {
                            world.join(0);
                            let _ = unrelated.symbolicate_jvm_stacktraces(jvm(9, Kind::Quick));
                        };
                        let first = crate::step::start(at, warm, move || other_svc.symbolicate_jvm_stacktraces(request));
                        if ending {
                            ctl::settle().await;
                        }
                        let more: Vec<_> = (0..[1, 2, 0, 1][other as usize]).map(|n| submit(&svc, 3 + n, Kind::Waits)).collect();
                        let seen = first.end();
                        way = seen.way;
                        if !seen.interrupted && at.is_some() {
                            missed.fetch_add(1, Relaxed);
                            return;
                        }
                        stuck.fetch_add(seen.stuck as usize, Relaxed);
                        ids.extend(seen.result.ok());
                        ids.extend(more.into_iter().flatten());
                        ctl::settle().await;
                        check.trace();
                        check.state(vmc::hash64(&k()));
                        check.transition(1);
                        if ids.len() > limit {
                            check.fail(&k(), json!({"in flight": ids.len()}));
                        }
                        if !ending && ids.len() != limit {
                            check.fail(&k(), json!({"in flight": ids.len(), "room was for": limit}));
                        }
                        for id in &ids {
                            let got = shown(&svc.get_response(*id, Some(0)).await);
                            if got["status"] != "pending" {
                                check.fail(&k(), got);
                            }
                        }
                        for i in 0..2 {
                            let ok = submit(&svc, 10 + i, Kind::Waits).is_ok();
                            let want = ids.len() + i < limit;
                            check.expect(&|| format!("{}; room for one more, {i}", k()), "accepted", &ok, &want);
                        }
                    })
                });
                way
            };
            // all places where it gets on its way; those in the C library (copying and allocation) are
            // left out unless there is time
            trial(0, None);
            let way = trial(0, None);
            let mut times = std::collections::HashMap::new();
            let mut places = vec![];
            for (ip, depth) in &way {
                let n = times.entry((*ip, *depth)).or_insert(0usize);
                if everywhere || crate::step::ours(*ip) {
                    places.push((*ip, *depth, *n));
                }
                *n += 1;
            }
            vmc::parallel(places.len(), |n| {
                if !check.saturated() {
                    trial(n + 1, Some(places[n]));
                }
            });
            check.extra(&format!("instructions_{limit}_{other:?}"), json!({"executed": way.len(), "places": places.len(), "not reached again": missed.load(Relaxed), "had to wait": stuck.load(Relaxed)}));
        }
    }
}
