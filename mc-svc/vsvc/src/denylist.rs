//! Hosts that fail too often.
use crate::ctl::{self, answer, pass, settle, waiting};
use crate::download::{http, local, service, source};
use crate::wire::{self, Wire};
use std::time::Duration;
use symbolicator_service::caching::{CacheContents, CacheError};
use symbolicator_service::config::Config;
use symbolicator_sources::{GcsRemoteFile, HttpRemoteFile, RemoteFile, S3RemoteFile, SentryFileId, SentryRemoteFile, SourceConfig, SourceLocation};
use tokio::time::Instant;
use vmc::serde_json::json;
use vmc::{Check, Scratch};

const S: fn(u64) -> Duration = Duration::from_secs;
const MS: fn(u64) -> Duration = Duration::from_millis;

fn config(window: Duration, bucket: Duration, threshold: usize, block: Duration) -> Config {
    Config {
        deny_list_enabled: true,
        deny_list_time_window: window,
        deny_list_bucket_size: bucket,
        deny_list_threshold: threshold,
        deny_list_block_time: block,
        ..Default::default()
    }
}
fn blocked(r: &CacheContents) -> bool {
    matches!(r, Err(CacheError::DownloadError(s)) if s == "Server is temporarily blocked")
}

/// What the configuration promises, with the slack of one bucket.
struct Oracle {
    window: Duration,
    bucket: Duration,
    threshold: usize,
    block: Duration,
    failures: Vec<Instant>,
}
impl Oracle {
    fn count(&self, s: Instant, window: Duration, i: usize) -> usize {
        self.failures[..=i].iter().filter(|f| s - **f <= window).count()
    }
    /// It is blocked for sure.
    fn must(&self, now: Instant) -> bool {
        let w = self.window.saturating_sub(self.bucket);
        (0..self.failures.len()).any(|i| {
            let s = self.failures[i];
            self.count(s, w, i) >= self.threshold && now - s + MS(1) < self.block
        })
    }
    /// It may be blocked.
    fn may(&self, now: Instant) -> bool {
        (0..self.failures.len()).any(|i| {
            let s = self.failures[i];
            self.count(s, self.window + self.bucket, i) >= self.threshold && now - s <= self.block + MS(1)
        })
    }
}

pub fn c30() {
    let check = Check::new(
        "C30",
        "model_checking",
        "every history of failing and successful downloads of two hosts and pauses x configurations; every outcome; every kind of source; failures of concurrent downloads in every order",
    );
    check.assume("the network is a scripted server behind a stand-in of the HTTP client, the cache of hosts a stand-in of moka");
    histories(&check);
    outcomes(&check);
    sources(&check);
    concurrent(&check);
    check.finish()
}

fn histories(check: &Check) {
    // window, bucket, threshold, block time
    let configs = [
        (S(20), S(5), 3, S(60)),
        (S(10), S(5), 2, S(8)),
        (S(9), S(4), 2, S(30)),
        (S(10), S(10), 3, S(30)),
        (S(5), S(5), 1, S(7)),
        (S(6), S(1), 4, S(5)),
        (S(3), S(10), 2, S(30)),
        (S(60), S(5), 2, S(86400)),
    ];
    for (ci, &(window, bucket, threshold, block)) in configs.iter().enumerate() {
        let depth = if check.thorough() { 7 } else if ci < 1 { 7 } else { 5 };
        let mut pauses = vec![bucket / 2 + MS(7), (window.saturating_sub(bucket)).max(S(1)), window + bucket / 3, block];
        if ci == 0 || check.thorough() {
            pauses.push(bucket + S(1));
        }
        // 0, 1: a failing and a successful download; 2: a failure of another host; 3..: pauses
        let ops = 3 + pauses.len();
        let n = (0..depth).fold(1usize, |n, _| n * ops);
        vmc::parallel(n / ops, |u| {
            for last in 0..2 {
                // only histories that end with a download of the first host
                let mut h = vec![];
                let mut j = u;
                for _ in 0..depth - 1 {
                    h.push(j % ops);
                    j /= ops;
                }
                h.push(last);
                // pauses in a row and at the start are covered by others
                if h[0] >= 3 || h.windows(2).any(|w| w[0] >= 3 && w[1] >= 3) || check.saturated() {
                    continue;
                }
                // the longest: failures of one host only
                if depth == 7 && !check.thorough() && h[..6].iter().any(|o| *o == 1 || *o == 2) {
                    continue;
                }
                let k = || format!("configuration {ci}, history {h:?}");
                check.guarded(k, || {
                    let scratch = Scratch::new("c30");
                    let to = scratch.0.join("f");
                    let mut trace = vec![];
                    ctl::run(&scratch.0, async {
                        wire::install(|hop| if hop.url.path() == "/bad" { Wire::status(500) } else { Wire::ok(200, b"ok") });
                        let svc = service(&config(window, bucket, threshold, block));
                        let mut o = Oracle { window, bucket, threshold, block, failures: vec![] };
                        let mut o2 = Oracle { failures: vec![], ..o };
                        // somewhere within a bucket
                        pass(MS(1300)).await;
                        for op in &h {
                            if *op >= 3 {
                                pass(pauses[op - 3]).await;
                                continue;
                            }
                            let (host, o) = if *op == 2 { ("b.example.com", &mut o2) } else { ("a.example.com", &mut o) };
                            let now = Instant::now();
                            let (must, may) = (o.must(now), o.may(now));
                            wire::take_hops();
                            let r = svc.download(http("s", host, if *op == 1 { "good" } else { "bad" }), to.clone()).await;
                            let asked = wire::take_hops().len();
                            let is = blocked(&r);
                            trace.push((*op, is));
                            if is && (!may || asked != 0) || !is && (must || asked == 0) {
                                check.fail(&k(), json!({"op": op, "blocked": is, "requests": asked, "must be": must, "may be": may, "trace": format!("{trace:?}"), "result": format!("{r:?}")}));
                                return;
                            }
                            if !is {
                                if r.is_err() != (*op != 1) {
                                    check.fail(&format!("{}: result", k()), json!(format!("{r:?}")));
                                }
                                if r.is_err() {
                                    o.failures.push(Instant::now());
                                }
                            }
                        }
                    });
                    check.state(vmc::hash64(&(ci, &trace)));
                    check.transition(h.len() as u64);
                    check.eval(trace.iter().any(|t| t.1).then(|| vmc::hash64(&k())));
                    check.sample(|| json!({"case": k(), "trace": format!("{trace:?}")}));
                });
            }
        });
    }
}

/// Which outcomes of downloads are failures of the host.
fn outcomes(check: &Check) {
    let all: Vec<(&str, Wire, bool)> = vec![
        ("200", Wire::ok(200, b"x"), false),
        ("404", Wire::status(404), false),
        ("403", Wire::status(403), false),
        ("401", Wire::status(401), false),
        ("302", Wire::status(302), false),
        ("400", Wire::status(400), false),
        ("500", Wire::status(500), true),
        ("503", Wire::status(503), true),
        ("no connection", Wire::Refused, true),
        ("broken connection", Wire::Broken, true),
        ("no response", Wire::Hang, true),
        ("no body", Wire::body(Some(5), vec![crate::wire::Chunk::Hang]), true),
        ("broken body", Wire::body(Some(5), vec![crate::wire::Chunk::Break]), true),
    ];
    for (name, w, counts) in &all {
        for enabled in [true, false] {
            for never in [vec![], vec!["a.example.com".to_string()], vec!["b.example.com".to_string(), "example.com".into()]] {
                let k = || format!("three times {name}, deny list {enabled}, never block {never:?}");
                check.guarded(k, || {
                    let scratch = Scratch::new("c30o");
                    ctl::run(&scratch.0, async {
                        let w = w.clone();
                        wire::install(move |_| w.clone());
                        let svc = service(&Config { deny_list_enabled: enabled, deny_list_never_block_hosts: never.clone(), ..config(S(3600), S(5), 3, S(600)) });
                        for i in 0..5 {
                            let r = svc.download(http("s", "a.example.com", "x"), scratch.0.join("f")).await;
                            let want = i >= 3 && *counts && enabled && !never.contains(&"a.example.com".to_string());
                            check.expect(|| format!("{}, download {i}", k()), "blocked", &blocked(&r), &want);
                        }
                    });
                });
                check.eval(Some(vmc::hash64(&k())));
            }
        }
    }
}

/// Only HTTP sources of customers are blocked, by host.
fn sources(check: &Check) {
    let cfg = |v: vmc::serde_json::Value| source(v);
    let http_url = |id: &str, url: &str| {
        let SourceConfig::Http(c) = cfg(json!({"type": "http", "id": id, "url": url})) else { unreachable!() };
        RemoteFile::from(HttpRemoteFile::new(c, SourceLocation::new("x")))
    };
    let SourceConfig::S3(s3) = cfg(json!({"type": "s3", "id": "s3", "bucket": "a", "region": "us-east-1", "access_key": "k", "secret_key": "s"})) else { unreachable!() };
    let SourceConfig::Gcs(gcs) = cfg(json!({"type": "gcs", "id": "gcs", "bucket": "a.example.com", "client_email": "e", "private_key": "k"})) else { unreachable!() };
    let SourceConfig::Sentry(sentry) = cfg(json!({"type": "sentry", "id": "sentry:project", "url": "http://a.example.com/", "token": "t"})) else { unreachable!() };
    let scratch = Scratch::new("c30s");
    // file, host if it can be blocked
    let files: Vec<(&str, RemoteFile, Option<&str>)> = vec![
        ("http", http_url("s", "http://a.example.com/"), Some("a")),
        ("http of another project", http_url("other", "http://a.example.com/"), Some("a")),
        ("http elsewhere on the host", http_url("other", "http://a.example.com/some/where"), Some("a")),
        ("another host", http_url("s", "http://b.example.com/"), Some("b")),
        ("a host above", http_url("s", "http://example.com/"), Some("c")),
        ("builtin", http_url("sentry:microsoft", "http://a.example.com/"), None),
        ("s3", S3RemoteFile::new(s3, SourceLocation::new("x")).into(), None),
        ("gcs", GcsRemoteFile::new(gcs, SourceLocation::new("x")).into(), None),
        ("sentry", SentryRemoteFile::new(sentry, true, SentryFileId("1".into()), None).into(), None),
        ("filesystem", local(&scratch.0, "missing"), None),
    ];
    for (name, f, host) in &files {
        for (name2, f2, host2) in &files {
            let k = || format!("{name} fails three times, then {name2}");
            check.guarded(k, || {
                let scratch = Scratch::new("c30s");
                ctl::run(&scratch.0, async {
                    wire::install(|_| Wire::status(500));
                    let svc = service(&Config { connect_to_reserved_ips: true, ..config(S(3600), S(5), 3, S(600)) });
                    for i in 0..3 {
                        let r = svc.download(f.clone(), scratch.0.join("f")).await;
                        check.expect(|| format!("{}, download {i}", k()), "blocked", &blocked(&r), &false);
                    }
                    let r = svc.download(f2.clone(), scratch.0.join("f")).await;
                    check.expect(k, "blocked", &blocked(&r), &(host.is_some() && host == host2));
                });
            });
            check.eval(Some(vmc::hash64(&k())));
        }
    }
}

/// Downloads under way when a host is blocked, in every order of their ends.
fn concurrent(check: &Check) {
    let n = if check.thorough() { 6 } else { 5 };
    let runs = vmc::explore_parallel(3, |ch| {
        let scratch = Scratch::new("c30c");
        let mut order = vec![];
        ctl::run(&scratch.0, async {
            wire::install(|hop| Wire::Gate(hop.url.path().to_string()));
            let svc = service(&config(S(3600), S(5), 2, S(600)));
            let mut tasks = vec![];
            let mut failed = vec![false; n];
            let k = |order: &Vec<String>| format!("order {order:?}");
            let mut started = 0;
            loop {
                settle().await;
                let w = waiting();
                let can_start = started < n;
                if w.is_empty() && !can_start {
                    break;
                }
                let c = ch.choose(w.len() * 2 + can_start as usize);
                let is_blocked = failed.iter().filter(|f| **f).count() >= 2;
                if c == w.len() * 2 {
                    order.push(format!("start {started}"));
                    let svc = svc.clone();
                    let (p, to) = (format!("{started}"), scratch.0.join(format!("{started}")));
                    let t = tokio::spawn(async move { svc.download(http("s", "a.example.com", &p), to).await });
                    settle().await;
                    let done = t.is_finished();
                    check.expect(|| k(&order), "answered without a request", &done, &is_blocked);
                    tasks.push((started, t));
                    started += 1;
                    continue;
                }
                let p: usize = w[c / 2][1..].parse().unwrap();
                let bad = c % 2 == 1;
                order.push(format!("{} {p}", if bad { "fail" } else { "end" }));
                answer(c / 2, if bad { Wire::status(500) } else { Wire::ok(200, b"ok") });
                // all attempts
                while bad {
                    pass(MS(21)).await;
                    match waiting().iter().position(|l| l[1..] == p.to_string()) {
                        Some(i) => answer(i, Wire::status(500)),
                        None => break,
                    }
                }
                settle().await;
                let i = tasks.iter().position(|t| t.0 == p).unwrap();
                let (_, t) = tasks.remove(i);
                check.expect(|| k(&order), "finished", &t.is_finished(), &true);
                let r = t.await.unwrap();
                check.expect(|| k(&order), "result", &(r.is_err(), blocked(&r)), &(bad, false));
                failed[p] = bad;
            }
            for (_, t) in tasks {
                let r = t.await.unwrap();
                check.expect(|| k(&order), "blocked", &blocked(&r), &true);
            }
        });
        check.eval(Some(vmc::hash64(&order)));
        check.transition(order.len() as u64);
        !check.saturated()
    });
    check.extra("orders of concurrent downloads", runs);
}
