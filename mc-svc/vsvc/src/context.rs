//! The source context of native frames.
use crate::ctl;
use crate::download::source;
use crate::fixture::{debug_id, zip};
use crate::native::{actor, frame, module, number, request, HOST};
use crate::wire::{self, Wire};
use std::sync::{Arc, Mutex};
use symbolicator_native::interface::{AddrMode, CompletedSymbolicationResponse, FrameTrust, RawFrame, SymbolicateStacktraces};
use symbolicator_service::types::{Scope, ScrapingConfig};
use vmc::serde_json::{json, Value};
use vmc::{Check, Scratch};

pub fn c40() {
    let check = Check::new(
        "C40",
        "model_checking",
        "all kinds of source files and links x lines x outcomes x scraping; three modules x what they link to x outcomes; all pairs of projects by their headers x orders of requests",
    );
    check.assume("the network is a scripted server behind a stand-in of the HTTP client; symbol caches are read and written by a stand-in of that format");
    kinds(&check);
    several(&check);
    projects(&check);
    check.finish()
}

const LINES: u32 = 12;
fn text(who: &str) -> String {
    (1..=LINES).map(|i| format!("{who} {i}\n")).collect()
}
/// What a frame shows: the lines before, the line, the lines after.
fn around(who: &str, line: u32) -> Value {
    if line == 0 || line > LINES {
        return json!([[], null, []]);
    }
    let at = |a: u32, b: u32| -> Vec<String> { (a..b).map(|i| format!("{who} {i}")).collect() };
    json!([at(line.saturating_sub(5).max(1), line), format!("{who} {line}"), at(line + 1, (line + 6).min(LINES + 1))])
}
fn none() -> Value {
    around("", 0)
}
fn shown(f: &RawFrame) -> Value {
    json!([f.pre_context, f.context_line, f.post_context])
}
/// The n-th line of the list is that of address 0x10 + 4n.
const AT: [u32; 7] = [1, 4, 6, 8, LINES, LINES + 1, 0];
fn lib(n: u8) -> Vec<u8> {
    let lines: String = AT.iter().enumerate().map(|(i, l)| format!("{:x} 4 {l} 0\n", 0x10 + 4 * i)).collect();
    format!("MODULE Linux arm64 {} lib{n}.so\nFILE 0 /src/m{n}.c\nFUNC 10 {:x} 0 f{n}\n{lines}PUBLIC 80 0 pub{n}\n", debug_id(n), 4 * AT.len()).into_bytes()
}
fn bundle(n: u8, files: &[(String, Option<String>)], links: &[(String, String)]) -> Vec<u8> {
    let mut names = vmc::serde_json::Map::new();
    let mut zipped: Vec<(String, Vec<u8>)> = vec![];
    for (i, (path, url)) in files.iter().enumerate() {
        let mut info = json!({"type": "source", "path": path});
        if let Some(u) = url {
            info["url"] = json!(u);
        }
        names.insert(format!("files/{i}"), info);
        zipped.push((format!("files/{i}"), text(&format!("embedded{n}")).into_bytes()));
    }
    let links: vmc::serde_json::Map<String, Value> = links.iter().map(|(a, b)| (a.clone(), json!(b))).collect();
    let manifest = json!({"files": names, "source_links": links, "debug_id": debug_id(n).to_lowercase()}).to_string();
    zipped.push(("manifest.json".into(), manifest.into_bytes()));
    let mut b = b"SYSB\x02\0\0\0".to_vec();
    b.extend(zip(&zipped.iter().map(|(n, c)| (n.as_str(), &c[..])).collect::<Vec<_>>(), true));
    b
}
fn is_bundle(u: &url::Url) -> bool {
    u.path().ends_with("sourcebundle")
}
fn short(v: &Value) -> Value {
    let mut v = v.clone();
    if let Some(o) = v.as_object_mut() {
        o.remove("details");
    }
    v
}
/// Where and with which outcome links were followed for a module.
fn links(r: &CompletedSymbolicationResponse, m: usize) -> Vec<Value> {
    let m = json!(r.modules[m]);
    m["candidates"].as_array().into_iter().flatten().filter(|c| c["source"] == json!("sourcelink")).map(|c| json!([c["location"], short(&c["download"])])).collect()
}
/// Without what the source context adds.
fn without(r: &CompletedSymbolicationResponse) -> Value {
    let mut v = json!(r);
    for s in v["stacktraces"].as_array_mut().unwrap() {
        for f in s["frames"].as_array_mut().unwrap() {
            for k in ["pre_context", "context_line", "post_context", "source_link"] {
                f.as_object_mut().unwrap().remove(k);
            }
        }
    }
    for m in v["modules"].as_array_mut().unwrap() {
        m["features"].as_object_mut().unwrap().remove("has_sources");
        if let Some(c) = m["candidates"].as_array_mut() {
            c.retain(|c| c["source"] != json!("sourcelink") && !c["location"].as_str().unwrap().ends_with("sourcebundle"));
        }
    }
    v
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Out {
    Good,
    Missing,
    Denied,
    Failing,
    Empty,
    Binary,
}
const OUTS: [Out; 6] = [Out::Good, Out::Missing, Out::Denied, Out::Failing, Out::Empty, Out::Binary];
impl Out {
    fn wire(self, who: &str) -> Wire {
        match self {
            Out::Good => Wire::ok(200, text(who).as_bytes()),
            Out::Missing => Wire::status(404),
            Out::Denied => Wire::status(401),
            Out::Failing => Wire::status(500),
            Out::Empty => Wire::ok(200, b""),
            Out::Binary => Wire::ok(200, b"\xff\xfe\0"),
        }
    }
    fn download(self) -> Value {
        match self {
            Out::Good => json!({"status": "ok", "features": {"has_debug_info": false, "has_symbols": false, "has_unwind_info": false, "has_sources": true}}),
            Out::Missing | Out::Empty => json!({"status": "notfound"}),
            Out::Denied => json!({"status": "noperm"}),
            Out::Failing => json!({"status": "error"}),
            Out::Binary => json!({"status": "malformed"}),
        }
    }
}
/// What the bundle says of the file of the module.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Kind {
    NoBundle,
    BadBundle,
    Other,
    Embedded,
    EmbeddedAt,
    EmbeddedAndLinked,
    Linked(&'static str),
    Pattern,
}
const KINDS: [Kind; 13] = [
    Kind::NoBundle,
    Kind::BadBundle,
    Kind::Other,
    Kind::Embedded,
    Kind::EmbeddedAt,
    Kind::EmbeddedAndLinked,
    Kind::Linked("http://git.example.com/m1.c"),
    Kind::Linked("https://git.example.com/a/m1.c?raw=1"),
    Kind::Linked("ftp://git.example.com/m1.c"),
    Kind::Linked("file:///etc/passwd"),
    Kind::Linked("/etc/passwd"),
    Kind::Linked("http://"),
    Kind::Pattern,
];
fn scraping() -> Vec<(ScrapingConfig, bool)> {
    let mut all = vec![];
    for enabled in [true, false] {
        for (origins, ok) in [(vec!["*"], true), (vec!["git.example.com"], true), (vec!["*.example.com"], true), (vec!["other.com"], false), (vec![], false)] {
            for verify_ssl in [true, false] {
                let headers = [("x-secret".to_string(), "s".to_string())].into();
                all.push((ScrapingConfig { enabled, verify_ssl, allowed_origins: origins.iter().map(|o| o.to_string()).collect(), headers }, enabled && ok));
            }
        }
    }
    all
}
fn kinds(check: &Check) {
    let (nk, no, ns) = (KINDS.len(), OUTS.len(), scraping().len());
    vmc::parallel(nk * no * ns, |i| {
        if check.saturated() {
            return;
        }
        let (kind, out) = (KINDS[i % nk], OUTS[i / nk % no]);
        let (config, sent) = scraping()[i / nk / no].clone();
        let k = || format!("{kind:?}, links are {out:?}, scraping {config:?}");
        check.guarded(k, || {
            let scratch = Scratch::new("c40k");
            ctl::run(&scratch.0, async {
                let path = || "/src/m1.c".to_string();
                let data = match kind {
                    Kind::NoBundle => None,
                    Kind::BadBundle => Some(b"SYSB\x02\0\0\0nothing".to_vec()),
                    Kind::Other => Some(bundle(1, &[("/src/m2.c".into(), None)], &[])),
                    Kind::Embedded => Some(bundle(1, &[(path(), None)], &[])),
                    Kind::EmbeddedAt => Some(bundle(1, &[(path(), Some("http://git.example.com/e.c".into()))], &[])),
                    Kind::EmbeddedAndLinked => Some(bundle(1, &[(path(), None)], &[(path(), "http://git.example.com/l.c".into())])),
                    Kind::Linked(u) => Some(bundle(1, &[], &[(path(), u.into())])),
                    Kind::Pattern => Some(bundle(1, &[], &[("/src/*".into(), "http://git.example.com/p/*".into())])),
                };
                let hops = Arc::new(Mutex::new(vec![]));
                let seen = hops.clone();
                wire::install(move |h| match h.url.host_str() {
                    Some("sym.example.com") if h.url.path().ends_with("breakpad") => Wire::ok(200, &lib(1)),
                    Some("sym.example.com") if is_bundle(&h.url) => data.as_ref().map_or(Wire::status(404), |d| Wire::ok(200, d)),
                    Some("git.example.com") => {
                        seen.lock().unwrap().push((h.url.to_string(), h.headers.contains_key("x-secret"), h.accept_invalid_certs));
                        out.wire("linked")
                    }
                    Some("sym.example.com") => Wire::status(404),
                    o => panic!("a request to {o:?}"),
                });
                let actor = actor(&scratch);
                let mut frames: Vec<_> = (0..AT.len()).map(|j| frame(AddrMode::Rel(0), 0x10 + 4 * j as u64)).collect();
                for f in &mut frames {
                    f.adjust_instruction_addr = Some(false);
                }
                // no file, no module
                frames.extend([frame(AddrMode::Rel(0), 0x90), frame(AddrMode::Abs, 0x5)]);
                let ask = |context: bool| SymbolicateStacktraces { apply_source_context: context, scraping: config.clone(), ..request(vec![frames.clone()], vec![module(1, 0x10000, Some(0x100))]) };
                let r = actor.symbolicate(ask(true)).await.unwrap();
                let (link, who) = match kind {
                    Kind::EmbeddedAt => (Some("http://git.example.com/e.c"), Some("embedded1")),
                    Kind::Embedded | Kind::EmbeddedAndLinked => (None, Some("embedded1")),
                    Kind::Linked(u) if u.contains("git") && u.starts_with("http") => (Some(u), (out == Out::Good).then_some("linked")),
                    Kind::Pattern => (Some("http://git.example.com/p/m1.c"), (out == Out::Good).then_some("linked")),
                    _ => (None, None),
                };
                for (j, f) in r.stacktraces[0].frames.iter().enumerate() {
                    let has_file = j < AT.len();
                    let want = who.filter(|_| has_file).map_or(none(), |w| around(w, AT[j]));
                    check.expect(|| format!("{}; frame {j}", k()), "context", &shown(&f.raw), &want);
                    check.expect(|| format!("{}; frame {j}", k()), "link", &f.raw.source_link.as_deref(), &link.filter(|_| has_file));
                }
                let followed = matches!(kind, Kind::Linked(_) | Kind::Pattern).then_some(()).and(link);
                let want: Vec<_> = followed.iter().map(|l| json!([l, out.download()])).collect();
                check.expect(k, "candidates of links", &links(&r, 0), &want);
                let mut got = hops.lock().unwrap().clone();
                got.dedup();
                let want: Vec<_> = followed.iter().map(|l| (l.to_string(), sent, !config.verify_ssl)).collect();
                check.expect(k, "requests", &got, &want);
                let good = !matches!(kind, Kind::NoBundle | Kind::BadBundle);
                check.expect(k, "sources", &r.modules[0].features.has_sources, &good);
                let plain = actor.symbolicate(ask(false)).await.unwrap();
                check.expect(k, "the rest", &without(&r), &without(&plain));
            });
        });
        check.eval(Some(vmc::hash64(&k())));
        check.transition(2);
        check.sample(|| json!({"case": k()}));
    });
}

/// Three modules, not in the order of their addresses; the frame of the last one is dropped.
fn several(check: &Check) {
    #[derive(Clone, Copy, Debug, PartialEq)]
    enum Link {
        Embedded,
        Own,
        Shared,
        Nothing,
    }
    const LINKS: [Link; 4] = [Link::Embedded, Link::Own, Link::Shared, Link::Nothing];
    let orders = [[0x30000u64, 0x10000, 0x20000], [0x10000, 0x20000, 0x30000], [0x20000, 0x30000, 0x10000]];
    let outs = [Out::Good, Out::Missing, Out::Failing];
    vmc::parallel(64 * 27 * 3 * 2, |i| {
        if check.saturated() {
            return;
        }
        let link = move |j: usize| LINKS[i >> (2 * j) & 3];
        let out = move |j: usize| outs[i / 64 / 3usize.pow(j as u32) % 3];
        let (order, scanned) = (orders[i / 64 / 27 % 3], i / 64 / 27 / 3 == 1);
        let k = || format!("modules at {order:x?} have {:?}, outcomes {:?}, a scanned frame in the last {scanned}", [0, 1, 2].map(link), [0, 1, 2].map(out));
        check.guarded(k, || {
            let scratch = Scratch::new("c40s");
            ctl::run(&scratch.0, async {
                let url = move |j: usize| match link(j) {
                    Link::Own => Some(format!("http://git.example.com/{j}")),
                    Link::Shared => Some("http://git.example.com/0".to_string()),
                    _ => None,
                };
                wire::install(move |h| match h.url.host_str() {
                    Some("git.example.com") => {
                        let j: usize = h.url.path()[1..].parse().unwrap();
                        out(j).wire(&format!("linked{j}"))
                    }
                    _ if h.url.path().ends_with("breakpad") => Wire::ok(200, &lib(number(&h.url))),
                    _ if is_bundle(&h.url) => {
                        let n = number(&h.url);
                        let path = format!("/src/m{n}.c");
                        match (link(n as usize - 1), url(n as usize - 1)) {
                            (Link::Embedded, _) => Wire::ok(200, &bundle(n, &[(path, None)], &[])),
                            (_, Some(u)) => Wire::ok(200, &bundle(n, &[], &[(path, u)])),
                            _ => Wire::status(404),
                        }
                    }
                    _ => Wire::status(404),
                });
                let modules: Vec<_> = (0..3).map(|j| module(j as u8 + 1, order[j], Some(0x100))).collect();
                let mut frames: Vec<_> = [1usize, 0, 2, 1].iter().map(|j| frame(AddrMode::Abs, order[*j] + 0x10 + 4 * (*j as u64 + 1))).collect();
                if scanned {
                    // nothing is there
                    frames[2] = RawFrame { trust: FrameTrust::Scan, ..frame(AddrMode::Abs, order[2] + 4) };
                }
                for f in &mut frames {
                    f.adjust_instruction_addr = Some(false);
                }
                let actor = actor(&scratch);
                let ask = |context: bool| SymbolicateStacktraces { apply_source_context: context, ..request(vec![frames[..2].to_vec(), frames[2..].to_vec()], modules.clone()) };
                let r = actor.symbolicate(ask(true)).await.unwrap();
                let mine: Vec<usize> = if scanned { vec![1, 0, 1] } else { vec![1, 0, 2, 1] };
                let got: Vec<_> = r.stacktraces.iter().flat_map(|s| &s.frames).map(|f| (shown(&f.raw), f.raw.source_link.clone())).collect();
                let target = |j: usize| if link(j) == Link::Shared { 0 } else { j };
                let want: Vec<_> = mine
                    .iter()
                    .map(|j| {
                        let line = AT[*j + 1];
                        let c = match link(*j) {
                            Link::Embedded => around(&format!("embedded{}", j + 1), line),
                            Link::Nothing => none(),
                            _ if out(target(*j)) == Out::Good => around(&format!("linked{}", target(*j)), line),
                            _ => none(),
                        };
                        (c, url(*j))
                    })
                    .collect();
                check.expect(k, "context", &got, &want);
                for j in 0..3 {
                    let used = mine.contains(&j);
                    let got = links(&r, j);
                    let want: Vec<_> = url(j).filter(|_| used).map(|u| json!([u, out(target(j)).download()])).into_iter().collect();
                    // a link that several modules share is reported for one of them at least
                    let elsewhere = got.is_empty() && (0..3).any(|o| o != j && mine.contains(&o) && url(o) == url(j) && !links(&r, o).is_empty());
                    if !elsewhere {
                        check.expect(|| format!("{}; module {j}", k()), "candidates of links", &got, &want);
                    }
                    check.expect(|| format!("{}; module {j}", k()), "sources", &r.modules[j].features.has_sources, &(used && link(j) != Link::Nothing));
                }
                let plain = actor.symbolicate(ask(false)).await.unwrap();
                check.expect(k, "the rest", &without(&r), &without(&plain));
            });
        });
        check.eval(Some(vmc::hash64(&k())));
        check.transition(2);
        check.sample(|| json!({"case": k()}));
    });
}

/// Two projects with the same module, each with its own headers.
fn projects(check: &Check) {
    let headers = ["", "A", "B"];
    let orders = [[0usize, 1, 0], [1, 0, 1], [0, 0, 1]];
    // what the server says to the anonymous
    let anonymous = [Out::Good, Out::Missing, Out::Denied, Out::Failing];
    let n = headers.len();
    vmc::parallel(n * n * 2 * 2 * orders.len() * anonymous.len() * 2, |i| {
        if check.saturated() {
            return;
        }
        let has = [headers[i % n], headers[i / n % n]];
        let j = i / n / n;
        let allowed = [j % 2 == 0, j / 2 % 2 == 0];
        let j = j / 4;
        let (order, anon) = (orders[j % 3], anonymous[j / 3 % 4]);
        let public = j / 12 == 0;
        let k = || format!("projects have headers {has:?}, sent {allowed:?}; the public gets {anon:?}; the bundle is public {public}; requests of {order:?}");
        check.guarded(k, || {
            let scratch = Scratch::new("c40p");
            ctl::run(&scratch.0, async {
                wire::install(move |h| match h.url.host_str() {
                    Some("git.example.com") => match h.headers.get("authorization") {
                        Some(t) => Out::Good.wire(&format!("for {}", t.to_str().unwrap())),
                        None => anon.wire("for all"),
                    },
                    _ if h.url.path().ends_with("breakpad") => Wire::ok(200, &lib(1)),
                    _ if is_bundle(&h.url) => Wire::ok(200, &bundle(1, &[], &[("/src/m1.c".into(), "http://git.example.com/m1.c".into())])),
                    _ => Wire::status(404),
                });
                let actor = actor(&scratch);
                for (step, p) in order.iter().enumerate() {
                    let scraping = ScrapingConfig {
                        allowed_origins: vec![if allowed[*p] { "git.example.com" } else { "other.com" }.to_string()],
                        headers: Some(has[*p]).filter(|h| !h.is_empty()).map(|h| ("authorization".to_string(), h.to_string())).into_iter().collect(),
                        ..Default::default()
                    };
                    let sources = vec![source(json!({"type": "http", "id": "sym", "url": HOST, "layout": {"type": "unified"}, "is_public": public, "filters": {"filetypes": ["breakpad", "sourcebundle"]}}))];
                    let r = actor
                        .symbolicate(SymbolicateStacktraces {
                            scope: Scope::Scoped(["1", "2"][*p].into()),
                            sources: sources.into(),
                            scraping,
                            apply_source_context: true,
                            ..request(vec![vec![frame(AddrMode::Rel(0), 0x14)]], vec![module(1, 0x10000, Some(0x100))])
                        })
                        .await
                        .unwrap();
                    let want = match has[*p] {
                        h if !h.is_empty() && allowed[*p] => around(&format!("for {h}"), 4),
                        _ if anon == Out::Good => around("for all", 4),
                        _ => none(),
                    };
                    check.expect(|| format!("{}; request {step}", k()), "context", &shown(&r.stacktraces[0].frames[0].raw), &want);
                    check.transition(1);
                }
            });
        });
        check.eval(Some(vmc::hash64(&k())));
        check.sample(|| json!({"case": k()}));
    });
}
