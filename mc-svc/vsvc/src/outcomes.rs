//! What becomes of the files that native symbolication looks for.
use crate::ctl;
use crate::download::source;
use crate::fixture::debug_id;
use crate::native::{actor, frame, lib, module, number, request, HOST};
use crate::wire::{self, Wire};
use std::time::Duration;
use symbolicator_native::interface::{AddrMode, CompletedSymbolicationResponse, SymbolicateStacktraces};
use symbolicator_service::types::{RawObjectInfo, Scope};
use symbolicator_sources::SourceConfig;
use vmc::serde_json::{json, Value};
use vmc::{Check, Scratch};

pub fn c39() {
    let check = Check::new(
        "C39",
        "model_checking",
        "all outcomes of the files of up to three modules; all outcomes of the files that complete the symbols of a module x the source they are from; all pairs of requests of two projects x what each of them may see",
    );
    check.assume("the network is a scripted server behind a stand-in of the HTTP client; symbol caches are read and written by a stand-in of that format, built from Breakpad files that the real parser reads");
    outcomes(&check);
    secondary(&check);
    projects(&check);
    check.finish()
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Out {
    Found,
    Symbols,
    Unusable,
    Missing,
    Denied,
    Failing,
    Hanging,
    Malformed,
    Unconvertible,
    NotReferenced,
}
use Out::*;
const OUTS: [Out; 10] = [Found, Symbols, Unusable, Missing, Denied, Failing, Hanging, Malformed, Unconvertible, NotReferenced];
impl Out {
    fn wire(self, n: u8) -> Wire {
        let head = format!("MODULE Linux arm64 {} lib{n}.so\n", debug_id(n));
        match self {
            Found | NotReferenced => Wire::ok(200, &lib("arm64", n)),
            Symbols => Wire::ok(200, format!("{head}PUBLIC 10 0 pub\nSTACK CFI INIT 1000 10 .cfa: $rsp 8 +\n").as_bytes()),
            Unusable => Wire::ok(200, format!("{head}STACK CFI INIT 1000 10 .cfa: $rsp 8 +\n").as_bytes()),
            Missing => Wire::status(404),
            Denied => Wire::status(403),
            Failing => Wire::status(500),
            Hanging => Wire::Hang,
            Malformed => Wire::ok(200, b"no object"),
            Unconvertible => Wire::ok(200, format!("{head}FUNC 10 20 0 f\nthis is no line\n").as_bytes()),
        }
    }
    /// of the frame, of the module, download and use of the candidate
    fn expected(self) -> (&'static str, &'static str, Value, Value) {
        let ok = |d: bool, s: bool, u: bool| json!({"status": "ok", "features": {"has_debug_info": d, "has_symbols": s, "has_unwind_info": u, "has_sources": false}});
        match self {
            Found => ("symbolicated", "found", ok(true, true, false), json!({"status": "ok"})),
            Symbols => ("symbolicated", "found", ok(false, true, true), json!({"status": "ok"})),
            // there is nothing to make symbols of
            Unusable => ("missing", "missing", ok(false, false, true), Value::Null),
            Missing => ("missing", "missing", json!({"status": "notfound"}), Value::Null),
            Denied => ("missing", "fetching_failed", json!({"status": "noperm"}), Value::Null),
            Failing => ("missing", "fetching_failed", json!({"status": "error"}), Value::Null),
            Hanging => ("missing", "timeout", json!({"status": "error"}), Value::Null),
            Out::Malformed => ("malformed", "malformed", json!({"status": "malformed"}), json!({"status": "malformed"})),
            Unconvertible => ("malformed", "malformed", ok(true, false, false), json!({"status": "malformed"})),
            NotReferenced => ("", "unused", Value::Null, Value::Null),
        }
    }
}
fn outcomes(check: &Check) {
    let n = OUTS.len();
    vmc::parallel(n * n * n, |i| {
        if check.saturated() {
            return;
        }
        let outs = [OUTS[i % n], OUTS[i / n % n], OUTS[i / n / n]];
        let k = || format!("files {outs:?}");
        check.guarded(k, || {
            let scratch = Scratch::new("c39o");
            ctl::run(&scratch.0, async {
                wire::install(move |h| if h.url.path().ends_with("breakpad") { outs[number(&h.url) as usize - 1].wire(number(&h.url)) } else { Wire::status(404) });
                // not in the order of their addresses
                let modules: Vec<_> = (0..3).map(|j| module(j + 1, 0x10000 * [2u64, 3, 1][j as usize], Some(0x1000))).collect();
                let frames: Vec<_> = (0..3).filter(|j| outs[*j] != NotReferenced).map(|j| frame(AddrMode::Rel(j), 0x14)).collect();
                let r = actor(&scratch).symbolicate(request(vec![frames.clone()], modules)).await.unwrap();
                let mut got: Vec<(Option<usize>, Value)> = r.stacktraces[0].frames.iter().map(|f| (f.original_index, json!(f.status))).collect();
                got.dedup();
                let want: Vec<_> = outs.iter().filter(|o| **o != NotReferenced).enumerate().map(|(i, o)| (Some(i), json!(o.expected().0))).collect();
                check.expect(k, "frames", &got, &want);
                for (j, (o, m)) in outs.iter().zip(&r.modules).enumerate() {
                    let k = || format!("{}; module {j}", k());
                    let m = json!(m);
                    let (_, status, download, usage) = o.expected();
                    check.expect(k, "status", &m["debug_status"], &json!(status));
                    let good = status == "found";
                    check.expect(k, "architecture", &m["arch"], &json!(if good { "arm64" } else { "unknown" }));
                    let features = |d: bool, s: bool, u: bool| json!({"has_debug_info": d, "has_symbols": s, "has_unwind_info": u, "has_sources": false});
                    let want = match o {
                        Found => features(true, true, false),
                        Unconvertible => features(true, false, false),
                        Symbols => features(false, true, true),
                        _ => features(false, false, false),
                    };
                    check.expect(k, "features", &m["features"], &want);
                    let got: Vec<_> = m["candidates"].as_array().into_iter().flatten().filter(|c| c["location"].as_str().is_some_and(|l| l.ends_with("breakpad"))).map(|c| (c["source"].clone(), short(&c["download"]), short(&c["debug"]))).collect();
                    let want = match o {
                        NotReferenced => vec![],
                        _ => vec![(json!("sym"), download, usage)],
                    };
                    check.expect(k, "candidates", &got, &want);
                }
            });
        });
        check.eval(Some(vmc::hash64(&k())));
        check.transition(3);
        check.sample(|| json!({"case": k()}));
    });
}
fn short(v: &Value) -> Value {
    let mut v = v.clone();
    if let Some(o) = v.as_object_mut() {
        o.remove("details");
    }
    v
}

// The completion of symbols.
const ORIGINAL: &str = "0000000000000000000000000000ABD0";
fn plist() -> Vec<u8> {
    let u = format!("{}-{}-{}-{}-{}", &ORIGINAL[..8], &ORIGINAL[8..12], &ORIGINAL[12..16], &ORIGINAL[16..20], &ORIGINAL[20..]);
    format!("<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n<!DOCTYPE plist PUBLIC \"-//Apple//DTD PLIST 1.0//EN\" \"http://www.apple.com/DTDs/PropertyList-1.0.dtd\">\n<plist version=\"1.0\">\n<dict>\n<key>DBGOriginalUUID</key>\n<string>{u}</string>\n</dict>\n</plist>\n").into_bytes()
}
fn map(who: &str) -> Vec<u8> {
    format!("BCSymbolMap Version: 2.0\nzero\nname_{who}\n").into_bytes()
}
fn lines(who: &str) -> Vec<u8> {
    json!({"/gen/a.cpp": {(format!("/src/{who}.cs")): {"7": 42}}}).to_string().into_bytes()
}
fn hidden() -> Vec<u8> {
    format!("MODULE Mac x86_64 {} lib1\nFILE 0 /gen/a.cpp\nFUNC 10 10 0 __hidden#1_\n10 10 7 0\n", debug_id(1)).into_bytes()
}
fn unified(id: &str, host: &str, public: bool, types: &[&str], token: &str) -> SourceConfig {
    source(json!({"type": "http", "id": id, "url": host, "layout": {"type": "unified"}, "is_public": public, "filters": {"filetypes": types}, "headers": {"x-token": token}}))
}
fn ask(project: &str, sources: Vec<SourceConfig>) -> SymbolicateStacktraces {
    let m = RawObjectInfo { ty: symbolicator_sources::ObjectType::Macho, ..module(1, 0x10000, Some(0x100)) };
    SymbolicateStacktraces { sources: sources.into(), scope: Scope::Scoped(project.into()), ..request(vec![vec![frame(AddrMode::Abs, 0x10012)]], vec![m]) }
}
/// The name and the line of the frame.
fn result(r: &CompletedSymbolicationResponse) -> (Option<String>, Option<String>, Option<u32>) {
    let f = &r.stacktraces[0].frames[0].raw;
    (f.function.clone(), f.abs_path.clone(), f.lineno)
}
fn expected(name: Option<&str>, line: Option<&str>) -> (Option<String>, Option<String>, Option<u32>) {
    (
        Some(name.map_or("__hidden#1_".into(), |n| format!("name_{n}"))),
        Some(line.map_or("/gen/a.cpp".into(), |l| format!("/src/{l}.cs"))),
        Some(if line.is_some() { 42 } else { 7 }),
    )
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum File {
    Good,
    None,
    Denied,
    Failing,
    Broken,
}
const FILES: [File; 5] = [File::Good, File::None, File::Denied, File::Failing, File::Broken];
impl File {
    fn wire(self, good: Vec<u8>) -> Wire {
        match self {
            File::Good => Wire::ok(200, &good),
            File::None => Wire::status(404),
            File::Denied => Wire::status(403),
            File::Failing => Wire::status(500),
            File::Broken => Wire::ok(200, b"\xff\xfebroken"),
        }
    }
}
/// The last segment of the path.
fn kind(u: &url::Url) -> String {
    u.path_segments().and_then(|s| s.last()).unwrap_or_default().to_string()
}

fn secondary(check: &Check) {
    let n = FILES.len();
    // plist, map, line mapping in the first source and in the second
    vmc::parallel(n * n * n * n * 2 * 2, |i| {
        if check.saturated() {
            return;
        }
        let f = |x: usize| FILES[i / n.pow(x as u32) % n];
        let (uuid, bc, il, il2) = (f(0), f(1), f(2), f(3));
        let (public, later) = (i / n.pow(4) % 2 == 1, i / n.pow(4) / 2 == 1);
        let k = || format!("property list {uuid:?}, symbol map {bc:?}, line mappings {il:?} and {il2:?}, public {public}, then {}", if later { "all of them after a day" } else { "the same" });
        check.guarded(k, || {
            let scratch = Scratch::new("c39s");
            ctl::run(&scratch.0, async {
                let all = std::sync::Arc::new(std::sync::atomic::AtomicBool::new(false));
                let all2 = all.clone();
                wire::install(move |h| {
                    let all = all2.load(std::sync::atomic::Ordering::SeqCst);
                    let o = |f: File| if all { File::Good } else { f };
                    match (h.url.host_str(), kind(&h.url).as_str()) {
                        (Some("sym.example.com"), "breakpad") => Wire::ok(200, &hidden()),
                        (Some("sym.example.com"), "uuidmap") if h.url.path().contains("abc1/") => o(uuid).wire(plist()),
                        (Some("sym.example.com"), "bcsymbolmap") if h.url.path().to_uppercase().contains(&ORIGINAL[2..31]) => o(bc).wire(map("x")),
                        (Some("sym.example.com"), "il2cpp") => o(il).wire(lines("first")),
                        (Some("two.example.com"), "il2cpp") => o(il2).wire(lines("second")),
                        _ => Wire::status(404),
                    }
                });
                let actor = actor(&scratch);
                let sources = || vec![unified("one", HOST, public, &["breakpad", "uuidmap", "bcsymbolmap", "il2cpp"], "t"), unified("two", "http://two.example.com/", public, &["il2cpp"], "t")];
                let want = |all: bool| {
                    let o = |f: File| all || f == File::Good;
                    expected((o(uuid) && o(bc)).then_some("x"), if o(il) { Some("first") } else if o(il2) { Some("second") } else { None })
                };
                let got = actor.symbolicate(ask("1", sources())).await.unwrap();
                check.expect(k, "frame", &result(&got), &want(false));
                check.expect(k, "status", &json!(got.modules[0].debug_status), &json!("found"));
                if later {
                    all.store(true, std::sync::atomic::Ordering::SeqCst);
                    ctl::pass(Duration::from_secs(86400 + 3700)).await;
                }
                let got = actor.symbolicate(ask("1", sources())).await.unwrap();
                check.expect(k, "frame of the second request", &result(&got), &want(later));
            });
        });
        check.eval(Some(vmc::hash64(&k())));
        check.transition(2);
        check.sample(|| json!({"case": k()}));
    });
}

/// Two projects ask for the same public module, each with its own access to the completion.
fn projects(check: &Check) {
    // the token of a project decides what it gets
    let sees = [File::Good, File::None, File::Denied, File::Failing, File::Broken];
    let orders = [[0usize, 1, 0], [1, 0, 1], [0, 0, 1]];
    let n = sees.len();
    vmc::parallel(n * n * orders.len() * 2 * 4, |i| {
        if check.saturated() {
            return;
        }
        let see = [sees[i % n], sees[i / n % n]];
        let order = orders[i / n / n % orders.len()];
        let j = i / n / n / orders.len();
        let (symbols_public, what) = (j % 2 == 1, j / 2);
        // which of the files is private: line mapping, symbol map, property list and symbol map, all
        let k = || format!("projects see {see:?} of {}, the symbols are {}, requests of {order:?}", ["line mappings", "symbol maps", "property lists and symbol maps", "all files"][what], if symbols_public { "public" } else { "private" });
        check.guarded(k, || {
            let scratch = Scratch::new("c39p");
            ctl::run(&scratch.0, async {
                wire::install(move |h| {
                    let who = h.headers.get("x-token").and_then(|t| t.to_str().ok()).unwrap_or("").to_string();
                    let mine = see[usize::from(who == "B")];
                    let private = |kinds: &[usize]| kinds.contains(&what) || what == 3;
                    match kind(&h.url).as_str() {
                        "breakpad" => Wire::ok(200, &hidden()),
                        "il2cpp" if private(&[0]) => mine.wire(lines(&who)),
                        "uuidmap" if private(&[1]) => File::Good.wire(plist()),
                        "uuidmap" if private(&[2]) => mine.wire(plist()),
                        "bcsymbolmap" if private(&[1, 2]) => mine.wire(map(&who)),
                        _ => Wire::status(404),
                    }
                });
                let actor = actor(&scratch);
                for (step, p) in order.iter().enumerate() {
                    let token = ["A", "B"][*p];
                    let sources = vec![unified("pub", HOST, symbols_public, &["breakpad"], "-"), unified("private", "http://private.example.com/", false, &["uuidmap", "bcsymbolmap", "il2cpp"], token)];
                    let got = actor.symbolicate(ask(token, sources)).await.unwrap();
                    let who = (see[*p] == File::Good).then_some(token);
                    let want = expected(who.filter(|_| what > 0), who.filter(|_| what == 0 || what == 3));
                    check.expect(|| format!("{}; request {step}", k()), "frame", &result(&got), &want);
                    check.transition(1);
                }
            });
        });
        check.eval(Some(vmc::hash64(&k())));
        check.sample(|| json!({"case": k()}));
    });
}
