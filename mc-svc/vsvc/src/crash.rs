//! What crash reports become.
use crate::ctl;
use crate::download::source;
use crate::fixture::debug_id;
use crate::native::{number, services, HOST};
use crate::wire::{self, Wire};
use std::path::PathBuf;
use std::sync::Arc;
use std::time::Duration;
use symbolicator_native::interface::{CompletedSymbolicationResponse, ProcessMinidump, RewriteRules};
use symbolicator_native::SymbolicationActor;
use symbolicator_service::config::Config;
use symbolicator_service::services::SharedServices;
use symbolicator_service::types::Scope;
use symbolicator_sources::SourceConfig;
use vmc::serde_json::{self, json, Value};
use vmc::{Check, Scratch};

const NET: &str = "the network is a scripted server behind a stand-in of the HTTP client; caches of symbols and unwind information are read and written by stand-ins of these formats, built from Breakpad files that the real parser reads";
const DUMP: &str = "the dumps are in the format of a stand-in of the minidump crates; it walks all threads at the same time and asks for symbols and unwind information as those crates do";

/// A dump: its description padded to `align` bytes, and a stream.
pub fn dump(d: &Value, align: usize, streams: &[(u32, Vec<u8>)]) -> Vec<u8> {
    let mut d = d.clone();
    let mut at = 0;
    let list: Vec<_> = streams
        .iter()
        .map(|(t, s)| {
            at += s.len();
            json!([t, at - s.len(), s.len()])
        })
        .collect();
    d["streams"] = json!(list);
    let mut j = d.to_string().into_bytes();
    while (8 + j.len()) % 8 != align {
        j.push(b' ');
    }
    let mut b = b"MDMP".to_vec();
    b.extend((j.len() as u32).to_le_bytes());
    b.extend(j);
    for (_, s) in streams {
        b.extend(s);
    }
    b
}
fn sources() -> Arc<[SourceConfig]> {
    vec![source(json!({"type": "http", "id": "sym", "url": HOST, "layout": {"type": "unified"}, "is_public": true, "filters": {"filetypes": ["breakpad", "elf_code", "sourcebundle"]}}))].into()
}
fn ask(scratch: &Scratch, dump: &[u8]) -> ProcessMinidump {
    let (f, path) = tempfile::Builder::new().prefix("upload").tempfile_in(&scratch.0).unwrap().into_parts();
    drop(f);
    std::fs::write(&path, dump).unwrap();
    ProcessMinidump { platform: None, scope: Scope::Scoped("1".into()), minidump_file: path, sources: sources(), scraping: Default::default(), rewrite_first_module: Default::default() }
}
fn actor(scratch: &Scratch) -> SymbolicationActor {
    SymbolicationActor::new(&services(scratch))
}

pub fn c41() {
    let check = Check::new(
        "C41",
        "model_checking",
        "all modules by identifiers, names, use and outcome of their files, alone and in threes; all walks of up to four frames; all systems, exceptions and requesting threads; all ways a dump is unreadable; all orders of the replies for the modules of three threads; all rules for the first of three modules",
    );
    check.assume(NET);
    check.assume(DUMP);
    modules(&check);
    split(&check);
    walks(&check);
    facts(&check);
    failures(&check);
    at_once(&check);
    rewriting(&check);
    check.finish()
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Ids {
    Both,
    Debug,
    Code,
    Upper,
    Nil,
    Neither,
}
use Ids::*;
#[derive(Clone, Copy, Debug, PartialEq)]
enum Out {
    Unwind,
    NoUnwind,
    Missing,
    Denied,
    Failing,
    Hanging,
    Malformed,
    BadRule,
}
use Out::*;
const OUTS: [Out; 8] = [Unwind, NoUnwind, Missing, Denied, Failing, Hanging, Malformed, BadRule];
fn code_id(n: u8) -> String {
    format!("{:038x}{n:02x}", 0xabcdef)
}
impl Out {
    fn wire(self, n: u8) -> Wire {
        let head = format!("MODULE Linux x86_64 {} lib{n}.dbg\nINFO CODE_ID {}\nFUNC 10 20 0 f{n}\n10 20 7 0\n", debug_id(n), code_id(n).to_uppercase());
        match self {
            Unwind => Wire::ok(200, format!("{head}STACK CFI INIT 10 20 .cfa: $rsp 8 +\n").as_bytes()),
            NoUnwind => Wire::ok(200, head.as_bytes()),
            BadRule => Wire::ok(200, format!("{head}STACK CFI INIT 10 zz .cfa: $rsp 8 +\n").as_bytes()),
            Missing => Wire::status(404),
            Denied => Wire::status(403),
            Failing => Wire::status(500),
            Hanging => Wire::Hang,
            Malformed => Wire::ok(200, b"no object"),
        }
    }
    /// status of the unwind information; download and use of the candidate
    fn expected(self) -> (&'static str, Value, Value) {
        let ok = |u: bool| json!({"status": "ok", "features": {"has_debug_info": true, "has_symbols": false, "has_unwind_info": u, "has_sources": false}});
        match self {
            Unwind => ("found", ok(true), json!({"status": "ok"})),
            NoUnwind => ("missing", ok(false), Value::Null),
            BadRule => ("malformed", ok(true), json!({"status": "malformed"})),
            Missing => ("missing", json!({"status": "notfound"}), Value::Null),
            Denied => ("fetching_failed", json!({"status": "noperm"}), Value::Null),
            Failing => ("fetching_failed", json!({"status": "error"}), Value::Null),
            Hanging => ("timeout", json!({"status": "error"}), Value::Null),
            Malformed => ("malformed", json!({"status": "malformed"}), json!({"status": "malformed"})),
        }
    }
    fn symbols(self) -> &'static str {
        match self {
            Unwind | NoUnwind | BadRule => "found",
            o => o.expected().0,
        }
    }
}
#[derive(Clone, Copy, Debug)]
struct Mod {
    ids: Ids,
    /// of the code, of the debug file
    names: (bool, Option<bool>),
    size: u64,
    used: bool,
    out: Out,
}
/// The module of a path.
fn about(u: &url::Url) -> u8 {
    let s: Vec<_> = u.path_segments().unwrap().collect();
    let coded = s[1].len() == 38;
    let digit = s[1].chars().rev().nth(if coded { 0 } else { 1 }).unwrap();
    digit.to_digit(16).unwrap() as u8
}
fn modules(check: &Check) {
    let mut cases: Vec<Vec<Mod>> = vec![];
    for ids in [Both, Debug, Code, Upper, Nil, Neither] {
        for names in [(true, Some(true)), (false, None), (true, Some(false)), (true, None)] {
            for out in OUTS {
                for (used, size) in [(true, 0x100), (false, 0x100), (false, 0)] {
                    cases.push(vec![Mod { ids, names, size, used, out }]);
                }
            }
        }
    }
    let some: Vec<Mod> = [(Both, true, Unwind, 0x100), (Both, false, Unwind, 0x100), (Code, true, Unwind, 0x100), (Code, true, Missing, 0x100), (Neither, true, Missing, 0x100), (Neither, false, Missing, 0x100), (Debug, true, Failing, 0x100), (Debug, false, Missing, 0)]
        .into_iter()
        .map(|(ids, used, out, size)| Mod { ids, names: (true, if ids == Code { None } else { Some(true) }), size, used, out })
        .collect();
    let n = some.len();
    for i in 0..n * n * n {
        cases.push(vec![some[i % n], some[i / n % n], some[i / n / n]]);
    }
    vmc::parallel(cases.len() * 2, |i| {
        if check.saturated() {
            return;
        }
        let (mods, windows) = (&cases[i / 2], i % 2 == 0);
        let k = || format!("modules {mods:?}, {}", if windows { "windows" } else { "linux" });
        check.guarded(k, || {
            let scratch = Scratch::new("c41m");
            ctl::run(&scratch.0, async {
                let outs: Vec<_> = mods.iter().map(|m| (m.ids, m.out)).collect();
                wire::install(move |h| {
                    let p = h.url.path();
                    let n = about(&h.url);
                    let (ids, out) = outs[n as usize - 1];
                    // whose debug identifier is unknown has an executable only
                    match p.rsplit('/').next() {
                        Some("executable") if matches!(ids, Code | Upper) => out.wire(n),
                        Some("breakpad") if !matches!(ids, Code | Upper) => out.wire(n),
                        Some("executable" | "breakpad") if !matches!(out, Unwind | NoUnwind | BadRule) => out.wire(n),
                        _ => Wire::status(404),
                    }
                });
                // not in the order of their addresses
                let base = |j: usize| 0x10000 * [2u64, 3, 1][j];
                let list: Vec<_> = mods
                    .iter()
                    .enumerate()
                    .map(|(j, m)| {
                        let n = j as u8 + 1;
                        json!({
                            "base": base(j), "size": m.size,
                            "code_file": if m.names.0 { format!("/Lib/lib{n}.so") } else { String::new() },
                            "debug_file": m.names.1.map(|x| if x { format!("lib{n}.dbg") } else { String::new() }),
                            "debug_id": matches!(m.ids, Both | Debug | Nil).then(|| debug_id(n)),
                            "code_id": match m.ids {
                                Both | Code => Some(code_id(n)),
                                Upper => Some(code_id(n).to_uppercase()),
                                Nil => Some(String::new()),
                                _ => None,
                            },
                        })
                    })
                    .collect();
                let frames: Vec<_> = mods.iter().enumerate().filter(|(_, m)| m.used).map(|(j, _)| json!([base(j) + 0x14, "context"])).collect();
                let d = dump(&json!({"os": if windows { "windows" } else { "linux" }, "cpu": "x86_64", "modules": list, "threads": [{"id": 1, "frames": frames}]}), 0, &[]);
                let r = actor(&scratch).process_minidump(ask(&scratch, &d)).await.unwrap();
                let mut order: Vec<usize> = (0..mods.len()).filter(|j| mods[*j].used || mods[*j].ids != Neither).collect();
                order.sort_by_key(|j| base(*j));
                let got: Vec<_> = r.modules.iter().map(|m| m.raw.image_addr.0).collect();
                let want: Vec<_> = order.iter().map(|j| base(*j)).collect();
                check.expect(k, "modules", &got, &want);
                for (j, m) in order.iter().zip(&r.modules) {
                    let k = || format!("{}; module {j}", k());
                    let (w, n, got) = (&mods[*j], *j as u8 + 1, json!(m));
                    let mut o = w.out;
                    // the file of the code tells the other identifier
                    let known = matches!(w.ids, Both | Debug | Nil);
                    // the files of this system are found by it
                    let findable = if windows { known } else { matches!(w.ids, Both | Code | Upper) };
                    let told = !known && w.used && findable && o == Unwind;
                    if !findable {
                        o = Missing;
                    }
                    check.expect(k, "type", &got["type"], &json!(if windows { "pe" } else { "elf" }));
                    check.expect(k, "identifier of the code", &m.raw.code_id.as_deref(), &matches!(w.ids, Both | Code | Upper).then(|| code_id(n)).as_deref());
                    let id = m.raw.debug_id.as_ref().and_then(|x| x.parse::<symbolic::common::DebugId>().ok()).map(|x| x.breakpad().to_string());
                    check.expect(k, "identifier", &id, &(known || told).then(|| debug_id(n)));
                    check.expect(k, "file of the code", &m.raw.code_file, &w.names.0.then(|| format!("/Lib/lib{n}.so")));
                    check.expect(k, "debug file", &m.raw.debug_file, &(w.names.1 == Some(true) || told || known && w.used && o == Unwind).then(|| format!("lib{n}.dbg")));
                    check.expect(k, "size", &m.raw.image_size.unwrap_or(0), &if w.size == 0 { want.iter().find(|b| **b > base(*j)).map_or(0, |b| b - base(*j)) } else { w.size });
                    let (unwind, download, usage) = o.expected();
                    check.expect(k, "status of the unwind information", &got["unwind_status"], &json!(if w.used { unwind } else { "unused" }));
                    let symbols = match o {
                        _ if !w.used => "unused",
                        // the executable is not needed for more than unwinding, if the symbols can be found
                        o => o.symbols(),
                    };
                    check.expect(k, "status of the symbols", &got["debug_status"], &json!(symbols));
                    check.expect(k, "unwind information", &m.features.has_unwind_info, &(w.used && matches!(o, Unwind | BadRule)));
                    check.expect(k, "debug information", &m.features.has_debug_info, &(w.used && matches!(o, Unwind | BadRule | NoUnwind)));
                    // the candidates of both steps
                    let at = if known && (windows || matches!(o, Unwind | NoUnwind | BadRule)) { "breakpad" } else { "executable" };
                    let got: Vec<_> = got["candidates"].as_array().into_iter().flatten().filter(|c| c["location"].as_str().is_some_and(|l| l.ends_with(at))).map(|c| (c["source"].clone(), plain(&c["download"]), plain(&c["unwind"]))).collect();
                    let want = if w.used && findable { vec![(json!("sym"), download, usage)] } else { vec![] };
                    check.expect(k, "candidates", &got, &want);
                }
            });
        });
        check.eval(Some(vmc::hash64(&k())));
        check.transition(mods.len() as u64);
        check.sample(|| json!({"case": k()}));
    });
}
fn plain(v: &Value) -> Value {
    let mut v = v.clone();
    if let Some(o) = v.as_object_mut() {
        o.remove("details");
    }
    v
}

/// A place: inside or outside of what the unwind information of module 1 covers, in module 2
/// that has none, in module 3 that has no symbols, nowhere
#[derive(Clone, Copy, Debug, PartialEq)]
enum Place {
    Covered,
    Uncovered,
    Bare,
    Unknown,
    Nowhere,
}
use Place::*;
impl Place {
    fn address(self, i: usize) -> u64 {
        let i = i as u64;
        match self {
            Covered => 0x10014 + i,
            Uncovered => 0x10054 + i,
            Bare => 0x20014 + i,
            Unknown => 0x30014 + i,
            Nowhere => 0x50014 + i,
        }
    }
    fn package(self) -> Option<&'static str> {
        match self {
            Covered | Uncovered => Some("/Lib/lib1.so"),
            Bare => Some("/Lib/lib2.so"),
            Unknown => Some("/Lib/lib3.so"),
            Nowhere => None,
        }
    }
    fn status(self) -> &'static str {
        match self {
            Covered | Bare => "symbolicated",
            Uncovered => "missing_symbol",
            Unknown => "missing",
            Nowhere => "unknown_image",
        }
    }
}
fn walks(check: &Check) {
    let places = [Covered, Uncovered, Bare, Unknown, Nowhere];
    let hows = ["cfi", "scan", "fp", "cfiscan", "prewalked", ""];
    let steps = places.len() * hows.len();
    let deep = if check.thorough() { 5 } else { 4 };
    let serve = |h: &reqwest::Hop| {
        let n = if h.url.path().ends_with("breakpad") { number(&h.url) } else { 0 };
        match n {
            1 => Unwind.wire(1),
            2 => NoUnwind.wire(2),
            _ => Wire::status(404),
        }
    };
    let mods: Vec<_> = (1..4u8).map(|n| json!({"base": 0x10000 * n as u64, "size": 0x100, "code_file": format!("/Lib/lib{n}.so"), "debug_file": format!("lib{n}.dbg"), "debug_id": debug_id(n)})).collect();
    // one thread for every walk
    vmc::parallel(places.len() * steps, |i| {
        if check.saturated() {
            return;
        }
        let (first, second) = (places[i % places.len()], i / places.len());
        let rest = steps.pow(deep as u32 - 2);
        let mut threads = vec![];
        for r in 0..rest {
            let mut t = vec![(first, "context")];
            let mut r = r;
            for s in 0..deep - 1 {
                let x = if s == 0 { second } else { let x = r % steps; r /= steps; x };
                t.push((places[x % places.len()], hows[x / places.len()]));
            }
            threads.push(t);
        }
        let k = || format!("walks from {first:?} to {:?} by {:?}", places[second % places.len()], hows[second / places.len()]);
        check.guarded(k, || {
            let scratch = Scratch::new("c41w");
            ctl::run(&scratch.0, async {
                wire::install(serve);
                let list: Vec<_> = threads
                    .iter()
                    .enumerate()
                    .map(|(j, t)| {
                        let frames: Vec<_> = t.iter().enumerate().map(|(i, (p, how))| json!([p.address(i), how])).collect();
                        json!({"id": 100 + j, "name": (j % 3 != 0).then(|| format!("thread {j}")), "registers": [["rip", t[0].0.address(0)], ["rsp", j]], "frames": frames})
                    })
                    .collect();
                let d = dump(&json!({"os": "windows", "cpu": "x86_64", "modules": mods, "threads": list}), 0, &[]);
                let r = actor(&scratch).process_minidump(ask(&scratch, &d)).await.unwrap();
                check.expect(k, "threads", &r.stacktraces.len(), &threads.len());
                for (j, (t, got)) in threads.iter().zip(&r.stacktraces).enumerate() {
                    let k = || format!("{}; {t:?}", k());
                    check.expect(k, "thread", &(got.thread_id, got.thread_name.clone(), got.is_requesting), &(Some(100 + j as u64), (j % 3 != 0).then(|| format!("thread {j}")), None));
                    let registers: Vec<_> = got.registers.iter().map(|(n, v)| (n.as_str(), v.0)).collect();
                    check.expect(k, "registers", &registers, &vec![("rip", t[0].0.address(0)), ("rsp", j as u64)]);
                    // what the unwinder finds
                    let mut walk: Vec<(usize, Place, &str)> = vec![];
                    for (i, (p, how)) in t.iter().enumerate() {
                        if *how == "cfi" && walk.last().is_some_and(|w| matches!(w.1, Uncovered | Bare | Unknown)) {
                            break;
                        }
                        // no instruction of the module
                        if *how == "scan" && *p == Uncovered {
                            continue;
                        }
                        walk.push((i, *p, how));
                    }
                    // found by scanning and in no module
                    walk.retain(|w| w.2 != "scan" || !matches!(w.1.status(), "missing_symbol" | "unknown_image"));
                    let want: Vec<_> = walk.iter().map(|(i, p, how)| json!([p.address(*i) - (*i > 0 && p.status() == "symbolicated") as u64, p.package(), p.status(), if how.is_empty() { "none" } else { how }])).collect();
                    let got: Vec<_> = got.frames.iter().map(|f| json!([f.raw.instruction_addr.0, f.raw.package, f.status, f.raw.trust])).collect();
                    check.expect(k, "frames", &got, &want);
                    check.transition(t.len() as u64);
                    check.eval(Some(vmc::hash64(&t.iter().map(|(p, h)| (*p as u8, *h)).collect::<Vec<_>>())));
                }
            });
        });
        check.sample(|| json!({"case": k(), "threads": threads.len()}));
    });
    // long ones
    for len in [0usize, 1, 255, 256, 257, 258, 300, 1000] {
        let k = || format!("{len} frames");
        check.guarded(k, || {
            let scratch = Scratch::new("c41l");
            ctl::run(&scratch.0, async {
                wire::install(serve);
                let frames: Vec<_> = (0..len).map(|i| json!([0x50014 + i, if i == 0 { "context" } else { "fp" }])).collect();
                let d = dump(&json!({"os": "windows", "cpu": "x86_64", "modules": mods, "threads": [{"id": 1, "frames": frames}, {"id": 2, "frames": frames}]}), 0, &[]);
                let r = actor(&scratch).process_minidump(ask(&scratch, &d)).await.unwrap();
                for t in &r.stacktraces {
                    let got: Vec<_> = t.frames.iter().map(|f| f.raw.instruction_addr.0).collect();
                    let want: Vec<_> = (0..len.min(256) as u64).map(|i| 0x50014 + i).collect();
                    check.expect(k, "frames", &got, &want);
                }
            });
        });
        check.eval(Some(vmc::hash64(&k())));
    }
}

const OSES: [(&str, &str, &str); 9] = [("windows", "Windows", "pe"), ("macos", "macOS", "macho"), ("ios", "iOS", "macho"), ("linux", "Linux", "elf"), ("solaris", "Solaris", "elf"), ("android", "Android", "elf"), ("ps3", "PS3", "unknown"), ("nacl", "NaCl", "unknown"), ("other", "", "unknown")];
const CPUS: [(&str, &str); 10] = [("x86", "x86"), ("x86_64", "x86_64"), ("ppc", "ppc"), ("ppc64", "ppc64"), ("arm", "arm"), ("arm64", "arm64"), ("mips", "mips"), ("mips64", "mips64"), ("sparc", "unknown"), ("other", "unknown")];
fn facts(check: &Check) {
    vmc::parallel(OSES.len() * CPUS.len(), |i| {
        if check.saturated() {
            return;
        }
        let ((os, os_name, ty), (cpu, arch)) = (OSES[i % OSES.len()], CPUS[i / OSES.len()]);
        for version in [None, Some(""), Some("10.1")] {
            for exception in [None, Some(("SIGSEGV /SEGV_MAPERR", 0u64)), Some(("EXC", 0xffff_ffff_ffff_fff0))] {
                for requesting in [None, Some(0), Some(1), Some(5)] {
                    // the module whose symbols can be found
                    for found in [0u8, 1, 2] {
                        let k = || format!("{os} on {cpu}, version {version:?}, exception {exception:?}, requesting {requesting:?}, symbols {found}");
                        check.guarded(k, || {
                            let scratch = Scratch::new("c41f");
                            ctl::run(&scratch.0, async {
                                wire::install(move |h| if h.url.path().ends_with("breakpad") && h.url.path().split('/').nth(2).unwrap().contains(&format!("abc{found}")) { Unwind.wire(found) } else { Wire::status(404) });
                                let module = |n: u8| json!({"base": 0x10000 * n as u64, "size": 0x100, "code_file": format!("lib{n}.so"), "debug_file": format!("lib{n}.dbg"), "debug_id": debug_id(n)});
                                let assertion = exception.map(|e| format!("assert {}", e.1));
                                let d = json!({
                                    "os": os, "cpu": cpu, "time": 1_600_000_000 + i, "os_version": version, "os_build": version.map(|v| format!("b{v}")),
                                    "exception": exception, "assertion": assertion, "requesting": requesting,
                                    "modules": [module(1), module(2)],
                                    "threads": [{"id": 7, "frames": [[0x10014, "context"], [0x20014, "fp"]]}, {"id": 0xffff_ffffu32, "frames": []}],
                                });
                                let r = actor(&scratch).process_minidump(ask(&scratch, &dump(&d, 0, &[]))).await.unwrap();
                                let got = json!(r);
                                check.expect(k, "time", &got["timestamp"], &json!(1_600_000_000 + i));
                                // Breakpad files can be for any system
                                let seen = found > 0 && matches!(ty, "pe" | "macho");
                                let info = json!({"os_name": os_name, "os_version": version.unwrap_or_default(), "os_build": version.map(|v| format!("b{v}")).unwrap_or_default(), "cpu_arch": if arch == "unknown" && seen { "x86_64" } else { arch }, "device_model": ""});
                                check.expect(k, "system", &got["system_info"], &info);
                                check.expect(k, "crashed", &got["crashed"], &json!(exception.is_some()));
                                check.expect(k, "reason", &got["crash_reason"], &json!(exception.map(|(r, a)| format!("{r} / 0x{a:x}")).unwrap_or_default()));
                                check.expect(k, "assertion", &got["assertion"], &json!(assertion.unwrap_or_default()));
                                check.expect(k, "details", &got["crash_details"], &Value::Null);
                                check.expect(k, "type", &got["modules"][0]["type"], &json!(ty));
                                let t: Vec<_> = r.stacktraces.iter().map(|t| (t.thread_id, t.is_requesting)).collect();
                                check.expect(k, "threads", &t, &[7, 0xffff_ffff].iter().enumerate().map(|(i, n)| (Some(*n), requesting.map(|r| r == i))).collect());
                            });
                        });
                        check.eval(Some(vmc::hash64(&k())));
                    }
                }
            }
        }
        check.sample(|| json!({"system": os, "cpu": cpu}));
    });
}

/// The unwind information is in one file, the symbols are in another: each is used, or is not there.
fn split(check: &Check) {
    for unwind in [Some(200), Some(404), Some(403), None] {
        for symbols in [Some(200), Some(404), Some(403), None] {
            // the file may have another identifier than the one asked for
            for (scan, own) in [(false, 1), (true, 1), (false, 9)] {
                let k = || format!("unwind information {unwind:?} of {own}, symbols {symbols:?}, scanned {scan}");
                check.guarded(k, || {
                    let scratch = Scratch::new("c41s");
                    ctl::run(&scratch.0, async {
                        wire::install(move |h| {
                            let head = |n| format!("MODULE Linux x86_64 {} lib1.dbg\nINFO CODE_ID {}\n", debug_id(n), code_id(1).to_uppercase());
                            let (status, text) = match h.url.path().rsplit('/').next() {
                                Some("executable") => (unwind, format!("{}STACK CFI INIT 10 20 .cfa: $rsp 8 +\n", head(own))),
                                Some("debuginfo") => (symbols, format!("{}FUNC 10 20 0 f1\n10 20 7 0\n", head(1))),
                                _ => (Some(404), String::new()),
                            };
                            match status {
                                Some(200) => Wire::ok(200, text.as_bytes()),
                                Some(n) => Wire::status(n),
                                None => Wire::ok(200, b"no object"),
                            }
                        });
                        let module = json!({"base": 0x10000, "size": 0x100, "code_file": "lib1.so", "debug_file": "lib1.dbg", "debug_id": debug_id(1), "code_id": code_id(1)});
                        let second = if scan { json!([0x10054, "scan"]) } else { json!([0x10018, "cfi"]) };
                        let d = json!({"os": "linux", "cpu": "x86_64", "modules": [module], "threads": [{"id": 7, "frames": [[0x10014, "context"], second]}]});
                        let sources = vec![source(json!({"type": "http", "id": "sym", "url": HOST, "layout": {"type": "unified"}, "is_public": true, "filters": {"filetypes": ["elf_code", "elf_debug"]}}))];
                        let r = actor(&scratch).process_minidump(ProcessMinidump { sources: sources.into(), ..ask(&scratch, &dump(&d, 0, &[])) }).await.unwrap();
                        let status = |n: Option<u16>| match n {
                            Some(200) => "found",
                            Some(404) => "missing",
                            Some(_) => "fetching_failed",
                            None => "malformed",
                        };
                        let m = json!(r.modules[0]);
                        let id = r.modules[0].raw.debug_id.as_ref().and_then(|x| x.parse::<symbolic::common::DebugId>().ok()).map(|x| x.breakpad().to_string());
                        check.expect(k, "identifier", &id, &Some(debug_id(1)));
                        check.expect(k, "unwind status", &m["unwind_status"], &json!(status(unwind)));
                        // if one of the files is there but cannot be used, that is reported
                        if symbols == Some(200) {
                            check.expect(k, "status of the symbols", &m["debug_status"], &json!("found"));
                        }
                        let f = |n: &str| m["features"][n] == true;
                        check.expect(k, "features", &(f("has_unwind_info"), f("has_debug_info")), &(unwind == Some(200), symbols == Some(200)));
                        let frames: Vec<_> = r.stacktraces[0].frames.iter().map(|f| f.raw.function.clone()).collect();
                        let name = (symbols == Some(200)).then(|| "f1".to_string());
                        // found by scanning, and no instruction that the unwind information or the symbols know
                        let two = match (scan, unwind) {
                            // functions are known
                            (true, u) => u != Some(200) && symbols != Some(200),
                            (false, u) => u == Some(200),
                        };
                        let mut want = vec![name.clone()];
                        if two {
                            want.push(if scan { None } else { name });
                        }
                        check.expect(k, "frames", &frames, &want);
                    });
                });
                check.eval(Some(vmc::hash64(&k())));
            }
        }
    }
}

fn failures(check: &Check) {
    let good = json!({"os": "linux", "cpu": "x86_64", "modules": [], "threads": []});
    let mut cases: Vec<(String, Vec<u8>, bool)> = vec![("good".into(), dump(&good, 0, &[]), true)];
    let all = dump(&good, 0, &[]);
    for n in 0..all.len() {
        cases.push((format!("the first {n} bytes"), all[..n].to_vec(), false));
    }
    let with = |k: &str, v: Value| {
        let mut d = good.clone();
        d[k] = v;
        dump(&d, 0, &[])
    };
    cases.push(("no information of the system".into(), with("os", Value::Null), false));
    cases.push(("cannot be walked".into(), with("fails", json!(true)), false));
    cases.push(("no list of modules".into(), with("modules", Value::Null), true));
    cases.push(("other".into(), b"PDMM and something".to_vec(), false));
    vmc::parallel(cases.len() * 2, |i| {
        let (what, bytes, readable) = &cases[i / 2];
        let keep = i % 2 == 0;
        let k = || format!("{what}, diagnostics {keep}");
        check.guarded(k, || {
            let scratch = Scratch::new("c41x");
            ctl::run(&scratch.0, async {
                wire::install(|_| Wire::status(404));
                let c = Config { cache_dir: keep.then(|| scratch.0.join("cache")), ..Config::default() };
                let s = SharedServices::new(c, tokio::runtime::Handle::current()).unwrap();
                let r = ask(&scratch, bytes);
                let path: PathBuf = r.minidump_file.to_path_buf();
                let r = SymbolicationActor::new(&s).process_minidump(r).await;
                check.expect(k, "result", &r.is_ok(), readable);
                check.expect(k, "upload still there", &path.exists(), &false);
                let kept: Vec<_> = std::fs::read_dir(scratch.0.join("cache/diagnostics")).into_iter().flatten().map(|e| (e.as_ref().unwrap().file_name(), std::fs::read(e.unwrap().path()).unwrap())).collect();
                let want = if keep && !readable { vec![(path.file_name().unwrap().to_owned(), bytes.clone())] } else { vec![] };
                check.expect(k, "kept for diagnostics", &kept, &want);
            });
        });
        check.eval(Some(vmc::hash64(&k())));
    });
}

/// Threads that refer to the same modules: each file is asked for once, whatever the order of the
/// replies.
fn at_once(check: &Check) {
    // for each of three threads, the modules of its frames
    let lists: Vec<Vec<u8>> = vec![vec![], vec![1], vec![2], vec![1, 2], vec![2, 1], vec![1, 1], vec![3, 1, 2]];
    let n = lists.len();
    vmc::parallel(n * n * n, |i| {
        if check.saturated() {
            return;
        }
        let threads = [&lists[i % n], &lists[i / n % n], &lists[i / n / n]];
        let order = std::cell::RefCell::new(vec![]);
        let k = || format!("threads through {threads:?}, replies {:?}", order.borrow());
        vmc::explore(|ch| {
            order.borrow_mut().clear();
            check.guarded(k, || {
                let scratch = Scratch::new("c41o");
                ctl::run(&scratch.0, async {
                    wire::install(|h| if h.url.path().ends_with("breakpad") { Wire::Gate(h.url.to_string()) } else { Wire::status(404) });
                    let mods: Vec<_> = (1..4u8).map(|n| json!({"base": 0x10000 * n as u64, "size": 0x100, "code_file": format!("/Lib/lib{n}.so"), "debug_file": format!("lib{n}.dbg"), "debug_id": debug_id(n)})).collect();
                    let list: Vec<_> = threads
                        .iter()
                        .enumerate()
                        .map(|(j, t)| json!({"id": j, "frames": t.iter().enumerate().map(|(i, n)| json!([0x10000 * *n as u64 + 0x14, if i == 0 { "context" } else { "fp" }])).collect::<Vec<_>>()}))
                        .collect();
                    let d = dump(&json!({"os": "windows", "cpu": "x86_64", "modules": mods, "threads": list}), 0, &[]);
                    let (a, r) = (actor(&scratch), ask(&scratch, &d));
                    let task = tokio::spawn(async move { a.process_minidump(r).await });
                    loop {
                        ctl::settle().await;
                        let waiting = ctl::waiting();
                        if waiting.is_empty() {
                            break;
                        }
                        let i = ch.choose(waiting.len());
                        let n = number(&waiting[i].parse().unwrap());
                        order.borrow_mut().push(n);
                        ctl::answer(i, Unwind.wire(n));
                        check.transition(1);
                    }
                    if !task.is_finished() {
                        ctl::pass(Duration::from_secs(3600)).await;
                    }
                    if !task.is_finished() {
                        check.fail(&k(), json!("the dump is never processed"));
                        return;
                    }
                    let r: CompletedSymbolicationResponse = task.await.unwrap().unwrap();
                    let mut used: Vec<u8> = threads.iter().flat_map(|t| t.iter().copied()).collect();
                    used.sort();
                    used.dedup();
                    let mut asked = order.borrow().clone();
                    asked.sort();
                    check.expect(k, "downloads", &asked, &used);
                    for (j, m) in r.modules.iter().enumerate() {
                        let on = used.contains(&(j as u8 + 1));
                        let m = json!(m);
                        check.expect(k, "status", &(m["unwind_status"].clone(), m["debug_status"].clone()), &(json!(if on { "found" } else { "unused" }), json!(if on { "found" } else { "unused" })));
                        check.expect(k, "features", &m["features"]["has_unwind_info"], &json!(on));
                        check.expect(k, "candidates", &m["candidates"].as_array().map_or(0, |c| c.iter().filter(|c| c["unwind"]["status"] == "ok" && c["debug"]["status"] == "ok").count()), &(on as usize));
                    }
                    for (t, got) in threads.iter().zip(&r.stacktraces) {
                        let got: Vec<_> = got.frames.iter().map(|f| f.raw.function.clone().unwrap_or_default()).collect();
                        check.expect(k, "frames", &got, &t.iter().map(|n| format!("f{n}")).collect::<Vec<_>>());
                    }
                });
            });
            check.eval(Some(vmc::hash64(&k())));
            !check.saturated()
        });
        check.sample(|| json!({"case": k()}));
    });
}

/// The files of the first module are looked for by another name.
fn rewriting(check: &Check) {
    let rules: [(&str, Value, fn(&str) -> String); 5] = [
        ("none", json!([]), |n| n.into()),
        ("no match", json!([{"from": "^other$", "to": "new"}]), |n| n.into()),
        ("match", json!([{"from": "^lib", "to": "new"}]), |n| n.replace("lib", "new")),
        ("second rule", json!([{"from": "^ib", "to": "x"}, {"from": "(?<rest>b\\d)", "to": "x$rest"}, {"from": "lib", "to": "y"}]), |n| n.replace("b", "xb")),
        ("all", json!([{"from": ".*", "to": "new"}]), |_| "new".into()),
    ];
    let orders = [[1u64, 2, 3], [1, 3, 2], [2, 1, 3], [2, 3, 1], [3, 1, 2], [3, 2, 1]];
    for (name, rule, f) in &rules {
        for order in orders {
            for used in 0..8 {
                let k = || format!("rules {name}, modules at {order:?}, used {used:03b}");
                check.guarded(k, || {
                    let scratch = Scratch::new("c41r");
                    ctl::run(&scratch.0, async {
                        wire::install(|h| match h.url.path().ends_with(".sym") {
                            true => {
                                let id = h.url.path_segments().unwrap().nth(1).unwrap().chars().nth(31).unwrap();
                                Unwind.wire(id.to_digit(16).unwrap() as u8)
                            }
                            false => Wire::status(404),
                        });
                        let mods: Vec<_> = (1..4u8).map(|n| json!({"base": 0x10000 * order[n as usize - 1], "size": 0x100, "code_file": "/Lib/some.so", "debug_file": format!("lib{n}"), "debug_id": debug_id(n)})).collect();
                        let frames: Vec<_> = (0..3).filter(|n| used & (1 << n) != 0).map(|n| json!([0x10000 * order[n] + 0x14, "context"])).collect();
                        let d = dump(&json!({"os": "windows", "cpu": "x86_64", "modules": mods, "threads": [{"id": 1, "frames": frames}]}), 0, &[]);
                        let sources = vec![source(json!({"type": "http", "id": "sym", "url": HOST, "layout": {"type": "native"}, "is_public": true, "filters": {"filetypes": ["breakpad"]}}))].into();
                        let rules: RewriteRules = serde_json::from_value(rule.clone()).unwrap();
                        wire::take_hops();
                        let r = actor(&scratch).process_minidump(ProcessMinidump { sources, rewrite_first_module: rules, ..ask(&scratch, &d) }).await.unwrap();
                        let mut got: Vec<_> = wire::take_hops().iter().map(|h| h.url.path().to_string()).collect();
                        got.sort();
                        let mut want: Vec<_> = (1..4u8)
                            .filter(|n| used & (1 << (n - 1)) != 0)
                            .map(|n| {
                                let file = format!("lib{n}");
                                let file = if order[n as usize - 1] == 1 { f(&file) } else { file };
                                format!("/{file}/{}/{file}.sym", debug_id(n))
                            })
                            .collect();
                        want.sort();
                        check.expect(k, "downloads", &got, &want);
                        for m in &r.modules {
                            let n = order.iter().position(|o| 0x10000 * o == m.raw.image_addr.0).unwrap();
                            let on = used & (1 << n) != 0;
                            check.expect(k, "name", &m.raw.debug_file, &Some(format!("lib{}", n + 1)));
                            let m = json!(m);
                            let status = json!(if on { "found" } else { "unused" });
                            check.expect(k, "status", &(&m["unwind_status"], &m["debug_status"]), &(&status, &status));
                        }
                    });
                });
                check.eval(Some(vmc::hash64(&k())));
            }
        }
    }
}

// Stack traces of the client.

pub fn c42() {
    let check = Check::new(
        "C42",
        "model_checking",
        "all extensions of up to two threads and two frames with all ranges at and beyond the limits; all lengths, versions and alignments; all pairs of the threads of a dump and of its extension",
    );
    check.assume(NET);
    check.assume(DUMP);
    ranges(&check);
    shapes(&check);
    merges(&check);
    check.finish()
}
const STREAM: u32 = 0x5379_0001;
#[derive(Clone, Debug, Default)]
struct Extension {
    version: u32,
    /// identifier, first frame, number of frames
    threads: Vec<(u32, u32, u32)>,
    /// address, offset of the symbol, length of the symbol
    frames: Vec<(u64, u32, u32)>,
    symbols: Vec<u8>,
}
impl Extension {
    fn bytes(&self) -> Vec<u8> {
        let mut b = vec![];
        for x in [self.version, self.threads.len() as u32, self.frames.len() as u32, self.symbols.len() as u32] {
            b.extend(x.to_ne_bytes());
        }
        for (i, s, n) in &self.threads {
            for x in [i, s, n] {
                b.extend(x.to_ne_bytes());
            }
        }
        if self.threads.len() % 2 == 1 {
            b.extend([0; 4]);
        }
        for (a, s, n) in &self.frames {
            b.extend(a.to_ne_bytes());
            b.extend(s.to_ne_bytes());
            b.extend(n.to_ne_bytes());
        }
        b.extend(&self.symbols);
        b
    }
    /// for each thread the address and the symbol of its frames
    fn traces(&self) -> Option<Vec<(u64, Vec<(u64, String)>)>> {
        let range = |start: u32, n: u32, len: usize| {
            let end = start as usize + n as usize;
            (end <= len).then_some(start as usize..end)
        };
        (self.version == 1).then_some(())?;
        self.threads
            .iter()
            .map(|(id, s, n)| {
                let frames = self.frames[range(*s, *n, self.frames.len())?].iter().map(|(a, s, n)| Some((*a, String::from_utf8_lossy(&self.symbols[range(*s, *n, self.symbols.len())?]).into_owned())));
                Some((*id as u64, frames.collect::<Option<Vec<_>>>()?))
            })
            .collect()
    }
}
/// What becomes of a dump with such a stream, and whose threads are these.
fn extended(check: &Check, k: &dyn Fn() -> String, align: usize, stream: &[u8], threads: &[u32], traces: Option<Vec<(u64, Vec<(u64, String)>)>>) {
    check.guarded(k, || {
        let scratch = Scratch::new("c42");
        ctl::run(&scratch.0, async {
            wire::install(|h| if h.url.path().ends_with("breakpad") { Unwind.wire(1) } else { Wire::status(404) });
            let list: Vec<_> = threads.iter().enumerate().map(|(j, t)| json!({"id": t, "name": format!("n{j}"), "registers": [["rip", 0x10014]], "frames": [[0x10014, "context"], [0x9000 + j, "fp"]]})).collect();
            let d = json!({"os": "windows", "cpu": "x86_64", "requesting": 0, "modules": [{"base": 0x10000, "size": 0x100, "code_file": "lib1.so", "debug_file": "lib1.dbg", "debug_id": debug_id(1)}], "threads": list});
            let d = dump(&d, align, &[(STREAM - 1, vec![]), (STREAM, stream.to_vec())]);
            let r = actor(&scratch).process_minidump(ask(&scratch, &d)).await.unwrap();
            check.expect(k, "threads", &r.stacktraces.len(), &threads.len());
            for (j, (t, got)) in threads.iter().zip(&r.stacktraces).enumerate() {
                let k = || format!("{}; thread {j}", k());
                check.expect(k, "thread", &(got.thread_id, got.thread_name.clone(), got.is_requesting, got.registers.len()), &(Some(*t as u64), Some(format!("n{j}")), Some(j == 0), 1));
                let client = traces.as_ref().and_then(|x| x.iter().find(|x| x.0 == *t as u64)).filter(|x| !x.1.is_empty());
                let want: Vec<_> = match client {
                    Some((_, frames)) => frames
                        .iter()
                        .map(|(a, f)| {
                            // as it was, if the address is of no module
                            let inside = (0x10010..0x10030).contains(a);
                            json!([a, if inside { "f1".to_string() } else { f.strip_prefix("_Z").map_or(f.clone(), |f| format!("{f}()")) }, if inside { "symbolicated" } else { "unknown_image" }, "prewalked"])
                        })
                        .collect(),
                    None => vec![json!([0x10014, "f1", "symbolicated", "context"]), json!([0x9000 + j, null, "unknown_image", "fp"])],
                };
                let got: Vec<_> = got.frames.iter().map(|f| json!([f.raw.instruction_addr.0, f.raw.function, f.status, f.raw.trust])).collect();
                check.expect(k, "frames", &got, &want);
            }
        });
    });
    check.eval(Some(vmc::hash64(&(k(), align))));
    check.transition(1);
}
fn ranges(check: &Check) {
    let numbers = |n: u32| (0..=n + 1).chain([u32::MAX - 1, u32::MAX]).collect::<Vec<_>>();
    let mut cases = vec![];
    // the frames of threads
    for nf in 0..3u32 {
        let frames: Vec<_> = (0..nf).map(|i| (0x70 + i as u64, i, 1)).collect();
        let one: Vec<_> = numbers(nf).into_iter().flat_map(|s| numbers(nf).into_iter().map(move |n| (s, n))).collect();
        for a in &one {
            cases.push(Extension { version: 1, threads: vec![(7, a.0, a.1)], frames: frames.clone(), symbols: b"abcd".to_vec() });
            for b in &one {
                cases.push(Extension { version: 1, threads: vec![(7, a.0, a.1), (8, b.0, b.1)], frames: frames.clone(), symbols: b"abcd".to_vec() });
            }
        }
    }
    // the symbols of frames
    for ns in 0..4u32 {
        let symbols = [&b""[..], b"x", b"\xc3\xa9", b"\xc3\xa9z"][ns as usize].to_vec();
        let one: Vec<_> = numbers(ns).into_iter().flat_map(|s| numbers(ns).into_iter().map(move |n| (s, n))).collect();
        for a in &one {
            for b in &one {
                // the second one is of no thread
                for n in 1..3 {
                    cases.push(Extension { version: 1, threads: vec![(7, 0, n)], frames: vec![(0x10014, a.0, a.1), (u64::MAX, b.0, b.1)], symbols: symbols.clone() });
                }
            }
        }
    }
    vmc::parallel(cases.len(), |i| {
        if check.saturated() {
            return;
        }
        let e = &cases[i];
        let k = || format!("{e:?}");
        extended(check, &k, i % 8, &e.bytes(), &[7, 8], e.traces());
        check.sample(|| json!({"case": k()}));
    });
}
fn shapes(check: &Check) {
    let mut cases: Vec<(String, Vec<u8>, Option<Extension>)> = vec![];
    for nt in 0..4u32 {
        for nf in 0..3u32 {
            for ns in 0..9usize {
                let e = Extension {
                    version: 1,
                    threads: (0..nt).map(|i| (7 + i, 0, nf)).collect(),
                    frames: (0..nf).map(|i| (0x70 + i as u64, 0, ns as u32)).collect(),
                    symbols: b"somename"[..ns].to_vec(),
                };
                let b = e.bytes();
                let k = format!("{nt} threads, {nf} frames, {ns} bytes of symbols");
                for n in 0..b.len() {
                    cases.push((format!("{k}, the first {n} bytes"), b[..n].to_vec(), None));
                }
                for n in [1, 2, 4, 7, 8, 16] {
                    cases.push((format!("{k} and {n} bytes"), [&b[..], &vec![0; n]].concat(), None));
                }
                for v in [0, 2, u32::MAX, 1u32.swap_bytes()] {
                    let e = Extension { version: v, ..e.clone() };
                    cases.push((format!("{k}, version {v}"), e.bytes(), None));
                }
                // other numbers for the same bytes
                for field in 1..4 {
                    for x in [0u32, 1, 2, 3, 4, 9, 0x7fff_ffff, u32::MAX] {
                        let mut b = b.clone();
                        if b[4 * field..4 * field + 4] != x.to_ne_bytes() {
                            b[4 * field..4 * field + 4].copy_from_slice(&x.to_ne_bytes());
                            let size = |b: &[u8]| {
                                let f = |i: usize| u32::from_ne_bytes(b[4 * i..4 * i + 4].try_into().unwrap()) as u64;
                                16 + (12 * f(1)).next_multiple_of(8) + 16 * f(2) + f(3)
                            };
                            if size(&b) != b.len() as u64 {
                                cases.push((format!("{k}, {x} in field {field}"), b, None));
                            }
                        }
                    }
                }
                for _ in 0..8 {
                    cases.push((k.clone(), b.clone(), Some(e.clone())));
                }
            }
        }
    }
    vmc::parallel(cases.len(), |i| {
        if check.saturated() {
            return;
        }
        let (k, b, e) = &cases[i];
        let k = || k.clone();
        extended(check, &k, i % 8, b, &[7, 8], e.as_ref().and_then(|e| e.traces()));
        check.sample(|| json!({"case": k()}));
    });
}
fn merges(check: &Check) {
    // the threads of the dump and of the extension
    let mut lists: Vec<Vec<u32>> = vec![vec![]];
    for a in [7u32, 8, u32::MAX] {
        lists.push(vec![a]);
        for b in [7u32, 8, u32::MAX] {
            if a != b {
                lists.push(vec![a, b]);
                lists.push(vec![a, b, [7, 8, u32::MAX].into_iter().find(|c| *c != a && *c != b).unwrap()]);
            }
        }
    }
    vmc::parallel(lists.len() * lists.len() * 27, |i| {
        let (dump, client, counts) = (&lists[i % lists.len()], &lists[i / lists.len() % lists.len()], i / lists.len() / lists.len());
        let mut e = Extension { version: 1, symbols: b"_Zfirst__Zsecond".to_vec(), ..Default::default() };
        let mut c = counts;
        for t in client {
            e.threads.push((*t, e.frames.len() as u32, c as u32 % 3));
            for j in 0..c % 3 {
                e.frames.push((if j == 0 { 0x10014 } else { 0x90000 + *t as u64 }, 8, [8, 1][*t as usize % 2]));
            }
            c /= 3;
        }
        if c > 0 {
            return;
        }
        let k = || format!("threads {dump:?}, {e:?}");
        extended(check, &k, 0, &e.bytes(), dump, e.traces());
    });
}

// Reports of Apple's systems.

pub fn c43() {
    let check = Check::new(
        "C43",
        "model_checking",
        "all combinations of what a report says of the system and the crash; all lists of up to two images and two threads; all prefixes of a report",
    );
    check.assume(NET);
    check.assume("the reports are read by a stand-in of the parser's crate, as JSON of the same structure");
    told(&check);
    threads(&check);
    check.finish()
}
async fn apple(scratch: &Scratch, report: &[u8]) -> Option<Value> {
    let path = scratch.0.join("report");
    std::fs::write(&path, report).unwrap();
    let r = actor(scratch).process_apple_crash_report(None, Scope::Scoped("1".into()), std::fs::File::open(&path).unwrap(), macs(), Default::default()).await;
    r.ok().map(|r| json!(r))
}
fn macs() -> Arc<[SourceConfig]> {
    vec![source(json!({"type": "http", "id": "sym", "url": HOST, "layout": {"type": "unified"}, "is_public": true, "filters": {"filetypes": ["breakpad"]}}))].into()
}
fn told(check: &Check) {
    let oses: [(Option<&str>, [&str; 3]); 12] = [
        (None, ["", "", ""]),
        (Some(""), ["", "", ""]),
        (Some("Mac OS X 10.14.0 (18A391)"), ["macOS", "10.14.0", "18A391"]),
        (Some("Mac OS X 10.14.0"), ["macOS", "10.14.0", ""]),
        (Some("Mac OS X 1.2.3 (abcDEF)"), ["macOS", "1.2.3", "abcDEF"]),
        (Some("Mac OS X 10.14 (18A391)"), ["Mac OS X 10.14 (18A391)", "", ""]),
        (Some("Mac OS X 10.14.0 (18G391)"), ["Mac OS X 10.14.0 (18G391)", "", ""]),
        (Some("Mac OS X 10.14.0 (18A391) "), ["Mac OS X 10.14.0 (18A391) ", "", ""]),
        (Some(" Mac OS X 10.14.0 (18A391)"), [" Mac OS X 10.14.0 (18A391)", "", ""]),
        (Some("Mac OS X 10.14.0 ()"), ["Mac OS X 10.14.0 ()", "", ""]),
        (Some("iPhone OS 12.1 (16B92)"), ["iPhone OS 12.1 (16B92)", "", ""]),
        (Some("macOS 13.0"), ["macOS 13.0", "", ""]),
    ];
    let types: [(Option<&str>, &str); 8] = [(None, ""), (Some(""), ""), (Some("X86-64 (Native)"), "x86_64"), (Some("x86_64"), "x86_64"), (Some("arm64 (Native)"), "arm64"), (Some("arm64e x86"), "arm64e"), (Some("something else"), ""), (Some(" x86"), "")];
    let details = ["Exception Message", "Exception Subtype", "Exception Codes"];
    vmc::parallel(oses.len() * types.len() * 2, |i| {
        let (os, code, found) = (&oses[i % oses.len()], &types[i / oses.len() % types.len()], i / oses.len() / types.len() == 1);
        for mask in 0..64 {
            let k = || format!("system {:?}, code type {:?}, details {mask:06b}, symbols {found}", os.0, code.0);
            let mut metadata = serde_json::Map::new();
            for (j, d) in details.iter().enumerate() {
                if mask & (1 << j) != 0 {
                    metadata.insert(d.to_string(), json!(format!("<{d}>")));
                }
            }
            if let Some(os) = os.0 {
                metadata.insert("OS Version".into(), json!(os));
            }
            if mask & 8 != 0 {
                metadata.insert("Exception Type".into(), json!("EXC_BAD"));
                metadata.insert("Hardware Model".into(), json!("Mac1,2"));
                metadata.insert("Other".into(), json!("x"));
            }
            let special = (mask & 16 != 0).then_some("special");
            let time = (mask & 32 != 0).then_some("2020-09-13T12:26:40Z");
            let uuid = "00000000-0000-0000-0000-0000000abc10";
            let report = json!({"metadata": metadata, "code_type": code.0, "application_specific_information": special, "timestamp": time, "binary_images": [
                {"addr": 0x1000, "size": 0, "uuid": uuid, "name": "none", "path": "/none"},
                {"addr": 0x10000, "size": 0x100, "uuid": "00000000-0000-0000-0000-00000000abc1", "name": "lib1", "path": "/Lib/lib1"},
            ], "threads": [{"id": 0, "frames": [{"instruction_addr": 0x10014, "module": "lib1"}]}]});
            check.guarded(k, || {
                let scratch = Scratch::new("c43t");
                ctl::run(&scratch.0, async {
                    wire::install(move |h| if found && h.url.path().contains("abc1") && h.url.path().ends_with("breakpad") { Unwind.wire(1) } else { Wire::status(404) });
                    let got = apple(&scratch, report.to_string().as_bytes()).await.unwrap();
                    let arch = match code.1 {
                        "" if found => "x86_64",
                        "" => "unknown",
                        a => a,
                    };
                    let want = json!({"os_name": os.1[0], "os_version": os.1[1], "os_build": os.1[2], "cpu_arch": arch, "device_model": if mask & 8 != 0 { "Mac1,2" } else { "" }});
                    check.expect(k, "system", &got["system_info"], &want);
                    check.expect(k, "crashed", &got["crashed"], &json!(true));
                    check.expect(k, "reason", &got["crash_reason"], &if mask & 8 != 0 { json!("EXC_BAD") } else { Value::Null });
                    let detail = special.map(String::from).or_else(|| details.iter().enumerate().find(|(j, _)| mask & (1 << j) != 0).map(|(_, d)| format!("<{d}>")));
                    check.expect(k, "details", &got["crash_details"], &json!(detail));
                    check.expect(k, "time", &got["timestamp"], &if time.is_some() { json!(1_600_000_000) } else { Value::Null });
                    check.expect(k, "assertion", &got["assertion"], &Value::Null);
                });
            });
            check.eval(Some(vmc::hash64(&k())));
        }
        check.sample(|| json!({"system": os.0, "code": code.0}));
    });
}
fn threads(check: &Check) {
    // address and size of images, with symbols or not
    let mut lists: Vec<Vec<(u64, u64, bool)>> = vec![vec![]];
    let images = [(0x10000u64, 0x100u64, true), (0x10000, 0, true), (0x20000, 0x100, true), (0x20000, 0, false), (0x20000, 0x100, false)];
    for a in images {
        lists.push(vec![a]);
        for b in images {
            if a.0 != b.0 {
                lists.push(vec![a, b]);
            }
        }
    }
    let stacks: Vec<Vec<u64>> = vec![vec![], vec![0x10014], vec![0x20014, 0x10015], vec![0x14, 0x10054, 0x20014], vec![u64::MAX, 0x10014]];
    vmc::parallel(lists.len() * stacks.len() * stacks.len(), |i| {
        let (images, stacks) = (&lists[i % lists.len()], [&stacks[i / lists.len() % stacks.len()], &stacks[i / lists.len() / stacks.len()]]);
        for crashed in 0..4 {
            let k = || format!("images {images:x?}, threads {stacks:x?}, crashed {crashed:02b}");
            let list: Vec<_> = images.iter().enumerate().map(|(j, (a, s, _))| json!({"addr": a, "size": s, "uuid": format!("00000000-0000-0000-0000-00000000ab{:02x}", 0xc1 + j), "name": format!("lib{j}"), "path": format!("/Lib/lib{j}")})).collect();
            let ts: Vec<_> = stacks
                .iter()
                .enumerate()
                .map(|(j, t)| {
                    let frames: Vec<_> = t.iter().map(|a| json!({"instruction_addr": a, "module": if *a == 0x14 { None } else { Some("given") }, "symbol": "ignored"})).collect();
                    json!({"id": 5 + j, "name": (j == 1).then_some("second"), "crashed": crashed & (1 << j) != 0, "registers": (j == 0).then_some(json!({"rip": 1, "x1": u64::MAX})), "frames": frames})
                })
                .collect();
            let report = json!({"binary_images": list, "threads": ts}).to_string();
            check.guarded(k, || {
                let scratch = Scratch::new("c43i");
                ctl::run(&scratch.0, async {
                    let has: Vec<bool> = images.iter().map(|i| i.2).collect();
                    wire::install(move |h| {
                        let p = h.url.path();
                        let n = if p.contains("abc1/") { 0 } else { 1 };
                        if has[n] { Unwind.wire(n as u8 + 1) } else { Wire::status(404) }
                    });
                    let got = apple(&scratch, report.as_bytes()).await.unwrap();
                    let mut order: Vec<usize> = (0..images.len()).collect();
                    order.sort_by_key(|j| images[*j].0);
                    // up to the next one
                    let size = |j: usize| match images[j].1 {
                        0 => images.iter().map(|i| i.0).filter(|a| *a > images[j].0).min().map(|a| a - images[j].0),
                        s => Some(s),
                    };
                    let mut used = vec![false; images.len()];
                    for (t, (stack, got)) in stacks.iter().zip(got["stacktraces"].as_array().unwrap()).enumerate() {
                        let mut want = vec![];
                        for (i, a) in stack.iter().enumerate() {
                            let given = if *a == 0x14 { Value::Null } else { json!("given") };
                            let Some(j) = order.iter().rev().copied().find(|j| images[*j].0 <= *a).filter(|j| size(*j).is_none_or(|s| *a - images[*j].0 < s)) else {
                                want.push(json!([a, "unknown_image", given, null]));
                                continue;
                            };
                            used[j] = true;
                            let package = json!(format!("/Lib/lib{j}"));
                            want.push(match (images[j].2, *a - images[j].0) {
                                (false, _) => json!([a, "missing", package, null]),
                                (true, 0x10..0x30) => json!([a - (i > 0) as u64, "symbolicated", package, format!("f{}", j + 1)]),
                                _ => json!([a, "missing_symbol", package, null]),
                            });
                        }
                        let frames: Vec<_> = got["frames"].as_array().unwrap().iter().map(|f| json!([u64::from_str_radix(&f["instruction_addr"].as_str().unwrap()[2..], 16).unwrap(), f["status"], f["package"], f["function"]])).collect();
                        check.expect(k, "frames", &frames, &want);
                        check.expect(k, "thread", &json!([got["thread_id"], got["thread_name"], got["is_requesting"]]), &json!([5 + t, (t == 1).then_some("second"), crashed & (1 << t) != 0]));
                        check.expect(k, "registers", &got["registers"], &if t == 0 { json!({"rip": "0x1", "x1": "0xffffffffffffffff"}) } else { Value::Null });
                    }
                    let mods: Vec<_> = got["modules"].as_array().unwrap().iter().map(|m| json!([m["type"], m["code_id"], m["debug_id"], m["code_file"], m["debug_file"], m["image_addr"], m["image_size"].as_u64().unwrap_or(0), m["debug_status"]])).collect();
                    let want: Vec<_> = images
                        .iter()
                        .enumerate()
                        .map(|(j, i)| {
                            let id = format!("00000000-0000-0000-0000-00000000ab{:02x}", 0xc1 + j);
                            let path = format!("/Lib/lib{j}");
                            json!(["macho", id.replace('-', ""), id, path, path, format!("{:#x}", i.0), size(j).unwrap_or(0), if !used[j] { "unused" } else if i.2 { "found" } else { "missing" }])
                        })
                        .collect();
                    check.expect(k, "modules", &mods, &want);
                });
            });
            check.eval(Some(vmc::hash64(&k())));
            check.transition(1);
        }
        check.sample(|| json!({"images": format!("{images:x?}")}));
    });
    // what is no report
    let report = json!({"binary_images": [], "threads": []}).to_string();
    for n in 0..report.len() {
        let k = || format!("the first {n} bytes");
        check.guarded(k, || {
            let scratch = Scratch::new("c43x");
            ctl::run(&scratch.0, async {
                check.expect(k, "result", &apple(&scratch, &report.as_bytes()[..n]).await, &None);
            });
        });
        check.eval(Some(vmc::hash64(&k())));
    }
}
