//! What an address in a native stack trace becomes.
use crate::ctl;
use crate::download::source;
use crate::fixture::debug_id;
use crate::wire::{self, Wire};
use std::sync::Arc;
use symbolicator_native::interface::{AddrMode, CompletedSymbolicationResponse, RawFrame, RawStacktrace, Signal, StacktraceOrigin, SymbolicateStacktraces};
use symbolicator_native::SymbolicationActor;
use symbolicator_service::config::Config;
use symbolicator_service::services::SharedServices;
use symbolicator_service::types::{RawObjectInfo, Scope};
use symbolicator_service::utils::hex::HexValue;
use symbolicator_sources::SourceConfig;
use vmc::serde_json::{self, json, Value};
use vmc::{Check, Scratch};

pub const HOST: &str = "http://sym.example.com/";
pub fn symbols() -> Arc<[SourceConfig]> {
    vec![source(json!({"type": "http", "id": "sym", "url": HOST, "layout": {"type": "unified"}, "is_public": true, "filters": {"filetypes": ["breakpad", "sourcebundle"]}}))].into()
}
pub fn services(scratch: &Scratch) -> SharedServices {
    let c = Config { cache_dir: Some(scratch.0.join("cache")), ..Config::default() };
    SharedServices::new(c, tokio::runtime::Handle::current()).unwrap()
}
pub fn actor(scratch: &Scratch) -> SymbolicationActor {
    SymbolicationActor::new(&services(scratch))
}
pub fn request(frames: Vec<Vec<RawFrame>>, modules: Vec<RawObjectInfo>) -> SymbolicateStacktraces {
    SymbolicateStacktraces {
        platform: None,
        scope: Scope::Scoped("1".into()),
        signal: None,
        sources: symbols(),
        origin: StacktraceOrigin::Symbolicate,
        stacktraces: frames.into_iter().map(|frames| RawStacktrace { frames, ..Default::default() }).collect(),
        modules: modules.into_iter().map(Into::into).collect(),
        apply_source_context: false,
        scraping: Default::default(),
        rewrite_first_module: Default::default(),
    }
}
pub fn module(n: u8, addr: u64, size: Option<u64>) -> RawObjectInfo {
    serde_json::from_value(json!({
        "type": "pe", "debug_id": debug_id(n), "debug_file": format!("lib{n}.so"), "code_file": format!("/lib/lib{n}.so"), "image_addr": format!("{addr:#x}"), "image_size": size,
    }))
    .unwrap()
}
pub fn frame(mode: AddrMode, addr: u64) -> RawFrame {
    RawFrame { addr_mode: mode, instruction_addr: HexValue(addr), ..Default::default() }
}
/// The module a path is about.
pub fn number(u: &url::Url) -> u8 {
    let id = u.path_segments().and_then(|mut s| s.nth(1)).unwrap_or_default();
    u8::from_str_radix(&id[id.len() - 2..id.len() - 1], 16).expect("a module")
}
/// Symbols of module `n`.
pub fn lib(arch: &str, n: u8) -> Vec<u8> {
    let inner = format!("INLINE_ORIGIN 0 _Zinner{n}\nINLINE_ORIGIN 1 _Rdeep{n}\n");
    format!(
        "MODULE Linux {arch} {} lib{n}.so\nFILE 0 /src/m{n}.c\nFILE 1 inl.h\n{inner}FUNC 10 20 0 _Zouter{n}\nINLINE 0 5 0 0 18 10\nINLINE 1 50 1 1 20 4\n10 8 4 0\n18 8 51 1\n20 4 70 1\n24 4 52 1\n28 8 6 0\nFUNC 40 10 0 plain{n}\n40 10 9 0\nPUBLIC 60 0 pub{n}\n",
        debug_id(n)
    )
    .into_bytes()
}
/// symbol, function, language, file, line, start of the function
type Loc = (String, String, Option<&'static str>, Option<String>, u32, u64);
/// The functions at a relative address, innermost first.
fn at(n: u8, rel: u64) -> Vec<Loc> {
    let m = Some(format!("/src/m{n}.c"));
    let i = Some("inl.h".to_string());
    let outer = |line| (format!("_Zouter{n}"), format!("outer{n}()"), Some("cpp"), m.clone(), line, 0x10);
    let inner = |line| (format!("_Zinner{n}"), format!("inner{n}()"), Some("cpp"), i.clone(), line, 0x18);
    let deep = (format!("_Rdeep{n}"), format!("_Rdeep{n}"), Some("rust"), i.clone(), 70, 0x20);
    match rel {
        0x10..0x18 => vec![outer(4)],
        0x18..0x20 => vec![inner(51), outer(5)],
        0x20..0x24 => vec![deep, inner(50), outer(5)],
        0x24..0x28 => vec![inner(52), outer(5)],
        0x28..0x30 => vec![outer(6)],
        0x40..0x50 => vec![(format!("plain{n}"), format!("plain{n}"), None, m, 9, 0x40)],
        0x60..=0xffff_ffff => vec![(format!("pub{n}"), format!("pub{n}"), None, None, 0, 0x60)],
        _ => vec![],
    }
}

pub fn c38() {
    let check = Check::new(
        "C38",
        "model_checking",
        "all lists of up to three modules by address and size x addresses at their boundaries, absolute and relative; all frames by position, adjustment, signal and registers x addresses x architectures; all traces of up to three frames by outcome and trust",
    );
    check.assume("the network is a scripted server behind a stand-in of the HTTP client; symbol caches are read and written by a stand-in of that format, built from Breakpad files that the real parser reads; demangling is a stand-in");
    modules(&check);
    adjust(&check);
    traces(&check);
    rewriting(&check);
    given(&check);
    check.finish()
}

/// What is asserted of a frame.
fn shown(f: &symbolicator_native::interface::SymbolicatedFrame) -> Value {
    let mut v = json!(f);
    let o = v.as_object_mut().unwrap();
    for k in ["trust", "adjust_instruction_addr"] {
        o.remove(k);
    }
    v
}
struct Mod {
    n: u8,
    addr: u64,
    size: Option<u64>,
    found: bool,
}
/// The frames for a lookup at `rel` in module `k`.
fn resolved(m: &Mod, k: usize, index: usize, rel: u64, package: &str) -> Vec<Value> {
    let locs = at(m.n, rel);
    let last = locs.len() - 1;
    locs.into_iter()
        .enumerate()
        .map(|(i, (symbol, function, lang, file, line, entry))| {
            let mut v = json!({"status": "symbolicated", "original_index": index, "package": package, "instruction_addr": format!("{:#x}", m.addr + rel), "symbol": symbol, "function": function, "lineno": line});
            if m.addr == 0 {
                v["addr_mode"] = json!(format!("rel:{k}"));
            }
            if let Some(l) = lang {
                v["lang"] = json!(l);
            }
            if let Some(f) = file {
                v["filename"] = json!(f.rsplit('/').next());
                v["abs_path"] = json!(f);
            }
            if i == last {
                v["sym_addr"] = json!(format!("{:#x}", m.addr + entry));
            }
            v["lang"] = v.get("lang").cloned().unwrap_or(Value::Null);
            if v["lang"].is_null() {
                v.as_object_mut().unwrap().remove("lang");
            }
            v
        })
        .collect()
}
fn failed(status: &str, index: usize, f: &RawFrame, package: Option<&str>) -> Value {
    let mut v = json!(f);
    let o = v.as_object_mut().unwrap();
    for k in ["trust", "adjust_instruction_addr"] {
        o.remove(k);
    }
    v["status"] = json!(status);
    v["original_index"] = json!(index);
    if let Some(p) = package {
        v["package"] = json!(p);
    }
    v
}

const TOP: u64 = u64::MAX - 0xff;
fn modules(check: &Check) {
    let slots = [0, 0x10000, 0x10100, 0x20000, TOP];
    let sizes = [None, Some(0), Some(0x48), Some(0x100)];
    let mut lists: Vec<Vec<(u64, Option<u64>)>> = vec![];
    let one: Vec<_> = slots.iter().flat_map(|a| sizes.map(|s| (*a, s))).collect();
    for a in &one {
        lists.push(vec![*a]);
        for b in one.iter().filter(|b| b.0 != a.0) {
            lists.push(vec![*a, *b]);
            for c in one.iter().filter(|c| c.0 != a.0 && c.0 != b.0) {
                lists.push(vec![*a, *b, *c]);
            }
        }
    }
    let lists = &lists;
    vmc::parallel(lists.len(), |i| {
        if check.saturated() {
            return;
        }
        let mods: Vec<Mod> = lists[i].iter().enumerate().map(|(j, (a, s))| Mod { n: j as u8 + 1, addr: *a, size: *s, found: (i + j) % 4 != 0 }).collect();
        let k = || format!("modules {:x?}", mods.iter().map(|m| (m.addr, m.size, m.found)).collect::<Vec<_>>());
        // where each module ends: its size if there is one, else the next module
        let mut order: Vec<usize> = (0..mods.len()).collect();
        order.sort_by_key(|j| mods[*j].addr);
        let next = |j: usize| order.iter().find(|o| mods[**o].addr > mods[j].addr).map(|o| mods[*o].addr);
        let length = |j: usize| mods[j].size.filter(|s| *s != 0).or(next(j).map(|n| n - mods[j].addr));
        let mut frames = vec![];
        for m in &mods {
            for rel in [0u64, 0xf, 0x10, 0x17, 0x18, 0x20, 0x24, 0x2f, 0x30, 0x47, 0x4a, 0xff, 0x1000] {
                if let Some(a) = m.addr.checked_add(rel) {
                    frames.push(frame(AddrMode::Abs, a));
                }
            }
            frames.extend(m.addr.checked_sub(1).map(|a| frame(AddrMode::Abs, a)));
        }
        for a in [0, 1, u64::MAX] {
            frames.push(frame(AddrMode::Abs, a));
        }
        for j in 0..=mods.len() {
            for rel in [0u64, 0x12, 0x21, 0x45, 0x55, 0x70, 0x10000] {
                if j == mods.len() || mods[j].addr.checked_add(rel).is_some() {
                    frames.push(frame(AddrMode::Rel(j), rel));
                }
            }
        }
        for (i, f) in frames.iter_mut().enumerate() {
            f.adjust_instruction_addr = Some(false);
            if i % 3 == 1 {
                f.package = Some("old".into());
            }
        }
        check.guarded(k, || {
            let scratch = Scratch::new("c38m");
            ctl::run(&scratch.0, async {
                let found: Vec<bool> = mods.iter().map(|m| m.found).collect();
                wire::install(move |h| {
                    let n = number(&h.url);
                    if found[n as usize - 1] { Wire::ok(200, &lib("x86_64", n)) } else { Wire::status(404) }
                });
                let r = actor(&scratch).symbolicate(request(vec![frames.clone()], mods.iter().map(|m| module(m.n, m.addr, m.size)).collect())).await.unwrap();
                let mut used = vec![false; mods.len()];
                let got = &r.stacktraces[0].frames;
                let mut it = got.iter().peekable();
                for (index, f) in frames.iter().enumerate() {
                    let mut mine = vec![];
                    while it.peek().is_some_and(|g| g.original_index == Some(index)) {
                        mine.push(shown(it.next().unwrap()));
                    }
                    let a = f.instruction_addr.0;
                    let j = match f.addr_mode {
                        AddrMode::Rel(j) => (j < mods.len()).then_some(j),
                        AddrMode::Abs => order.iter().rev().copied().find(|j| mods[*j].addr <= a),
                    };
                    let mut want = vec![];
                    // a caller may be at the end of its module
                    let mut end = vec![failed("unknown_image", index, f, None)];
                    match j {
                        Some(j) if f.addr_mode != AddrMode::Abs || length(j).is_none_or(|l| a - mods[j].addr <= l) => {
                            let m = &mods[j];
                            let package = format!("/lib/lib{}.so", m.n);
                            let rel = if f.addr_mode == AddrMode::Abs { a - m.addr } else { a };
                            want = match m.found {
                                false => vec![failed("missing", index, f, Some(&package))],
                                true if f.addr_mode == AddrMode::Abs && m.addr == 0 => vec![failed("missing_symbol", index, f, Some(&package))],
                                true if at(m.n, rel).is_empty() => vec![failed("missing_symbol", index, f, Some(&package))],
                                true => resolved(m, j, index, rel, &package),
                            };
                            if f.addr_mode != AddrMode::Abs || length(j) != Some(a - m.addr) || mine == want {
                                end = want.clone();
                                used[j] = true;
                            }
                        }
                        _ => {}
                    }
                    if mine != want {
                        want = end;
                    }
                    let k = || format!("{}; address {} {a:#x}", k(), f.addr_mode);
                    check.expect(k, "frames", &mine, &want);
                    check.transition(1);
                }
                check.expect(k, "further frames", &it.count(), &0);
                let got: Vec<_> = r.modules.iter().map(|m| (m.raw.debug_file.clone(), m.raw.image_addr.0, m.raw.image_size.unwrap_or(0), json!(m.debug_status))).collect();
                let want: Vec<_> = mods
                    .iter()
                    .enumerate()
                    .map(|(j, m)| (Some(format!("lib{}.so", m.n)), m.addr, length(j).unwrap_or(0), json!(if !used[j] { "unused" } else if m.found { "found" } else { "missing" })))
                    .collect();
                check.expect(k, "modules", &got, &want);
            });
        });
        check.eval(Some(vmc::hash64(&k())));
        check.sample(|| json!({"case": k(), "frames": frames.len()}));
    });
}

fn adjust(check: &Check) {
    // architecture, alignment, how far back the call is, register
    let archs = [("x86", 1u64, 1u64, Some("eip")), ("x86_64", 1, 1, Some("rip")), ("arm", 2, 2, Some("pc")), ("arm64", 4, 4, Some("pc")), ("mips", 4, 8, Some("pc")), ("ppc", 4, 4, Some("srr0")), ("ppc64", 8, 8, Some("srr0"))];
    let base = 0x7f00_0000u64;
    let choices = [None, Some(true), Some(false)];
    let signals = [None, Some(4), Some(10), Some(11), Some(5), Some(0)];
    vmc::parallel(archs.len() * signals.len() * 3, |i| {
        let (arch, align, back, register) = archs[i % archs.len()];
        let signal = signals[i / archs.len() % signals.len()];
        let image = [base, 0, 0x1000][i / archs.len() / signals.len()];
        let mut cases = vec![];
        for own in choices {
            for other in choices {
                // of another architecture, the address itself, another one
                for reg in 0..4 {
                    for pos in 0..2usize {
                        for rel in 0x0e..0x34u64 {
                            for mode in [AddrMode::Abs, AddrMode::Rel(0)] {
                                if image != 0 || mode != AddrMode::Abs {
                                    cases.push((own, other, reg, pos, rel, mode));
                                }
                            }
                        }
                    }
                }
            }
        }
        let k = || format!("{arch} at {image:#x}, signal {signal:?}");
        check.guarded(k, || {
            let scratch = Scratch::new("c38a");
            ctl::run(&scratch.0, async {
                wire::install(move |_| Wire::ok(200, &lib(arch, 1)));
                let mut stacks = vec![];
                for (own, other, reg, pos, rel, mode) in &cases {
                    let a = if *mode == AddrMode::Abs { image + rel } else { *rel };
                    let mut t = RawStacktrace { thread_id: Some(stacks.len() as u64), thread_name: Some("t".into()), is_requesting: Some(false), ..Default::default() };
                    let mut frames = vec![RawFrame { adjust_instruction_addr: *other, ..frame(AddrMode::Rel(7), 1) }];
                    frames.insert(*pos, RawFrame { adjust_instruction_addr: *own, ..frame(*mode, a) });
                    t.frames = frames;
                    match reg {
                        0 => _ = t.registers.insert("nopc".into(), HexValue(1)),
                        1 => _ = t.registers.insert(register.unwrap().into(), HexValue(image + rel)),
                        2 => _ = t.registers.insert(register.unwrap().into(), HexValue(image + rel + 64)),
                        _ => {}
                    }
                    stacks.push(t);
                }
                let r = SymbolicateStacktraces { stacktraces: stacks.clone(), signal: signal.map(Signal), ..request(vec![], vec![module(1, image, Some(0x100))]) };
                let r: CompletedSymbolicationResponse = actor(&scratch).symbolicate(r).await.unwrap();
                check.expect(k, "signal", &r.signal, &signal.map(Signal));
                check.expect(k, "architecture", &r.modules[0].arch.to_string(), &arch.to_string());
                for ((case, t), got) in cases.iter().zip(&stacks).zip(&r.stacktraces) {
                    let (own, other, reg, pos, rel, _) = *case;
                    let back_one = match (own, other) {
                        (Some(b), _) => b,
                        // the others are known to be adjusted by the client, so this one is not
                        (None, Some(_)) => true,
                        (None, None) if pos > 0 => true,
                        _ => reg == 2 && matches!(signal, Some(4 | 10 | 11)),
                    };
                    let addr = match image {
                        // no absolute addresses, no adjustment
                        0 => rel,
                        _ => (image + rel) / align * align - if back_one { back } else { 0 } - image,
                    };
                    let m = Mod { n: 1, addr: image, size: None, found: true };
                    let f = &t.frames[pos];
                    let want = match at(1, addr).is_empty() {
                        true => vec![failed("missing_symbol", pos, f, Some("/lib/lib1.so"))],
                        false => resolved(&m, 0, pos, addr, "/lib/lib1.so"),
                    };
                    let got_frames: Vec<_> = got.frames.iter().filter(|g| g.original_index == Some(pos)).map(shown).collect();
                    let k = || format!("{}; adjust {own:?}, in another frame {other:?}, register {reg}, position {pos}, {} {rel:#x}", k(), f.addr_mode);
                    check.expect(k, "frames", &got_frames, &want);
                    check.expect(k, "trace", &(got.thread_id, got.thread_name.clone(), got.is_requesting, got.registers.clone()), &(t.thread_id, t.thread_name.clone(), t.is_requesting, t.registers.clone()));
                    check.transition(1);
                }
            });
        });
        check.eval(Some(vmc::hash64(&k())));
        check.sample(|| json!({"case": k(), "frames": cases.len()}));
    });
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Out {
    Start,
    Inlined,
    NoSymbol,
    NoImage,
    NoFile,
    BadFile,
}
fn traces(check: &Check) {
    use symbolicator_native::interface::FrameTrust;
    let outs = [Out::Start, Out::Inlined, Out::NoSymbol, Out::NoImage, Out::NoFile, Out::BadFile];
    let trusts = [FrameTrust::None, FrameTrust::Scan, FrameTrust::Cfi, FrameTrust::Context];
    // function, symbol, both after demangling
    type N = Option<&'static str>;
    let names: [(N, N, N, N); 6] = [
        (None, None, None, None),
        (Some("_Zf"), None, Some("f()"), Some("_Zf")),
        (None, Some("_Zs"), Some("s()"), Some("_Zs")),
        (Some("_Zf"), Some("_Zs"), Some("_Zf"), Some("_Zs")),
        (Some("f"), None, Some("f"), None),
        (Some("_start"), None, Some("_start"), None),
    ];
    let mut kinds = vec![];
    for o in outs {
        for t in trusts {
            for n in 0..names.len() {
                if n < 2 || o == Out::NoImage || (o == Out::NoSymbol && t == FrameTrust::Cfi) || (n == 5 && o == Out::NoFile) {
                    kinds.push((o, t, n));
                }
            }
        }
    }
    let mut stacks: Vec<Vec<usize>> = vec![vec![]];
    for a in 0..kinds.len() {
        stacks.push(vec![a]);
        for b in 0..kinds.len() {
            stacks.push(vec![a, b]);
            for c in 0..kinds.len() {
                stacks.push(vec![a, b, c]);
            }
        }
    }
    let chunk = 2000;
    let (stacks, kinds) = (&stacks, &kinds);
    let text = |n: u8| format!("MODULE Linux x86_64 {} lib{n}.so\nFILE 0 /a.c\nFUNC 10 10 0 _start\n10 10 1 0\n", debug_id(n));
    vmc::parallel(stacks.len().div_ceil(chunk), |i| {
        if check.saturated() {
            return;
        }
        let part: Vec<_> = stacks.iter().skip(i * chunk).take(chunk).collect();
        let make = |k: usize| {
            let (o, t, n) = kinds[k];
            let a = match o {
                Out::Start => 0x40012,
                Out::Inlined => 0x10022,
                Out::NoSymbol => 0x10005,
                Out::NoImage => 5,
                Out::NoFile => 0x20012,
                Out::BadFile => 0x30012,
            };
            RawFrame { trust: t, function: names[n].0.map(String::from), symbol: names[n].1.map(String::from), adjust_instruction_addr: Some(false), lineno: Some(77), ..frame(AddrMode::Abs, a) }
        };
        check.guarded(|| format!("traces from {}", i * chunk), || {
            let scratch = Scratch::new("c38t");
            ctl::run(&scratch.0, async {
                wire::install(move |h| match number(&h.url) {
                    1 => Wire::ok(200, &lib("x86_64", 1)),
                    2 => Wire::status(404),
                    3 => Wire::ok(200, b"nothing of that kind"),
                    n => Wire::ok(200, text(n).as_bytes()),
                });
                let frames: Vec<Vec<RawFrame>> = part.iter().map(|s| s.iter().map(|k| make(*k)).collect()).collect();
                let mods = (1..5).map(|n| module(n, 0x10000 * n as u64, Some(0x100))).collect();
                let r = actor(&scratch).symbolicate(request(frames, mods)).await.unwrap();
                check.expect(|| "traces".into(), "number of traces", &r.stacktraces.len(), &part.len());
                for (s, got) in part.iter().zip(&r.stacktraces) {
                    let k = || format!("frames {:?}", s.iter().map(|k| kinds[*k]).collect::<Vec<_>>());
                    // index, status, function, symbol, line
                    let mut want: Vec<(usize, &str, Option<String>, Option<String>, Option<u32>, FrameTrust)> = vec![];
                    for (index, kind) in s.iter().enumerate() {
                        let (o, t, n) = kinds[*kind];
                        let scan = t == FrameTrust::Scan;
                        let status = match o {
                            Out::Start => {
                                want.push((index, "symbolicated", Some("_start".into()), Some("_start".into()), Some(1), t));
                                continue;
                            }
                            Out::Inlined => {
                                for l in at(1, 0x22) {
                                    want.push((index, "symbolicated", Some(l.1), Some(l.0), Some(l.4), t));
                                }
                                continue;
                            }
                            Out::NoSymbol if scan => continue,
                            Out::NoImage if scan => continue,
                            Out::NoImage if index + 1 == s.len() && want.last().is_some_and(|w| w.2.as_deref() == Some("_start")) => continue,
                            Out::NoSymbol => "missing_symbol",
                            Out::NoImage => "unknown_image",
                            Out::NoFile => "missing",
                            Out::BadFile => "malformed",
                        };
                        want.push((index, status, names[n].2.map(String::from), names[n].3.map(String::from), Some(77), t));
                    }
                    let got: Vec<_> = got.frames.iter().map(|f| (f.original_index.unwrap(), json!(f.status), f.raw.function.clone(), f.raw.symbol.clone(), f.raw.lineno, f.raw.trust)).collect();
                    let want: Vec<_> = want.into_iter().map(|w| (w.0, json!(w.1), w.2, w.3, w.4, w.5)).collect();
                    check.expect(k, "frames", &got, &want);
                    check.transition(1);
                }
            });
        });
        check.eval(Some(i as u64));
        check.sample(|| json!({"traces": part.len()}));
    });
}

/// What a frame says stays unless the symbols know better: all sets of given fields.
fn given(check: &Check) {
    let fields = [
        ("platform", json!("native")),
        ("function_id", json!("0x77")),
        ("package", json!("its package")),
        ("lang", json!("swift")),
        ("function", json!("its_function")),
        ("sym_addr", json!("0x99")),
        ("filename", json!("its file")),
        ("abs_path", json!("/its/path")),
        ("lineno", json!(77)),
        ("context_line", json!("its line")),
        ("pre_context", json!(["before"])),
        ("source_link", json!("http://its.example.com/")),
    ];
    let outs: [(u64, &str, u8); 5] = [(0x10012, "symbolicated", 1), (0x10062, "symbolicated", 1), (0x10005, "missing_symbol", 1), (5, "unknown_image", 0), (0x20012, "missing", 2)];
    vmc::parallel(64, |part| {
        if check.saturated() {
            return;
        }
        let frames: Vec<(u32, usize, Value)> = (0..1u32 << fields.len())
            .filter(|m| m % 64 == part as u32)
            .flat_map(|m| (0..outs.len()).map(move |o| (m, o)))
            .map(|(mask, o)| {
                let mut v = json!({"instruction_addr": format!("{:#x}", outs[o].0), "adjust_instruction_addr": false});
                for (i, (n, x)) in fields.iter().enumerate() {
                    if mask >> i & 1 == 1 {
                        v[*n] = x.clone();
                    }
                }
                (mask, o, v)
            })
            .collect();
        check.guarded(|| format!("given fields, part {part}"), || {
            let scratch = Scratch::new("c38g");
            ctl::run(&scratch.0, async {
                wire::install(|h| if number(&h.url) == 1 { Wire::ok(200, &lib("x86_64", 1)) } else { Wire::status(404) });
                let stacks = frames.iter().map(|f| vec![serde_json::from_value(f.2.clone()).unwrap()]).collect();
                let r = actor(&scratch).symbolicate(request(stacks, vec![module(1, 0x10000, Some(0x100)), module(2, 0x20000, Some(0x100))])).await.unwrap();
                for ((_, o, f), got) in frames.iter().zip(&r.stacktraces) {
                    let k = || format!("the frame {f}");
                    check.trace();
                    check.transition(1);
                    check.state(vmc::hash64(&f.to_string()));
                    let (addr, status, n) = outs[*o];
                    let mut want = if status == "symbolicated" {
                        let m = Mod { n, addr: 0x10000, size: None, found: true };
                        let mut w = resolved(&m, 0, 0, addr - 0x10000, "/lib/lib1.so").remove(0);
                        for n in ["platform", "function_id", "filename", "abs_path"] {
                            if w[n].is_null() {
                                w[n] = f[n].clone();
                            }
                        }
                        w
                    } else {
                        failed(status, 0, &serde_json::from_value(f.clone()).unwrap(), if n > 0 { Some(if n == 1 { "/lib/lib1.so" } else { "/lib/lib2.so" }) } else { None })
                    };
                    let mut got: Vec<Value> = got.frames.iter().map(shown).collect();
                    for v in got.iter_mut().chain([&mut want]) {
                        let v = v.as_object_mut().unwrap();
                        v.retain(|k, x| !x.is_null() && (status != "symbolicated" || !["context_line", "pre_context", "source_link"].contains(&k.as_str())));
                    }
                    check.expect(k, "frame", &got, &vec![want]);
                }
            });
        });
    });
}

/// The first module by address may be known by another name.
fn rewriting(check: &Check) {
    let rules: [(&str, Value); 5] = [
        ("none", json!([])),
        ("no match", json!([{"from": "^other$", "to": "lib1.so"}])),
        ("match", json!([{"from": "^custom$", "to": "lib1.so"}])),
        ("second rule", json!([{"from": "^other$", "to": "x"}, {"from": "(cust)om$", "to": "lib1.so"}, {"from": "custom", "to": "y"}])),
        ("all", json!([{"from": ".*", "to": "lib1.so"}])),
    ];
    let orders = [[1u8, 2], [2, 1]];
    for (name, rule) in &rules {
        for order in orders {
            for first in [1u8, 2] {
                for named in [None, Some("custom"), Some("lib1.so")] {
                    let k = || format!("rules {name}, modules {order:?}, the first is {first}, its name {named:?}");
                    check.guarded(k, || {
                        let scratch = Scratch::new("c38r");
                        ctl::run(&scratch.0, async {
                            // a layout with names
                            wire::install(|h| match h.url.path() {
                                p if p.ends_with("/lib1.so.sym") || p.ends_with("/custom.sym") => {
                                    let n = if p.contains(&debug_id(1)) { 1 } else { 2 };
                                    if n == 1 && p.ends_with("/custom.sym") { Wire::status(404) } else { Wire::ok(200, &lib("x86_64", n)) }
                                }
                                _ => Wire::status(404),
                            });
                            let mods: Vec<_> = order.iter().map(|n| RawObjectInfo { debug_file: named.map(String::from), ..module(*n, if *n == first { 0x10000 } else { 0x20000 }, Some(0x100)) }).collect();
                            let frames = vec![frame(AddrMode::Abs, 0x10012), RawFrame { adjust_instruction_addr: Some(false), ..frame(AddrMode::Abs, 0x20012) }];
                            let sources = vec![source(json!({"type": "http", "id": "sym", "url": HOST, "layout": {"type": "native"}, "is_public": true, "filters": {"filetypes": ["breakpad"]}}))].into();
                            let r = SymbolicateStacktraces { sources, rewrite_first_module: serde_json::from_value(rule.clone()).unwrap(), ..request(vec![frames], mods) };
                            let r = actor(&scratch).symbolicate(r).await.unwrap();
                            // the names are as they were
                            let got: Vec<_> = r.modules.iter().map(|m| m.raw.debug_file.clone()).collect();
                            check.expect(k, "names", &got, &vec![named.map(String::from); 2]);
                            let rewritten = |n: u8| match (n == first, *name, named) {
                                (true, "match" | "second rule", Some("custom")) | (true, "all", Some(_)) => Some("lib1.so"),
                                _ => named,
                            };
                            let got: Vec<_> = r.modules.iter().map(|m| json!(m.debug_status)).collect();
                            let want: Vec<_> = order.iter().map(|n| json!(match (n, rewritten(*n)) { (_, None) | (1, Some("custom")) => "missing", _ => "found" })).collect();
                            check.expect(k, "modules", &got, &want);
                        });
                    });
                    check.eval(Some(vmc::hash64(&k())));
                }
            }
        }
    }
}
