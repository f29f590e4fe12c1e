//! What becomes of the stack traces of Java programs.
use crate::ctl;
use crate::fixture::{debug_id, zip};
use crate::native::services;
use crate::download::source;
use crate::wire::{self, Wire};
use proguard::{ProguardCache, ProguardMapping, StackFrame};
use std::collections::BTreeMap;
use std::sync::Arc;
use symbolicator_proguard::interface::{JvmException, JvmFrame, JvmModule, JvmModuleType, JvmStacktrace, SymbolicateJvmStacktraces};
use symbolicator_proguard::ProguardService;
use symbolicator_service::types::Scope;
use symbolicator_sources::SourceConfig;
use vmc::serde_json::{self, json, Value};
use vmc::{Check, Scratch};

/// Mapping files by the number of their module.
const MAPS: [&str; 4] = [
    "",
    "com.ex.Main -> a.a:
# {\"id\":\"sourceFile\",\"fileName\":\"Main.java\"}
    1:4:void run(int):10:13 -> a
    5:5:void com.lib.Other.inner():77:77 -> a
    5:5:void run(int):20 -> a
    void stop() -> b
    void stop(com.ex.Data) -> b
    void plain() -> c
    1:1:void odd(com.ex.Data):3:3 -> d
    void even() -> d
    3:3:void two(com.ex.Data,int):4:4 -> d
com.ex.Data -> a.b:
    1:2:com.ex.Data make(int):8:9 -> a
Nodot -> a.c:
    void call() -> a
",
    "org.two.Shadow -> a.a:
    1:9:void hidden():101:109 -> a
    void late() -> z
    1:3:int both(int):1:3 -> e
org.two.Only -> b.a:
    1:1:void f():5:5 -> a
    2:2:void com.ex.Main.g():6:6 -> a
    2:2:void h():7 -> a
org.two.NoMembers -> b.b:
",
    "com.ex.Third -> c.c:
    0:0:void zero():42:42 -> a
    1:1:void one():43:43 -> a
com.ex.Data -> a.b:
    1:1:void replaced():1:1 -> a
    1:1:void added():2:2 -> q
",
];
const NO_LINES: &str = "com.ex.Main -> a.a:\n    void run() -> a\n";

/// What the server has for a module.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Has {
    Map(usize),
    NoLines,
    Garbage,
    Truncated,
    Status(u16),
    Refused,
}
fn sources() -> Arc<[SourceConfig]> {
    vec![source(json!({"type": "sentry", "id": "sentry", "url": "http://sentry.example.com/files", "token": "t"}))].into()
}
/// Answers a query of the list of files, or says which file is asked for: its module and type.
/// The first file of a type is the one that counts.
fn asked(hop: &reqwest::Hop) -> Result<(usize, String), Wire> {
    let q: BTreeMap<String, String> = hop.url.query_pairs().into_owned().collect();
    match q.get("id") {
        Some(id) => {
            let (n, ty) = id.split_once('.').unwrap();
            Ok((n.parse().unwrap(), ty.into()))
        }
        None => {
            let id = &q["debug_id"];
            let n = u8::from_str_radix(&id[id.len() - 1..], 16).unwrap();
            let file = |n: u8, ty: &str| json!({"id": format!("{n}.{ty}"), "symbolType": ty});
            Err(Wire::ok(200, json!([file(n, "breakpad"), file(n, "proguard"), file(n, "sourcebundle"), file(99, "proguard"), file(99, "sourcebundle")]).to_string().as_bytes()))
        }
    }
}
fn request(modules: Vec<JvmModule>) -> SymbolicateJvmStacktraces {
    SymbolicateJvmStacktraces {
        platform: None,
        scope: Scope::Scoped("1".into()),
        sources: sources(),
        exceptions: vec![],
        stacktraces: vec![],
        modules,
        apply_source_context: true,
        release_package: None,
        classes: vec![],
    }
}
fn module(n: usize, r#type: JvmModuleType) -> JvmModule {
    JvmModule { uuid: debug_id(n as u8).parse().unwrap(), r#type }
}
fn frame(module: &str, function: &str, lineno: Option<u32>) -> JvmFrame {
    JvmFrame { module: module.into(), function: function.into(), lineno, ..Default::default() }
}
fn gz(data: &[u8]) -> Vec<u8> {
    use std::io::Write;
    let mut e = flate2::write::GzEncoder::new(vec![], flate2::Compression::fast());
    e.write_all(data).unwrap();
    e.finish().unwrap()
}
fn reply(has: Has) -> Wire {
    match has {
        Has::Map(n) => Wire::ok(200, MAPS[n].as_bytes()),
        Has::NoLines => Wire::ok(200, NO_LINES.as_bytes()),
        Has::Garbage => Wire::ok(200, b"<html>"),
        Has::Truncated => {
            let z = gz(MAPS[1].as_bytes());
            Wire::ok(200, &z[..z.len() / 2])
        }
        Has::Status(s) => Wire::status(s),
        Has::Refused => Wire::Refused,
    }
}

/// The frames a frame is expected to turn into.
fn expected(maps: &[ProguardCache], f: &JvmFrame, package: Option<&str>) -> Vec<JvmFrame> {
    let signature = f.signature.as_ref().and_then(|s| maps.iter().find_map(|m| m.deobfuscate_signature(s)));
    let types = signature.as_ref().map(|s| s.parameters_types().collect::<Vec<_>>().join(","));
    let query = match (f.lineno, &types) {
        (Some(l), _) => StackFrame::new(&f.module, &f.function, l as usize),
        (None, Some(t)) => StackFrame::with_parameters(&f.module, &f.function, t),
        (None, None) => StackFrame::new(&f.module, &f.function, 0),
    };
    let mut out = vec![];
    // the position in the file
    for m in maps {
        let found: Vec<_> = m.remap_frame(&query).collect();
        if let Some(outermost) = found.last() {
            for s in found.iter().rev() {
                let own = s.class() == outermost.class();
                let file = |given: &Option<String>| if own { s.file().map(String::from).or(given.clone()) } else { None };
                let mut g = f.clone();
                g.module = s.class().into();
                g.function = s.method().into();
                g.lineno = Some(s.line() as u32);
                g.filename = file(&f.filename);
                g.abs_path = file(&f.abs_path);
                out.push(g);
            }
            break;
        }
    }
    // the method
    if out.is_empty() {
        if let Some((c, m)) = maps.iter().find_map(|m| m.remap_method(&f.module, &f.function)) {
            out.push(JvmFrame { module: c.into(), function: m.into(), ..f.clone() });
        }
    }
    // the class
    if out.is_empty() {
        if let Some(c) = maps.iter().find_map(|m| m.remap_class(&f.module)) {
            out.push(JvmFrame { module: c.into(), ..f.clone() });
        }
    }
    for g in &mut out {
        if package.is_some_and(|p| g.module.starts_with(p)) && g.in_app.is_none() {
            g.in_app = Some(true);
        }
    }
    if out.is_empty() {
        out.push(f.clone());
    }
    if let Some(s) = signature {
        for g in &mut out {
            g.signature = Some(s.format_signature());
        }
    }
    out
}

pub fn c44() {
    let check = Check::new(
        "C44",
        "model_checking",
        "all lists of up to three mapping files and outcomes x all frames by class, method, line, signature, file and package x exceptions and class names; all frames by path, class and line x source bundles",
    );
    check.assume("the network is a scripted server behind a stand-in of the HTTP client; mapping files are read by a stand-in of that library, asked for the expected answers as well");
    mappings(&check);
    contexts(&check);
    check.finish()
}

fn frames() -> Vec<JvmFrame> {
    let mut frames = vec![];
    let signatures = [None, Some("()V"), Some("(I)V"), Some("(La/b;)V"), Some("(I)La/b;"), Some("(La/b;I)V"), Some("nonsense")];
    for class in ["a.a", "a.b", "a.c", "b.a", "b.b", "c.c", "x.Unknown", "com.ex.Main", ""] {
        for method in ["a", "b", "d", "e", "q", "z", "unknown"] {
            for lineno in [None, Some(0), Some(1), Some(4), Some(5), Some(6), Some(u32::MAX)] {
                for (i, signature) in signatures.iter().enumerate() {
                    for given in 0..2 {
                        frames.push(JvmFrame {
                            filename: (given == 1).then(|| "Given.java".into()),
                            abs_path: (given == 1).then(|| "Path.java".into()),
                            in_app: (given == 1 && i % 2 == 1).then_some(false),
                            context_line: (given == 1).then(|| "kept".into()),
                            index: frames.len() / 3,
                            signature: signature.map(String::from),
                            ..frame(class, method, lineno)
                        });
                    }
                }
            }
        }
    }
    frames
}

fn mappings(check: &Check) {
    let outcomes = [Has::Map(1), Has::Map(2), Has::Map(3), Has::NoLines, Has::Garbage, Has::Truncated, Has::Status(404), Has::Status(403), Has::Status(500), Has::Refused];
    let mut lists: Vec<Vec<Has>> = vec![vec![]];
    for a in outcomes {
        lists.push(vec![a]);
        for b in outcomes {
            lists.push(vec![a, b]);
            let good = |h| matches!(h, Has::Map(_));
            for c in outcomes {
                if check.thorough() || [a, b, c].into_iter().filter(|h| good(*h)).count() >= 2 {
                    lists.push(vec![a, b, c]);
                }
            }
        }
    }
    let all = frames();
    let (lists, all) = (&lists, &all);
    vmc::parallel(lists.len(), |i| {
        if check.saturated() {
            return;
        }
        let list = lists[i].clone();
        let k = || format!("mappings {list:?}");
        check.trace();
        check.state(vmc::hash64(&k()));
        check.sample(|| json!(k()));
        let scratch = Scratch::new("c44");
        let l = list.clone();
        let mut res = None;
        check.guarded(&k, || {
            res = Some(ctl::run(&scratch.0, async {
                wire::install(move |hop| match asked(hop) {
                    Err(list) => list,
                    Ok((99, _)) => Wire::ok(200, MAPS[1].as_bytes()),
                    Ok((n, ty)) if ty == "proguard" => reply(l[n - 1]),
                    Ok(_) => Wire::status(404),
                });
                let svc = ProguardService::new(&services(&scratch));
                let modules: Vec<_> = (0..list.len()).map(|n| module(n + 1, JvmModuleType::Proguard)).collect();
                let mut out = vec![];
                // the second time from the cache
                for package in [None, Some("com.ex"), Some("two"), Some("")] {
                    let mut r = request(modules.clone());
                    r.release_package = package.map(String::from);
                    r.stacktraces = all.chunks(50).map(|c| JvmStacktrace { frames: c.to_vec() }).collect();
                    r.exceptions = exceptions();
                    r.classes = CLASSES.iter().map(|c| Arc::from(*c)).collect();
                    out.push(svc.symbolicate_jvm(r).await);
                }
                out
            }))
        });
        let Some(res) = res else { return };
        let texts: Vec<Vec<u8>> = list
            .iter()
            .filter_map(|h| match h {
                Has::Map(n) => {
                    let mut b = vec![];
                    ProguardCache::write(&ProguardMapping::new(MAPS[*n].as_bytes()), &mut b).unwrap();
                    Some(b)
                }
                _ => None,
            })
            .collect();
        let maps: Vec<_> = texts.iter().map(|t| ProguardCache::parse(t).unwrap()).collect();
        let errors: Vec<Value> = list
            .iter()
            .enumerate()
            .filter_map(|(n, h)| {
                let kind = match h {
                    Has::Map(_) => return None,
                    Has::NoLines => "no_line_info",
                    Has::Garbage | Has::Truncated => "invalid",
                    _ => "missing",
                };
                Some(json!({"uuid": module(n + 1, JvmModuleType::Proguard).uuid, "type": kind}))
            })
            .collect();
        for (r, package) in res.iter().zip([None, Some("com.ex"), Some("two"), Some("")]) {
            let kp = || format!("{} for the package {package:?}", k());
            check.expect(&kp, "errors", &json!(r.errors), &json!(errors));
            check.expect(&kp, "stack traces", &r.stacktraces.len(), &all.chunks(50).len());
            for (stack, given) in r.stacktraces.iter().zip(all.chunks(50)) {
                check.transition(given.len() as u64);
                let want: Vec<_> = given.iter().flat_map(|f| expected(&maps, f, package)).collect();
                if stack.frames != want {
                    let at = stack.frames.iter().zip(&want).position(|(a, b)| a != b).unwrap_or(want.len().min(stack.frames.len()));
                    check.fail(&format!("frame of {}", kp()), json!({"got": stack.frames.get(at), "expected": want.get(at)}));
                }
            }
            let want: Vec<_> = exceptions()
                .into_iter()
                .map(|e| {
                    let name = format!("{}.{}", e.module, e.ty);
                    match maps.iter().find_map(|m| m.remap_class(&name)).and_then(|c| c.rsplit_once('.')) {
                        Some((module, ty)) => JvmException { module: module.into(), ty: ty.into() },
                        None => e,
                    }
                })
                .collect();
            check.expect(&kp, "exceptions", &json!(r.exceptions), &json!(want));
            let want: BTreeMap<&str, &str> = CLASSES.iter().filter_map(|c| Some((*c, maps.iter().find_map(|m| m.remap_class(c))?))).collect();
            check.expect(&kp, "classes", &json!(r.classes), &json!(want));
        }
    });
}
const CLASSES: [&str; 8] = ["a.a", "a.b", "a.c", "b.a", "b.b", "c.c", "x.Unknown", "com.ex.Main"];
fn exceptions() -> Vec<JvmException> {
    let mut out = vec![];
    for module in ["a", "b", "c", "x", "", "a.a"] {
        for ty in ["a", "b", "c", "Unknown", ""] {
            out.push(JvmException { ty: ty.into(), module: module.into() });
        }
    }
    out
}

/// Sources of the bundles: path and number of lines.
const FILES: [&[(&str, usize)]; 3] = [
    &[("com/ex/Main", 12), ("com/ex/Util", 3), ("Plain", 1), ("com/ex/My.File", 6)],
    &[("com/ex/Main", 20), ("com/ex/Late", 6), ("com/ex/Empty", 0), ("org/Main", 4)],
    &[],
];
fn line(bundle: usize, n: usize) -> String {
    format!("line {n} of bundle {bundle}")
}
fn bundle(n: usize) -> Vec<u8> {
    let mut entries = serde_json::Map::new();
    let mut files = vec![];
    for (i, (path, lines)) in FILES[n].iter().enumerate() {
        entries.insert(format!("files/{i}"), json!({"type": "source", "path": "", "url": format!("~/{path}.jvm")}));
        files.push((format!("files/{i}"), (1..=*lines).map(|l| line(n, l) + "\n").collect::<String>()));
    }
    let manifest = json!({"files": entries, "debug_id": debug_id(n as u8 + 1)}).to_string();
    let mut all: Vec<(&str, &[u8])> = files.iter().map(|(p, c)| (p.as_str(), c.as_bytes())).collect();
    all.push(("manifest.json", manifest.as_bytes()));
    let mut b = b"SYSB\x02\0\0\0".to_vec();
    b.extend(zip(&all, true));
    b
}

fn contexts(check: &Check) {
    // frames
    let mut all = vec![];
    for class in ["com.ex.Main", "com.ex.Main$Inner", "com.ex.Main$Inner$1", "com.ex.Util", "com.ex.Late", "com.ex.Empty", "com.ex.Other", "Plain", "org.Main", "com.ex.My", "a.a", ""] {
        for path in [None, Some("Main.java"), Some("Main.kt"), Some("Util.java"), Some("Main$Inner.java"), Some("Main"), Some("My.File.kt"), Some("SourceFile"), Some(".java"), Some("")] {
            for lineno in [None, Some(0), Some(1), Some(3), Some(4), Some(6), Some(7), Some(12), Some(13), Some(20), Some(21), Some(u32::MAX)] {
                let mut f = frame(class, "m", lineno);
                f.abs_path = path.map(String::from);
                f.filename = Some("ignored.java".into());
                if all.len() % 5 == 0 {
                    f.pre_context = vec!["given".into()];
                    f.context_line = Some("given".into());
                }
                all.push(f);
            }
        }
    }
    // bundles: there, absent or broken
    let mut lists = vec![];
    for a in 0..5 {
        lists.push(vec![a]);
        for b in 0..5 {
            if a != b {
                lists.push(vec![a, b]);
                for c in 0..5 {
                    if c != a && c != b {
                        lists.push(vec![a, b, c]);
                    }
                }
            }
        }
    }
    let mut cases = vec![];
    for l in lists {
        for apply in [true, false] {
            for mapped in [false, true] {
                cases.push((l.clone(), apply, mapped));
            }
        }
    }
    let (cases, all) = (&cases, &all);
    vmc::parallel(cases.len(), |i| {
        if check.saturated() {
            return;
        }
        let (list, apply, mapped) = cases[i].clone();
        let k = || format!("source bundles {list:?}, asked for context: {apply}, mapping: {mapped}");
        check.trace();
        check.state(vmc::hash64(&k()));
        check.sample(|| json!(k()));
        let scratch = Scratch::new("c44");
        let mut res = None;
        check.guarded(&k, || {
            res = Some(ctl::run(&scratch.0, async {
                wire::install(move |hop| {
                    let (n, ty) = match asked(hop) {
                        Ok(x) => x,
                        Err(list) => return list,
                    };
                    match (n, ty.as_str()) {
                        (1..=3, "sourcebundle") => Wire::ok(200, &bundle(n - 1)),
                        (4, "sourcebundle") => Wire::ok(200, b"SYSB\x02\0\0\0nonsense"),
                        (9, "proguard") => Wire::ok(200, MAPS[1].as_bytes()),
                        _ => Wire::status(404),
                    }
                });
                let svc = ProguardService::new(&services(&scratch));
                let mut modules: Vec<_> = list.iter().map(|n| module(n + 1, JvmModuleType::Source)).collect();
                if mapped {
                    modules.insert(modules.len() / 2, module(9, JvmModuleType::Proguard));
                }
                let mut r = request(modules);
                r.apply_source_context = apply;
                r.stacktraces = all.chunks(100).map(|c| JvmStacktrace { frames: c.to_vec() }).collect();
                svc.symbolicate_jvm(r).await
            }))
        });
        let Some(res) = res else { return };
        check.expect(&k, "errors", &json!(res.errors), &json!([]));
        let mut b = vec![];
        ProguardCache::write(&ProguardMapping::new(MAPS[1].as_bytes()), &mut b).unwrap();
        let maps = if mapped { vec![ProguardCache::parse(&b).unwrap()] } else { vec![] };
        let got: Vec<_> = res.stacktraces.iter().flat_map(|s| &s.frames).collect();
        let mut want: Vec<_> = all.iter().flat_map(|f| expected(&maps, f, None)).collect();
        for f in &mut want {
            let Some(lineno) = f.lineno.filter(|l| apply && *l > 0).map(|l| l as usize) else { continue };
            // the name of the file, without its extension
            let path = match f.abs_path.as_deref() {
                Some(p) if p.contains('.') && !p.contains('$') => {
                    let stem = &p[..p.rfind('.').unwrap()];
                    match f.module.rfind('.') {
                        Some(dot) => format!("{}/{stem}", f.module[..dot].replace('.', "/")),
                        None => stem.to_string(),
                    }
                }
                _ => f.module.split('$').next().unwrap().replace('.', "/"),
            };
            let found = list.iter().filter(|n| **n < 3).find_map(|n| FILES[*n].iter().find(|(p, lines)| *p == path && lineno <= *lines).map(|(_, lines)| (*n, *lines)));
            if let Some((n, lines)) = found {
                f.pre_context = (lineno.saturating_sub(5).max(1)..lineno).map(|l| line(n, l)).collect();
                f.context_line = Some(line(n, lineno));
                f.post_context = (lineno + 1..=lines.min(lineno + 5)).map(|l| line(n, l)).collect();
            }
        }
        check.transition(want.len() as u64);
        check.expect(&k, "number of frames", &got.len(), &want.len());
        for (g, w) in got.iter().zip(&want) {
            if *g != w {
                check.fail(&format!("frame of {}", k()), json!({"got": g, "expected": w}));
                break;
            }
        }
    });
}
