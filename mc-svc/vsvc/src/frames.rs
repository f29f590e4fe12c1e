//! What a frame of a JavaScript stack trace becomes.
use crate::ctl;
use crate::fixture::zip;
use crate::js::{sentry, service, LOOKUP};
use crate::wire::{self, Wire};
use symbolicator_js::interface::{CompletedJsSymbolicationResponse, JsFrame, JsStacktrace, SymbolicateJsStacktraces};
use symbolicator_service::source_context::get_context_lines;
use symbolicator_service::types::Scope;
use vmc::serde_json::{json, Value};
use vmc::{Check, Scratch};

pub fn c37() {
    let check = Check::new(
        "C37",
        "model_checking",
        "all maps of tokens at the points of a grid x all positions; all pairs of frames x kinds of names; all addresses of files by segments x base addresses; all places of the original source x lines; all widths of lines x columns",
    );
    check.assume("the network is a scripted server behind a stand-in of the HTTP client; source maps are read by a stand-in of the reader of source maps, which is told the scopes");
    positions(&check);
    names(&check);
    folding(&check);
    paths(&check);
    modules(&check);
    context(&check);
    trimming(&check);
    check.finish()
}

fn vlq(out: &mut String, x: i64) {
    let mut v = if x < 0 { ((-x) << 1) | 1 } else { x << 1 };
    loop {
        let d = v & 31;
        v >>= 5;
        let d = if v > 0 { d | 32 } else { d };
        out.push(b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"[d as usize] as char);
        if v == 0 {
            break;
        }
    }
}
/// line and column in the generated file; file, line, column, name
type Token = ((u32, u32), (usize, u32, u32, Option<usize>));
fn mappings(tokens: &[Token]) -> String {
    let mut s = String::new();
    let (mut line, mut first) = (0, true);
    let mut at = 0i64;
    let mut prev = [0i64; 4];
    for ((l, c), (f, ol, oc, n)) in tokens {
        while line < *l {
            s.push(';');
            line += 1;
            at = 0;
            first = true;
        }
        if !first {
            s.push(',');
        }
        first = false;
        vlq(&mut s, *c as i64 - at);
        at = *c as i64;
        for (p, x) in prev.iter_mut().zip([*f as i64, *ol as i64, *oc as i64]) {
            vlq(&mut s, x - *p);
            *p = x;
        }
        if let Some(n) = n {
            vlq(&mut s, *n as i64 - prev[3]);
            prev[3] = *n as i64;
        }
    }
    s
}
const PAGE: &str = "http://web.example.com/js/app.js";
fn frame(lineno: u32, colno: Option<u32>) -> JsFrame {
    JsFrame { abs_path: PAGE.into(), lineno, colno, ..Default::default() }
}
fn request(stacks: Vec<Vec<JsFrame>>, context: bool) -> SymbolicateJsStacktraces {
    SymbolicateJsStacktraces {
        platform: None,
        scope: Scope::Scoped("1".into()),
        source: sentry(),
        release: Some("r".into()),
        dist: None,
        stacktraces: stacks.into_iter().map(|frames| JsStacktrace { frames }).collect(),
        modules: vec![],
        scraping: Default::default(),
        apply_source_context: context,
    }
}
/// A server with a minified file, its map, and more.
fn web(page: &str, min: String, map: String, more: Vec<(String, String)>) {
    let page = page.to_string();
    wire::install(move |h| {
        let u = h.url.as_str();
        if u.starts_with(LOOKUP) {
            return Wire::ok(200, b"[]");
        }
        let u = u.split('#').next().unwrap();
        if u == page {
            return Wire::ok(200, min.as_bytes());
        }
        if u.ends_with(".map") {
            return Wire::ok(200, map.as_bytes());
        }
        match more.iter().find(|m| m.0 == u) {
            Some(m) => Wire::ok(200, m.1.as_bytes()),
            None => Wire::status(404),
        }
    });
}
fn ask(scratch: &Scratch, r: SymbolicateJsStacktraces) -> impl std::future::Future<Output = CompletedJsSymbolicationResponse> {
    let svc = service(scratch);
    async move { svc.symbolicate_js(r).await }
}

fn positions(check: &Check) {
    let grid: Vec<(u32, u32)> = (0..3).flat_map(|l| [0, 2, 5].map(|c| (l, c))).collect();
    vmc::parallel(1 << grid.len(), |set: usize| {
        // where the tokens lead
        let tokens: Vec<Token> = grid.iter().enumerate().filter(|(i, _)| set >> i & 1 == 1).map(|(i, p)| (*p, (i % 2, if i == 4 { u32::MAX } else { 40 - 3 * i as u32 }, if i == 5 { u32::MAX } else { (7 * i as u32) % 11 }, (i % 3 == 0).then_some(0)))).collect();
        let map = json!({"version": 3, "sources": ["a.js", "b.js"], "names": ["n"], "mappings": mappings(&tokens), "sourcesContent": ["", ""]}).to_string();
        let mut frames = vec![];
        for l in 0..5 {
            for c in [None, Some(0), Some(1), Some(2), Some(3), Some(4), Some(6), Some(7), Some(1000), Some(u32::MAX)] {
                frames.push(frame(l, c));
            }
        }
        frames.push(frame(u32::MAX, Some(1)));
        let k = || format!("tokens at {:?}", tokens.iter().map(|t| t.0).collect::<Vec<_>>());
        check.guarded(k, || {
            let scratch = Scratch::new("c37p");
            ctl::run(&scratch.0, async {
                web(PAGE, "minified\n//# sourceMappingURL=app.js.map\n".into(), map.clone(), vec![]);
                let r = ask(&scratch, request(vec![frames.clone()], true)).await;
                let mut errors = vec![];
                for (f, got) in frames.iter().zip(&r.stacktraces[0].frames) {
                    let k = || format!("{}; frame at {}:{:?}", k(), f.lineno, f.colno);
                    let token = match f.lineno {
                        0 => None,
                        l => tokens.iter().rfind(|t| t.0 <= (l - 1, f.colno.unwrap_or(0).saturating_sub(1))),
                    };
                    let mut want = (f.lineno, f.colno, None, false);
                    match token {
                        Some((_, (file, l, c, _))) => want = (l.saturating_add(1), Some(c.saturating_add(1)), Some(["a.js", "b.js"][*file].to_string()), true),
                        None => errors.push(json!({"abs_path": PAGE, "type": "invalid_location", "line": f.lineno, "col": if f.lineno == 0 { f.colno } else { Some(f.colno.unwrap_or(0)) }})),
                    }
                    check.expect(k, "frame", &(got.lineno, got.colno, got.filename.clone(), got.data.symbolicated), &want);
                    check.transition(1);
                }
                errors.sort_by_key(|e| e.to_string());
                errors.dedup();
                let mut got: Vec<Value> = r.errors.iter().map(|e| json!(e)).collect();
                got.sort_by_key(|e| e.to_string());
                check.expect(k, "errors", &got, &errors);
                // the original frames are kept
                for (f, got) in frames.iter().zip(&r.raw_stacktraces[0].frames) {
                    check.expect(k, "raw frame", &(got.lineno, got.colno, &got.abs_path, &got.filename), &(f.lineno, f.colno, &f.abs_path, &None));
                }
            });
        });
        check.eval(Some(vmc::hash64(&k())));
        check.sample(|| json!({"case": k(), "frames": frames.len()}));
    });
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Kind {
    /// scope, name of the token, name in the frame
    Mapped(usize, usize, usize),
    /// no token
    Unmapped,
    /// a file without a map
    Plain,
    Broken,
}
const SCOPES: [Option<Option<&str>>; 9] = [None, Some(None), Some(Some("useful")), Some(Some("__webpack_require__")), Some(Some("__webpack_modules__")), Some(Some("<anonymous>")), Some(Some("$async$call")), Some(Some("my$async$call")), Some(Some("a.a.b"))];
const TOKENS: [Option<&str>; 4] = [None, Some("tok"), Some(""), Some("x.x.y")];
const RAW: [Option<&str>; 3] = [None, Some("min"), Some("<anonymous>")];
fn fold(name: &str) -> String {
    let parts: Vec<&str> = name.split('.').collect();
    let (last, groups) = parts.split_last().unwrap();
    let mut out: Vec<(usize, &str)> = vec![];
    for g in groups {
        match out.last_mut() {
            Some((n, h)) if h == g => *n += 1,
            _ => out.push((1, g)),
        }
    }
    let mut s = String::new();
    for (n, g) in out {
        s += &if n == 1 { format!("{g}.") } else { format!("{{{g}#{n}}}.") };
    }
    s + last
}
fn names(check: &Check) {
    let mut kinds = vec![Kind::Unmapped, Kind::Plain, Kind::Broken];
    for s in 0..SCOPES.len() {
        for t in 0..TOKENS.len() {
            for r in 0..RAW.len() {
                kinds.push(Kind::Mapped(s, t, r));
            }
        }
    }
    // one line per scope, one column per token; the first line has no scope
    let mut tokens: Vec<Token> = vec![];
    let mut scopes = vec![];
    for s in 0..SCOPES.len() as u32 {
        if let Some(n) = SCOPES[s as usize] {
            scopes.push(json!([s, 0, n]));
        }
        for t in 0..TOKENS.len() {
            tokens.push(((s, 10 * (t as u32 + 1)), (0, s, t as u32, TOKENS[t].map(|_| t - 1))));
        }
    }
    let map = json!({"version": 3, "sources": ["a.js"], "names": ["tok", "", "x.x.y"], "mappings": mappings(&tokens), "sourcesContent": [null], "x_scopes": scopes}).to_string();
    let make = |k: Kind| match k {
        Kind::Mapped(s, t, r) => JsFrame { function: RAW[r].map(String::from), ..frame(s as u32 + 1, Some(10 * (t as u32 + 1) + 1)) },
        Kind::Unmapped => frame(1, Some(1)),
        Kind::Plain => JsFrame { abs_path: "http://web.example.com/plain.js".into(), function: Some("p".into()), ..frame(1, Some(1)) },
        Kind::Broken => frame(0, None),
    };
    let expected = |k: Kind, before: Option<Kind>| match k {
        Kind::Mapped(s, t, r) => {
            let (token, raw) = (TOKENS[t], RAW[r]);
            let name = match SCOPES[s] {
                None => raw.unwrap_or("<unknown>"),
                Some(None) => "<anonymous>",
                Some(Some(n)) if n.starts_with("$async$") => token.unwrap_or(n),
                Some(Some(n)) => n,
            };
            let call = match before {
                Some(Kind::Mapped(_, t, _)) => TOKENS[t].filter(|t| !t.is_empty()),
                _ => None,
            };
            let useless = ["<anonymous>", "__webpack_require__", "__webpack_modules__"].contains(&name);
            let name = if useless { call.or(raw).unwrap_or(name) } else { name };
            Some(fold(name))
        }
        Kind::Plain => Some("p".into()),
        _ => None,
    };
    let n = kinds.len();
    vmc::parallel(n, |first| {
        // pairs, with a frame of each kind in between or not
        for between in [None, Some(Kind::Unmapped), Some(Kind::Plain), Some(Kind::Broken), Some(Kind::Mapped(2, 0, 0)), Some(Kind::Mapped(3, 1, 1))] {
            let mut stacks = vec![];
            let mut list = vec![];
            for second in &kinds {
                let mut ks = vec![kinds[first]];
                ks.extend(between);
                ks.push(*second);
                stacks.push(ks.iter().map(|k| make(*k)).collect::<Vec<_>>());
                list.push(ks);
            }
            let k = || format!("first {:?}, then {between:?}", kinds[first]);
            check.guarded(k, || {
                let scratch = Scratch::new("c37n");
                ctl::run(&scratch.0, async {
                    web(PAGE, "minified\n//# sourceMappingURL=app.js.map\n".into(), map.clone(), vec![("http://web.example.com/plain.js".into(), "plain\n".into())]);
                    let r = ask(&scratch, request(stacks.clone(), false)).await;
                    for (ks, s) in list.iter().zip(&r.stacktraces) {
                        let got: Vec<Option<&str>> = s.frames.iter().map(|f| f.function.as_deref()).collect();
                        let want: Vec<Option<String>> = ks.iter().enumerate().map(|(i, k)| expected(*k, i.checked_sub(1).map(|i| ks[i]))).collect();
                        check.expect(|| format!("{ks:?}"), "names", &got, &want.iter().map(|s| s.as_deref()).collect());
                        check.transition(1);
                    }
                });
            });
            check.eval(Some(vmc::hash64(&k())));
        }
    });
}
fn folding(check: &Check) {
    let depth = if check.thorough() { 9 } else { 7 };
    let parts = ["a", "b", ""];
    for n in 1..=depth {
        vmc::parallel(parts.len().pow(n).div_ceil(500), |block| {
            let names: Vec<String> = (block * 500..parts.len().pow(n).min((block + 1) * 500)).map(|x| (0..n).map(|i| parts[x / parts.len().pow(i) % parts.len()]).collect::<Vec<_>>().join(".")).collect();
            let k = || format!("names of {n} parts, {block}");
            check.guarded(k, || {
                let scratch = Scratch::new("c37f");
                ctl::run(&scratch.0, async {
                    let map = json!({"version": 3, "sources": ["a.js"], "mappings": "AAAA"}).to_string();
                    web(PAGE, "minified\n//# sourceMappingURL=app.js.map\n".into(), map, vec![]);
                    let frames = names.iter().map(|s| JsFrame { function: Some(s.clone()), ..frame(1, Some(1)) }).collect();
                    let r = ask(&scratch, request(vec![frames], false)).await;
                    for (name, f) in names.iter().zip(&r.stacktraces[0].frames) {
                        check.expect(|| format!("name {name:?}"), "folded", &f.function.as_deref(), &Some(fold(name).as_str()));
                        check.transition(1);
                    }
                });
            });
            check.eval(Some(vmc::hash64(&k())));
        });
    }
}

/// Joins addresses.
fn join(base: &str, right: &str) -> String {
    if right.contains("://") || right.starts_with("webpack:") {
        return right.to_string();
    }
    let (scheme, host, path) = match base.split_once("://") {
        Some((s, rest)) => {
            let rest = rest.split(['?', '#']).next().unwrap();
            let (h, p) = rest.split_once('/').unwrap_or((rest, ""));
            (Some(s), h, p)
        }
        None => (None, "", base.trim_start_matches('/')),
    };
    let origin = scheme.map_or(String::new(), |s| format!("{s}://{host}"));
    let right = right.strip_prefix('~').unwrap_or(right);
    if let (Some(s), Some(r)) = (scheme, right.strip_prefix("//")) {
        return format!("{s}://{r}");
    }
    if right.starts_with('/') {
        return origin + right;
    }
    let mut dirs: Vec<&str> = path.split('/').collect();
    dirs.pop();
    let web = matches!(scheme, Some("http" | "https"));
    for p in right.split('/') {
        match p {
            // nothing is above the root of a server, but there may be something elsewhere
            ".." if web || !dirs.is_empty() => {
                dirs.pop();
            }
            "." => {}
            p => dirs.push(p),
        }
    }
    format!("{origin}/{}", dirs.join("/"))
}
fn webpack(name: &str) -> String {
    if let Some((_, r)) = name.split_once("/~/") {
        return format!("~/{r}");
    }
    let rest = name.strip_prefix("webpack://").unwrap();
    if let Some((ns, r)) = rest.split_once("/./") {
        if !ns.is_empty() && ns.chars().all(|c| c.is_ascii_alphanumeric() || "_-@.".contains(c)) {
            return format!("./{r}");
        }
    }
    rest.strip_prefix('/').map_or(name.to_string(), String::from)
}
/// The made-up name of a module.
fn module(path: &str) -> String {
    let path = match path.split_once("://") {
        Some((_, r)) => r.find('/').map_or(r, |i| &r[i..]),
        None => path.strip_prefix('~').unwrap_or(path),
    };
    let path = path.split(['?', '#']).next().unwrap();
    let (dirs, name) = path.rsplit_once('/').unwrap_or(("", path));
    let name = name.rsplit_once('.').map_or(name, |n| n.0);
    let name = name.strip_suffix(".min").unwrap_or(name);
    let mut segments: Vec<&str> = dirs.split('/').collect();
    segments.push(name);
    let hex = |s: &str| s.chars().all(|c| c.is_ascii_hexdigit());
    if let Some(i) = segments.iter().position(|s| matches!(s.len(), 32 | 40) && hex(s)) {
        return segments[i + 1..].join("/");
    }
    let dull = |s: &str| {
        let l = s.to_lowercase();
        let v = l.strip_prefix('v').unwrap_or(&l);
        s.is_empty()
            || ["script", "scripts", "javascript", "javascripts", "js", "build", "static", "node_modules", "bower_components"].contains(&l.as_str())
            || l.starts_with(['_', '.', '~'])
            || v.split('.').all(|n| !n.is_empty() && n.chars().all(|c| c.is_ascii_digit()))
            || (matches!(l.len(), 7 | 8) && hex(&l))
    };
    while segments.len() > 1 && dull(segments[0]) {
        segments.remove(0);
    }
    let all = segments.join("/");
    match all.rfind(['-', '.']) {
        Some(i) if all.len() - i > 7 && hex(&all[i + 1..]) => all[..i].to_string(),
        _ => all,
    }
}
fn paths(check: &Check) {
    const PAGES: [&str; 7] = [
        "http://web.example.com/js/app.js",
        "https://web.example.com:8443/a/b/c/app.js?x=/y/z#/f",
        "http://web.example.com/app.js",
        "app:///dist/app.js",
        "app://host/dist/x/app.js",
        "/var/www/js/app.js",
        "/app.js",
    ];
    const FILES: [&str; 21] = [
        "orig.js",
        "src/orig.js",
        "./orig.js",
        "../src/orig.js",
        "../../orig.js",
        "./../orig.js",
        "/abs/orig.js",
        "~/abs/orig.js",
        "//cdn.example.org/orig.js",
        "https://other.example.org/js/x/orig.min.js",
        "app:///x/orig.js",
        "webpack:///./src/orig.js",
        "webpack:///src/orig.js",
        "webpack://ns-1_@.x/./src/orig.js",
        "webpack://n s/./src/orig.js",
        "webpack:///~/lib/orig.js",
        "webpack:///./~/lib/x/orig.js",
        "webpack://ns/src/orig.js",
        "webpack:///external \"x\"",
        "orig",
        "a.b/orig-abcdef0.js",
    ];
    // how the map is found
    const LINKS: [&str; 4] = ["app.js.map", "/maps/x/app.js.map", "data", "https://cdn.example.org/m/app.js.map"];
    vmc::parallel(PAGES.len() * LINKS.len(), |x| {
        let (page, link) = (PAGES[x % PAGES.len()], LINKS[x / PAGES.len()]);
        for raw_module in [None, Some("given")] {
            let tokens: Vec<Token> = (0..FILES.len()).map(|i| ((0, i as u32), (i, 3, 4, None))).collect();
            let map = json!({"version": 3, "sources": FILES, "mappings": mappings(&tokens), "sourcesContent": FILES.map(|_| "one\n")}).to_string();
            let reference = if link == "data" { format!("data:application/json,{}", map.replace('%', "%25").replace('"', "%22").replace('#', "%23").replace(' ', "%20")) } else { link.to_string() };
            let frames: Vec<JsFrame> = (0..FILES.len()).map(|i| JsFrame { abs_path: page.into(), module: raw_module.map(String::from), filename: Some("raw".into()), ..frame(1, Some(i as u32 + 1)) }).collect();
            let k = || format!("{page}, map {link}, module {raw_module:?}");
            check.guarded(k, || {
                let scratch = Scratch::new("c37j");
                ctl::run(&scratch.0, async {
                    // everything is in a bundle, such that addresses of any kind can be found
                    let base = if link == "data" { page.to_string() } else { join(page, link) };
                    let manifest = json!({"files": {
                        "files/min": {"type": "minified_source", "url": page.split('#').next(), "headers": {"sourcemap": reference}},
                        "files/map": {"type": "source_map", "url": base.split('#').next()},
                    }})
                    .to_string();
                    let mut bundle = b"SYSB\x02\0\0\0".to_vec();
                    bundle.extend(zip(&[("files/min", b"minified\n"), ("files/map", map.as_bytes()), ("manifest.json", manifest.as_bytes())], true));
                    wire::install(move |h| match h.url.query() {
                        Some("bundle") => Wire::ok(200, &bundle),
                        _ if h.url.as_str().starts_with(LOOKUP) => Wire::ok(200, json!([{"type": "bundle", "id": "1", "url": format!("{LOOKUP}?bundle")}]).to_string().as_bytes()),
                        _ => Wire::status(404),
                    });
                    let r = ask(&scratch, request(vec![frames.clone()], false)).await;
                    for (i, f) in r.stacktraces[0].frames.iter().enumerate() {
                        let name = FILES[i];
                        let k = || format!("{}, file {name}", k());
                        let path = join(&base, name);
                        let mut m = raw_module.map(String::from);
                        let mut filename = name.to_string();
                        if name.starts_with("webpack:") {
                            filename = webpack(name);
                            m = Some(module(&filename));
                        }
                        if m.is_none() && ["http:", "https:", "webpack:", "app:"].iter().any(|s| path.starts_with(s)) {
                            m = Some(module(&path));
                        }
                        check.expect(k, "path", &f.abs_path, &path);
                        check.expect(k, "filename", &f.filename, &Some(filename));
                        check.expect(k, "module", &f.module, &m);
                        check.transition(1);
                    }
                    check.expect(k, "errors", &r.errors.iter().map(|e| json!(e).to_string()).collect::<Vec<_>>(), &vec![]);
                });
            });
            check.eval(Some(vmc::hash64(&k())));
        }
    });
}
fn modules(check: &Check) {
    let hash = "0123456789abcdef0123456789ABCDEF";
    let text = "this-is-no-hash-but-has-32-chars";
    let (hash2, text2) = (format!("{hash}01234567"), format!("{text}-and-8-x"));
    assert_eq!((text.len(), text2.len()), (32, 40));
    let segments: Vec<&str> = vec![
        "js", "JavaScript", "scripts", "script", "javas", "build", "static", "node_modules", "bower_components", "_x", "~y", ".z", "v1.0.0", "1.2", "7", "v7x", "abcdef0", "abcdef01", "abcdef012", "src", "foo", "javascripty", hash, &hash2, text, &text2,
    ];
    let names = &["app.js", "app.min.js", "app", "app-abcdef0.js", "app.abcdef012.js", "app.js?x=/y.z", "a.b.js#f", "app-abcdefg.js", "app-abcdef.min.js", "js", "v1.0"];
    let starts = ["http://web.example.com/", "app:///", "https://web.example.com//"];
    let n = segments.len();
    let depth = if check.thorough() { 5 } else { 4 };
    let mut all = vec![];
    for d in 0..depth {
        for x in 0..n.pow(d) {
            let dirs: String = (0..d).map(|i| format!("{}/", segments[x / n.pow(i) % n])).collect();
            all.push(dirs);
        }
    }
    vmc::parallel(all.len().div_ceil(60), |block| {
        let list: Vec<String> = all[block * 60..all.len().min(block * 60 + 60)].iter().flat_map(|d| starts.iter().flat_map(move |s| names.iter().map(move |n| format!("{s}{d}{n}")))).collect();
        let tokens: Vec<Token> = (0..list.len()).map(|i| ((0, i as u32), (i, 0, 0, None))).collect();
        let map = json!({"version": 3, "sources": list, "mappings": mappings(&tokens)}).to_string();
        let k = || format!("block {block}");
        check.guarded(k, || {
            let scratch = Scratch::new("c37m");
            ctl::run(&scratch.0, async {
                web(PAGE, "minified\n//# sourceMappingURL=app.js.map\n".into(), map.clone(), vec![]);
                let r = ask(&scratch, request(vec![(0..list.len()).map(|i| frame(1, Some(i as u32 + 1))).collect()], false)).await;
                for (path, f) in list.iter().zip(&r.stacktraces[0].frames) {
                    check.expect(|| format!("file {path}"), "module", &f.module, &Some(module(path)));
                    check.expect(|| format!("file {path}"), "path", &f.abs_path, path);
                    check.transition(1);
                }
            });
        });
        check.eval(Some(vmc::hash64(&k())));
    });
}

/// Lines around a line.
fn lines(text: &str, line: u32) -> (Vec<String>, Option<String>, Vec<String>) {
    let all: Vec<String> = text.lines().map(String::from).collect();
    let i = line as usize - 1;
    if i >= all.len() {
        return (vec![], None, vec![]);
    }
    (all[i.saturating_sub(5)..i].to_vec(), Some(all[i].clone()), all[i + 1..all.len().min(i + 6)].to_vec())
}
fn context(check: &Check) {
    // where the original source is
    #[derive(Clone, Copy, Debug, PartialEq)]
    enum At {
        Map,
        Bundle,
        Single,
        Web,
        Nowhere,
        Unnamed,
    }
    let max = 14u32;
    vmc::parallel((max as usize + 1) * 6 * 3, |x| {
        let (count, at, ending) = (x as u32 % (max + 1), [At::Map, At::Bundle, At::Single, At::Web, At::Nowhere, At::Unnamed][x / (max as usize + 1) % 6], x / (max as usize + 1) / 6);
        // the last line ends or not, lines end in the way of Windows
        let text = |n: &str| {
            let mut t: String = (1..=count).map(|i| format!("{n} {i}{}", if ending == 2 { "\r\n" } else { "\n" })).collect();
            if ending == 1 {
                t.pop();
            }
            t
        };
        let orig = text("orig");
        // a file of no size counts as one that is not there
        let there = at == At::Map || (matches!(at, At::Bundle | At::Single | At::Web) && (!orig.is_empty() || at == At::Bundle));
        for wanted in [true, false] {
            let tokens: Vec<Token> = (0..max + 2).map(|i| ((i, 0), (0, max + 1 - i, 2, None))).collect();
            let map = json!({"version": 3, "sources": if at == At::Unnamed { json!([null]) } else { json!(["../src/orig.js"]) }, "mappings": mappings(&tokens), "sourcesContent": if at == At::Map { json!([orig]) } else { json!([null]) }}).to_string();
            let min = text("min") + if ending == 1 { "\n" } else { "" } + "//# sourceMappingURL=app.js.map\n";
            let k = || format!("{count} lines, ending {ending}, source {at:?}, wanted {wanted}");
            check.guarded(k, || {
                let scratch = Scratch::new("c37c");
                ctl::run(&scratch.0, async {
                    let src = "http://web.example.com/src/orig.js";
                    let manifest = json!({"files": {"files/src": {"type": "source", "url": "~/src/orig.js"}}}).to_string();
                    let mut bundle = b"SYSB\x02\0\0\0".to_vec();
                    bundle.extend(zip(&[("files/src", orig.as_bytes()), ("manifest.json", manifest.as_bytes())], true));
                    let (m2, o2, min2) = (map.clone(), orig.clone(), min.clone());
                    wire::install(move |h| {
                        let u = h.url.as_str().split('#').next().unwrap().to_string();
                        match u.as_str() {
                            PAGE => Wire::ok(200, min2.as_bytes()),
                            "http://web.example.com/js/app.js.map" => Wire::ok(200, m2.as_bytes()),
                            u if u == src && at == At::Web => Wire::ok(200, o2.as_bytes()),
                            u if u == format!("{LOOKUP}?single") => Wire::ok(200, o2.as_bytes()),
                            u if u == format!("{LOOKUP}?bundle") => Wire::ok(200, &bundle),
                            u if u.starts_with(LOOKUP) => match at {
                                At::Bundle => Wire::ok(200, json!([{"type": "bundle", "id": "1", "url": format!("{LOOKUP}?bundle")}]).to_string().as_bytes()),
                                At::Single => Wire::ok(200, json!([{"type": "file", "id": "1", "url": format!("{LOOKUP}?single"), "abs_path": "~/src/orig.js"}]).to_string().as_bytes()),
                                _ => Wire::ok(200, b"[]"),
                            },
                            _ => Wire::status(404),
                        }
                    });
                    let frames: Vec<JsFrame> = (1..=max + 2).map(|l| frame(l, Some(1))).collect();
                    let r = ask(&scratch, request(vec![frames], wanted)).await;
                    let asked = wire::take_hops().iter().filter(|h| h.url.as_str().starts_with(src)).count();
                    for i in 0..(max + 2) as usize {
                        let (f, raw) = (&r.stacktraces[0].frames[i], &r.raw_stacktraces[0].frames[i]);
                        let k = || format!("{}, line {}", k(), i + 1);
                        let nothing = (vec![], None, vec![]);
                        let want = if wanted && there { lines(&orig, f.lineno) } else { nothing.clone() };
                        check.expect(k, "line", &f.lineno, &(max + 2 - i as u32));
                        check.expect(k, "context", &(f.pre_context.clone(), f.context_line.clone(), f.post_context.clone()), &want);
                        let want = if wanted { lines(&min, i as u32 + 1) } else { nothing };
                        check.expect(k, "raw context", &(raw.pre_context.clone(), raw.context_line.clone(), raw.post_context.clone()), &want);
                        check.transition(1);
                    }
                    let errors: Vec<Value> = r.errors.iter().map(|e| json!(e)).collect();
                    let mut want = vec![];
                    if wanted && !there {
                        want.push(json!({"abs_path": PAGE, "type": "missing_source_content", "source": if at == At::Unnamed { "" } else { src }, "sourcemap": "http://web.example.com/js/app.js.map"}));
                    }
                    check.expect(k, "errors", &errors, &want);
                    check.expect(k, "the source is fetched at most once, if there is need to", &(asked <= (wanted && matches!(at, At::Web | At::Nowhere)) as usize), &true);
                });
            });
            check.eval(Some(vmc::hash64(&k())));
        }
    });
}
/// The lines of a context, trimmed.
fn trimming(check: &Check) {
    let widths: Vec<usize> = (140..=162).chain(195..=210).chain([280, 300, 301, 1000]).collect();
    // characters of 1, 2, 3, 4 bytes, mixed
    let alphabets: [&[&str]; 5] = [&["a", "b", "c"], &["\u{e4}"], &["\u{20ac}"], &["\u{1f600}"], &["x", "\u{20ac}", "\u{1f600}", "\u{e4}"]];
    vmc::parallel(widths.len() * alphabets.len(), |x| {
        let (w, a) = (widths[x % widths.len()], alphabets[x / widths.len()]);
        let mut line = String::new();
        let mut i = 0;
        while line.len() < w {
            line += a[i % a.len()];
            i += 1;
        }
        let len = line.len();
        for column in (0..len + 10).chain([usize::MAX]) {
            let k = || format!("a line of {len} bytes of {a:?}, column {column}");
            check.guarded(k, || {
                let (pre, got, post) = get_context_lines(&format!("first\n{line}\n{line}\n"), 2, column, Some(1)).unwrap();
                check.expect(k, "lines", &(pre, &post[..] == [got.clone()]), &(vec!["first".to_string()], true));
                if len <= 150 {
                    check.expect(k, "short lines are kept", &got, &line);
                    return;
                }
                let body = got.strip_prefix("{snip} ").unwrap_or(&got);
                let (from_start, body) = (body.len() == got.len(), body);
                let cut = body.strip_suffix(" {snip}").unwrap_or(body);
                let to_end = cut.len() == body.len();
                // the position is unknown when the line repeats itself, there is one that fits
                let start = column.min(len).saturating_sub(60);
                let start = if start < 5 { 0 } else { start };
                let end = (start + 140).min(len);
                let end = if end + 5 > len { len } else { end };
                let start = if end == len { len - 140 } else { start };
                let floor = |mut i: usize| {
                    while !line.is_char_boundary(i) {
                        i -= 1;
                    }
                    i
                };
                let (start, end) = (floor(start), floor(end));
                check.expect(k, "trimmed", &cut, &&line[start..end]);
                check.expect(k, "marks", &(from_start, to_end), &(start == 0, end == len));
            });
            check.transition(1);
        }
        check.eval(Some(vmc::hash64(&(w, a))));
    });
}
