//! What the server answers to requests over HTTP.
use crate::crash::dump;
use crate::ctl;
use crate::download::source;
use crate::fixture::{debug_id, zip};
use crate::wire::{self, Wire};
use axum::body::Body;
use axum::Router;
use std::sync::Arc;
use std::time::Duration;
use symbolicator::service::{FindObject, ObjectPurpose, RequestOptions, RequestService};
use symbolicator_native::interface::{ProcessMinidump, StacktraceOrigin, SymbolicateStacktraces};
use symbolicator_service::config::Config;
use symbolicator_service::types::Scope;
use symbolicator_sources::SourceConfig;
use vmc::serde_json::{self, json, Value};
use vmc::{Check, Scratch};

fn http_source(id: &str) -> Value {
    json!({"type": "http", "id": id, "url": format!("http://{id}.example.com/"), "layout": {"type": "unified"}, "filters": {"filetypes": ["breakpad", "pdb", "elf_debug", "elf_code", "sourcebundle"]}})
}
fn config(scratch: &Scratch, limit: Option<usize>, proxy: bool) -> Config {
    let long = Duration::from_secs(100_000);
    Config {
        cache_dir: Some(scratch.0.join("cache")),
        sources: vec![source(http_source("default"))].into(),
        max_concurrent_requests: limit,
        symstore_proxy: proxy,
        max_download_timeout: long,
        head_timeout: long,
        connect_timeout: long,
        streaming_timeout: long,
        ..Config::default()
    }
}
fn service(config: Config) -> (RequestService, Router) {
    let handle = tokio::runtime::Handle::current();
    let s = RequestService::create(config, handle.clone(), handle).unwrap();
    (s.clone(), symbolicator::endpoints::create_app(s))
}
struct Answer {
    status: u16,
    headers: axum::http::HeaderMap,
    body: Vec<u8>,
}
impl Answer {
    fn json(&self) -> Value {
        serde_json::from_slice(&self.body).unwrap_or_else(|_| json!(String::from_utf8_lossy(&self.body)))
    }
}
/// Bodies arrive in pieces.
async fn ask(app: &Router, method: &str, uri: &str, content_type: &str, body: Vec<u8>) -> Answer {
    let chunks: Vec<Result<Vec<u8>, std::io::Error>> = body.chunks(64 * 1024).map(|c| Ok(c.to_vec())).collect();
    let mut r = axum::http::Request::builder().method(method).uri(uri);
    if !content_type.is_empty() {
        r = r.header("content-type", content_type);
    }
    let r = app.ask(r.body(Body::from_stream(futures::stream::iter(chunks))).unwrap()).await;
    let (parts, body) = r.into_parts();
    Answer { status: parts.status.as_u16(), headers: parts.headers, body: body.collect().await.unwrap() }
}
const JSON: &str = "application/json";
const FORM: &str = "multipart/form-data; boundary=XYZ";
fn form(fields: &[(&str, Vec<u8>)]) -> Vec<u8> {
    let mut b = vec![];
    for (name, data) in fields {
        b.extend(format!("--XYZ\r\nContent-Disposition: form-data; name=\"{name}\"; filename=\"x\"\r\n\r\n").into_bytes());
        b.extend(data);
        b.extend(b"\r\n");
    }
    b.extend(b"--XYZ--\r\n");
    b
}

pub fn c46() {
    let check = Check::new(
        "C46",
        "model_checking",
        "all combinations of the fields of every kind of request, each against the service asked directly; all field and body sizes around the limits; all paths and methods; all files and outcomes by proxy",
    );
    check.assume("the network is a scripted server behind a stand-in of the HTTP client; a stand-in of the HTTP server hands requests to the real endpoints");
    routes(&check);
    native(&check);
    js(&check);
    jvm(&check);
    minidumps(&check);
    apple(&check);
    limits(&check);
    busy(&check);
    polls(&check);
    proxy(&check);
    check.finish()
}

/// What was asked of the network, and everything that is in the caches.
fn traces(scratch: &Scratch) -> Value {
    let mut hops: Vec<_> = wire::take_hops().iter().map(|h| format!("{} {} {:?}", h.method, h.url, h.headers)).collect();
    hops.sort();
    let mut files = vec![];
    let mut todo = vec![scratch.0.join("cache")];
    while let Some(d) = todo.pop() {
        for e in std::fs::read_dir(&d).into_iter().flatten() {
            let p = e.unwrap().path();
            match p.is_dir() {
                true => todo.push(p),
                false => files.push(p.strip_prefix(&scratch.0).unwrap().to_string_lossy().into_owned()),
            }
        }
    }
    files.sort();
    json!({"requests": hops, "files": files})
}
/// A request over HTTP is the same as the request it stands for.
fn same(check: &Check, k: &(dyn Fn() -> String + Sync), uri: &str, content_type: &str, body: Vec<u8>, direct: impl FnOnce(&RequestService, &Scratch) -> Option<symbolicator::service::RequestId>, timeout: Option<u64>) {
    check.trace();
    check.transition(1);
    check.state(vmc::hash64(&k()));
    check.sample(|| json!(k()));
    check.guarded(k, || {
        let one = Scratch::new("c46a");
        let mut got = (0, Value::Null, Value::Null);
        ctl::run(&one.0, async {
            network();
            let (_svc, app) = service(config(&one, None, true));
            let r = ask(&app, "POST", uri, content_type, body).await;
            ctl::settle().await;
            got = (r.status, plain(r.json()), traces(&one));
        });
        let two = Scratch::new("c46b");
        ctl::run(&two.0, async {
            network();
            let (svc, _app) = service(config(&two, None, true));
            let id = direct(&svc, &two).unwrap();
            let r = svc.get_response(id, timeout).await;
            ctl::settle().await;
            let want = (200, plain(json!(r)), traces(&two));
            check.expect(k, "status", &got.0, &want.0);
            check.expect(k, "response", &got.1, &want.1);
            check.expect(k, "requests and caches", &got.2, &want.2);
        });
    });
}
fn plain(mut v: Value) -> Value {
    if v.get("request_id").is_some() {
        v["request_id"] = json!("?");
    }
    v
}
fn network() {
    wire::take_hops();
    wire::install(|h| {
        let (host, path) = (h.url.host_str().unwrap(), h.url.path());
        match (host, path.rsplit('/').next().unwrap()) {
            ("default.example.com" | "given.example.com", "breakpad") => {
                let who = host.split('.').next().unwrap();
                Wire::ok(200, format!("MODULE Linux x86_64 {} lib1.so\nFILE 0 /src/m1.c\nFUNC 10 20 0 f_{who}\n10 8 1 0\n18 8 2 0\nSTACK CFI INIT 10 20 .cfa: $rsp 8 +\n", debug_id(1)).as_bytes())
            }
            ("given.example.com", "sourcebundle") => {
                let manifest = json!({"files": {}, "source_links": {"/src/m1.c": "http://links.example.com/m1.c"}, "debug_id": debug_id(1).to_lowercase()}).to_string();
                let mut b = b"SYSB\x02\0\0\0".to_vec();
                b.extend(zip(&[("manifest.json", manifest.as_bytes())], true));
                Wire::ok(200, &b)
            }
            ("links.example.com" | "app.example.com", name) => match name {
                "m1.c" => Wire::ok(200, b"one\ntwo\nthree\n"),
                "app.js" => Wire::ok(200, b"first();\nsecond();\nthird();\n"),
                _ => Wire::status(404),
            },
            ("sentry.example.com", _) => {
                let q: std::collections::BTreeMap<String, String> = h.url.query_pairs().into_owned().collect();
                match q.get("id").map(|s| s.as_str()) {
                    Some("map") => Wire::ok(200, b"com.ex.Main -> a.a:\n    1:4:void run(int):10:13 -> a\n"),
                    Some("src") => {
                        let manifest = json!({"files": {"files/_/_/com/ex/Main.jvm": {"type": "source", "path": "com/ex/Main.java", "url": "~/com/ex/Main.jvm"}}}).to_string();
                        let mut b = b"SYSB\x02\0\0\0".to_vec();
                        b.extend(zip(&[("manifest.json", manifest.as_bytes()), ("files/_/_/com/ex/Main.jvm", &b"a\n".repeat(20)[..])], true));
                        Wire::ok(200, &b)
                    }
                    Some(_) => Wire::status(404),
                    None if q.contains_key("debug_id") && !path.contains("lookup") => Wire::ok(200, br#"[{"id": "map", "symbolType": "proguard"}, {"id": "src", "symbolType": "sourcebundle"}]"#),
                    None => Wire::ok(200, b"[]"),
                }
            }
            _ => Wire::status(404),
        }
    });
}
/// An object with the fields that are there.
fn object(fields: &[(&str, &Option<Value>)]) -> Value {
    Value::Object(fields.iter().filter_map(|(n, v)| v.as_ref().map(|v| (n.to_string(), v.clone()))).collect())
}
fn read<T: serde::de::DeserializeOwned>(v: &Option<Value>, missing: T) -> T {
    match v {
        Some(v) => serde_json::from_value(v.clone()).unwrap(),
        None => missing,
    }
}
const QUERIES: [(&str, Option<&str>, Option<u64>); 5] = [("", None, None), ("?scope=55", Some("55"), None), ("?scope=global&timeout=100", Some("global"), Some(100)), ("?timeout=0", None, Some(0)), ("?other=1&scope=5", Some("5"), None)];
fn scope(s: Option<&str>) -> Scope {
    match s {
        None | Some("global") => Scope::Global,
        Some(s) => Scope::Scoped(s.into()),
    }
}
fn options(v: &Option<Value>) -> RequestOptions {
    let flag = |n: &str, missing: bool| v.as_ref().and_then(|v| v.get(n)).map_or(missing, |v| v == true);
    RequestOptions { dif_candidates: flag("dif_candidates", false), apply_source_context: flag("apply_source_context", true) }
}
fn chosen(v: &Option<Value>) -> Arc<[SourceConfig]> {
    match v {
        Some(Value::Array(a)) => a.iter().cloned().map(source).collect(),
        _ => vec![source(http_source("default"))].into(),
    }
}
fn scrapings() -> Vec<Option<Value>> {
    vec![None, Some(json!({"enabled": false, "allowed_origins": ["*"], "headers": {}})), Some(json!({"enabled": true, "allowed_origins": ["links.example.com", "app.example.com"], "headers": {"x-key": "k"}}))]
}

fn native(check: &Check) {
    let some = |v: &[Value]| -> Vec<Option<Value>> { std::iter::once(None).chain(v.iter().cloned().map(Some)).collect() };
    let platforms = some(&[json!("native"), json!(null)]);
    let signals = some(&[json!(11), json!(5)]);
    let sources = some(&[json!(null), json!([]), json!([http_source("given")])]);
    let opts = some(&[json!({}), json!({"dif_candidates": true, "more": 1}), json!({"apply_source_context": false}), json!({"dif_candidates": true, "apply_source_context": false})]);
    let scraping = scrapings();
    let n = platforms.len() * signals.len() * sources.len() * opts.len() * scraping.len() * QUERIES.len();
    vmc::parallel(n, |mut i| {
        let mut pick = |n: usize| {
            let x = i % n;
            i /= n;
            x
        };
        let (p, s, so, o, sc, q) = (&platforms[pick(3)], &signals[pick(3)], &sources[pick(4)], &opts[pick(5)], &scraping[pick(3)], QUERIES[pick(5)]);
        if check.saturated() || !check.thorough() && p.is_some() && (s.is_some() || q.1.is_some()) {
            return;
        }
        let stacktraces = Some(json!([{"registers": {"rip": "0x10014"}, "is_requesting": true, "frames": [{"instruction_addr": "0x10018"}, {"instruction_addr": "0x1001c"}]}]));
        let modules = Some(json!([{"type": "pe", "debug_id": debug_id(1), "code_file": "lib1.so", "debug_file": "lib1.so", "image_addr": "0x10000", "image_size": 4096}]));
        let body = object(&[("platform", p), ("signal", s), ("sources", so), ("options", o), ("scraping", sc), ("stacktraces", &stacktraces), ("modules", &modules), ("unknown", &Some(json!("x")))]);
        let k = || format!("POST /symbolicate{} {}", q.0, object(&[("platform", p), ("signal", s), ("sources", so), ("options", o), ("scraping", sc)]));
        let direct = |svc: &RequestService, _: &Scratch| {
            let modules: Vec<symbolicator_service::types::RawObjectInfo> = read(&modules, vec![]);
            let options = options(o);
            let request = SymbolicateStacktraces {
                platform: read(p, None),
                scope: scope(q.1),
                signal: read(s, None),
                sources: chosen(so),
                origin: StacktraceOrigin::Symbolicate,
                stacktraces: read(&stacktraces, vec![]),
                modules: modules.into_iter().map(Into::into).collect(),
                apply_source_context: options.apply_source_context,
                scraping: read(sc, Default::default()),
                rewrite_first_module: Default::default(),
            };
            svc.symbolicate_stacktraces(request, options).ok()
        };
        same(check, &k, &format!("/symbolicate{}", q.0), JSON, body.to_string().into_bytes(), direct, q.2);
    });
}

fn js(check: &Check) {
    let some = |v: &[Value]| -> Vec<Option<Value>> { std::iter::once(None).chain(v.iter().cloned().map(Some)).collect() };
    let platforms = some(&[json!("node")]);
    let releases = some(&[json!("r1")]);
    let allowed = some(&[json!(true), json!(false)]);
    let opts = some(&[json!({}), json!({"apply_source_context": false}), json!({"apply_source_context": true})]);
    let scraping = scrapings();
    let sentry = json!({"id": "sentry", "url": "http://sentry.example.com/lookup/", "token": "t"});
    let n = platforms.len() * releases.len() * releases.len() * allowed.len() * opts.len() * scraping.len() * QUERIES.len();
    vmc::parallel(n, |mut i| {
        let mut pick = |n: usize| {
            let x = i % n;
            i /= n;
            x
        };
        let (p, r, d, a, o, sc, q) = (&platforms[pick(2)], &releases[pick(2)], &releases[pick(2)], &allowed[pick(3)], &opts[pick(4)], &scraping[pick(3)], QUERIES[pick(5)]);
        if check.saturated() {
            return;
        }
        let stacktraces = Some(json!([{"frames": [{"abs_path": "http://app.example.com/app.js", "lineno": 2, "colno": 1}]}]));
        let modules = Some(json!([{"type": "sourcemap", "code_file": "http://app.example.com/app.js", "debug_id": debug_id(3)}]));
        let body = object(&[("source", &Some(sentry.clone())), ("platform", p), ("release", r), ("dist", d), ("allow_scraping", a), ("options", o), ("scraping", sc), ("stacktraces", &stacktraces), ("modules", &modules)]);
        let k = || format!("POST /symbolicate-js{} {}", q.0, object(&[("platform", p), ("release", r), ("dist", d), ("allow_scraping", a), ("options", o), ("scraping", sc)]));
        let direct = |svc: &RequestService, _: &Scratch| {
            let mut scraping: symbolicator_service::types::ScrapingConfig = read(sc, Default::default());
            if *a == Some(json!(false)) {
                scraping.enabled = false;
            }
            svc.symbolicate_js_stacktraces(symbolicator_js::interface::SymbolicateJsStacktraces {
                platform: read(p, None),
                scope: scope(q.1),
                source: Arc::new(serde_json::from_value(sentry.clone()).unwrap()),
                release: read(r, None),
                dist: read(d, None),
                stacktraces: read(&stacktraces, vec![]),
                modules: read(&modules, vec![]),
                scraping,
                apply_source_context: *o != Some(json!({"apply_source_context": false})),
            })
            .ok()
        };
        same(check, &k, &format!("/symbolicate-js{}", q.0), JSON, body.to_string().into_bytes(), direct, q.2);
    });
}

fn jvm(check: &Check) {
    let some = |v: &[Value]| -> Vec<Option<Value>> { std::iter::once(None).chain(v.iter().cloned().map(Some)).collect() };
    let platforms = some(&[json!("java")]);
    let packages = some(&[json!("com.ex"), json!("org")]);
    let opts = some(&[json!({}), json!({"apply_source_context": false}), json!({"apply_source_context": true})]);
    let exceptions = some(&[json!([{"type": "a", "module": "a"}])]);
    let classes = some(&[json!(["a.a", "x.y"])]);
    let uuid = |n: u8| json!(format!("00000000-0000-0000-0000-00000000000{n}"));
    let modules = some(&[json!([{"type": "proguard", "uuid": uuid(1)}]), json!([{"type": "proguard", "uuid": uuid(1)}, {"type": "source", "uuid": uuid(2)}])]);
    let stacktraces = some(&[json!([{"frames": [{"module": "a.a", "function": "a", "lineno": 2, "index": 0}]}])]);
    let sources = json!([{"type": "sentry", "id": "sentry", "url": "http://sentry.example.com/files", "token": "t"}]);
    let n = platforms.len() * packages.len() * opts.len() * exceptions.len() * classes.len() * modules.len() * stacktraces.len() * QUERIES.len();
    vmc::parallel(n, |mut i| {
        let mut pick = |n: usize| {
            let x = i % n;
            i /= n;
            x
        };
        let (p, rp, o, e, c, m, s, q) = (&platforms[pick(2)], &packages[pick(3)], &opts[pick(4)], &exceptions[pick(2)], &classes[pick(2)], &modules[pick(3)], &stacktraces[pick(2)], QUERIES[pick(5)]);
        if check.saturated() {
            return;
        }
        let body = object(&[("sources", &Some(sources.clone())), ("platform", p), ("release_package", rp), ("options", o), ("exceptions", e), ("classes", c), ("modules", m), ("stacktraces", s)]);
        let k = || format!("POST /symbolicate-jvm{} {body}", q.0);
        let direct = |svc: &RequestService, _: &Scratch| {
            svc.symbolicate_jvm_stacktraces(symbolicator_proguard::interface::SymbolicateJvmStacktraces {
                platform: read(p, None),
                scope: scope(q.1),
                sources: chosen(&Some(sources.clone())),
                exceptions: read(e, vec![]),
                stacktraces: read(s, vec![]),
                modules: read(m, vec![]),
                apply_source_context: *o != Some(json!({"apply_source_context": false})),
                release_package: read(rp, None),
                classes: read(c, vec![]),
            })
            .ok()
        };
        same(check, &k, &format!("/symbolicate-jvm{}", q.0), JSON, body.to_string().into_bytes(), direct, q.2);
    });
}

fn a_dump() -> Vec<u8> {
    let module = json!({"base": 0x10000, "size": 0x1000, "code_file": "lib1.so", "debug_file": "lib1.so", "debug_id": debug_id(1)});
    dump(&json!({"os": "windows", "cpu": "x86_64", "modules": [module], "threads": [{"id": 7, "frames": [[0x10014, "context"], [0x10018, "cfi"]]}]}), 0, &[])
}
fn a_report() -> Vec<u8> {
    json!({"metadata": {}, "timestamp": null, "binary_images": [{"addr": 0x10000, "size": 0x1000, "uuid": "00000000-0000-0000-0000-00000000abc1", "name": "lib1", "path": "/Lib/lib1"}], "threads": [{"id": 0, "frames": [{"instruction_addr": 0x10014, "module": "lib1"}]}]}).to_string().into_bytes()
}
/// A field of a form: not there, a value, or not what it should be.
#[derive(Clone, Debug, PartialEq)]
enum Field {
    Absent,
    Is(Value),
    /// with this many bytes
    Padded(Value, usize),
    Broken,
}
use Field::*;
const MEGA: usize = 1 << 20;
impl Field {
    fn bytes(&self) -> Option<Vec<u8>> {
        match self {
            Absent => None,
            Is(v) => Some(v.to_string().into_bytes()),
            Padded(v, n) => {
                let mut s = v.to_string().into_bytes();
                s.resize(*n, b' ');
                Some(s)
            }
            Broken => Some(b"{\"broken".to_vec()),
        }
    }
    fn value(&self) -> Option<Value> {
        match self {
            Is(v) | Padded(v, _) => Some(v.clone()),
            _ => None,
        }
    }
    fn status(&self) -> u16 {
        match self {
            Broken => 400,
            Padded(_, n) if *n > MEGA => 413,
            _ => 200,
        }
    }
}
/// All combinations of values, and every defect with every other one.
fn forms(fields: &[(&'static str, Vec<Value>)]) -> Vec<Vec<(&'static str, Field)>> {
    let mut all: Vec<Vec<(&str, Field)>> = vec![vec![]];
    for (name, values) in fields {
        all = all
            .into_iter()
            .flat_map(|f| {
                std::iter::once(Absent).chain(values.iter().cloned().map(Is)).map(move |v| {
                    let mut f = f.clone();
                    f.push((*name, v));
                    f
                })
            })
            .collect();
    }
    for (i, (name, values)) in fields.iter().enumerate() {
        let bad = [Broken, Padded(values[0].clone(), MEGA), Padded(values[0].clone(), MEGA + 1), Padded(values[0].clone(), 3 * MEGA)];
        for b in &bad {
            all.push(vec![(name, b.clone())]);
            for (other, values) in &fields[i + 1..] {
                for c in [Is(values[0].clone()), Broken, Padded(values[0].clone(), MEGA + 1)] {
                    all.push(vec![(name, b.clone()), (other, c)]);
                }
            }
        }
    }
    all
}
/// A form whose upload is the field `upload`.
fn uploads(check: &Check, uri: &str, upload: &'static str, good: Vec<u8>, forms: Vec<Vec<(&'static str, Field)>>, direct: impl Fn(&RequestService, &Scratch, &[u8], &dyn Fn(&str) -> Option<Value>, Scope) -> Option<symbolicator::service::RequestId> + Sync) {
    let placements = 3;
    vmc::parallel(forms.len() * placements, |i| {
        if check.saturated() {
            return;
        }
        let (form_fields, placement) = (&forms[i / placements], i % placements);
        let q = QUERIES[(i / placements) % QUERIES.len()];
        let uri = format!("{uri}{}", q.0);
        // the upload comes first, last, or twice and the last one counts
        let mut fields: Vec<(&str, Vec<u8>)> = form_fields.iter().filter_map(|(n, f)| Some((*n, f.bytes()?))).collect();
        match placement {
            0 => fields.insert(0, (upload, good.clone())),
            1 => {
                fields.insert(0, ("unknown", b"{{".to_vec()));
                fields.push((upload, good.clone()));
            }
            _ => {
                fields.insert(0, (upload, b"nothing".to_vec()));
                fields.push((upload, good.clone()));
            }
        }
        let k = || format!("POST {uri} {form_fields:?}, placement {placement}").chars().take(600).collect::<String>();
        let bad = form_fields.iter().map(|(_, f)| f.status()).find(|s| *s != 200);
        axum::extract::CHUNK.with(|c| c.set([8192, 1 << 22, 100][(i / 3) % 3]));
        match bad {
            None => {
                let get = |n: &str| form_fields.iter().find(|f| f.0 == n).and_then(|f| f.1.value());
                same(check, &k, &uri, FORM, form(&fields), |svc, s| direct(svc, s, &good, &get, scope(q.1)), q.2);
            }
            Some(status) => refused(check, &k, &uri, form(&fields), status),
        }
    });
    // without an upload, or with something else
    let short = form(&[(upload, good.clone())]);
    let mut cases: Vec<(String, Vec<u8>, u16)> = vec![("nothing".into(), form(&[]), 400), ("another field".into(), form(&[("upload", good.clone()), ("options", b"{}".to_vec())]), 400)];
    for n in [0, 3, 20, short.len() / 2, short.len() - good.len().min(40), short.len() - 14] {
        cases.push((format!("the first {n} bytes"), short[..n].to_vec(), 400));
    }
    if upload == "upload_file_minidump" {
        for (what, b) in [("dashes", &b"--"[..]), ("a form", &short[..])] {
            cases.push((what.to_string(), form(&[(upload, b.to_vec())]), 400));
            cases.push((format!("{what} after another"), form(&[(upload, good.clone()), (upload, b.to_vec())]), 400));
        }
    }
    for (what, body, status) in cases {
        refused(check, &|| format!("POST {uri}: {what}"), uri, body, status);
    }
}
/// The request is answered with an error, and nothing is left of it.
fn refused(check: &Check, k: &(dyn Fn() -> String + Sync), uri: &str, body: Vec<u8>, status: u16) {
    check.trace();
    check.transition(1);
    check.state(vmc::hash64(&k()));
    check.guarded(k, || {
        let scratch = Scratch::new("c46r");
        ctl::run(&scratch.0, async {
            network();
            let (_svc, app) = service(config(&scratch, None, true));
            let before = traces(&scratch);
            let r = ask(&app, "POST", uri, FORM, body).await;
            ctl::settle().await;
            check.expect(k, "status", &r.status, &status);
            check.expect(k, "says why", &r.json()["detail"].as_str().is_some_and(|s| !s.is_empty()), &true);
            check.expect(k, "requests and files", &traces(&scratch), &before);
        });
    });
}

fn minidumps(check: &Check) {
    let fields = [
        ("sources", vec![json!([http_source("given")]), json!([])]),
        ("scraping", vec![json!({"enabled": false, "allowed_origins": ["*"], "headers": {}}), json!({"enabled": true, "verify_ssl": false, "allowed_origins": ["links.example.com"], "headers": {"x-key": "k"}})]),
        ("options", vec![json!({"dif_candidates": true}), json!({"apply_source_context": false})]),
        ("platform", vec![json!("native")]),
        ("rewrite_first_module", vec![json!([{"from": "lib1", "to": "lib2"}])]),
    ];
    uploads(check, "/minidump", "upload_file_minidump", a_dump(), forms(&fields), |svc, scratch, bytes, get, scope| {
        let path = scratch.0.join("a.dmp");
        std::fs::write(&path, bytes).unwrap();
        let request = ProcessMinidump {
            platform: read(&get("platform"), None),
            scope,
            minidump_file: tempfile::TempPath::from_path(path),
            sources: chosen(&get("sources")),
            scraping: read(&get("scraping"), Default::default()),
            rewrite_first_module: read(&get("rewrite_first_module"), Default::default()),
        };
        svc.process_minidump(request, options(&get("options"))).ok()
    });
}
fn apple(check: &Check) {
    let fields = [
        ("sources", vec![json!([http_source("given")]), json!([])]),
        ("scraping", vec![json!({"enabled": false, "allowed_origins": ["*"], "headers": {}}), json!({"enabled": true, "verify_ssl": false, "allowed_origins": ["links.example.com"], "headers": {"x-key": "k"}})]),
        ("options", vec![json!({"dif_candidates": true}), json!({"apply_source_context": false})]),
        ("platform", vec![json!("cocoa")]),
    ];
    uploads(check, "/applecrashreport", "apple_crash_report", a_report(), forms(&fields), |svc, scratch, bytes, get, scope| {
        let path = scratch.0.join("report");
        std::fs::write(&path, bytes).unwrap();
        let file = std::fs::File::open(&path).unwrap();
        svc.process_apple_crash_report(read(&get("platform"), None), scope, file, chosen(&get("sources")), read(&get("scraping"), Default::default()), options(&get("options"))).ok()
    });
}

const POSTS: [(&str, &str); 5] = [("/symbolicate", JSON), ("/symbolicate-js", JSON), ("/symbolicate-jvm", JSON), ("/minidump", FORM), ("/applecrashreport", FORM)];
fn valid(path: &str) -> Vec<u8> {
    match path {
        "/symbolicate" => b"{}".to_vec(),
        "/symbolicate-js" => json!({"source": {"id": "sentry", "url": "http://sentry.example.com/lookup/", "token": "t"}}).to_string().into_bytes(),
        "/symbolicate-jvm" => b"{\"sources\":[]}".to_vec(),
        "/minidump" => form(&[("upload_file_minidump", a_dump())]),
        _ => form(&[("apple_crash_report", a_report())]),
    }
}
/// Sizes of bodies around the limits.
fn limits(check: &Check) {
    for (path, content_type) in POSTS {
        let limit = if path == "/symbolicate" { 5 } else { 100 } * MEGA;
        let sizes = [limit - 1, limit, limit + 1, limit + MEGA, 5 * MEGA + 1];
        vmc::parallel(sizes.len(), |i| {
            let size = sizes[i];
            let mut body = valid(path);
            let pad = size - body.len();
            if content_type == JSON {
                body.extend(std::iter::repeat_n(b' ', pad));
            } else {
                // more of an unknown field in front
                let head = b"--XYZ\r\nContent-Disposition: form-data; name=\"unknown\"\r\n\r\n";
                let mut b = head.to_vec();
                b.extend(std::iter::repeat_n(b' ', pad - head.len() - 2));
                b.extend(b"\r\n");
                b.extend(body);
                body = b;
            }
            let k = || format!("POST {path}: {size} bytes");
            check.trace();
            check.state(vmc::hash64(&k()));
            check.guarded(k, || {
                let scratch = Scratch::new("c46l");
                ctl::run(&scratch.0, async {
                    network();
                    let (_svc, app) = service(config(&scratch, None, true));
                    let r = ask(&app, "POST", path, content_type, body).await;
                    if size <= limit {
                        check.expect(k, "status", &(r.status, r.json()["status"].clone()), &(200, json!("completed")));
                    } else if content_type == JSON {
                        check.expect(k, "status", &r.status, &413);
                    } else if size > limit + 64 * 1024 {
                        // what follows the end of the form is not read
                        check.expect(k, "an error", &(r.status >= 400), &true);
                    }
                });
            });
        });
    }
}

/// There is room for so many requests.
fn busy(check: &Check) {
    for limit in [0, 1, 2] {
        for (path, content_type) in POSTS {
            let k = || format!("POST {path} with {limit} requests running of {limit}");
            check.trace();
            check.transition(1);
            check.state(vmc::hash64(&k()));
            check.guarded(k, || {
                let scratch = Scratch::new("c46m");
                ctl::run(&scratch.0, async {
                    wire::install(|_| Wire::Gate("x".into()));
                    let (_svc, app) = service(config(&scratch, Some(limit), true));
                    let frames = Some(json!([{"frames": [{"instruction_addr": "0x10018"}]}]));
                    let modules = Some(json!([{"type": "pe", "debug_id": debug_id(1), "code_file": "lib1.so", "debug_file": "lib1.so", "image_addr": "0x10000", "image_size": 4096}]));
                    let body = object(&[("stacktraces", &frames), ("modules", &modules)]).to_string().into_bytes();
                    for _ in 0..limit {
                        let r = ask(&app, "POST", "/symbolicate?timeout=0", JSON, body.clone()).await;
                        check.expect(k, "there is room", &r.status, &200);
                    }
                    ctl::settle().await;
                    let before = traces(&scratch)["files"].clone();
                    let r = ask(&app, "POST", path, content_type, valid(path)).await;
                    ctl::settle().await;
                    check.expect(k, "answer", &(r.status, r.json()), &(503, json!({"detail": "maximum number of concurrent requests reached"})));
                    check.expect(k, "files", &traces(&scratch)["files"], &before);
                });
            });
        }
    }
}

/// All lists of up to four polls of a request and of unknown ones.
fn polls(check: &Check) {
    let n = vmc::explore_parallel(1, |ch| {
        if check.saturated() {
            return false;
        }
        let scratch = Scratch::new("c46p");
        let mut log = vec![];
        let mut bad: Option<(String, Value, Value)> = None;
        let r = vmc::no_panic(|| {
            ctl::run(&scratch.0, async {
                network();
                let finished = json!({"done": true});
                let gate = |h: &reqwest::Hop| Wire::Gate(h.url.to_string());
                wire::install(gate);
                let (_svc, app) = service(config(&scratch, None, true));
                let frames = Some(json!([{"frames": [{"instruction_addr": "0x10018"}]}]));
                let modules = Some(json!([{"type": "pe", "debug_id": debug_id(1), "code_file": "lib1.so", "debug_file": "lib1.so", "image_addr": "0x10000", "image_size": 4096}]));
                let body = object(&[("stacktraces", &frames), ("modules", &modules)]).to_string().into_bytes();
                let r = ask(&app, "POST", "/symbolicate?timeout=5", JSON, body).await;
                let id = r.json()["request_id"].as_str().unwrap_or_default().to_string();
                let pending = json!({"status": "pending", "request_id": id, "retry_after": 30});
                if (r.status, r.json()) != (200, pending.clone()) {
                    bad = Some(("submission".into(), r.json(), pending));
                    return;
                }
                let mut done = false;
                let mut waiting: Vec<tokio::task::JoinHandle<Answer>> = vec![];
                for _ in 0..4 {
                    let (method, path, query) = [("GET", id.as_str(), ""), ("GET", &id, "?timeout=0"), ("GET", &id, "?timeout=50"), ("HEAD", &id, "?timeout=0"), ("GET", "00000000-0000-0000-0000-000000000000", ""), ("GET", "nonsense", ""), ("GET", &id, "?timeout=x"), ("POST", &id, ""), ("", "", "")][ch.choose(9)];
                    if method.is_empty() {
                        log.push("the end".to_string());
                        if done {
                            return;
                        }
                        wire::install(|_| Wire::status(404));
                        while !ctl::waiting().is_empty() {
                            ctl::answer(0, Wire::status(404));
                            ctl::settle().await;
                        }
                        done = true;
                        for w in waiting.drain(..) {
                            let r = w.await.unwrap();
                            if (r.status, &r.json()["status"]) != (200, &json!("completed")) {
                                bad = bad.take().or(Some((log.join(", "), r.json(), finished.clone())));
                            }
                        }
                        continue;
                    }
                    if !done && method == "GET" && path == id && query.is_empty() {
                        log.push("GET the request".to_string());
                        let (app, uri) = (app.clone(), format!("/requests/{id}"));
                        let w = tokio::spawn(async move { ask(&app, "GET", &uri, "", vec![]).await });
                        ctl::pass(Duration::from_secs(100)).await;
                        if w.is_finished() {
                            bad = bad.take().or(Some((log.join(", "), json!("an answer"), json!("waits for the end"))));
                        }
                        waiting.push(w);
                        continue;
                    }
                    log.push(format!("{method} {}{query}", if path == id { "the request" } else { path }));
                    let r = ask(&app, method, &format!("/requests/{path}{query}"), "", vec![]).await;
                    let got = (if (path, r.status) == ("nonsense", 400) { 404 } else { r.status }, if r.status == 200 && r.json()["status"] == "completed" { finished.clone() } else if r.status == 200 { r.json() } else { Value::Null });
                    let want = match (method, path, query) {
                        ("POST", ..) => (405, Value::Null),
                        (_, _, "?timeout=x") => (400, Value::Null),
                        (_, p, _) if p != id => (404, Value::Null),
                        ("HEAD", ..) => (200, json!("")),
                        _ if done => (200, finished.clone()),
                        _ => (200, pending.clone()),
                    };
                    if got != want {
                        bad = bad.take().or(Some((log.join(", "), json!([got.0, got.1]), json!([want.0, want.1]))));
                    }
                }
            })
        });
        check.trace();
        check.state(vmc::hash64(&log));
        check.transition(log.len() as u64);
        if let Err(p) = r {
            check.fail(&format!("polls: {}: panic", log.join(", ")), json!({"panic": p}));
        }
        if let Some((k, got, want)) = bad {
            check.fail(&format!("polls: {k}"), json!({"observed": got, "expected": want}));
        }
        true
    });
    check.extra("lists_of_polls", n);
}

/// Which paths there are for which methods.
fn routes(check: &Check) {
    let paths = ["/", "", "/healthcheck", "/healthcheck/", "/symbolicate", "/symbolicate/", "/symbolicate/x", "/symbolicate-js", "/symbolicate-jvm", "/minidump", "/applecrashreport", "/requests", "/requests/", "/requests/a/b", "/requests/00000000-0000-0000-0000-000000000001", "/proxy", "/proxy/", "/proxy/a", "/proxy/a/b/c", "/other", "/SYMBOLICATE"];
    for path in paths {
        for method in ["GET", "HEAD", "POST", "PUT", "DELETE", "OPTIONS", "PATCH"] {
            let k = || format!("{method} {path}");
            check.trace();
            check.transition(1);
            check.state(vmc::hash64(&k()));
            check.guarded(k, || {
                let scratch = Scratch::new("c46u");
                ctl::run(&scratch.0, async {
                    network();
                    let (_svc, app) = service(config(&scratch, None, true));
                    let post = POSTS.iter().find(|p| p.0 == path);
                    let r = ask(&app, method, &format!("http://server{path}"), post.map_or("", |p| p.1), post.map_or(vec![], |p| valid(p.0))).await;
                    let reads = matches!(method, "GET" | "HEAD");
                    let want = match path {
                        "/healthcheck" => if reads { 200 } else { 405 },
                        "/requests/00000000-0000-0000-0000-000000000001" | "/proxy/a" | "/proxy/a/b/c" => if reads { 404 } else { 405 },
                        _ if post.is_some() => if method == "POST" { 200 } else { 405 },
                        _ => 404,
                    };
                    check.expect(k, "status", &r.status, &want);
                    if path == "/healthcheck" && method == "GET" {
                        check.expect(k, "body", &r.body, &b"ok".to_vec());
                    }
                });
            });
        }
    }
}

/// Files by the symbol server's names.
fn proxy(check: &Check) {
    #[derive(Clone, Copy, Debug, PartialEq)]
    enum Out {
        Good,
        Missing,
        Denied,
        Failing,
        Refused,
        Malformed,
    }
    use Out::*;
    let id = debug_id(1);
    let (coded, other) = ("00000000000000000000000000000000abcdef01", debug_id(2));
    // the path, the path it is asked for at the source
    let low = |s: &str| s.to_lowercase();
    let paths: Vec<(String, Option<String>)> = vec![
        (format!("lib1.pdb/{id}/lib1.pdb"), Some(format!("{}/{}/debuginfo", low(&id[..2]), low(&id[2..])))),
        (format!("lib1.pdb/{}/LIB1.PDB", low(&id)), Some(format!("{}/{}/debuginfo", low(&id[..2]), low(&id[2..])))),
        (format!("lib1.pdb/{id}/lib2.pdb"), None),
        ("lib1.pdb/nonsense/lib1.pdb".into(), None),
        (format!("lib1.pdb/{id}"), None),
        (format!("lib1.pdb/{id}/lib1.pdb/more"), None),
        (format!("_.debug/elf-buildid-sym-{coded}/_.debug"), Some(format!("{}/{}/debuginfo", &coded[..2], &coded[2..]))),
        (format!("_.debug/ELF-buildid-sym-{}/_.debug", coded.to_uppercase()), Some(format!("{}/{}/debuginfo", &coded[..2], &coded[2..]))),
        (format!("lib1.so/elf-buildid-{coded}/lib1.so"), Some(format!("{}/{}/executable", &coded[..2], &coded[2..]))),
        (format!("lib1.pdb/{other}/lib1.pdb"), None),
        ("x".into(), None),
    ];
    for (enabled, sources) in [(true, true), (true, false), (false, true)] {
        for (path, at) in &paths {
            for out in [Good, Missing, Denied, Failing, Refused, Malformed] {
                for method in ["GET", "HEAD"] {
                    let k = || format!("{method} /proxy/{path}, enabled {enabled}, sources {sources}, {out:?}");
                    check.trace();
                    check.transition(1);
                    check.state(vmc::hash64(&k()));
                    check.guarded(k, || {
                        let scratch = Scratch::new("c46x");
                        ctl::run(&scratch.0, async {
                            let text: Vec<u8> = format!("MODULE Linux x86_64 {} lib1.so\nINFO CODE_ID {}\nFUNC 10 20 0 f1\n10 8 1 0\n{}", debug_id(1), coded.to_uppercase(), "PUBLIC 60 0 p\n".repeat(9000)).into_bytes();
                            let (at2, text2) = (at.clone(), text.clone());
                            wire::take_hops();
                            wire::install(move |h| {
                                if Some(&h.url.path()[1..]) != at2.as_deref() {
                                    return Wire::status(404);
                                }
                                match out {
                                    Good => Wire::ok(200, &text2),
                                    Missing => Wire::status(404),
                                    Denied => Wire::status(403),
                                    Failing => Wire::status(500),
                                    Refused => Wire::Refused,
                                    Malformed => Wire::ok(200, b"no object"),
                                }
                            });
                            let mut c = config(&scratch, None, enabled);
                            if !sources {
                                c.sources = vec![].into();
                            }
                            let (svc, app) = service(c);
                            for round in 0..2 {
                                let r = ask(&app, method, &format!("/proxy/{path}"), "", vec![]).await;
                                let k = || format!("{}, time {round}", k());
                                let exists = enabled && sources && at.is_some() && out != Missing;
                                if !enabled || !sources {
                                    check.expect(k, "requests", &wire::take_hops().len(), &0);
                                }
                                if exists && out == Good {
                                    check.expect(k, "status", &r.status, &200);
                                    check.expect(k, "length", &r.headers.get("content-length").and_then(|v| v.to_str().ok()), &Some(text.len().to_string().as_str()));
                                    check.expect(k, "type", &r.headers.get("content-type").and_then(|v| v.to_str().ok()), &Some("application/octet-stream"));
                                    check.expect(k, "body", &(r.body == if method == "GET" { text.clone() } else { vec![] }), &true);
                                } else if exists {
                                    check.expect(k, "status", &r.status, &500);
                                    check.expect(k, "detail", &r.json()["detail"], &json!("failed to download object"));
                                } else {
                                    check.expect(k, "status", &(r.status, r.body.len()), &(404, 0));
                                }
                            }
                            // they are now where everyone finds them
                            if let (true, Some((filetypes, identifier))) = (enabled && sources, symbolicator_sources::parse_symstore_path(path)) {
                                wire::take_hops();
                                let find = FindObject { filetypes, identifier, sources: vec![source(http_source("default"))].into(), scope: Scope::Global, purpose: ObjectPurpose::Debug };
                                let found = svc.find_object(find).await;
                                check.expect(k, "found again", &found.meta.is_some_and(|m| m.handle.is_ok()), &(out == Good && at.is_some()));
                                check.expect(k, "requests", &wire::take_hops().len(), &0);
                            }
                        });
                    });
                }
            }
        }
    }
}
