//! Which minified file and which source map a frame of a JavaScript stack trace is resolved with.
use crate::ctl;
use crate::download::source;
use crate::fixture::zip;
use crate::wire::{self, Wire};
use std::collections::BTreeMap;
use std::sync::Arc;
use std::time::Duration;
use symbolicator_js::interface::{CompletedJsSymbolicationResponse, JsFrame, JsModule, JsModuleType, JsStacktrace, SymbolicateJsStacktraces};
use symbolicator_js::SourceMapService;
use symbolicator_service::config::Config;
use symbolicator_service::services::SharedServices;
use symbolicator_service::types::{Scope, ScrapingConfig};
use symbolicator_sources::{SentrySourceConfig, SourceConfig};
use vmc::serde_json::{json, Value};
use vmc::{Check, Scratch};

pub const LOOKUP: &str = "http://sentry.example.com/lookup/";
const ID: &str = "00000abc-0000-0000-0000-000000000001";

/// Where in a bundle a file is. A file by identifier and a file by address are different ones.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Place {
    Nowhere,
    Id,
    Url(usize),
    Both(usize),
}
use Place::*;
impl Place {
    fn id(self) -> bool {
        matches!(self, Id | Both(_))
    }
    fn url(self) -> Option<usize> {
        match self {
            Url(n) | Both(n) => Some(n),
            _ => None,
        }
    }
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum State {
    /// not in the answers of the API
    Absent,
    Missing,
    Broken,
    Good,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
struct Bundle {
    state: State,
    min: Place,
    map: Place,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Single {
    Absent,
    Good(usize),
    /// 404
    Missing(usize),
    /// 404, and there are headers
    Empty(usize),
    Failing(usize),
}
impl Single {
    fn place(self) -> Option<usize> {
        match self {
            Single::Absent => None,
            Single::Good(n) | Single::Missing(n) | Single::Empty(n) | Single::Failing(n) => Some(n),
        }
    }
}
/// How a minified file refers to its map.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Link {
    Not,
    Comment,
    Data,
    BadData,
    Header,
    /// a header, and a comment with something else
    Over,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Api {
    /// everything is listed always
    All,
    /// bundles by identifier only, files by release only
    Split,
    Failing,
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
struct World {
    bundles: [Bundle; 2],
    min: Single,
    map: Single,
    web: [bool; 2],
    link: Link,
    /// the map of bundles and files is no map
    malformed: bool,
    /// files say in a comment what their identifier is
    says: bool,
    api: Api,
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
struct Request {
    id: bool,
    release: Option<&'static str>,
    scraping: bool,
}

const PAGE: &str = "http://web.example.com/js/app.js?v=1#f";
const MAP: &str = "http://web.example.com/js/app.js.map?v=1";
/// Queries of addresses in comments are ignored.
const PLAIN: &str = "http://web.example.com/js/app.js.map";
/// Which of the candidates an address has.
fn own(page: &str) -> &'static [usize] {
    if page == PLAIN {
        &[1, 3]
    } else {
        &[0, 1, 2, 3]
    }
}
fn candidates(of: &str) -> [&'static str; 4] {
    if of == PAGE {
        ["http://web.example.com/js/app.js?v=1", "http://web.example.com/js/app.js", "~/js/app.js?v=1", "~/js/app.js"]
    } else {
        ["http://web.example.com/js/app.js.map?v=1", "http://web.example.com/js/app.js.map", "~/js/app.js.map?v=1", "~/js/app.js.map"]
    }
}
fn map(marker: &str) -> String {
    json!({"version": 3, "sources": ["orig.js"], "names": [], "mappings": "AAAA", "sourcesContent": [format!("src:{marker}\n")]}).to_string()
}
impl World {
    fn min_text(&self, marker: &str) -> String {
        let mut s = format!("min:{marker}\n");
        match self.link {
            Link::Comment => s += "//# sourceMappingURL=app.js.map?v=1\n",
            Link::Over => s += "//# sourceMappingURL=other.js.map\n",
            Link::Data => s += &format!("//# sourceMappingURL=data:application/json,{}\n", map(&format!("data-{marker}"))),
            Link::BadData => s += "//# sourceMappingURL=data:nonsense\n",
            _ => {}
        }
        if self.says {
            s += &format!("//# debugId={ID}\n");
        }
        s
    }
    fn map_text(&self, marker: &str) -> String {
        if self.malformed {
            return "this is no map".into();
        }
        map(marker)
    }
    fn headers(&self, header: &str) -> BTreeMap<String, String> {
        let mut h = BTreeMap::new();
        if matches!(self.link, Link::Header | Link::Over) {
            h.insert(header.to_string(), "app.js.map?v=1".to_string());
        }
        h
    }
    fn bundle(&self, i: usize) -> Vec<u8> {
        let b = self.bundles[i];
        let mut files: Vec<(String, String)> = vec![];
        let mut manifest = BTreeMap::new();
        let n = ["A", "B"][i];
        let mut add = |marker: String, ty: &str, url: Option<String>, mut headers: BTreeMap<String, String>, text: String| {
            let name = format!("files/{marker}");
            if url.is_none() {
                headers.insert("debug-id".into(), ID.into());
            }
            // those by identifier have an address that is not asked for
            manifest.insert(name.clone(), json!({"type": ty, "url": url.unwrap_or_else(|| format!("~/elsewhere/{marker}")), "headers": headers}));
            files.push((name, text));
        };
        for (of, place) in [("min", b.min), ("map", b.map)] {
            let (ty, page) = if of == "min" { ("minified_source", PAGE) } else { ("source_map", MAP) };
            let headers = if of == "min" { self.headers("sourcemap") } else { BTreeMap::new() };
            let text = |m: &str| if of == "min" { self.min_text(m) } else { self.map_text(m) };
            if place.id() {
                let m = format!("{n}-{of}-id");
                add(m.clone(), ty, None, headers.clone(), text(&m));
            }
            if let Some(u) = place.url() {
                let m = format!("{n}-{of}-url");
                add(m.clone(), ty, Some(candidates(page)[u].into()), headers, text(&m));
            }
        }
        files.push(("manifest.json".into(), json!({"files": manifest}).to_string()));
        let mut z = b"SYSB\x02\0\0\0".to_vec();
        let files: Vec<(&str, &[u8])> = files.iter().map(|f| (f.0.as_str(), f.1.as_bytes())).collect();
        z.extend(zip(&files, true));
        z
    }
    /// What the API lists: bundles, then files.
    fn listed(&self, by_id: bool, by_release: Option<&str>) -> (Vec<usize>, Vec<&'static str>) {
        let (mut b, mut f) = (vec![], vec![]);
        let some = |x: bool| self.api == Api::All || x;
        for i in 0..2 {
            let release = match by_release {
                Some("a") => i == 0,
                Some("b") => i == 1,
                _ => true,
            };
            if self.bundles[i].state != State::Absent && some(by_id) && release {
                b.push(i);
            }
        }
        if some(by_release.is_some()) {
            for (n, s) in [("min", self.min), ("map", self.map)] {
                if s != Single::Absent {
                    f.push(n);
                }
            }
        }
        (b, f)
    }
    fn single(&self, n: &str) -> (Single, &'static str) {
        if n == "min" {
            (self.min, PAGE)
        } else {
            (self.map, MAP)
        }
    }
    fn serve(&self, url: &url::Url) -> Wire {
        let q: BTreeMap<String, String> = url.query_pairs().into_owned().collect();
        match (url.host_str().unwrap(), url.path()) {
            ("sentry.example.com", "/lookup/") if q.contains_key("download") => {
                let d = q["download"].as_str();
                match d {
                    "A" | "B" => {
                        let i = (d == "B") as usize;
                        match self.bundles[i].state {
                            State::Good => Wire::ok(200, &self.bundle(i)),
                            State::Broken => Wire::ok(200, b"no bundle"),
                            _ => Wire::status(404),
                        }
                    }
                    n => match self.single(n).0 {
                        Single::Good(_) => Wire::ok(200, (if n == "min" { self.min_text("single") } else { self.map_text("single") }).as_bytes()),
                        Single::Failing(_) => Wire::status(500),
                        _ => Wire::status(404),
                    },
                }
            }
            ("sentry.example.com", "/lookup/") if self.api == Api::Failing => Wire::status(500),
            ("sentry.example.com", "/lookup/") => {
                let (b, f) = self.listed(q.get("debug_id").is_some_and(|d| d == ID), q.get("release").map(String::as_str).filter(|_| q.contains_key("url")));
                let mut list: Vec<Value> = vec![];
                for n in f {
                    let (s, page) = self.single(n);
                    let mut h = if n == "min" { self.headers("SourceMap") } else { BTreeMap::new() };
                    if matches!(s, Single::Empty(_)) {
                        h.insert("X".into(), "y".into());
                    }
                    list.push(json!({"type": "file", "id": n, "url": format!("{LOOKUP}?download={n}"), "abs_path": candidates(page)[s.place().unwrap()], "headers": h, "resolved_with": "release-old"}));
                }
                for i in b {
                    let n = ["A", "B"][i];
                    list.push(json!({"type": "bundle", "id": n, "url": format!("{LOOKUP}?download={n}"), "resolved_with": if i == 0 { "release" } else { "index" }}));
                }
                Wire::ok(200, json!(list).to_string().as_bytes())
            }
            ("web.example.com", "/js/app.js") if self.web[0] => Wire::ok(200, self.min_text("web").as_bytes()),
            ("web.example.com", "/js/app.js.map") if self.web[1] => Wire::ok(200, map("web").as_bytes()),
            _ => Wire::status(404),
        }
    }
}

/// A file as the lookup finds it.
#[derive(Clone, Debug)]
struct Found {
    /// what the origin is shown as
    origin: Value,
    resolved: &'static str,
    /// the marker of its contents (none: it is empty)
    text: Result<Option<String>, &'static str>,
    /// a file whose identifier is read from its text
    reads_id: bool,
    link: Option<Link>,
}
/// The rules by which files are found.
struct Rules<'a> {
    w: &'a World,
    r: &'a Request,
    bundles: Vec<usize>,
    singles: bool,
    attempts: Vec<(String, String)>,
}
impl Rules<'_> {
    fn file(&self, n: &str, id: bool, page: Option<&str>, known: &str) -> Value {
        let _ = known;
        let mut k = serde_map();
        if let Some(p) = page {
            k.insert("abs_path".into(), json!(p));
        }
        if id {
            k.insert("debug_id".into(), json!(ID));
        }
        json!({ n: k })
    }
    fn known(&self, of: &str, page: Option<&'static str>, id: bool) -> Option<Found> {
        let ty = if of == "min" { "minified_source" } else { "source_map" };
        let link = |header: bool| -> Option<Link> {
            if of == "map" || self.w.link == Link::Not || (header && !matches!(self.w.link, Link::Header | Link::Over)) {
                return None;
            }
            Some(self.w.link)
        };
        let make = |i: usize, how: &str, resolved| {
            let n = ["A", "B"][i];
            Found {
                origin: json!({"bundled": [format!("sentry://project_debug_file/{n}"), self.file(ty, id, page, "")]}),
                resolved,
                text: if of == "min" && self.w.link == Link::BadData { Err("malformed") } else { Ok(Some(format!("{n}-{of}-{how}"))) },
                reads_id: false,
                link: link(false),
            }
        };
        let place = |i: usize| {
            let b = self.w.bundles[i];
            match b.state {
                State::Good if of == "min" => b.min,
                State::Good => b.map,
                _ => Nowhere,
            }
        };
        let mut order = self.bundles.clone();
        order.sort_by(|a, b| b.cmp(a));
        if id {
            for i in &order {
                if place(*i).id() {
                    return Some(make(*i, "id", "debug-id"));
                }
            }
        }
        let page = page?;
        for c in own(page) {
            for i in &order {
                if place(*i).url() == Some(*c) {
                    return Some(make(*i, "url", ["release", "index"][*i]));
                }
            }
        }
        if self.singles {
            let (s, _) = self.w.single(of);
            let header = of == "min" && matches!(self.w.link, Link::Header | Link::Over);
            let f = |text, header| Found { origin: json!({"individual_file": format!("sentry://project_debug_file/{of}")}), resolved: "release-old", text, reads_id: true, link: link(header).filter(|l| *l != Link::BadData) };
            return match s {
                s if s.place().is_none_or(|n| !own(page).contains(&n)) => None,
                Single::Absent => None,
                Single::Good(_) => Some(f(Ok(Some("single".into())), false)),
                Single::Empty(_) => Some(f(Ok(None), true)),
                Single::Missing(_) if header => Some(f(Ok(None), true)),
                Single::Missing(_) => Some(f(Err("missing"), false)),
                Single::Failing(_) => Some(f(Err("failing"), false)),
            };
        }
        None
    }
    fn get(&mut self, of: &str, page: Option<&'static str>, id: bool) -> Found {
        let mut f = self.known(of, page, id);
        if f.is_none() && self.w.api != Api::Failing && (id || (page.is_some() && self.r.release.is_some())) {
            let (b, s) = self.w.listed(id, self.r.release.filter(|_| page.is_some()));
            for i in b {
                if !self.bundles.contains(&i) {
                    self.bundles.push(i);
                }
            }
            self.singles |= !s.is_empty();
            f = self.known(of, page, id);
        }
        let nothing = |text| Found { origin: json!(null), resolved: "scraping", text, reads_id: true, link: None };
        let Some(page) = page else { return f.unwrap_or(nothing(Err("missing"))) };
        if let Some(f) = f {
            self.attempts.push((page.into(), "not_attempted".into()));
            return f;
        }
        if !self.r.scraping {
            self.attempts.push((page.into(), "disabled".into()));
            return nothing(Err("disabled"));
        }
        let there = self.w.web[(of == "map") as usize];
        self.attempts.push((page.into(), if there { "success" } else { "not_found" }.into()));
        let mut f = nothing(if there { Ok(Some("web".into())) } else { Err("missing") });
        f.origin = json!({ "scraped_file": page.split('#').next() });
        f.link = (of == "min" && matches!(self.w.link, Link::Comment | Link::Data | Link::Over)).then_some(self.w.link);
        f
    }
}
fn serde_map() -> vmc::serde_json::Map<String, Value> {
    Default::default()
}

/// What is to be seen in the response.
fn expected(w: &World, r: &Request) -> Value {
    let mut x = Rules { w, r, bundles: vec![], singles: false, attempts: vec![] };
    let mut out = json!({"raw": null, "mapped": null, "error": null, "sourcemap": null, "origin": null, "resolved": null, "raw origin": null, "raw resolved": null});
    let min = x.get("min", Some(PAGE), r.id);
    let finish = |x: Rules, mut out: Value| {
        out["attempts"] = json!(x.attempts);
        out
    };
    let text = match &min.text {
        Err(e) => {
            // the map is looked for by its identifier all the same
            if r.id {
                x.get("map", None, true);
            }
            out["error"] = json!(if *e == "disabled" { "scraping_disabled" } else { "missing_source" });
            return finish(x, out);
        }
        Ok(t) => t.clone(),
    };
    if let Some(t) = &text {
        out["raw"] = json!(format!("min:{t}"));
        out["mapped"] = out["raw"].clone();
    }
    let id = r.id || (min.reads_id && text.is_some() && w.says);
    let label = match min.link {
        Some(Link::Comment) => PLAIN,
        Some(Link::Header) => MAP,
        Some(Link::Over) if matches!(min.origin.get("scraped_file"), Some(_)) => "http://web.example.com/js/other.js.map",
        Some(Link::Over) => MAP,
        _ => PAGE,
    };
    let map = match min.link {
        Some(Link::Data) => Found { origin: json!("embedded"), resolved: min.resolved, text: Ok(Some(format!("data-{}", text.clone().unwrap()))), reads_id: false, link: None },
        Some(_) if label == MAP => x.get("map", Some(MAP), id),
        Some(_) if label == PLAIN => x.get("map", Some(PLAIN), id),
        // another address, at which there is nothing but what has the same identifier
        Some(_) => other(&mut x, id),
        None if id => x.get("map", None, id),
        None => {
            return finish(x, out);
        }
    };
    match &map.text {
        Err("disabled") => out["error"] = json!("scraping_disabled"),
        Err(_) => out["error"] = json!("missing_sourcemap"),
        Ok(t) if t.is_none() || (w.malformed && map.origin != json!("embedded") && map.origin.get("scraped_file").is_none()) => {
            out["error"] = json!("malformed_sourcemap");
            out["raw origin"] = map.origin.clone();
            out["raw resolved"] = json!(map.resolved);
        }
        Ok(t) => {
            out["mapped"] = json!(format!("src:{}", t.clone().unwrap()));
            out["sourcemap"] = json!(label);
            out["origin"] = map.origin.clone();
            out["resolved"] = json!(map.resolved);
        }
    }
    finish(x, out)
}
/// A map with an address that nothing has.
fn other(x: &mut Rules, id: bool) -> Found {
    let page = "http://web.example.com/js/other.js.map";
    let w = World { map: Single::Absent, web: [x.w.web[0], false], bundles: x.w.bundles.map(|b| Bundle { map: if b.map.id() { Id } else { Nowhere }, ..b }), ..x.w.clone() };
    let mut y = Rules { w: &w, r: x.r, bundles: x.bundles.clone(), singles: false, attempts: vec![] };
    let f = y.get("map", Some(page), id);
    x.attempts.extend(y.attempts);
    f
}

/// What was seen.
fn seen(r: &CompletedJsSymbolicationResponse) -> Value {
    let raw = &r.raw_stacktraces[0].frames[0];
    let frame = &r.stacktraces[0].frames[0];
    let v = |x: &dyn Fn() -> Value| x();
    let origin = |f: &JsFrame| {
        let mut o = json!(f.data.sourcemap_origin);
        if let Some(u) = o.get("scraped_file").and_then(|u| u.as_str()) {
            o = json!({ "scraped_file": u.split('#').next() });
        }
        o
    };
    let attempts: Vec<(String, String)> = r
        .scraping_attempts
        .iter()
        .map(|a| {
            let j = json!(a);
            let s = j["status"].as_str().unwrap();
            (a.url.clone(), if s == "failure" { j["reason"].as_str().unwrap().to_string() } else { s.to_string() })
        })
        .collect();
    let errors: Vec<Value> = r.errors.iter().map(|e| v(&|| json!(json!(e)["type"]))).collect();
    json!({
        "raw": raw.context_line, "mapped": frame.context_line,
        "error": match errors.len() { 0 => Value::Null, 1 => errors[0].clone(), _ => json!(errors) },
        "sourcemap": frame.data.sourcemap,
        "origin": if frame.data.symbolicated { origin(frame) } else { Value::Null },
        "resolved": if frame.data.symbolicated { json!(frame.data.resolved_with) } else { Value::Null },
        "raw origin": origin(raw), "raw resolved": raw.data.resolved_with,
        "attempts": attempts,
    })
}
pub fn sentry() -> Arc<SentrySourceConfig> {
    match source(json!({"type": "sentry", "id": "sentry", "url": LOOKUP, "token": "secret"})) {
        SourceConfig::Sentry(s) => s,
        _ => unreachable!(),
    }
}
pub fn service(scratch: &Scratch) -> SourceMapService {
    let c = Config { cache_dir: Some(scratch.0.join("cache")), ..Config::default() };
    SourceMapService::new(&SharedServices::new(c, tokio::runtime::Handle::current()).unwrap())
}
async fn ask(svc: &SourceMapService, r: &Request) -> Value {
    let frame = JsFrame { abs_path: PAGE.into(), lineno: 1, colno: Some(1), ..Default::default() };
    let request = SymbolicateJsStacktraces {
        platform: None,
        scope: Scope::Scoped("1".into()),
        source: sentry(),
        release: r.release.map(String::from),
        dist: None,
        stacktraces: vec![JsStacktrace { frames: vec![frame] }],
        modules: if r.id { vec![JsModule { r#type: JsModuleType::Sourcemap, code_file: PAGE.into(), debug_id: ID.into() }] } else { vec![] },
        scraping: ScrapingConfig { enabled: r.scraping, ..Default::default() },
        apply_source_context: true,
    };
    seen(&svc.symbolicate_js(request).await)
}
fn compare(check: &Check, k: impl Fn() -> String + Copy, what: &str, got: &Value, want: &Value) {
    for (n, w) in want.as_object().unwrap() {
        check.expect(k, &format!("{what}: {n}"), &got[n].to_string(), &w.to_string());
    }
}
/// What is sent where.
fn hops(check: &Check, k: &dyn Fn() -> String, scraping: bool) {
    for h in wire::take_hops() {
        let own = h.url.as_str().starts_with(LOOKUP);
        let auth = h.headers.contains_key("authorization");
        check.expect(k, "a token is sent to Sentry and nobody else", &auth, &own);
        check.expect(k, "the web is asked only if that is allowed", &(own || scraping), &true);
    }
}
fn requests() -> Vec<Request> {
    let mut v = vec![];
    for id in [true, false] {
        for release in [Some("r"), None] {
            for scraping in [true, false] {
                v.push(Request { id, release, scraping });
            }
        }
    }
    v
}
fn one(check: &Check, w: &World, r: &Request) {
    let k = || format!("{w:?}\n{r:?}");
    check.guarded(k, || {
        let scratch = Scratch::new("c35");
        ctl::run(&scratch.0, async {
            let w2 = w.clone();
            wire::install(move |h| w2.serve(&h.url));
            wire::take_hops();
            let got = ask(&service(&scratch), r).await;
            let want = expected(w, r);
            compare(check, k, "response", &got, &want);
            hops(check, &k, r.scraping);
            check.state(vmc::hash64(&want.to_string()));
        });
    });
    check.transition(1);
    check.eval(Some(vmc::hash64(&k())));
    check.sample(|| json!({"world": format!("{w:?}"), "request": format!("{r:?}"), "expected": expected(w, r)}));
}
const BAD: [Bundle; 3] = [
    Bundle { state: State::Absent, min: Id, map: Id },
    Bundle { state: State::Missing, min: Id, map: Id },
    Bundle { state: State::Broken, min: Id, map: Id },
];

pub fn c35() {
    let check = Check::new(
        "C35",
        "model_checking",
        "all places of a minified file and of its source map in two bundles, as single files and on the web, all kinds of references, all requests; histories of up to three requests of one service; orders of arrival of two requests",
    );
    check.assume("the network is a scripted server behind a stand-in of the HTTP client; source maps are read by a stand-in of the reader of source maps");
    check.assume("identifiers of the files of Sentry are unique");
    minified(&check);
    maps(&check);
    histories(&check);
    together(&check);
    check.finish()
}
fn minified(check: &Check) {
    let mut b = BAD.to_vec();
    for min in [Nowhere, Id, Url(0), Url(1), Url(2), Url(3), Both(0), Both(3)] {
        b.push(Bundle { state: State::Good, min, map: Nowhere });
    }
    let mut s = vec![Single::Absent];
    for n in [0, 1, 2, 3] {
        s.extend([Single::Good(n), Single::Missing(n), Single::Empty(n), Single::Failing(n)]);
    }
    vmc::parallel(b.len() * b.len(), |x| {
        for min in &s {
            for web in [true, false] {
                for api in [Api::All, Api::Split, Api::Failing] {
                    for says in [false, true] {
                        let w = World { bundles: [b[x / b.len()], b[x % b.len()]], min: *min, map: Single::Absent, web: [web, false], link: Link::Not, malformed: false, says, api };
                        if (api == Api::Failing && (x > 2 || *min != Single::Absent)) || (says && !(matches!(min, Single::Good(0)) || *min == Single::Absent && web)) {
                            continue;
                        }
                        for r in requests() {
                            one(check, &w, &r);
                        }
                    }
                }
            }
        }
    });
}
fn maps(check: &Check) {
    // where the minified file is
    let b = |min, map| Bundle { state: State::Good, min, map };
    let mins: [(Place, Place, Single, bool); 7] = [
        (Id, Nowhere, Single::Absent, false),
        (Nowhere, Url(0), Single::Absent, false),
        (Url(3), Nowhere, Single::Absent, false),
        (Nowhere, Nowhere, Single::Good(0), false),
        (Nowhere, Nowhere, Single::Empty(2), false),
        (Nowhere, Nowhere, Single::Missing(1), true),
        (Nowhere, Nowhere, Single::Absent, true),
    ];
    let links = [Link::Not, Link::Comment, Link::Data, Link::BadData, Link::Header, Link::Over];
    let places = [Nowhere, Id, Url(0), Url(1), Both(3)];
    let singles = [Single::Absent, Single::Good(0), Single::Good(3), Single::Missing(1), Single::Empty(2), Single::Failing(3)];
    vmc::parallel(mins.len() * links.len() * places.len() * places.len(), |mut x| {
        let mut next = |n: usize| {
            let r = x % n;
            x /= n;
            r
        };
        let (m, link, p, q) = (mins[next(7)], links[next(6)], places[next(5)], places[next(5)]);
        for map in singles {
            for web in [true, false] {
                for (malformed, says) in [(false, false), (false, true), (true, false)] {
                    for api in [Api::All, Api::Split] {
                        // only those that are read say something
                        if (says && !matches!(m.2, Single::Good(_)) && !m.3) || (malformed && api == Api::Split) {
                            continue;
                        }
                        let w = World { bundles: [b(m.0, p), b(m.1, q)], min: m.2, map, web: [m.3, web], link, malformed, says, api };
                        for r in requests() {
                            one(check, &w, &r);
                        }
                    }
                }
            }
        }
    });
}
/// What was asked before is of no importance.
fn histories(check: &Check) {
    let mut requests = vec![];
    for id in [true, false] {
        for release in ["a", "b", "r"] {
            requests.push(Request { id, release: Some(release), scraping: true });
        }
    }
    let n = requests.len();
    let places = [Nowhere, Id, Url(0), Url(3), Both(2)];
    let maps = [Nowhere, Id, Url(1), Both(3)];
    let depth = if check.thorough() { 3 } else { 2 };
    vmc::parallel(5 * 5 * 4 * 4, |mut x| {
        let mut next = |n: usize| {
            let r = x % n;
            x /= n;
            r
        };
        let b = [(places[next(5)], maps[next(4)]), (places[next(5)], maps[next(4)])];
        for malformed in [false, true] {
            let w = World {
                bundles: b.map(|(min, map)| Bundle { state: State::Good, min, map }),
                min: Single::Absent,
                map: Single::Absent,
                web: [true, true],
                link: Link::Comment,
                malformed,
                says: false,
                api: Api::All,
            };
            for mut h in 0..n.pow(depth) {
                let seq: Vec<&Request> = (0..depth)
                    .map(|_| {
                        let r = &requests[h % n];
                        h /= n;
                        r
                    })
                    .collect();
                let k = || format!("{w:?}\none after the other: {seq:?}");
                check.guarded(k, || {
                    let scratch = Scratch::new("c35h");
                    ctl::run(&scratch.0, async {
                        let w2 = w.clone();
                        wire::install(move |h| w2.serve(&h.url));
                        let svc = service(&scratch);
                        for (i, r) in seq.iter().enumerate() {
                            let got = ask(&svc, r).await;
                            compare(check, k, &format!("response {i}"), &got, &expected(&w, r));
                        }
                    });
                });
                check.transition(depth as u64);
                check.eval(Some(vmc::hash64(&k())));
            }
        }
    });
    // bundles that cannot be had for a while
    let times = [0, 50 * 60, 70 * 60, 130 * 60];
    vmc::parallel(5 * 4 * 27, |mut x| {
        let mut next = |n: usize| {
            let r = x % n;
            x /= n;
            r
        };
        let (min, map) = (places[next(5)], maps[next(4)]);
        let states = [0; 3].map(|_| [State::Good, State::Missing, State::Broken][next(3)]);
        for id in [true, false] {
            for disk in [false, true] {
                for mut t in 0..times.len().pow(2) {
                    let gaps = [0; 2].map(|_| {
                        let r = times[t % times.len()];
                        t /= times.len();
                        r
                    });
                    let world = |state| World {
                        bundles: [Bundle { state, min, map }, BAD[0]],
                        min: Single::Absent,
                        map: Single::Absent,
                        web: [false, false],
                        link: Link::Comment,
                        malformed: false,
                        says: false,
                        api: Api::All,
                    };
                    let k = || format!("{:?}, a bundle that is {states:?}, {gaps:?} s between requests, by identifier {id}, on disk {disk}", (min, map));
                    check.guarded(k, || {
                        let scratch = Scratch::new("c35t");
                        ctl::run(&scratch.0, async {
                            let mut c = Config { cache_dir: Some(scratch.0.join("cache")), ..Config::default() };
                            if !disk {
                                c.cache_dir = None;
                            }
                            let svc = SourceMapService::new(&SharedServices::new(c, tokio::runtime::Handle::current()).unwrap());
                            let r = Request { id, release: Some("r"), scraping: true };
                            for (i, s) in states.iter().enumerate() {
                                if i > 0 {
                                    ctl::pass(Duration::from_secs(gaps[i - 1])).await;
                                }
                                let w = world(*s);
                                wire::install(move |h| w.serve(&h.url));
                                let got = ask(&svc, &r).await;
                                // the state may be an earlier one, but there is one
                                let any: Vec<Value> = states[..=i].iter().map(|s| expected(&world(*s), &r)).collect();
                                check.expect(k, &format!("response {i} is that of a state of the bundle: {got}"), &any.contains(&got), &true);
                            }
                        });
                    });
                    check.transition(3);
                    check.eval(Some(vmc::hash64(&k())));
                }
            }
        }
    });
}
/// Two requests at the same time.
fn together(check: &Check) {
    let b = |min, map| Bundle { state: State::Good, min, map };
    let worlds = [[b(Id, Url(1)), b(Url(1), Id)], [b(Url(2), Url(3)), b(Both(0), Both(1))], [b(Nowhere, Id), b(Nowhere, Nowhere)]];
    let pairs = [("a", true, "b", true), ("a", false, "b", false), ("r", true, "a", false), ("b", true, "b", true)];
    vmc::parallel(worlds.len() * pairs.len(), |x| {
        let (bundles, p) = (worlds[x % worlds.len()], pairs[x / worlds.len()]);
        let w = World { bundles, min: Single::Absent, map: Single::Absent, web: [true, true], link: Link::Comment, malformed: false, says: false, api: Api::All };
        let requests = [Request { id: p.1, release: Some(p.0), scraping: true }, Request { id: p.3, release: Some(p.2), scraping: true }];
        vmc::explore(|ch| {
            let order = std::cell::RefCell::new(vec![]);
            let k = || format!("{w:?}\nat the same time: {requests:?}\nanswers: {:?}", order.borrow());
            check.guarded(k, || {
                let scratch = Scratch::new("c35p");
                ctl::run(&scratch.0, async {
                    wire::install(|h| Wire::Gate(h.url.to_string()));
                    let svc = service(&scratch);
                    let tasks = requests.clone().map(|r| {
                        let svc = svc.clone();
                        tokio::spawn(async move { ask(&svc, &r).await })
                    });
                    loop {
                        ctl::settle().await;
                        if tasks.iter().all(|t| t.is_finished()) {
                            break;
                        }
                        let waiting = ctl::waiting();
                        if waiting.is_empty() {
                            ctl::pass(Duration::from_millis(25)).await;
                            continue;
                        }
                        let i = ch.choose(waiting.len());
                        order.borrow_mut().push(waiting[i].clone());
                        let u: url::Url = waiting[i].parse().unwrap();
                        ctl::answer(i, w.serve(&u));
                    }
                    for (t, r) in tasks.into_iter().zip(&requests) {
                        let got = t.await.unwrap();
                        compare(check, k, &format!("response to {r:?}"), &got, &expected(&w, r));
                    }
                });
            });
            check.transition(order.borrow().len() as u64);
            check.eval(Some(vmc::hash64(&k())));
            !check.saturated()
        });
    });
}
