//! What is fetched from the web for JavaScript stack traces, and how.
use crate::ctl;
use crate::fixture::zip;
use crate::js::{sentry, LOOKUP};
use crate::wire::{self, Wire};
use std::net::{IpAddr, Ipv4Addr};
use std::sync::{Arc, Mutex};
use std::time::Duration;
use symbolicator_js::interface::{CompletedJsSymbolicationResponse, JsFrame, JsStacktrace, SymbolicateJsStacktraces};
use symbolicator_js::SourceMapService;
use symbolicator_service::config::Config;
use symbolicator_service::services::SharedServices;
use symbolicator_service::types::{Scope, ScrapingConfig};
use symbolicator_service::utils::http::is_valid_origin;
use vmc::serde_json::json;
use vmc::{Check, Scratch};

pub fn c36() {
    let check = Check::new(
        "C36",
        "model_checking",
        "all lists of up to two patterns x addresses; all kinds of addresses x settings x answers for the minified file and the map it refers to; all edges of reserved networks x ways to get there; all histories of up to three requests",
    );
    check.assume("the network is a scripted server behind a stand-in of the HTTP client, which applies the filter and the redirect policy that the code configures");
    origins(&check);
    flow(&check);
    uploaded(&check);
    token(&check);
    addresses(&check);
    history(&check);
    check.finish()
}

#[derive(Clone, Debug)]
struct Pattern {
    scheme: Option<&'static str>,
    /// as it is written, what it means, and whether subdomains match
    domain: (&'static str, &'static str, bool),
    port: Option<u16>,
    path: Option<&'static str>,
}
impl Pattern {
    fn text(&self) -> String {
        let mut s = String::new();
        if let Some(x) = self.scheme {
            s += x;
            s += "://";
        }
        s += self.domain.0;
        if let Some(p) = self.port {
            s += &format!(":{p}");
        }
        if let Some(p) = self.path {
            s += p;
        }
        s
    }
    fn matches(&self, u: &Addr) -> bool {
        let port = u.port.unwrap_or(if u.scheme == "https" { 443 } else { 80 });
        self.scheme.is_none_or(|s| s == "*" || s == u.scheme)
            && match self.domain {
                ("*", ..) => true,
                (_, d, true) => u.host.1 == d || u.host.1.ends_with(&format!(".{d}")),
                (_, d, false) => u.host.1 == d,
            }
            && self.port.is_none_or(|p| p == port)
            && self.path.is_none_or(|p| u.path.starts_with(p.trim_end_matches('*')))
    }
}
#[derive(Clone, Debug)]
struct Addr {
    scheme: &'static str,
    host: (&'static str, &'static str),
    port: Option<u16>,
    path: &'static str,
}
const DOMAINS: [(&str, &str, bool); 8] = [
    ("*", "", false),
    ("example.com", "example.com", false),
    ("EXAMPLE.Com", "example.com", false),
    ("*.example.com", "example.com", true),
    ("www.example.com", "www.example.com", false),
    ("b\u{fc}cher.example.com", "xn--bcher-kva.example.com", false),
    ("*.b\u{fc}cher.example.com", "xn--bcher-kva.example.com", true),
    ("127.0.0.1", "127.0.0.1", false),
];
const HOSTS: [(&str, &str); 8] = [
    ("example.com", "example.com"),
    ("Example.com", "example.com"),
    ("www.example.com", "www.example.com"),
    ("notexample.com", "notexample.com"),
    ("a.b.example.com", "a.b.example.com"),
    ("b\u{fc}cher.example.com", "xn--bcher-kva.example.com"),
    ("x.xn--bcher-kva.example.com", "x.xn--bcher-kva.example.com"),
    ("127.0.0.1", "127.0.0.1"),
];
fn origins(check: &Check) {
    let mut patterns = vec![];
    for scheme in [None, Some("http"), Some("https"), Some("*")] {
        for domain in DOMAINS {
            for port in [None, Some(80), Some(8000)] {
                for path in [None, Some("/"), Some("/js"), Some("/js/*"), Some("/*")] {
                    // not documented
                    if domain.2 && (port.is_some() || path.is_some()) {
                        continue;
                    }
                    patterns.push(Pattern { scheme, domain, port, path });
                }
            }
        }
    }
    let mut addrs = vec![];
    for scheme in ["http", "https"] {
        for host in HOSTS {
            for port in [None, Some(80), Some(443), Some(8000)] {
                for path in ["/", "/js/app.js", "/other/js/app.js", "/jsx"] {
                    addrs.push(Addr { scheme, host, port, path });
                }
            }
        }
    }
    let urls: Vec<url::Url> = addrs.iter().map(|a| format!("{}://{}{}{}?q=1", a.scheme, a.host.0, a.port.map_or(String::new(), |p| format!(":{p}")), a.path).parse().unwrap()).collect();
    let n = patterns.len();
    let step = if check.thorough() { 1 } else { 7 };
    vmc::parallel(n + 1, |i| {
        for j in (0..=n).filter(|j| *j == n || (i < n && j % step == i % step)) {
            let list: Vec<&Pattern> = [i, j].iter().filter(|i| **i < n).map(|i| &patterns[*i]).collect();
            for order in 0..list.len().max(1) {
                let mut list = list.clone();
                if order == 1 {
                    list.reverse();
                }
                let texts: Vec<String> = list.iter().map(|p| p.text()).collect();
                for (a, u) in addrs.iter().zip(&urls) {
                    let k = || format!("{u} with {texts:?}");
                    check.guarded(k, || {
                        check.expect(k, "allowed", &is_valid_origin(u, &texts), &list.iter().any(|p| p.matches(a)));
                    });
                }
                check.transition(urls.len() as u64);
                check.eval(Some(vmc::hash64(&texts)));
            }
        }
        if i < n {
            // an exact address, with and without something that is no pattern
            for u in &urls {
                for with in [false, true] {
                    let mut texts = vec![u.to_string()];
                    if with {
                        texts.insert(0, "xn--\u{80}".into());
                    }
                    check.expect(|| format!("{u} with {texts:?}"), "an exact match is allowed", &is_valid_origin(u, &texts), &true);
                }
                check.expect(|| format!("{u}"), "everything is allowed", &is_valid_origin(u, &["nothing.org".into(), "*".into()]), &true);
                if i == 0 {
                    check.eval(Some(vmc::hash64(u)));
                }
            }
        }
    });
}

/// Where an address leads to by the rules.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Kind {
    /// host, secure
    Web(&'static str, bool),
    Local(&'static str),
    /// a reserved address
    Inside,
    Scheme(&'static str),
    /// no address at all
    None,
}
const PLACES: [(&str, Kind); 12] = [
    ("http://web.example.com/js/app.js", Kind::Web("web.example.com", false)),
    ("https://web.example.com/js/app.js?x=y#z", Kind::Web("web.example.com", true)),
    ("https://cdn.example.org:8443/app.js", Kind::Web("cdn.example.org", true)),
    ("http://localhost/app.js", Kind::Local("localhost")),
    ("http://127.0.0.1:8000/app.js", Kind::Local("127.0.0.1")),
    ("http://10.0.0.1/app.js", Kind::Inside),
    ("http://inside.example.com/app.js", Kind::Inside),
    ("ftp://web.example.com/app.js", Kind::Scheme("ftp")),
    ("app:///app.js", Kind::Scheme("app")),
    ("file:///app.js", Kind::Scheme("file")),
    ("/var/www/app.js", Kind::None),
    ("<anonymous>", Kind::None),
];
#[derive(Clone, Copy, Debug, PartialEq)]
enum Answer {
    Good,
    Empty,
    Status(u16),
    Refused,
    Hang,
    /// to a good place / to a login page from Azure
    Moved,
}
use Answer::*;
const ANSWERS: [Answer; 10] = [Good, Empty, Status(404), Status(410), Status(403), Status(401), Status(500), Refused, Hang, Moved];
impl Answer {
    fn wire(self, body: &str) -> Wire {
        match self {
            Good => Wire::ok(200, body.as_bytes()),
            Empty => Wire::ok(200, b""),
            Status(s) => Wire::status(s),
            Refused => Wire::Refused,
            Hang => Wire::Hang,
            Moved => Wire::status(301).header("location", "http://moved.example.net/file"),
        }
    }
    fn attempt(self) -> &'static str {
        match self {
            Good | Moved => "success",
            Empty | Status(404 | 410) => "not_found",
            Status(401 | 403) => "permission_denied",
            Hang => "timeout",
            _ => "download_error",
        }
    }
}
fn reserved(host: &str) -> Vec<IpAddr> {
    match host {
        "localhost" => vec![Ipv4Addr::LOCALHOST.into()],
        "inside.example.com" => vec![Ipv4Addr::new(10, 1, 2, 3).into()],
        h => vec![h.parse().unwrap_or(Ipv4Addr::new(93, 184, 216, 34).into())],
    }
}
fn frame(path: &str, lineno: u32) -> JsFrame {
    JsFrame { abs_path: path.into(), lineno, colno: Some(1), ..Default::default() }
}
fn request(frames: Vec<JsFrame>, scraping: ScrapingConfig, scope: &str) -> SymbolicateJsStacktraces {
    SymbolicateJsStacktraces {
        platform: None,
        scope: Scope::Scoped(scope.into()),
        source: sentry(),
        release: None,
        dist: None,
        stacktraces: vec![JsStacktrace { frames }],
        modules: vec![],
        scraping,
        apply_source_context: true,
    }
}
fn make(scratch: &Scratch, reserved_ips: bool, disk: bool) -> SourceMapService {
    let c = Config { cache_dir: disk.then(|| scratch.0.join("cache")), connect_to_reserved_ips: reserved_ips, ..Config::default() };
    SourceMapService::new(&SharedServices::new(c, tokio::runtime::Handle::current()).unwrap())
}
fn attempts(r: &CompletedJsSymbolicationResponse) -> Vec<(String, String)> {
    r.scraping_attempts
        .iter()
        .map(|a| {
            let j = json!(a);
            let s = j["status"].as_str().unwrap();
            (a.url.clone(), if s == "failure" { j["reason"].as_str().unwrap().to_string() } else { s.to_string() })
        })
        .collect()
}
const MAP_TEXT: &str = r#"{"version":3,"sources":["orig.js"],"names":[],"mappings":"AAAA","sourcesContent":["mapped\n"]}"#;
/// host names that are allowed
const LISTS: [&[&str]; 4] = [&["*"], &[], &["web.example.com", "localhost", "10.0.0.1", "inside.example.com", "*:8000"], &["*.example.org"]];
fn listed(list: usize, kind: Kind, url: &str) -> bool {
    match list {
        0 => true,
        1 => false,
        2 => matches!(kind, Kind::Web("web.example.com", _) | Kind::Inside | Kind::Local(_)),
        _ => url.contains("example.org"),
    }
}
/// How an attempt ends, and whether anybody is asked.
fn verdict(kind: Kind, url: &str, enabled: bool, list: usize, reserved: bool, a: Answer) -> (Option<&'static str>, bool) {
    match kind {
        Kind::None => (None, false),
        _ if !enabled => (Some("disabled"), false),
        Kind::Scheme(_) => (Some("invalid_host"), false),
        _ if !listed(list, kind, url) => (Some("invalid_host"), false),
        Kind::Local(_) if !reserved => (Some("invalid_host"), false),
        Kind::Inside if !reserved => (Some("download_error"), false),
        _ => (Some(a.attempt()), true),
    }
}
fn flow(check: &Check) {
    // the map is at one of these, too
    let n = PLACES.len();
    vmc::parallel(n * (n + 1), |x| {
        let (place, map) = (PLACES[x % n], (x / n < n).then(|| PLACES[x / n]));
        for enabled in [true, false] {
            for list in 0..LISTS.len() {
                for reserved_ips in [false, true] {
                    for verify in [true, false] {
                        for header in [false, true] {
                            let (first, reaches) = verdict(place.1, place.0, enabled, list, reserved_ips, Good);
                            let answers: Vec<(Answer, Answer)> = match (reaches, map) {
                                (false, None) => vec![(Good, Good)],
                                (false, Some(_)) => continue,
                                (true, None) => ANSWERS.iter().map(|a| (*a, Good)).collect(),
                                // where it leads must have an address that can be written in a comment
                                (true, Some(m)) if m.1 == Kind::None || m.0.contains('?') => continue,
                                (true, Some(m)) if verdict(m.1, m.0, enabled, list, reserved_ips, Good).1 => ANSWERS.iter().map(|a| (Good, *a)).collect(),
                                (true, Some(_)) => vec![(Good, Good)],
                            };
                            let _ = first;
                            for a in answers {
                                one(check, place, map, enabled, list, reserved_ips, verify, header, a);
                            }
                        }
                    }
                }
            }
        }
    });
}
#[allow(clippy::too_many_arguments)]
fn one(check: &Check, place: (&'static str, Kind), map: Option<(&'static str, Kind)>, enabled: bool, list: usize, reserved_ips: bool, verify: bool, header: bool, a: (Answer, Answer)) {
    let k = || format!("{place:?}, map {map:?}, enabled {enabled}, origins {:?}, inside {reserved_ips}, verify {verify}, header {header}, answers {a:?}", LISTS[list]);
    check.guarded(k, || {
        let scratch = Scratch::new("c36");
        ctl::run(&scratch.0, async {
            // the same address for both: it is a map to begin with
            let same = map.is_some_and(|m| m.0 == place.0);
            let body = format!("minified\n{}", map.map_or(String::new(), |m| format!("//# sourceMappingURL={}\n", m.0)));
            let strip = |u: &str| u.split('#').next().unwrap().to_string();
            wire::install_with(
                move |h| {
                    let u = strip(h.url.as_str());
                    if u.starts_with("http://moved") {
                        // redirected
                        return Wire::ok(200, if a.0 == Moved { body.as_bytes() } else { MAP_TEXT.as_bytes() });
                    }
                    if u == strip(place.0) {
                        return a.0.wire(&body);
                    }
                    if map.is_some_and(|m| u == strip(m.0)) {
                        return a.1.wire(MAP_TEXT);
                    }
                    Wire::status(404)
                },
                reserved,
            );
            let svc = make(&scratch, reserved_ips, true);
            let mut scraping = ScrapingConfig { enabled, verify_ssl: verify, allowed_origins: LISTS[list].iter().map(|s| s.to_string()).collect(), ..Default::default() };
            if header {
                scraping.headers.insert("X-Sentry-Token".into(), "hidden".into());
            }
            // several frames of a file, some with the mark of old SDKs
            let frames = vec![frame(place.0, 1), frame(&format!("async {}", place.0), 1), frame(place.0, 0)];
            let r = svc.symbolicate_js(request(frames, scraping, "1")).await;
            let hops = wire::take_hops();

            let mut want = vec![];
            let mut asked = vec![];
            let (v, reaches) = verdict(place.1, place.0, enabled, list, reserved_ips, a.0);
            if let Some(v) = v {
                want.push((place.0.to_string(), v.to_string()));
            }
            if reaches {
                asked.push((strip(place.0), a.0));
            }
            let mut error = match v {
                Some("success") => None,
                Some("disabled") => Some("scraping_disabled"),
                _ => Some("missing_source"),
            };
            if let (None, Some(m)) = (error, map) {
                let (v, reaches) = if same { verdict(m.1, m.0, enabled, list, reserved_ips, Good) } else { verdict(m.1, m.0, enabled, list, reserved_ips, a.1) };
                if let Some(v) = v {
                    want.push((m.0.to_string(), v.to_string()));
                }
                if reaches && !same {
                    asked.push((strip(m.0), a.1));
                }
                error = match v {
                    Some("success") if same => Some("malformed_sourcemap"),
                    Some("success") => None,
                    _ => Some("missing_sourcemap"),
                };
            }
            check.expect(k, "attempts", &attempts(&r), &want);
            let mut errors: Vec<String> = r.errors.iter().map(|e| json!(e)["type"].as_str().unwrap().to_string()).collect();
            errors.sort();
            let mut want_errors = vec!["invalid_location".to_string()];
            want_errors.extend(error.map(String::from));
            want_errors.sort();
            check.expect(k, "errors", &errors, &want_errors);
            let line = match (&error, map) {
                (None, Some(_)) => Some("mapped"),
                (Some("missing_sourcemap" | "malformed_sourcemap"), _) | (None, None) => Some("minified"),
                _ => None,
            };
            let lines: Vec<Option<&str>> = r.stacktraces[0].frames.iter().map(|f| f.context_line.as_deref()).collect();
            check.expect(k, "lines", &lines, &vec![line, line, None]);

            // requests
            let mut seen: Vec<String> = hops.iter().map(|h| strip(h.url.as_str())).collect();
            seen.dedup();
            let mut urls = vec![];
            for (u, a) in &asked {
                urls.push(u.clone());
                if *a == Moved {
                    urls.push("http://moved.example.net/file".into());
                }
            }
            // connection failures do not get to the server
            check.expect(k, "requests", &seen, &urls);
            for h in &hops {
                let has = h.headers.get("x-sentry-token").map(|v| v.to_str().unwrap().to_string());
                check.expect(k, "header", &has, &header.then(|| "hidden".to_string()));
                check.expect(k, "certificates are checked", &!h.accept_invalid_certs, &verify);
                check.expect(k, "addresses are filtered", &h.ip_filtered, &!reserved_ips);
                check.expect(k, "no token of Sentry", &h.headers.contains_key("authorization"), &false);
            }
            check.state(vmc::hash64(&(want, errors)));
        });
    });
    check.transition(1);
    check.eval(Some(vmc::hash64(&k())));
    check.sample(|| json!({"case": k()}));
}

/// The minified file has been uploaded; its map or its source has to be fetched by the same rules.
fn uploaded(check: &Check) {
    const PAGE: &str = "http://up.example.com/js/min.js";
    let n = PLACES.len();
    let usable = |p: (&str, Kind)| p.1 != Kind::None && !p.0.contains('?');
    vmc::parallel((n + 1) * (n + 1), |x| {
        let (map, source) = ((x % (n + 1) < n).then(|| PLACES[x % (n + 1)]), (x / (n + 1) < n).then(|| PLACES[x / (n + 1)]));
        if map == source && map.is_some() || !map.is_none_or(usable) || !source.is_none_or(usable) {
            return;
        }
        for enabled in [true, false] {
            for list in 0..LISTS.len() {
                for reserved_ips in [false, true] {
                    for set in [false, true] {
                        for a in [(Good, Good), (Good, Empty), (Good, Status(403)), (Good, Refused), (Status(404), Good), (Empty, Good)] {
                            let (map_result, map_asked) = map.map_or((None, false), |m| verdict(m.1, m.0, enabled, list, reserved_ips, a.0));
                            let found = map.is_none() || map_result == Some("success");
                            let (source_result, source_asked) = if found { source.map_or((None, false), |m| verdict(m.1, m.0, enabled, list, reserved_ips, a.1)) } else { (None, false) };
                            if a.0 != Good && !map_asked || a.1 != Good && !source_asked {
                                continue;
                            }
                            let k = || format!("uploaded file, map {map:?}, source {source:?}, enabled {enabled}, origins {:?}, inside {reserved_ips}, no verification and header {set}, answers {a:?}", LISTS[list]);
                            check.guarded(k, || {
                                let scratch = Scratch::new("c36u");
                                ctl::run(&scratch.0, async {
                                    let reference = map.map_or("app.js.map", |m| m.0);
                                    let text = json!({"version": 3, "sources": [source.map_or("orig.js", |s| s.0)], "names": [], "mappings": "AAAA", "sourcesContent": [if source.is_some() { None } else { Some("original\n") }]}).to_string();
                                    let mut manifest = json!({"files/min": {"type": "minified_source", "url": PAGE, "headers": {"sourcemap": reference}}});
                                    let mut files: Vec<(&str, &[u8])> = vec![("files/min", b"minified\n")];
                                    if map.is_none() {
                                        manifest["files/map"] = json!({"type": "source_map", "url": "http://up.example.com/js/app.js.map"});
                                        files.push(("files/map", text.as_bytes()));
                                    }
                                    let manifest = json!({"files": manifest}).to_string();
                                    files.push(("manifest.json", manifest.as_bytes()));
                                    let mut bundle = b"SYSB\x02\0\0\0".to_vec();
                                    bundle.extend(zip(&files, true));
                                    let text2 = text.clone();
                                    wire::install_with(
                                        move |h| {
                                            let u = h.url.as_str().split('#').next().unwrap();
                                            if h.url.query() == Some("bundle") {
                                                return Wire::ok(200, &bundle);
                                            }
                                            if u.starts_with(LOOKUP) {
                                                return Wire::ok(200, json!([{"type": "bundle", "id": "1", "url": format!("{LOOKUP}?bundle")}]).to_string().as_bytes());
                                            }
                                            if map.is_some_and(|m| m.0 == u) {
                                                return a.0.wire(&text2);
                                            }
                                            if source.is_some_and(|m| m.0 == u) {
                                                return a.1.wire("original\n");
                                            }
                                            Wire::status(404)
                                        },
                                        reserved,
                                    );
                                    let svc = make(&scratch, reserved_ips, true);
                                    let mut scraping = ScrapingConfig { enabled, verify_ssl: !set, allowed_origins: LISTS[list].iter().map(|s| s.to_string()).collect(), ..Default::default() };
                                    if set {
                                        scraping.headers.insert("X-Sentry-Token".into(), "hidden".into());
                                    }
                                    let mut r = request(vec![frame(PAGE, 1)], scraping, "1");
                                    r.release = Some("1.0".into());
                                    let r = svc.symbolicate_js(r).await;
                                    let hops = wire::take_hops();
                                    let mut want = vec![(PAGE.to_string(), "not_attempted".to_string())];
                                    if map.is_none() {
                                        want.push(("http://up.example.com/js/app.js.map".into(), "not_attempted".into()));
                                    }
                                    want.extend(map.zip(map_result).map(|(m, r)| (m.0.to_string(), r.to_string())));
                                    want.extend(source.zip(source_result).map(|(m, r)| (m.0.to_string(), r.to_string())));
                                    check.expect(k, "attempts", &attempts(&r), &want);
                                    let errors: Vec<String> = r.errors.iter().map(|e| json!(e)["type"].as_str().unwrap().to_string()).collect();
                                    let (error, line) = match (found, map_result, source, source_result) {
                                        (false, Some("disabled"), ..) => (Some("scraping_disabled"), Some("minified")),
                                        (false, ..) => (Some("missing_sourcemap"), Some("minified")),
                                        (true, _, None, _) | (true, _, _, Some("success")) => (None, Some("original")),
                                        _ => (Some("missing_source_content"), None),
                                    };
                                    check.expect(k, "errors", &errors, &error.into_iter().map(String::from).collect());
                                    check.expect(k, "line", &r.stacktraces[0].frames[0].context_line.as_deref(), &line);
                                    let mut asked: Vec<&str> = vec![];
                                    asked.extend(map.filter(|_| map_asked).map(|m| m.0));
                                    asked.extend(source.filter(|_| source_asked).map(|m| m.0));
                                    let (own, web): (Vec<_>, Vec<_>) = hops.iter().partition(|h| h.url.as_str().starts_with(LOOKUP));
                                    let mut seen: Vec<&str> = web.iter().map(|h| h.url.as_str().split('#').next().unwrap()).collect();
                                    seen.dedup();
                                    check.expect(k, "requests", &seen, &asked);
                                    for h in &web {
                                        let has = h.headers.get("x-sentry-token").map(|v| v.to_str().unwrap().to_string());
                                        check.expect(k, "header", &has, &set.then(|| "hidden".to_string()));
                                        check.expect(k, "certificates are checked", &h.accept_invalid_certs, &set);
                                        check.expect(k, "addresses are filtered", &h.ip_filtered, &!reserved_ips);
                                        check.expect(k, "no token of Sentry", &h.headers.contains_key("authorization"), &false);
                                    }
                                    for h in &own {
                                        check.expect(k, "nothing for the web in requests to Sentry", &h.headers.contains_key("x-sentry-token"), &false);
                                        check.expect(k, "certificates of Sentry are checked", &h.accept_invalid_certs, &false);
                                        check.expect(k, "token", &h.headers.get("authorization").map(|v| v.to_str().unwrap().to_string()), &Some("Bearer secret".to_string()));
                                    }
                                });
                            });
                            check.transition(1);
                            check.eval(Some(vmc::hash64(&k())));
                        }
                    }
                }
            }
        }
    });
}

/// Only Sentry gets its token, wherever an uploaded file lies.
fn token(check: &Check) {
    const PAGE: &str = "http://up.example.com/js/min.js";
    // address of a file, whether it is one of the source
    let places = [
        ("http://sentry.example.com/lookup/?download=1", true),
        ("http://sentry.example.com/lookup/files/1/", true),
        ("http://SENTRY.example.com:80/lookup/x", true),
        ("http://sentry.example.com/other/?x=/lookup/", false),
        ("http://sentry.example.com/x/../lookup/1", true),
        ("http://sentry.example.com/lookup/../other/1", false),
        ("http://sentry.example.com:8080/lookup/1", false),
        ("https://sentry.example.com/lookup/1", false),
        ("http://sentry.example.com.evil.example.org/lookup/1", false),
        ("http://sentry.example.com@evil.example.org/lookup/1", false),
        ("http://storage.example.net/http://sentry.example.com/lookup/1", false),
        ("http://storage.example.net/1?signature=abc", false),
    ];
    let kinds = ["file", "bundle"];
    vmc::parallel(places.len() * places.len() * 4, |x| {
        let (a, b) = (places[x / 4 % places.len()], places[x / 4 / places.len()]);
        let (first, second) = (kinds[x % 2], kinds[x / 2 % 2]);
        for scraping in [true, false] {
            let k = || format!("{first} at {}, {second} at {}, scraping {scraping}", a.0, b.0);
            check.guarded(k, || {
                let scratch = Scratch::new("c36t");
                ctl::run(&scratch.0, async {
                    let entry = |kind: &str, url: &str, id: &str| match kind {
                        "file" => json!({"type": "file", "id": id, "url": url, "abs_path": format!("http://up.example.com/js/{id}.js"), "headers": {}, "resolved_with": "release"}),
                        _ => json!({"type": "bundle", "id": id, "url": url, "resolved_with": "release"}),
                    };
                    let list = json!([entry(first, a.0, "min"), entry(second, b.0, "min2")]).to_string();
                    wire::install(move |h| match (h.url.path(), h.url.query()) {
                        ("/lookup/", q) if q != Some("download=1") => Wire::ok(200, list.as_bytes()),
                        _ => Wire::status(404),
                    });
                    let svc = make(&scratch, false, true);
                    let mut scraping = ScrapingConfig { enabled: scraping, ..Default::default() };
                    scraping.headers.insert("X-Web".into(), "hidden".into());
                    let mut r = request(vec![frame(PAGE, 1), frame("http://up.example.com/js/min2.js", 1)], scraping, "1");
                    r.release = Some("1.0".into());
                    svc.symbolicate_js(r).await;
                    let hops = wire::take_hops();
                    for (place, kind) in [(a, first), (b, second)] {
                        let url = url::Url::parse(place.0).unwrap();
                        // (user names are not sent as part of the address)
                        check.expect(k, &format!("{kind} is asked for at {url}"), &hops.iter().any(|h| h.url.host_str() == url.host_str() && h.url.path() == url.path() && h.url.query() == url.query()), &true);
                    }
                    for h in &hops {
                        let web = h.url.host_str() == Some("up.example.com");
                        let own = h.url.scheme() == "http" && h.url.host_str() == Some("sentry.example.com") && h.url.port().is_none() && h.url.path().starts_with("/lookup/");
                        let what = format!("token for {}", h.url);
                        check.expect(k, &what, &h.headers.get("authorization").map(|v| v.to_str().unwrap_or("?").to_string()).filter(|v| v.contains("secret")), &own.then(|| "Bearer secret".to_string()));
                        check.expect(k, &format!("header for {}", h.url), &h.headers.contains_key("x-web"), &web);
                    }
                    check.state(vmc::hash64(&hops.len()));
                });
            });
            check.transition(1);
            check.eval(Some(vmc::hash64(&k())));
        }
    });
}

/// Reserved networks are out of reach of what others have written.
fn addresses(check: &Check) {
    const BLOCKS: [([u8; 4], u32); 15] = [
        ([0, 0, 0, 0], 8),
        ([10, 0, 0, 0], 8),
        ([100, 64, 0, 0], 10),
        ([127, 0, 0, 0], 8),
        ([169, 254, 0, 0], 16),
        ([172, 16, 0, 0], 12),
        ([192, 0, 0, 0], 29),
        ([192, 0, 2, 0], 24),
        ([192, 88, 99, 0], 24),
        ([192, 168, 0, 0], 16),
        ([198, 18, 0, 0], 15),
        ([198, 51, 100, 0], 24),
        ([224, 0, 0, 0], 4),
        ([240, 0, 0, 0], 4),
        ([255, 255, 255, 255], 32),
    ];
    let inside = |ip: IpAddr| match ip {
        IpAddr::V6(_) => true,
        IpAddr::V4(a) => BLOCKS.iter().any(|(n, l)| (u32::from(a) ^ u32::from(Ipv4Addr::from(*n))) >> (32 - l).min(31) == 0 && (*l < 32 || a.octets() == *n)),
    };
    let mut ips: Vec<IpAddr> = vec!["::1".parse().unwrap(), "2606:2800:220:1::1".parse().unwrap(), "::ffff:127.0.0.1".parse().unwrap()];
    for (n, l) in BLOCKS {
        let first = u32::from(Ipv4Addr::from(n));
        let last = first | if l == 32 { 0 } else { u32::MAX >> l };
        let middle = first + (last - first) / 2;
        for x in [first.wrapping_sub(1), first, first.saturating_add(1), middle, last, last.wrapping_add(1)] {
            ips.push(Ipv4Addr::from(x).into());
        }
    }
    for n in 0..=255u8 {
        ips.push(Ipv4Addr::new(n, 1, 1, 1).into());
    }
    ips.sort();
    ips.dedup();
    let ways = ["name", "literal", "moved", "moved for now", "second of two"];
    vmc::parallel(ips.len() * ways.len(), |x| {
        let (ip, way) = (ips[x % ips.len()], ways[x / ips.len()]);
        for reserved_ips in [false, true] {
            for verify in [true, false] {
                let k = || format!("{ip} by {way}, inside {reserved_ips}, verify {verify}");
                let literal = match ip {
                    IpAddr::V4(a) => format!("http://{a}/app.js"),
                    IpAddr::V6(a) => format!("http://[{a}]/app.js"),
                };
                check.guarded(k, || {
                    let scratch = Scratch::new("c36a");
                    ctl::run(&scratch.0, async {
                        let l2 = literal.clone();
                        wire::install_with(
                            move |h| match h.url.host_str() {
                                Some("moved.example.com") => Wire::status(if way == "moved" { 308 } else { 302 }).header("location", &l2),
                                _ => Wire::ok(200, b"minified\n"),
                            },
                            move |h| match h {
                                "name.example.com" => vec![ip],
                                "two.example.com" => vec![ip, Ipv4Addr::new(93, 184, 216, 34).into()],
                                h => vec![h.trim_matches(['[', ']']).parse().unwrap_or(Ipv4Addr::new(93, 184, 216, 34).into())],
                            },
                        );
                        let url = match way {
                            "name" => "http://name.example.com/app.js".to_string(),
                            "literal" => literal.clone(),
                            "second of two" => "http://two.example.com/app.js".to_string(),
                            _ => "http://moved.example.com/app.js".to_string(),
                        };
                        let svc = make(&scratch, reserved_ips, true);
                        let scraping = ScrapingConfig { verify_ssl: verify, ..Default::default() };
                        let r = svc.symbolicate_js(request(vec![frame(&url, 1)], scraping, "1")).await;
                        let reached: Vec<IpAddr> = wire::take_hops().iter().filter_map(|h| h.ip).collect();
                        let fine = reserved_ips || !inside(ip);
                        check.expect(k, "found", &r.stacktraces[0].frames[0].context_line.is_some(), &(fine || way == "second of two"));
                        check.expect(k, "reached", &reached.contains(&ip), &fine);
                    });
                });
                check.transition(1);
                check.eval(Some(vmc::hash64(&k())));
            }
        }
    });
    // pages to log in
    for status in [301, 302, 303, 307, 308] {
        for host in ["dev.azure.com", "web.example.com", "x.dev.azure.com"] {
            for long in [1, 2, 9, 10, 11, 12] {
                let k = || format!("{host} answers {status}, {long} times");
                check.guarded(k, || {
                    let scratch = Scratch::new("c36l");
                    ctl::run(&scratch.0, async {
                        wire::install(move |h| {
                            let at: usize = h.url.query().map_or(0, |q| q.parse().unwrap());
                            if at < long {
                                return Wire::status(status).header("location", format!("https://{host}/app.js?{}", at + 1));
                            }
                            Wire::ok(200, b"minified\n")
                        });
                        let svc = make(&scratch, false, true);
                        let r = svc.symbolicate_js(request(vec![frame(&format!("https://{host}/app.js"), 1)], Default::default(), "1")).await;
                        let want = match (status, host) {
                            (302, "dev.azure.com") => "permission_denied",
                            _ if long > 10 => "download_error",
                            _ => "success",
                        };
                        check.expect(k, "attempt", &attempts(&r)[0].1, &want.to_string());
                    });
                });
                check.transition(1);
                check.eval(Some(vmc::hash64(&k())));
            }
        }
    }
}

/// Files are fetched anew every hour, and not more often.
fn history(check: &Check) {
    let gaps = [0u64, 60, 25 * 60, 45 * 60, 59 * 60, 61 * 60, 119 * 60, 26 * 3600];
    let depth = 3;
    let n = gaps.len();
    vmc::parallel(n.pow(depth) * 4, |x| {
        let (g, kind) = (x / 4, x % 4);
        let gaps: Vec<u64> = (0..depth).map(|i| gaps[g / n.pow(i) % n]).collect();
        for disk in [true, false] {
            for offset in [0u64, 1700, 3100] {
                let k = || format!("waits {gaps:?} s from {offset} s on, {}, on disk {disk}", ["good", "404 at first", "404 later", "one scope after the other"][kind]);
                check.guarded(k, || {
                    let scratch = Scratch::new("c36h");
                    ctl::run(&scratch.0, async {
                        let start = std::time::Instant::now();
                        let now = move || start.elapsed().as_secs();
                        let fetched = Arc::new(Mutex::new(vec![]));
                        let f2 = fetched.clone();
                        wire::install(move |_| {
                            f2.lock().unwrap().push(now());
                            match kind {
                                1 if now() < 40 * 60 + offset => Wire::status(404),
                                2 if now() >= 40 * 60 + offset => Wire::status(404),
                                _ => Wire::ok(200, format!("at {}\n", now()).as_bytes()),
                            }
                        });
                        let svc = make(&scratch, false, disk);
                        ctl::pass(Duration::from_secs(offset)).await;
                        for i in 0..=depth as usize {
                            if i > 0 {
                                ctl::pass(Duration::from_secs(gaps[i - 1])).await;
                            }
                            let scope = if kind == 3 { format!("{}", i % 2) } else { "1".into() };
                            let r = svc.symbolicate_js(request(vec![frame("http://web.example.com/app.js", 1)], Default::default(), &scope)).await;
                            let line = r.stacktraces[0].frames[0].context_line.clone();
                            let f = fetched.lock().unwrap();
                            match line {
                                Some(l) => {
                                    let at: u64 = l[3..].parse().unwrap();
                                    check.expect(k, &format!("request {i}: from {at} at {}, less than an hour old", now()), &(at + 3600 >= now()), &true);
                                }
                                None => {
                                    // a failure is that of one of the last hour
                                    let t = f.iter().rev().find(|t| if kind == 1 { **t < 40 * 60 + offset } else { kind == 2 && **t >= 40 * 60 + offset });
                                    check.expect(k, &format!("request {i} at {}: nothing was found within the last hour", now()), &t.is_some_and(|t| t + 3600 >= now()), &true);
                                }
                            }
                        }
                        // once per hour
                        let f = fetched.lock().unwrap();
                        let hours = (now() - offset).div_ceil(3600) as usize + 1;
                        let scopes = if kind == 3 { 2 } else { 1 };
                        check.expect(k, &format!("fetched at {f:?}, at most once an hour"), &(f.len() <= hours * scopes), &true);
                        if kind == 3 && depth > 0 {
                            check.expect(k, "each scope has fetched it", &(f.len() >= 2), &true);
                        }
                    });
                });
                check.transition(depth as u64 + 1);
                check.eval(Some(vmc::hash64(&k())));
            }
        }
    });
}
