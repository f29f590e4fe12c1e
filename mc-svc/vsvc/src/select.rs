//! Which of the files of a module is used.
use crate::ctl;
use crate::download::source;
use crate::fixture::{breakpad, bundle, debug_id, fat, macho};
use crate::wire::{self, Wire};
use std::collections::BTreeMap;
use std::sync::Arc;
use symbolicator_service::config::Config;
use symbolicator_service::objects::{AllObjectCandidates, CandidateStatus, FindObject, FindResult, ObjectCandidate, ObjectDownloadInfo, ObjectFeatures, ObjectPurpose, ObjectUseInfo};
use symbolicator_service::services::SharedServices;
use symbolicator_service::types::Scope;
use symbolicator_sources::{FileType, ObjectId, RemoteFileUri, SourceConfig, SourceId};
use vmc::serde_json::{json, Value};
use vmc::{Check, Scratch};

/// What a file turns out to be.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Out {
    Missing,
    Denied,
    Failing,
    Malformed,
    /// symbols, debug information, unwind information
    Object(bool, bool, bool),
    Bundle,
}
use Out::*;
impl Out {
    fn wire(self, marker: usize) -> Wire {
        match self {
            Missing => Wire::status(404),
            Denied => Wire::status(403),
            Failing => Wire::status(500),
            Malformed => Wire::ok(200, b"no object file"),
            Object(s, d, u) => Wire::ok(200, &breakpad(1, marker, s, d, u)),
            Bundle => Wire::ok(200, &bundle(1, marker)),
        }
    }
    fn features(self) -> Option<[bool; 4]> {
        match self {
            Object(s, d, u) => Some([s, d, u, false]),
            Bundle => Some([false, false, false, true]),
            _ => None,
        }
    }
    /// How good it is; the lowest is best.
    fn rank(self, p: ObjectPurpose) -> Option<u8> {
        let Some([s, d, u, src]) = self.features() else { return Some(9) };
        match p {
            ObjectPurpose::Unwind => u.then_some(0),
            ObjectPurpose::Debug if d => Some(0),
            ObjectPurpose::Debug => s.then_some(1),
            ObjectPurpose::Source => src.then_some(0),
        }
    }
    fn download(self) -> (&'static str, Option<[bool; 4]>) {
        match self {
            Missing => ("notfound", None),
            Denied => ("noperm", None),
            Failing => ("error", None),
            Malformed => ("malformed", None),
            o => ("ok", o.features()),
        }
    }
}
fn outs() -> Vec<Out> {
    let mut v = vec![Missing, Denied, Failing, Malformed, Bundle];
    for n in 0..8 {
        v.push(Object(n & 1 > 0, n & 2 > 0, n & 4 > 0));
    }
    v
}
const PURPOSES: [ObjectPurpose; 3] = [ObjectPurpose::Debug, ObjectPurpose::Unwind, ObjectPurpose::Source];

/// Position of the file that was selected and what it is, and the candidates.
type Seen = (Option<(String, bool)>, Vec<(String, String, String, Option<[bool; 4]>)>);
fn seen(r: &FindResult) -> Seen {
    (
        r.meta.as_ref().map(|m| (format!("{} {}", m.file_source.source_id(), m.file_source.uri()), m.handle.is_ok())),
        r.candidates
            .iter()
            .map(|c| {
                let (d, f) = match &c.download {
                    ObjectDownloadInfo::Ok { features: f } => ("ok", Some([f.has_symbols, f.has_debug_info, f.has_unwind_info, f.has_sources])),
                    ObjectDownloadInfo::Malformed => ("malformed", None),
                    ObjectDownloadInfo::NoPerm { .. } => ("noperm", None),
                    ObjectDownloadInfo::NotFound => ("notfound", None),
                    ObjectDownloadInfo::Error { .. } => ("error", None),
                };
                (c.source.to_string(), c.location.to_string(), d.to_string(), f)
            })
            .collect(),
    )
}
fn object_id() -> ObjectId {
    ObjectId { debug_id: debug_id(1).parse().ok(), debug_file: Some("lib.so".into()), code_file: Some("lib.so".into()), object_type: symbolicator_sources::ObjectType::Pe, ..Default::default() }
}
fn http(id: &str, host: usize, extra: Value) -> SourceConfig {
    let mut v = json!({"type": "http", "id": id, "url": format!("http://h{host}.example.com/"), "layout": {"type": "unified"}, "is_public": true});
    for (a, b) in extra.as_object().unwrap() {
        v[a] = b.clone();
    }
    source(v)
}
fn services(scratch: &Scratch) -> SharedServices {
    let c = Config { cache_dir: Some(scratch.0.join("cache")), ..Config::default() };
    SharedServices::new(c, tokio::runtime::Handle::current()).unwrap()
}
fn host(u: &url::Url) -> usize {
    u.host_str().and_then(|h| h[1..].split('.').next()).and_then(|n| n.parse().ok()).expect("a known host")
}

pub fn c33() {
    let check = Check::new(
        "C33",
        "model_checking",
        "all outcomes of up to three files x purposes; all orders of their arrival; all combinations of kinds of sources; all sequences of changes of candidates; all universal binaries of up to three slices",
    );
    check.assume("the network is a scripted server behind a stand-in of the HTTP client");
    selection(&check);
    arrival(&check);
    sources(&check);
    candidates(&check);
    universal(&check);
    check.finish()
}

/// What should be seen for the files in order of preference.
fn expected(files: &[(String, String, Out)], empty: &[String], p: ObjectPurpose) -> Seen {
    let mut best: Option<(u8, usize)> = None;
    for (i, f) in files.iter().enumerate() {
        if let Some(r) = f.2.rank(p) {
            if best.is_none_or(|b| r < b.0) {
                best = Some((r, i));
            }
        }
    }
    let mut c: BTreeMap<(String, String), (String, Option<[bool; 4]>)> = BTreeMap::new();
    for (id, uri, o) in files {
        let (d, f) = o.download();
        c.entry((id.clone(), uri.clone())).or_insert((d.to_string(), f));
    }
    for id in empty {
        c.insert((id.clone(), "No object files listed on this source".into()), ("notfound".into(), None));
    }
    (best.map(|(r, i)| (format!("{} {}", files[i].0, files[i].1), r < 9)), c.into_iter().map(|((a, b), (d, f))| (a, b, d, f)).collect())
}

fn selection(check: &Check) {
    let outs = outs();
    let n = outs.len();
    // three files of three sources; two of one source and one of another
    let depth = if check.thorough() { 4 } else { 3 };
    vmc::parallel(n.pow(depth), |mut x| {
        let mut o = vec![];
        for _ in 0..depth {
            o.push(outs[x % n]);
            x /= n;
        }
        if check.saturated() {
            return;
        }
        for (pi, p) in PURPOSES.into_iter().enumerate() {
            for double in [false, true] {
                // the names are not in the order of preference
                let k = || format!("{o:?}, {p:?}, two files in the first source {double}");
                check.guarded(k, || {
                    let scratch = Scratch::new("c33");
                    ctl::run(&scratch.0, async {
                        let o2 = o.clone();
                        wire::install(move |hop| {
                            let h = host(&hop.url);
                            let i = match (double, h) {
                                (false, h) => h,
                                (true, 0) => hop.url.path().ends_with("sourcebundle") as usize,
                                (true, h) => h + 1,
                            };
                            o2[i].wire(i)
                        });
                        let svc = services(&scratch);
                        let count = o.len() - double as usize;
                        let ids: Vec<String> = (0..count).map(|i| format!("s{}", [1, 0, 2, 3][i])).collect();
                        let types = if double { json!(["breakpad", "sourcebundle"]) } else { json!(["breakpad"]) };
                        let srcs: Vec<SourceConfig> = (0..count)
                            .map(|i| http(&ids[i], i, json!({"filters": {"filetypes": if i == 0 { types.clone() } else { json!(["breakpad"]) }}})))
                            .collect();
                        let r = svc
                            .objects
                            .find(FindObject { filetypes: &[FileType::Breakpad, FileType::SourceBundle], purpose: p, scope: Scope::Global, identifier: object_id(), sources: srcs.into() })
                            .await;
                        let base = |i: usize| format!("http://h{i}.example.com/{}/{}", &debug_id(1).to_lowercase()[..2], &debug_id(1).to_lowercase()[2..]);
                        let files: Vec<(String, String, Out)> = (0..o.len())
                            .map(|i| {
                                let s = i.saturating_sub(double as usize);
                                let name = if double && i == 1 { "sourcebundle" } else { "breakpad" };
                                (ids[s].clone(), format!("{}/{name}", base(s)), o[i])
                            })
                            .collect();
                        let (a, b) = (seen(&r), expected(&files, &[], p));
                        // paths are the business of other checks
                        let short = |s: Seen| {
                            let cut = |u: &str| {
                                let Some((a, b)) = u.split_once(".example.com/") else { return u.to_string() };
                                format!("{a}/{}", b.rsplit('/').next().unwrap())
                            };
                            (s.0.map(|(u, ok)| (cut(&u), ok)), s.1.into_iter().map(|(a, u, d, f)| (a, cut(&u), d, f)).collect::<Vec<_>>())
                        };
                        let (a, b) = (short(a), short(b));
                        check.expect(k, "selected", &a.0, &b.0);
                        check.expect(k, "candidates", &a.1, &b.1);
                        check.state(vmc::hash64(&format!("{b:?}")));
                    });
                });
                check.transition(o.len() as u64);
                check.eval((pi == 0 || !double).then(|| vmc::hash64(&k())));
                check.sample(|| json!({"case": k()}));
            }
        }
    });
}
/// The order in which servers answer is of no importance.
fn arrival(check: &Check) {
    let kinds = [Missing, Malformed, Object(true, true, false), Object(true, true, true), Object(true, false, true), Failing];
    let n = kinds.len();
    vmc::parallel(n * n * n, |x| {
        let o = [kinds[x / n / n], kinds[x / n % n], kinds[x % n]];
        vmc::explore(|ch| {
            let order = std::cell::RefCell::new(vec![]);
            let k = |order: &std::cell::RefCell<Vec<usize>>| format!("{o:?}, answers in order {:?}", order.borrow());
            check.guarded(
                || k(&order),
                || {
                    let scratch = Scratch::new("c33a");
                    ctl::run(&scratch.0, async {
                        wire::install(move |hop| Wire::Gate(format!("{}", host(&hop.url))));
                        let svc = services(&scratch);
                        let srcs: Vec<SourceConfig> = (0..3).map(|i| http(&format!("s{i}"), i, json!({"filters": {"filetypes": ["breakpad"]}}))).collect();
                        let find = tokio::spawn(async move {
                            svc.objects
                                .find(FindObject {
                                    filetypes: &[FileType::Breakpad],
                                    purpose: ObjectPurpose::Debug,
                                    scope: Scope::Global,
                                    identifier: object_id(),
                                    sources: srcs.into(),
                                })
                                .await
                        });
                        loop {
                            ctl::settle().await;
                            let w = ctl::waiting();
                            if find.is_finished() {
                                break;
                            }
                            if w.is_empty() {
                                // a pause before the next attempt
                                ctl::pass(std::time::Duration::from_millis(25)).await;
                                continue;
                            }
                            let i = ch.choose(w.len());
                            let h: usize = w[i].parse().unwrap();
                            order.borrow_mut().push(h);
                            ctl::answer(i, o[h].wire(h));
                        }
                        let r = find.await.unwrap();
                        let files: Vec<(String, String, Out)> = (0..3).map(|i| (format!("s{i}"), r.candidates.iter().find(|c| c.source.as_str() == format!("s{i}")).map_or(String::new(), |c| c.location.to_string()), o[i])).collect();
                        check.expect(|| k(&order), "result", &seen(&r), &expected(&files, &[], ObjectPurpose::Debug));
                    });
                },
            );
            check.transition(order.borrow().len() as u64);
            check.eval(Some(vmc::hash64(&k(&order))));
            !check.saturated()
        });
    });
}

/// Sources that list nothing are mentioned, those that share a name are not lost.
fn sources(check: &Check) {
    // filtered away, no identifier, empty list, failing list, one file, two files of a list, the same source again
    const KINDS: [&str; 7] = ["filtered", "disabled", "sentry, nothing", "sentry, failing", "http", "sentry, two", "http, twice"];
    let n = KINDS.len();
    for count in 0..=3u32 {
        vmc::parallel(n.pow(count), |mut x| {
            let mut s = vec![];
            for _ in 0..count {
                s.push(x % n);
                x /= n;
            }
            for same in [false, true] {
                let k = || format!("sources {:?}, ids are the same {same}", s.iter().map(|k| KINDS[*k]).collect::<Vec<_>>());
                check.guarded(k, || {
                    let scratch = Scratch::new("c33s");
                    ctl::run(&scratch.0, async {
                        wire::install(|hop| match (hop.url.path(), hop.url.query().unwrap_or("")) {
                            ("/empty", _) => Wire::ok(200, b"[]"),
                            ("/failing", _) => Wire::status(500),
                            ("/two", q) if q.contains("debug_id") => Wire::ok(200, br#"[{"id": "f2", "symbolType": "breakpad"}, {"id": "f3", "symbolType": "pe"}, {"id": "f1", "symbolType": "sourcebundle"}]"#),
                            ("/two", "id=f1") => Object(true, false, false).wire(1),
                            ("/two", "id=f2") => Malformed.wire(2),
                            ("/two", _) => Wire::status(500),
                            _ => Object(true, true, true).wire(0),
                        });
                        let svc = services(&scratch);
                        let mut srcs = vec![];
                        let (mut files, mut ids) = (vec![], vec![]);
                        for (i, kind) in s.iter().enumerate() {
                            let id = if same { "a".to_string() } else { format!("s{}", 9 - i) };
                            let only = json!({"filters": {"filetypes": ["breakpad"]}});
                            let src = match kind {
                                0 => http(&id, i, json!({"filters": {"filetypes": ["pdb"]}})),
                                1 => http(&id, i, json!({"filters": {"filetypes": ["breakpad"], "path_patterns": ["*.dll"]}})),
                                2 => source(json!({"type": "sentry", "id": id, "url": "http://sentry.example.com/empty", "token": "t"})),
                                3 => source(json!({"type": "sentry", "id": id, "url": "http://sentry.example.com/failing", "token": "t"})),
                                4 => http(&id, i, only.clone()),
                                5 => source(json!({"type": "sentry", "id": id, "url": "http://sentry.example.com/two", "token": "t"})),
                                _ => {
                                    srcs.push(http(&id, i, only.clone()));
                                    http(&id, i, only)
                                }
                            };
                            srcs.push(src);
                            match kind {
                                4 | 6 => {
                                    let u = format!("http://h{i}.example.com/{}/{}/breakpad", &debug_id(1).to_lowercase()[..2], &debug_id(1).to_lowercase()[2..]);
                                    files.push((id.clone(), u, Object(true, true, true)));
                                }
                                5 => {
                                    files.push((id.clone(), "sentry://project_debug_file/f2".to_string(), Malformed));
                                    files.push((id.clone(), "sentry://project_debug_file/f1".to_string(), Object(true, false, false)));
                                }
                                _ => {}
                            }
                            ids.push(id);
                        }
                        ids.retain(|i| !files.iter().any(|f| f.0 == *i));
                        let r = svc
                            .objects
                            .find(FindObject { filetypes: &[FileType::Breakpad, FileType::SourceBundle], purpose: ObjectPurpose::Debug, scope: Scope::Global, identifier: object_id(), sources: srcs.into() })
                            .await;
                        check.expect(k, "result", &seen(&r), &expected(&files, &ids, ObjectPurpose::Debug));
                    });
                });
                check.transition(s.len() as u64);
                check.eval(Some(vmc::hash64(&k())));
            }
        });
    }
}

/// Candidates are a map by source and location.
fn candidates(check: &Check) {
    type Entry = (ObjectDownloadInfo, ObjectUseInfo, ObjectUseInfo);
    let places = [("a", "x"), ("a", "y"), ("b", "x")];
    let dl = [ObjectDownloadInfo::NotFound, ObjectDownloadInfo::Ok { features: ObjectFeatures::default() }];
    let uses = [ObjectUseInfo::None, ObjectUseInfo::Ok, ObjectUseInfo::Malformed];
    let make = |p: usize, e: &Entry| ObjectCandidate { source: SourceId::new(places[p].0), location: RemoteFileUri::new(places[p].1), download: e.0.clone(), unwind: e.1.clone(), debug: e.2.clone() };
    let entries: Vec<Entry> = dl.iter().flat_map(|d| uses.iter().flat_map(move |u| [(d.clone(), u.clone(), ObjectUseInfo::None), (d.clone(), ObjectUseInfo::Ok, u.clone())])).collect();
    #[derive(Clone, Debug)]
    enum Op {
        One(usize, usize),
        Two(usize, usize, usize),
        Set(bool, usize, usize),
        Nothing(usize),
        From(Vec<usize>),
    }
    let mut ops = vec![];
    for p in 0..3 {
        for e in 0..entries.len() {
            ops.push(Op::One(p, e));
        }
        for u in 0..3 {
            ops.push(Op::Set(true, p, u));
            ops.push(Op::Set(false, p, u));
        }
        ops.push(Op::Nothing(p));
        for q in 0..3 {
            ops.push(Op::Two(p, q, p + q));
            ops.push(Op::From(vec![p, q]));
            ops.push(Op::From(vec![p, 2, q]));
        }
    }
    let n = ops.len();
    let depth = if check.thorough() { 4 } else { 3 };
    vmc::parallel(n.pow(depth), |x| {
        if check.saturated() {
            return;
        }
        let seq: Vec<&Op> = (0..depth).map(|i| &ops[x / n.pow(i) % n]).collect();
        // starting over is only of interest in the beginning
        if seq[1..].iter().any(|o| matches!(o, Op::From(_))) {
            return;
        }
        let k = || format!("candidates: {seq:?}");
        check.guarded(k, || {
            let mut all = AllObjectCandidates::default();
            let mut model: BTreeMap<(&str, &str), Entry> = BTreeMap::new();
            let merge = |model: &mut BTreeMap<(&'static str, &'static str), Entry>, p: usize, e: &Entry| {
                let m = model.entry(places[p]).or_insert((e.0.clone(), ObjectUseInfo::None, ObjectUseInfo::None));
                m.0 = e.0.clone();
                if e.1 != ObjectUseInfo::None {
                    m.1 = e.1.clone();
                }
                if e.2 != ObjectUseInfo::None {
                    m.2 = e.2.clone();
                }
            };
            for op in &seq {
                match op {
                    Op::One(p, e) => {
                        all.merge_one(&make(*p, &entries[*e]));
                        merge(&mut model, *p, &entries[*e]);
                    }
                    Op::Two(p, q, e) => {
                        let list = if p == q { vec![make(*p, &entries[*e])] } else { vec![make(*p, &entries[*e]), make(*q, &entries[e + 1])] };
                        all.merge(&list.into());
                        merge(&mut model, *p, &entries[*e]);
                        if p != q {
                            merge(&mut model, *q, &entries[e + 1]);
                        }
                    }
                    Op::Set(debug, p, u) => {
                        let status = if *debug { CandidateStatus::Debug } else { CandidateStatus::Unwind };
                        all.set_status(status, &SourceId::new(places[*p].0), &RemoteFileUri::new(places[*p].1), uses[*u].clone());
                        if let Some(m) = model.get_mut(&places[*p]) {
                            *(if *debug { &mut m.2 } else { &mut m.1 }) = uses[*u].clone();
                        }
                    }
                    Op::Nothing(p) => all.set_status(CandidateStatus::None, &SourceId::new(places[*p].0), &RemoteFileUri::new(places[*p].1), ObjectUseInfo::Ok),
                    Op::From(ps) => {
                        all = ps.iter().enumerate().map(|(i, p)| make(*p, &entries[i])).collect::<Vec<_>>().into();
                        model.clear();
                        for (i, p) in ps.iter().enumerate() {
                            model.entry(places[*p]).or_insert(entries[i].clone());
                        }
                    }
                }
            }
            let want: Vec<ObjectCandidate> = model.iter().map(|(p, e)| make(places.iter().position(|x| x == p).unwrap(), e)).collect();
            check.expect(k, "empty", &all.is_empty(), &want.is_empty());
            check.expect(k, "candidates", &all.into_inner(), &want);
        });
        check.transition(depth as u64);
        check.eval(None);
    });
}

/// The slice with the identifier is taken from a universal binary.
fn universal(check: &Check) {
    // good slices with different identifiers, and a broken one
    let uuid = |n: u8| {
        let mut u = [0u8; 16];
        u[0] = 0xa0 + n;
        u
    };
    let slice = |n: usize, i: usize| match n {
        3 => b"no object file at all, only some text".to_vec(),
        n => macho(uuid(n as u8), [7, 12, 18][i % 3]),
    };
    let wants: Vec<(String, ObjectId, Option<usize>)> = (0..3)
        .flat_map(|w| {
            let hex: String = uuid(w as u8).iter().map(|b| format!("{b:02X}")).collect();
            let mk = |d: Option<String>, c: Option<String>| ObjectId {
                debug_id: d.map(|d| d.parse().unwrap()),
                code_id: c.map(|c| c.parse().unwrap()),
                debug_file: Some("lib.so".into()),
                code_file: Some("lib.so".into()),
                ..Default::default()
            };
            [
                (format!("debug id {w}"), mk(Some(hex.clone()), None), Some(w)),
                (format!("code id {w}"), mk(None, Some(hex.to_lowercase())), Some(w)),
                (format!("debug id {w}, code id 0"), mk(Some(hex.clone()), Some("a0000000000000000000000000000000".into())), Some(w)),
                // a later age of the same file would do, an earlier one does not
                (format!("debug id {w} age 1"), mk(Some(format!("{hex}1")), None), None),
            ]
        })
        .collect();
    for count in 1..=3u32 {
        vmc::parallel(4usize.pow(count), |mut x| {
            let mut s = vec![];
            for _ in 0..count {
                s.push(x % 4);
                x /= 4;
            }
            let file = fat(&s.iter().enumerate().map(|(i, n)| slice(*n, i)).collect::<Vec<_>>());
            for (name, id, w) in &wants {
                let k = || format!("universal binary of {s:?}, {name}");
                check.guarded(k, || {
                    let scratch = Scratch::new("c33u");
                    ctl::run(&scratch.0, async {
                        let f = file.clone();
                        wire::install(move |_| Wire::ok(200, &f));
                        let svc = services(&scratch);
                        let find = svc.objects.find(FindObject {
                            filetypes: &[FileType::MachCode],
                            purpose: ObjectPurpose::Unwind,
                            scope: Scope::Global,
                            identifier: id.clone(),
                            sources: Arc::new([http("u", 0, json!({"layout": {"type": "symstore"}, "filters": {"filetypes": ["mach_code"]}}))]),
                        });
                        let r = find.await;
                        let c = r.candidates.into_inner();
                        let Some(c) = c.first() else {
                            check.fail(&k(), json!("nothing listed"));
                            return;
                        };
                        let pos = w.and_then(|w| s.iter().position(|n| *n == w));
                        let got = match &c.download {
                            ObjectDownloadInfo::Ok { .. } => {
                                // the object that was found
                                let SourceConfig::Http(h) = http("u", 0, json!({"layout": {"type": "symstore"}})) else { unreachable!() };
                                let path = c.location.to_string().split_once(".com/").unwrap().1.to_string();
                                let meta = symbolicator_service::objects::ObjectMetaHandle::for_scoped_file(
                                    Scope::Global,
                                    symbolicator_sources::HttpRemoteFile::new(h, symbolicator_sources::SourceLocation::new(path)).into(),
                                );
                                let o = svc.objects.fetch(meta).await.unwrap();
                                format!("{:02x?}", &o.data()[40..44])
                            }
                            ObjectDownloadInfo::NotFound => "notfound".into(),
                            ObjectDownloadInfo::Malformed => "malformed".into(),
                            e => format!("{e:?}"),
                        };
                        let want = match pos {
                            Some(i) => format!("{:02x?}", &uuid(s[i] as u8)[..4]),
                            None if s.contains(&3) => "malformed".into(),
                            None => "notfound".into(),
                        };
                        check.expect(k, "found", &got, &want);
                    });
                });
                check.eval(Some(vmc::hash64(&k())));
            }
        });
    }
}
