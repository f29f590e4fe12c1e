//! C08, C09, C10: symsorter's store.

use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path, PathBuf};

use symbolic::debuginfo::Archive;
use symbolicator_sources::{get_directory_paths, DirectoryLayout, DirectoryLayoutType, FileType, FilenameCasing, ObjectId};
use vmc::serde_json::{self, json, Value};
use vmc::{explore, hash64, parallel, Check, Chooser, Scratch};

use crate::objs::{self, Cpu, Kind, Obj};
use crate::run::{bin, fresh, snapshot, Cmd, Fault, Mode, Node, Outcome, Tree};

/// An object together with the file name its metadata must carry.
#[derive(Clone, Debug)]
struct Stored {
    obj: Obj,
    name: String,
}

/// A part of a file that is processed on its own: a plain file, or a member of a zip.
#[derive(Clone, Debug, Default)]
struct Unit {
    objs: Vec<Stored>,
    /// processing it stops with an error
    broken: bool,
}

#[derive(Clone, Debug)]
struct Item {
    name: String,
    bytes: Vec<u8>,
    units: Vec<Unit>,
    /// reading the file as a whole fails
    broken: bool,
}

fn plain(name: &str, o: Obj) -> Item {
    let bytes = o.bytes.clone();
    let broken = o.error;
    Item { name: name.into(), bytes, units: vec![Unit { objs: vec![Stored { obj: o, name: name.into() }], broken }], broken: false }
}

fn fat(name: &str, os: Vec<(Obj, Cpu)>) -> Item {
    let cpus: Vec<Cpu> = os.iter().map(|o| o.1).collect();
    let os: Vec<Obj> = os.into_iter().map(|o| o.0).collect();
    let bytes = objs::fat(&os, &cpus);
    let broken = os.iter().any(|o| o.error);
    Item {
        name: name.into(),
        bytes,
        units: vec![Unit { objs: os.into_iter().map(|o| Stored { obj: o, name: name.into() }).collect(), broken }],
        broken: false,
    }
}

fn junk(name: &str, bytes: &[u8]) -> Item {
    Item { name: name.into(), bytes: bytes.to_vec(), units: vec![], broken: false }
}

fn zip(name: &str, deflate: bool, members: Vec<(&str, Item)>) -> Item {
    let mut units = vec![];
    let list: Vec<(String, Vec<u8>)> = members
        .into_iter()
        .map(|(p, mut it)| {
            for u in it.units.iter_mut() {
                for s in u.objs.iter_mut() {
                    s.name = p.rsplit('/').next().unwrap().to_string();
                }
            }
            units.extend(it.units);
            (p.to_string(), it.bytes)
        })
        .collect();
    let refs: Vec<(&str, &[u8])> = list.iter().map(|(a, b)| (a.as_str(), b.as_slice())).collect();
    Item { name: name.into(), bytes: objs::zip(&refs, deflate), units, broken: false }
}

const U1: [u8; 16] = [0x67, 0xe9, 0x24, 0x7c, 0x81, 0x4e, 0x39, 0x2b, 0xa0, 0x27, 0xdb, 0xde, 0x67, 0x48, 0xfc, 0xbf];
const U2: [u8; 16] = [0x32, 0x49, 0xd9, 0x9d, 0x0c, 0x40, 0x49, 0x31, 0x86, 0x10, 0xf4, 0xe4, 0xfb, 0x0b, 0x69, 0x36];
const B20: [u8; 20] = [0xdf, 0xb8, 0x5d, 0xe4, 0x2d, 0xaf, 0xfd, 0x09, 0x64, 0x0c, 0x8f, 0xe3, 0x77, 0xd5, 0x72, 0xde, 0x3e, 0x16, 0x89, 0x20];

fn items() -> Vec<Item> {
    use Cpu::*;
    use Kind::*;
    let mut v = vec![
        plain("elf-exe", objs::elf(Some(&B20), Exe, b"1")),
        plain("elf lib.so.1", objs::elf(Some(&B20[..16]), Lib, b"22")),
        plain("elf-debug.debug", objs::elf(Some(&B20), Debug, b"333")),
        plain("elf-reloc.o", objs::elf(Some(&B20), Reloc, b"4")),
        plain("elf-short1", objs::elf(Some(&[0xab]), Lib, b"5")),
        plain("elf-short8", objs::elf(Some(&B20[..8]), Debug, b"6")),
        plain("elf-noid", objs::elf(None, Lib, b"7")),
        plain("elf-noid-notext", objs::elf(None, Debug, b"8")),
        plain("elf-emptyid", objs::elf(Some(&[]), Lib, b"9")),
        plain("mach-exe", objs::macho(Some(&U1), Exe, X64, b"aaaaaaaa")),
        plain("mach.dylib", objs::macho(Some(&U2), Lib, Arm64, b"bbbbbbbb")),
        plain("mach-dsym", objs::macho(Some(&U1), Debug, X64, b"cccccccc")),
        plain("mach-nouuid", objs::macho(None, Exe, X64, b"dddddddd")),
        plain("pe.exe", objs::pe(Some(&U2), 1, false, b"e")),
        plain("pe.dll", objs::pe(Some(&U1), 0x2a, true, b"f")),
        plain("pe-nodebug.exe", objs::pe(None, 0, false, b"g")),
        plain("bp.sym", objs::breakpad_sym(&U1, 0, None, "h")),
        plain("bp-codeid.sym", objs::breakpad_sym(&U2, 1, Some("ABCDEF0123456789"), "i")),
        plain("w.wasm", objs::wasm(Some(&U2), true, b"j")),
        plain("w.debug.wasm", objs::wasm(Some(&U1[..]), false, b"k")),
        plain("w-noid.wasm", objs::wasm(None, true, b"l")),
        plain("w-emptyid.wasm", objs::wasm(Some(&[]), true, b"m")),
        plain("src.zip", objs::source_bundle(&U1, Some("dfb85de42daffd09640c8fe377d572de3e168920"), "int x;")),
        plain("src2.bundle", objs::source_bundle(&U2, None, "int y;")),
        fat("fat", vec![(objs::macho(Some(&U1), Lib, X64, b"nnnnnnnn"), X64), (objs::macho(Some(&U2), Lib, Arm64, b"oooooooo"), Arm64)]),
        fat("fat-mixed", vec![(objs::macho(Some(&U1), Reloc, X64, b"pppppppp"), X64), (objs::macho(Some(&U2), Debug, Arm64, b"qqqqqqqq"), Arm64)]),
        fat("fat-same", vec![(objs::macho(Some(&U1), Lib, X64, b"rrrrrrrr"), X64), (objs::macho(Some(&U1), Lib, Arm64, b"ssssssss"), Arm64), (objs::macho(Some(&U2), Lib, Arm64, b"tttttttt"), Arm64)]),
        fat("fat-broken", vec![(objs::macho(Some(&U2), Lib, X64, b"uuuuuuuu"), X64), (objs::macho(None, Lib, Arm64, b"vvvvvvvv"), Arm64)]),
        zip("z.zip", false, vec![("dir/sub/elf-in-zip", plain("x", objs::elf(Some(&B20), Exe, b"w"))), ("readme.txt", junk("readme", b"just some text that is long enough")), ("m", plain("m", objs::macho(Some(&U1), Debug, X64, b"xxxxxxxx")))]),
        zip("z-deflated.zip", true, vec![("pe.exe", plain("x", objs::pe(Some(&U2), 1, false, b"y"))), ("dir/", junk("dir", b""))]),
        zip("z-broken-member.zip", false, vec![("bad", plain("bad", objs::macho(None, Exe, X64, b"zzzzzzzz"))), ("good", plain("good", objs::macho(Some(&U2), Exe, X64, b"00000000")))]),
        zip("z-empty.zip", false, vec![]),
        junk("readme.txt", b"hello, this is no debug file at all"),
        junk("empty", b""),
        junk("tiny", b"\x7fEL"),
    ];
    let e = objs::elf(Some(&B20), Exe, b"trunc");
    let mut t = junk("elf-truncated", &e.bytes[..40]);
    t.broken = true;
    v.push(t);
    let mut t = junk("pk-garbage", b"PK\x03\x04 this is not a zip archive whatsoever");
    t.broken = true;
    v.push(t);
    v
}

/// The parser the tool uses sees exactly the identities the objects were made with.
fn self_check(ck: &Check, items: &[Item]) {
    for it in items {
        for u in &it.units {
            for s in &u.objs {
                let o = &s.obj;
                let a = match Archive::parse(&o.bytes) {
                    Ok(a) => a,
                    Err(e) => panic!("generator: {} {e}", it.name),
                };
                let obj = a.objects().next().unwrap().unwrap_or_else(|e| panic!("generator: {} {e}", it.name));
                assert_eq!(obj.code_id().map(|c| c.to_string()), o.code_id, "code id of {}", it.name);
                assert_eq!(obj.debug_id().breakpad().to_string().to_lowercase(), o.debug_id, "debug id of {}", it.name);
                assert_eq!(obj.arch().name(), o.arch, "arch of {}", it.name);
                assert_eq!(obj.file_format().name(), o.format, "format of {}", it.name);
                // where symbolicator looks for it
                if let (Some((ty, ft)), Some((id, suffix))) = (o.lookup, &o.slot) {
                    let oid = ObjectId {
                        code_id: o.code_id.as_ref().map(|c| c.parse().unwrap()),
                        debug_id: Some(obj.debug_id()),
                        object_type: ty.parse().unwrap(),
                        ..Default::default()
                    };
                    let ft: FileType = serde_json::from_value(json!(ft)).unwrap();
                    let layout = DirectoryLayout { ty: DirectoryLayoutType::Unified, casing: FilenameCasing::Default };
                    let got = get_directory_paths(layout, ft, &oid);
                    let want = slot_path(&(id.clone(), *suffix));
                    // compressed variants are tried as well
                    if !got.iter().any(|g| g.replace("//", "/") == want) {
                        ck.fail(&format!("lookup of {} ({ty}, {})", it.name, ft.as_ref()), json!({"looked up": got, "sorted to": want}));
                    }
                }
            }
        }
    }
}

fn slot_path(s: &(String, &str)) -> String {
    format!("{}/{}/{}", &s.0[..2], &s.0[2..], s.1).replace("//", "/")
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
enum Bundle {
    None,
    Id(String),
    Multi,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
struct Opts {
    bundle: Bundle,
    compress: u8,
    prefix: Option<&'static str>,
    ignore: bool,
    quiet: bool,
    /// inputs are given one by one instead of as their directory
    each: bool,
    threads: u32,
}

const BASE: Opts = Opts { bundle: Bundle::None, compress: 0, prefix: None, ignore: false, quiet: false, each: true, threads: 2 };

/// One input argument: a name and the items below it.
struct Case<'a> {
    items: Vec<&'a Item>,
    opts: Opts,
}

struct World {
    scratch: Scratch,
    fault: Fault,
}

impl World {
    fn new(tag: &str) -> World {
        let scratch = Scratch::new(tag);
        let fault = Fault::new(&scratch.0);
        World { scratch, fault }
    }
    fn input(&self) -> PathBuf {
        self.scratch.0.join("in")
    }
    fn out(&self) -> PathBuf {
        self.scratch.0.join("out")
    }
    /// Writes the inputs of a case; returns the arguments that name them.
    fn write(&self, items: &[&Item], each: bool) -> Vec<String> {
        let dir = self.input();
        fresh(&dir);
        let mut args = vec![];
        for (i, it) in items.iter().enumerate() {
            // every item has its own directory, so that equal names can be given twice
            let d = if each { dir.join(format!("in put_{i}")) } else { dir.join(format!("in put_{i}/nested/deeper")) };
            std::fs::create_dir_all(&d).unwrap();
            std::fs::write(d.join(&it.name), &it.bytes).unwrap();
            if each {
                args.push(d.to_string_lossy().into_owned());
            }
        }
        if !each {
            args.push(dir.to_string_lossy().into_owned());
        }
        args
    }
    fn cmd(&self, o: &Opts, inputs: &[String]) -> Cmd<'_> {
        let mut args = vec!["-o".to_string(), self.out().to_string_lossy().into_owned()];
        if let Some(p) = o.prefix {
            args.extend(["--prefix".into(), p.into()]);
        }
        match &o.bundle {
            Bundle::None => {}
            Bundle::Id(b) => args.extend(["--bundle-id".into(), b.clone()]),
            Bundle::Multi => args.push("--multiple-bundles".into()),
        }
        if o.compress > 0 {
            args.push(format!("-{}", "z".repeat(o.compress as usize)));
        }
        if o.ignore {
            args.push("-I".into());
        }
        if o.quiet {
            args.push("-q".into());
        }
        args.extend(inputs.iter().cloned());
        Cmd {
            exe: bin("symsorter"),
            args,
            cwd: &self.scratch.0,
            root: Box::leak(self.out().into_boxed_path()),
            input: Box::leak(self.input().into_boxed_path()),
            threads: o.threads,
        }
    }
}

/// The name `--multiple-bundles` derives from an input path.
fn bundle_name(s: &str) -> String {
    let mut out = String::new();
    let mut bad = false;
    for c in s.chars() {
        if c.is_ascii_alphanumeric() || ".,-".contains(c) {
            if bad {
                out.push('_');
            }
            bad = false;
            out.push(c);
        } else {
            bad = true;
        }
    }
    if bad {
        out.push('_');
    }
    out.trim_matches('_').to_string()
}

fn decode(o: &Opts, data: &[u8]) -> Option<Vec<u8>> {
    if o.compress == 0 {
        Some(data.to_vec())
    } else {
        zstd::decode_all(data).ok()
    }
}

/// What the store must look like.
struct Expect {
    /// slot path -> acceptable objects
    slots: BTreeMap<String, Vec<Stored>>,
    /// slots that must exist
    must: BTreeSet<String>,
    /// bundle -> (ids it may list, ids it must list)
    bundles: BTreeMap<String, (BTreeSet<String>, BTreeSet<String>)>,
    /// (slot directory, bundle) references that may and must exist
    refs_may: BTreeSet<String>,
    refs_must: BTreeSet<String>,
    fails: bool,
}

fn expectation(items: &[&Item], o: &Opts) -> Expect {
    let mut e = Expect {
        slots: Default::default(),
        must: Default::default(),
        bundles: Default::default(),
        refs_may: Default::default(),
        refs_must: Default::default(),
        fails: false,
    };
    let any_error = items.iter().any(|i| i.broken || i.units.iter().any(|u| u.broken));
    e.fails = any_error && !o.ignore;
    for (n, it) in items.iter().enumerate() {
        let bundle = match &o.bundle {
            Bundle::None => None,
            Bundle::Id(b) => Some(b.clone()),
            Bundle::Multi => Some(if o.each { bundle_name(&format!("in put_{n}")) } else { bundle_name("in") }),
        };
        if let Some(b) = &bundle {
            e.bundles.entry(b.clone()).or_default();
        }
        for u in &it.units {
            for s in &u.objs {
                let Some(slot) = &s.obj.slot else { continue };
                let p = slot_path(slot);
                let first = !e.slots.contains_key(&p);
                // with one bundle per input the inputs are processed one after the other
                if first || o.bundle != Bundle::Multi || !o.each {
                    e.slots.entry(p.clone()).or_default().push(s.clone());
                }
                let required = !u.broken && !e.fails;
                let new_must = required && e.must.insert(p.clone());
                if let Some(b) = &bundle {
                    let r = format!("{}/refs/{b}", p.rsplit_once('/').unwrap().0);
                    e.refs_may.insert(r.clone());
                    if required {
                        e.refs_must.insert(r);
                    }
                    let (may, must) = e.bundles.get_mut(b).unwrap();
                    may.insert(slot.0.clone());
                    if new_must && (first || o.bundle != Bundle::Multi || !o.each) {
                        must.insert(slot.0.clone());
                    }
                }
            }
        }
    }
    e
}

/// Compares a store with its expectation; returns what is wrong.
fn compare(t: &Tree, e: &Expect, o: &Opts, complete: bool) -> Vec<String> {
    let mut bad = vec![];
    let base = o.prefix.map(|p| format!("{p}/")).unwrap_or_default();
    let mut seen = BTreeSet::new();
    for (path, node) in t {
        let Some(p) = path.strip_prefix(&base) else {
            if !(matches!(node, Node::Dir) && base.starts_with(&format!("{path}/"))) {
                bad.push(format!("{path} outside the prefix"));
            }
            continue;
        };
        if matches!(node, Node::Dir) {
            continue;
        }
        let Node::File(data) = node else {
            bad.push(format!("{path} is no file"));
            continue;
        };
        seen.insert(p.to_string());
        if let Some(c) = e.slots.get(p) {
            let dec = decode(o, data);
            let Some(hit) = c.iter().find(|s| dec.as_deref() == Some(&s.obj.bytes[..])) else {
                bad.push(format!("{path}: content is none of the sorted objects ({} bytes)", data.len()));
                continue;
            };
            let meta = match t.get(&format!("{base}{p}.meta")) {
                Some(Node::File(m)) => serde_json::from_slice::<Value>(m).unwrap_or(Value::Null),
                _ => Value::Null,
            };
            let fits = c
                .iter()
                .filter(|s| s.obj.bytes == hit.obj.bytes)
                .any(|s| meta == json!({"name": s.name, "arch": s.obj.arch, "file_format": s.obj.format}));
            if !fits && complete {
                bad.push(format!("{path}.meta = {meta} describes none of {:?}", c.iter().map(|s| (&s.name, s.obj.arch)).collect::<Vec<_>>()));
            }
        } else if let Some(m) = p.strip_suffix(".meta") {
            if !e.slots.contains_key(m) {
                bad.push(format!("unexpected {path}"));
            } else if !t.contains_key(&format!("{base}{m}")) && complete && !e.fails && e.must.contains(m) {
                bad.push(format!("{path} without its file"));
            }
        } else if e.refs_may.contains(p) {
            if !data.is_empty() {
                bad.push(format!("{path} is not empty"));
            }
        } else if let Some(b) = p.strip_prefix("bundles/").filter(|b| e.bundles.contains_key(*b)) {
            let (may, must) = &e.bundles[b];
            let v: Value = serde_json::from_slice(data).unwrap_or(Value::Null);
            let ids: Option<BTreeSet<String>> =
                v["debug_ids"].as_array().map(|a| a.iter().filter_map(|x| x.as_str().map(String::from)).collect());
            let keys: Option<BTreeSet<&str>> = v.as_object().map(|o| o.keys().map(|k| k.as_str()).collect());
            let ok = v["name"] == json!(b)
                && v["timestamp"].as_str().is_some_and(|t| t.len() >= 20 && t.ends_with('Z'))
                && keys == Some(["debug_ids", "name", "timestamp"].into_iter().collect())
                && ids.as_ref().is_some_and(|i| i.is_subset(may) && (!complete || i.is_superset(must)));
            if !ok && complete {
                bad.push(format!("{path} = {v} (may list {may:?}, must list {must:?})"));
            }
        } else if complete || [".meta", "/executable", "/debuginfo", "/sourcebundle", "/breakpad"].iter().any(|s| p.ends_with(s)) {
            bad.push(format!("unexpected {path}"));
        }
    }
    if complete && !e.fails {
        for m in e.must.iter().chain(&e.refs_must) {
            if !seen.contains(m) {
                bad.push(format!("{base}{m} is missing"));
            }
        }
        for b in e.bundles.keys() {
            if !seen.contains(&format!("bundles/{b}")) {
                bad.push(format!("{base}bundles/{b} is missing"));
            }
        }
    }
    bad
}

fn inputs_unchanged(w: &World, items: &[&Item], before: &Tree) -> Option<String> {
    let now = snapshot(&w.input());
    (now != *before).then(|| format!("the input files {:?} were modified", items.iter().map(|i| &i.name).collect::<Vec<_>>()))
}

/// Checks exit code and messages.
fn outcome(o: &Opts, e: &Expect, r: &Outcome, stored: usize) -> Vec<String> {
    let mut bad = vec![];
    let out = String::from_utf8_lossy(&r.stdout);
    match (e.fails, r.code) {
        (true, Some(1)) => {
            if r.stderr.trim().is_empty() {
                bad.push("no error message".into());
            }
        }
        (false, Some(0)) => {
            if o.quiet {
                if !out.is_empty() {
                    bad.push(format!("quiet, but printed {out:?}"));
                }
            } else if !out.contains(&format!("Sorted {stored} debug files")) {
                bad.push(format!("{stored} files were stored, but reported {:?}", out.lines().last().unwrap_or("")));
            }
        }
        (f, c) => bad.push(format!("exit code {c:?}, failure expected: {f}; {}", r.stderr.lines().take(3).collect::<Vec<_>>().join(" | "))),
    }
    bad
}

fn stored_files(t: &Tree) -> usize {
    t.keys().filter(|k| ["executable", "debuginfo", "sourcebundle"].iter().any(|s| k.ends_with(&format!("/{s}")))).count()
}

fn key(items: &[&Item], o: &Opts) -> String {
    format!("{:?} {o:?}", items.iter().map(|i| i.name.as_str()).collect::<Vec<_>>())
}

fn run_case(ck: &Check, w: &World, c: &Case) {
    let args = w.write(&c.items, c.opts.each);
    let _ = std::fs::remove_dir_all(w.out());
    let before = snapshot(&w.input());
    let r = w.cmd(&c.opts, &args).run();
    let t = snapshot(&w.out());
    let e = expectation(&c.items, &c.opts);
    let mut bad = compare(&t, &e, &c.opts, true);
    bad.extend(outcome(&c.opts, &e, &r, stored_files(&t)));
    bad.extend(inputs_unchanged(w, &c.items, &before));
    let k = key(&c.items, &c.opts);
    ck.eval((!e.slots.is_empty()).then(|| hash64(&k)));
    ck.sample(|| json!({"inputs": c.items.iter().map(|i| &i.name).collect::<Vec<_>>(), "options": format!("{:?}", c.opts), "store": t.keys().collect::<Vec<_>>()}));
    if !bad.is_empty() {
        ck.fail(&k, json!(bad));
    }
}

fn run_all(ck: &Check, cases: &[Case]) {
    let workers = 8.min(cases.len());
    parallel(workers, |u| {
        let w = World::new("sort");
        for c in cases.iter().skip(u).step_by(workers) {
            if ck.saturated() {
                return;
            }
            run_case(ck, &w, c);
        }
    });
}

pub fn c08() -> ! {
    let ck = Check::new(
        "C08",
        "exploration",
        "every input of an alphabet of 37 files (ELF, Mach-O, PE, Breakpad, WASM, source bundles, fat and zip archives, broken and foreign files) alone under the product of all options, \
         every pair under a set of options (thorough: every triple), executed by the real binary and the resulting store compared with a reference; non-trivial: at least one object is to be stored",
    );
    let its = items();
    self_check(&ck, &its);
    let mut cases = vec![];
    let mut all_opts = vec![];
    for bundle in [Bundle::None, Bundle::Id("1.0,b-2".into()), Bundle::Multi] {
        for compress in if ck.thorough() { vec![0u8, 1, 2, 3, 4, 5] } else { vec![0, 1, 2] } {
            for prefix in [None, Some("ios"), Some("a/b")] {
                for ignore in [false, true] {
                    for quiet in [false, true] {
                        for each in [true, false] {
                            all_opts.push(Opts { bundle: bundle.clone(), compress, prefix, ignore, quiet, each, threads: 2 });
                        }
                    }
                }
            }
        }
    }
    for it in &its {
        for o in &all_opts {
            cases.push(Case { items: vec![it], opts: o.clone() });
        }
    }
    let pair_opts = [
        BASE,
        Opts { bundle: Bundle::Id("b".into()), ignore: true, compress: 1, each: false, ..BASE },
        Opts { bundle: Bundle::Multi, ignore: true, ..BASE },
        Opts { bundle: Bundle::Id("b".into()), each: false, ..BASE },
    ];
    for (i, a) in its.iter().enumerate() {
        for (j, b) in its.iter().enumerate() {
            for (n, o) in pair_opts.iter().enumerate() {
                // order matters only where inputs are processed one after the other
                if j < i && (n != 2 || !ck.thorough()) {
                    continue;
                }
                cases.push(Case { items: vec![a, b], opts: o.clone() });
            }
        }
    }
    if ck.thorough() {
        for (i, a) in its.iter().enumerate() {
            for (j, b) in its.iter().enumerate().skip(i + 1) {
                for c in its.iter().skip(j + 1) {
                    for o in [&pair_opts[1], &pair_opts[2], &pair_opts[3]] {
                        cases.push(Case { items: vec![a, b, c], opts: o.clone() });
                    }
                }
            }
        }
    }
    run_all(&ck, &cases);
    bundle_ids(&ck);
    with_sources(&ck);
    ck.extra("inputs", its.len() as u64);
    ck.finish()
}

/// Bundle ids are file names: anything else is refused before something is stored.
fn bundle_ids(ck: &Check) {
    let w = World::new("sort");
    let it = plain("elf-exe", objs::elf(Some(&B20), Kind::Exe, b"1"));
    for id in ["a", "A.b,c-1", "a b", "a/b", "../x", "_a", "a_", "a_b", "ü", "a\\b", "10.3_ABCD", "/abs", "a\0b"] {
        if id.contains('\0') {
            continue;
        }
        let valid = bundle_name(id) == id;
        let o = Opts { bundle: Bundle::Id(id.into()), ..BASE };
        let args = w.write(&[&it], true);
        let _ = std::fs::remove_dir_all(w.out());
        let r = w.cmd(&o, &args).run();
        let t = snapshot(&w.out());
        ck.eval(Some(hash64(&("bundle id", id))));
        let k = format!("bundle id {id:?}");
        if valid {
            let e = expectation(&[&it], &o);
            let mut bad = compare(&t, &e, &o, true);
            bad.extend(outcome(&o, &e, &r, stored_files(&t)));
            if !bad.is_empty() {
                ck.fail(&k, json!(bad));
            }
        } else if r.code != Some(1) || t.values().any(|n| matches!(n, Node::File(_))) {
            ck.fail(&k, json!({"exit code": r.code, "store": t.keys().collect::<Vec<_>>()}));
        }
    }
}

/// `--with-sources`: debug files with existing sources get a source bundle of the same identity.
fn with_sources(ck: &Check) {
    let w = World::new("src");
    let src = w.scratch.0.join("code");
    std::fs::create_dir_all(&src).unwrap();
    let text = "int answer(void) { return 42; }\nint main(void) { return answer(); }\n";
    std::fs::write(src.join("main.c"), text).unwrap();
    let gcc = std::process::Command::new("cc")
        .args(["-g", "-O0", "-Wl,--build-id=sha1", "-o", "prog", "main.c"])
        .current_dir(&src)
        .status();
    let cp = std::process::Command::new("objcopy").args(["--only-keep-debug", "prog", "prog.debug"]).current_dir(&src).status();
    if !gcc.is_ok_and(|s| s.success()) || !cp.is_ok_and(|s| s.success()) {
        ck.extra("with_sources", "skipped: no C compiler");
        return;
    }
    let debug = std::fs::read(src.join("prog.debug")).unwrap();
    let prog = std::fs::read(src.join("prog")).unwrap();
    let a = Archive::parse(&debug).unwrap();
    let o = a.objects().next().unwrap().unwrap();
    let id = o.code_id().unwrap().to_string();
    let other = objs::elf(Some(&B20), Kind::Debug, b"nosources");
    let own = objs::source_bundle(&U1, Some(&id), "int mine;");
    for mask in 1..16u32 {
        for bundle in [Bundle::None, Bundle::Id("b".into()), Bundle::Multi] {
            for flag in [true, false] {
                for compress in [0, 1] {
                    let input = w.input();
                    fresh(&input);
                    let _ = std::fs::remove_dir_all(w.out());
                    let mut names = vec![];
                    for (i, (n, b)) in [("prog", &prog), ("prog.debug", &debug), ("other.debug", &other.bytes), ("own.zip", &own.bytes)].iter().enumerate() {
                        if mask & (1 << i) != 0 {
                            std::fs::write(input.join(n), b).unwrap();
                            names.push(*n);
                        }
                    }
                    let o = Opts { bundle: bundle.clone(), each: false, compress, ..BASE };
                    let mut cmd = w.cmd(&o, &[input.to_string_lossy().into_owned()]);
                    if flag {
                        cmd.args.insert(0, "--with-sources".into());
                    }
                    let r = cmd.run();
                    let t = snapshot(&w.out());
                    let k = format!("with-sources={flag} {names:?} {bundle:?} compress={compress}");
                    ck.eval(Some(hash64(&k)));
                    let dir = format!("{}/{}", &id[..2], &id[2..]);
                    let has_own = mask & 8 != 0;
                    let created = flag && mask & 2 != 0 && !has_own;
                    let mut bad = vec![];
                    if r.code != Some(0) {
                        bad.push(format!("exit {:?} {}", r.code, r.stderr));
                    }
                    let n = stored_files(&t);
                    let want = (mask & 15).count_ones() as usize + usize::from(created);
                    if n != want {
                        bad.push(format!("{n} files stored, expected {want}"));
                    }
                    match t.get(&format!("{dir}/sourcebundle")) {
                        Some(Node::File(data)) if has_own => {
                            if decode(&o, data).as_deref() != Some(&own.bytes[..]) {
                                bad.push("the given source bundle was not kept".into());
                            }
                        }
                        Some(Node::File(data)) if created => {
                            let data = decode(&o, data).unwrap_or_default();
                            let ok = Archive::parse(&data).ok().and_then(|a| {
                                let o = a.objects().next()?.ok()?;
                                let s = o.debug_session().ok()?;
                                let path = src.join("main.c");
                                let f = s.source_by_path(path.to_str()?).ok()??;
                                Some(f.contents() == Some(text) && o.code_id()?.to_string() == id)
                            });
                            if ok != Some(true) {
                                bad.push("the source bundle does not serve the source".into());
                            }
                        }
                        None if !created && !has_own => {}
                        x => bad.push(format!("source bundle: {}", x.is_some())),
                    }
                    let out = String::from_utf8_lossy(&r.stdout);
                    if flag && !out.contains(&format!("Created {} source bundles", u32::from(created))) {
                        bad.push(format!("reported {:?}", out.lines().last()));
                    }
                    let b = match &bundle {
                        Bundle::None => None,
                        Bundle::Id(b) => Some(b.clone()),
                        Bundle::Multi => Some("in".to_string()),
                    };
                    if let (Some(b), true) = (b, mask & 11 != 0) {
                        let v: Value = match t.get(&format!("bundles/{b}")) {
                            Some(Node::File(m)) => serde_json::from_slice(m).unwrap_or(Value::Null),
                            _ => Value::Null,
                        };
                        let listed = v["debug_ids"].as_array().is_some_and(|a| a.contains(&json!(id)));
                        if !listed || !t.contains_key(&format!("{dir}/refs/{b}")) {
                            bad.push(format!("bundle {v}"));
                        }
                    }
                    if !bad.is_empty() {
                        ck.fail(&k, json!(bad));
                    }
                }
            }
        }
    }
}

/// Files that compete for the same places.
fn rivals() -> Vec<Item> {
    use Cpu::*;
    use Kind::*;
    vec![
        plain("one", objs::macho(Some(&U1), Lib, X64, b"AAAAAAAA")),
        plain("the-second-one.dylib", objs::macho(Some(&U1), Lib, Arm64, &[b'B'; 3000])),
        plain("same", objs::macho(Some(&U1), Lib, X64, b"AAAAAAAA")),
        fat("fat-first", vec![(objs::macho(Some(&U1), Lib, X64, b"CCCCCCCC"), X64), (objs::macho(Some(&U2), Lib, Arm64, b"DDDDDDDD"), Arm64)]),
        fat("fat-last", vec![(objs::macho(Some(&U2), Lib, X64, b"EEEEEEEE"), X64), (objs::macho(Some(&U1), Lib, Arm64, b"FFFFFFFF"), Arm64)]),
        zip("both.zip", false, vec![("zipped-1", plain("x", objs::macho(Some(&U1), Lib, X64, b"GGGGGGGG"))), ("zipped-2", plain("x", objs::macho(Some(&U2), Debug, X64, b"HHHHHHHH")))]),
        plain("dsym", objs::macho(Some(&U1), Debug, X64, b"IIIIIIII")),
    ]
}

/// Names the files uniquely, as the schedule labels threads by the input they process.
fn sched(ck: &Check, w: &World, items: &[&Item], o: &Opts, bound: usize, budget: u64) -> (u64, bool) {
    let e = expectation(items, o);
    let args = w.write(items, o.each);
    let mut full = true;
    let mut runs = 0;
    let n = explore(|ch: &mut Chooser| {
        runs += 1;
        let _ = std::fs::remove_dir_all(w.out());
        let mut last: Option<String> = None;
        let mut preempt = 0;
        let mut trace: Vec<String> = vec![];
        let r = w.cmd(o, &args).run_sched(&w.fault, |waiting| {
            // going on with the same worker is free, switching away from one that could go on is a preemption
            let cont = last.as_ref().and_then(|l| waiting.iter().position(|x| &x.0 == l));
            let pick = match cont {
                Some(c) if preempt >= bound || waiting.len() == 1 => c,
                Some(c) => {
                    let k = ch.choose(waiting.len());
                    let order: Vec<usize> = std::iter::once(c).chain((0..waiting.len()).filter(|i| *i != c)).collect();
                    if order[k] != c {
                        preempt += 1;
                    }
                    order[k]
                }
                None => ch.choose(waiting.len()),
            };
            last = Some(waiting[pick].0.clone());
            trace.push(format!("{}:{}:{}", waiting[pick].0, waiting[pick].1, waiting[pick].2.rsplit("/out/").next().unwrap_or("")));
            ck.transition(1);
            pick
        });
        let k = format!("{} schedule {:?}", key(items, o), ch.choices());
        let t = snapshot(&w.out());
        ck.trace();
        ck.state(hash64(&trace));
        let mut bad = vec![];
        match r {
            Ok(r) => {
                bad.extend(compare(&t, &e, o, true));
                bad.extend(outcome(o, &e, &r, stored_files(&t)));
            }
            Err(e) => bad.push(e),
        }
        ck.sample(|| json!({"inputs": items.iter().map(|i| &i.name).collect::<Vec<_>>(), "schedule": trace}));
        if !bad.is_empty() {
            ck.fail(&k, json!({"wrong": bad, "schedule": trace}));
        }
        if runs >= budget {
            full = false;
            return false;
        }
        !ck.saturated()
    });
    (n, full)
}

pub fn c09() -> ! {
    let ck = Check::new(
        "C09",
        "model_checking",
        "competing inputs (same identity with different content and names, alone, in fat archives and in zips): all interleavings of the file system operations of the worker threads of the real binary \
         up to a preemption bound (states: distinct schedules executed; transitions: operations scheduled), and all histories of two and three runs over one store; \
         every final store is compared with the reference",
    );
    let its = rivals();
    self_check(&ck, &its);
    let o1 = Opts { bundle: Bundle::Id("b".into()), each: false, threads: 4, ..BASE };
    // histories of runs
    let mut hist: Vec<Vec<(usize, Opts)>> = vec![];
    let ho = [
        Opts { bundle: Bundle::Id("first".into()), ..BASE },
        Opts { bundle: Bundle::Id("second".into()), ..BASE },
        Opts { bundle: Bundle::None, ..BASE },
    ];
    for a in 0..its.len() {
        for b in 0..its.len() {
            for oa in [&ho[0], &ho[2]] {
                for ob in &ho {
                    hist.push(vec![(a, oa.clone()), (b, ob.clone())]);
                    if ck.thorough() {
                        for c in 0..its.len() {
                            hist.push(vec![(a, oa.clone()), (b, ob.clone()), (c, ho[1].clone())]);
                        }
                    }
                }
            }
        }
    }
    parallel(8, |u| {
        let w = World::new("hist");
        for h in hist.iter().skip(u).step_by(8) {
            history(&ck, &w, &its, h);
        }
    });
    ck.extra("histories", hist.len() as u64);
    // schedules
    let mut sets: Vec<(Vec<&Item>, Opts, usize)> = vec![];
    for i in 0..its.len() {
        for j in i + 1..its.len() {
            sets.push((vec![&its[i], &its[j]], o1.clone(), if ck.thorough() { 4 } else { 2 }));
        }
    }
    sets.push((vec![&its[0], &its[1]], Opts { bundle: Bundle::None, ..o1.clone() }, if ck.thorough() { 8 } else { 4 }));
    sets.push((vec![&its[0], &its[1], &its[5]], Opts { bundle: Bundle::None, ..o1.clone() }, if ck.thorough() { 3 } else { 1 }));
    sets.push((vec![&its[0], &its[1], &its[6]], Opts { bundle: Bundle::None, ..o1.clone() }, if ck.thorough() { 3 } else { 1 }));
    let bounded = std::sync::atomic::AtomicU64::new(0);
    let budget = if ck.thorough() { 20000 } else { 1500 };
    sets.sort_by_key(|s| std::cmp::Reverse(s.2 * s.0.len()));
    parallel(sets.len(), |u| {
        let w = World::new("sched");
        let (items, o, bound) = &sets[u];
        let (n, full) = sched(&ck, &w, items, o, *bound, budget);
        ck.extra_add("schedules", n);
        if !full {
            bounded.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        }
    });
    let b = bounded.into_inner();
    ck.extra("preemption_bound", json!("2-4 (quick), 3-8 (thorough)"));
    if b > 0 {
        ck.extra("input sets cut off by the schedule budget", b);
        ck.not_exhaustive();
    }
    ck.finish()
}

/// Several runs over the same store: what is there stays as it is, what is new is added.
fn history(ck: &Check, w: &World, its: &[Item], h: &[(usize, Opts)]) {
    let _ = std::fs::remove_dir_all(w.out());
    let mut store = Tree::new();
    let k = h.iter().map(|(i, o)| format!("{} {:?}", its[*i].name, o.bundle)).collect::<Vec<_>>().join(" then ");
    let mut bad = vec![];
    for (i, o) in h {
        let it = &its[*i];
        let args = w.write(&[it], true);
        let r = w.cmd(o, &args).run();
        let t = snapshot(&w.out());
        ck.transition(1);
        if r.code != Some(0) {
            bad.push(format!("exit code {:?}: {}", r.code, r.stderr));
        }
        // everything that was there is untouched (the bundle of this very run may be rewritten)
        let own = match &o.bundle {
            Bundle::Id(b) => format!("bundles/{b}"),
            _ => String::new(),
        };
        for (p, n) in &store {
            if t.get(p) != Some(n) && *p != own {
                bad.push(format!("{p} changed"));
            }
        }
        let e = expectation(&[it], o);
        // new files are this input's, old ones stay
        let mut new = Tree::new();
        for (p, n) in &t {
            if !store.contains_key(p) || *p == own {
                new.insert(p.clone(), n.clone());
            }
        }
        let mut e2 = e;
        let ids: BTreeSet<String> = e2
            .must
            .iter()
            .filter(|p| !store.contains_key(*p))
            .map(|p| p.rsplit_once('/').unwrap().0.replace('/', ""))
            .collect();
        e2.must.retain(|p| !store.contains_key(p));
        e2.refs_must.retain(|p| !store.contains_key(p));
        for (_, must) in e2.bundles.values_mut() {
            *must = ids.clone();
        }
        bad.extend(compare(&new, &e2, o, true));
        store = t;
        ck.state(hash64(&store.iter().filter(|(p, _)| !p.starts_with("bundles/")).collect::<Vec<_>>()));
    }
    ck.trace();
    if !bad.is_empty() {
        ck.fail(&k, json!(bad));
    }
}

/// C10: any fault, then the same command again.
pub fn c10() -> ! {
    let ck = Check::new(
        "C10",
        "fault_enumeration",
        "for each input set and option set: the process is killed before every file system operation, killed half way through every write, every operation fails once (EIO, EACCES), \
         or everything fails from some operation on (full disk); then the command is repeated without fault (thorough: after a second fault); non-trivial: the fault point was reached",
    );
    use Cpu::*;
    use Kind::*;
    let big = vec![0x5a; if ck.thorough() { 400_000 } else { 60_000 }];
    let its = vec![
        plain("lib.so", objs::elf(Some(&B20), Lib, &big)),
        plain("lib.debug", objs::elf(Some(&B20), Debug, b"1")),
        fat("fat", vec![(objs::macho(Some(&U1), Lib, X64, b"nnnnnnnn"), X64), (objs::macho(Some(&U2), Lib, Arm64, b"oooooooo"), Arm64)]),
        zip("z.zip", false, vec![("a", plain("x", objs::macho(Some(&U1), Debug, X64, b"GGGGGGGG"))), ("b", plain("x", objs::macho(Some(&U2), Debug, X64, b"HHHHHHHH")))]),
        plain("dup", objs::elf(Some(&B20), Lib, b"other")),
    ];
    self_check(&ck, &its);
    let sets: Vec<Vec<usize>> = vec![vec![0], vec![0, 1], vec![2], vec![3], vec![0, 4], vec![1, 2, 3]];
    let mut units = vec![];
    for s in &sets {
        for bundle in [Bundle::None, Bundle::Id("b".into()), Bundle::Multi] {
            for compress in [0, 1] {
                for prefix in [None, Some("p")] {
                    units.push((s.clone(), Opts { bundle: bundle.clone(), compress, prefix, threads: 1, ..BASE }));
                }
            }
        }
    }
    let next = std::sync::atomic::AtomicUsize::new(0);
    parallel(8, |_| {
        let w = World::new("crash");
        loop {
            let i = next.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
            if i >= units.len() || ck.saturated() {
                return;
            }
            let (s, o) = &units[i];
            let items: Vec<&Item> = s.iter().map(|i| &its[*i]).collect();
            crash_unit(&ck, &w, &items, o);
        }
    });
    ck.assume("A killed process loses nothing it has handed to the kernel (no power failure); faults hit operations below the output directory.");
    ck.finish()
}

fn crash_unit(ck: &Check, w: &World, items: &[&Item], o: &Opts) {
    let args = w.write(items, o.each);
    let before = snapshot(&w.input());
    let e = expectation(items, o);
    let _ = std::fs::remove_dir_all(w.out());
    let r = w.cmd(o, &args).run_fault(&w.fault, Mode::None);
    let total = w.fault.count();
    let bad = compare(&snapshot(&w.out()), &e, o, true);
    if r.code != Some(0) || !bad.is_empty() {
        ck.fail(&format!("{} without a fault", key(items, o)), json!({"exit": r.code, "wrong": bad}));
        return;
    }
    ck.extra_add("operations", total as u64);
    let mut modes = vec![];
    for n in 1..=total {
        modes.extend([Mode::Kill(n), Mode::Torn(n), Mode::Full(n), Mode::Err(n, libc::EIO)]);
        if ck.thorough() {
            modes.push(Mode::Err(n, libc::EACCES));
        }
    }
    for m in &modes {
        faulted(ck, w, items, o, &e, &args, &[*m]);
        if ck.thorough() {
            for n in 1..=total {
                for m2 in [Mode::Kill(n), Mode::Torn(n), Mode::Full(n)] {
                    if matches!(m, Mode::Kill(_) | Mode::Torn(_)) && items.len() < 3 && o.prefix.is_none() {
                        faulted(ck, w, items, o, &e, &args, &[*m, m2]);
                    }
                }
            }
        }
        if ck.saturated() {
            return;
        }
    }
    if let Some(b) = inputs_unchanged(w, items, &before) {
        ck.fail(&key(items, o), json!(b));
    }
}

fn faulted(ck: &Check, w: &World, items: &[&Item], o: &Opts, e: &Expect, args: &[String], modes: &[Mode]) {
    let k = format!("{} fault {modes:?}", key(items, o));
    let _ = std::fs::remove_dir_all(w.out());
    let mut bad = vec![];
    let mut hits = vec![];
    for m in modes {
        let r = w.cmd(o, args).run_fault(&w.fault, *m);
        let hit = w.fault.hit();
        let t = snapshot(&w.out());
        // whatever is found under its final name is complete, at any time
        for b in compare(&t, e, o, false) {
            bad.push(format!("after the fault {m:?} at {hit:?}: {b}"));
        }
        // a failed operation is reported, unless nothing is missing
        if hit.is_some() && r.code == Some(0) && matches!(m, Mode::Err(..) | Mode::Full(_)) {
            for b in relaxed(compare(&t, e, o, true)) {
                bad.push(format!("success reported in spite of {m:?} at {hit:?}: {b}"));
            }
        }
        hits.push(hit);
    }
    let r = w.cmd(o, args).run();
    let t = snapshot(&w.out());
    if r.code != Some(0) {
        bad.push(format!("the repeated run fails: {:?} {}", r.code, r.stderr));
    }
    for b in relaxed(compare(&t, e, o, true)) {
        bad.push(format!("after the repeated run: {b}"));
    }
    ck.eval(hits.iter().all(|h| h.is_some()).then(|| hash64(&k)));
    ck.sample(|| json!({"inputs": items.iter().map(|i| &i.name).collect::<Vec<_>>(), "fault": format!("{modes:?}"), "at": hits}));
    if !bad.is_empty() {
        ck.fail(&k, json!(bad));
    }
}

/// Leftovers that nobody looks at, and ids a bundle of an earlier (interrupted) run listed, do not matter.
fn relaxed(v: Vec<String>) -> Vec<String> {
    v.into_iter()
        .filter(|b| !(b.starts_with("unexpected ") && ![".meta", "/executable", "/debuginfo", "/sourcebundle", "/breakpad"].iter().any(|s| b.ends_with(s))))
        .filter(|b| !(b.contains("bundles/") && b.contains("must list") && !b.contains("= null")))
        .collect()
}

#[allow(dead_code)]
fn unused(_: &Path) {}
