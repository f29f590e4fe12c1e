//! C11, C12: wasm-split.

use std::os::unix::fs::PermissionsExt;
use std::path::PathBuf;

use vmc::serde_json::json;
use vmc::{hash64, parallel, Check, Scratch};

use crate::objs::{hex, leb, wasm_code, wasm_custom, wasm_section};
use crate::run::{bin, Cmd, Fault, Mode, Outcome};

type Section = (u8, Vec<u8>);

const HEADER: &[u8] = b"\0asm\x01\0\0\0";

/// Splits a module into its sections.
fn parse(data: &[u8]) -> Option<Vec<Section>> {
    let mut d = data.strip_prefix(HEADER)?;
    let mut v = vec![];
    while let Some((&id, rest)) = d.split_first() {
        let mut len = 0usize;
        let mut shift = 0;
        let mut i = 0;
        loop {
            let b = *rest.get(i)?;
            i += 1;
            len |= ((b & 0x7f) as usize) << shift;
            shift += 7;
            if b & 0x80 == 0 {
                break;
            }
            if shift > 28 {
                return None;
            }
        }
        v.push((id, rest.get(i..i + len)?.to_vec()));
        d = &rest[i + len..];
    }
    Some(v)
}

fn custom(s: &Section) -> Option<(&str, &[u8])> {
    if s.0 != 0 {
        return None;
    }
    // names here are shorter than 128 bytes
    let n = *s.1.first()? as usize;
    Some((std::str::from_utf8(s.1.get(1..1 + n)?).ok()?, &s.1[1 + n..]))
}

fn mk_custom(name: &str, data: &[u8]) -> Section {
    let mut p = leb(name.len());
    p.extend(name.as_bytes());
    p.extend(data);
    (0, p)
}

/// The content of a build id section by the tool conventions: its length, then its bytes.
fn prefixed(id: &[u8]) -> Vec<u8> {
    let mut v = leb(id.len());
    v.extend(id);
    v
}

const OLD_ID: [u8; 20] = [0xa1; 20];
const OTHER_ID: [u8; 3] = [1, 2, 0xff];
/// Ids to give, the first one wherever it does not matter.
const IDS: [&str; 4] = ["67e9247c-814e-392b-a027-dbde6748fcbf", "00000000-0000-0000-0000-000000000000", "FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFF", "67e9247c814e492ba027dbde6748fcbf"];

struct Kind {
    name: &'static str,
    bytes: Vec<u8>,
    /// position among the standard sections, which have a fixed order
    rank: u8,
}

fn kinds() -> Vec<Kind> {
    let [t, f, c] = wasm_code();
    let k = |name, bytes, rank| Kind { name, bytes, rank };
    vec![
        k("type", t, 1),
        k("function", f, 2),
        k("code", c, 3),
        // function 0 is called "main"
        k("name", wasm_custom("name", &[1, 7, 1, 0, 4, b'm', b'a', b'i', b'n']), 0),
        k(".debug_info", wasm_custom(".debug_info", &[0x42; 300]), 0),
        k(".debug_line", wasm_custom(".debug_line", b""), 0),
        k("build_id", wasm_custom("build_id", &prefixed(&OLD_ID)), 0),
        k("build_id 2", wasm_custom("build_id", &prefixed(&OTHER_ID)), 0),
        k("producers", wasm_custom("producers", &[1, 8, b'l', b'a', b'n', b'g', b'u', b'a', b'g', b'e', 1, 1, b'C', 0]), 0),
        k(".debug", wasm_custom(".debug", b"not a debug section"), 0),
        k("reloc..debug_info", wasm_custom("reloc..debug_info", b"xyz"), 0),
        k("external_debug_info", wasm_custom("external_debug_info", b"\x07old.url"), 0),
        // a longer encoding of the length than needed
        k("padded", {
            let s = wasm_section(0, b"\x03abcdef");
            let mut v = vec![0, s[1] | 0x80, 0x80, 0x80, 0];
            v.extend(&s[2..]);
            v
        }, 0),
        k("empty build_id", wasm_custom("build_id", &[0]), 0),
        k("broken name", wasm_custom("name", &[1, 200, 1]), 0),
        k("sourceMappingURL", wasm_custom("sourceMappingURL", b"\x05a.map"), 0),
    ]
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
struct Opts {
    out: bool,
    debug_out: bool,
    strip: bool,
    strip_names: bool,
    quiet: bool,
    build_id: Option<usize>,
    url: bool,
}

impl Opts {
    fn from_bits(n: u32) -> Opts {
        let b = |i: u32| n >> i & 1 == 1;
        Opts { out: b(0), debug_out: b(1), strip: b(2), strip_names: b(3), quiet: b(4), build_id: b(5).then_some(0), url: b(6) }
    }
}

struct World {
    scratch: Scratch,
    fault: Fault,
}

impl World {
    fn new() -> World {
        let scratch = Scratch::new("split");
        let fault = Fault::new(&scratch.0);
        World { scratch, fault }
    }
    fn dir(&self) -> PathBuf {
        self.scratch.0.join("w d")
    }
    fn cmd(&self, o: &Opts) -> Cmd<'_> {
        let d = self.dir();
        let p = |n: &str| d.join(n).to_string_lossy().into_owned();
        let mut args = vec![p("in.wasm")];
        if o.out {
            args.extend(["-o".into(), p("out.wasm")]);
        }
        if o.debug_out {
            args.push(format!("--debug-out={}", p("x é.debug.wasm")));
        }
        for (f, n) in [(o.strip, "--strip"), (o.strip_names, "--strip-names"), (o.quiet, "-q")] {
            if f {
                args.push(n.into());
            }
        }
        if let Some(id) = o.build_id {
            args.push(format!("--build-id={}", IDS[id]));
        }
        if o.url {
            args.push("--external-dwarf-url=https://x.test/a b?c".into());
        }
        Cmd {
            exe: bin("wasm-split"),
            args,
            cwd: &self.scratch.0,
            root: Box::leak(d.into_boxed_path()),
            input: Box::leak(PathBuf::from("/nonexistent").into_boxed_path()),
            threads: 1,
        }
    }
    fn reset(&self, input: &[u8]) {
        let d = self.dir();
        let _ = std::fs::create_dir_all(&d);
        for f in std::fs::read_dir(&d).unwrap().flatten() {
            std::fs::remove_file(f.path()).unwrap();
        }
        std::fs::write(d.join("in.wasm"), input).unwrap();
    }
    fn read(&self, n: &str) -> Option<Vec<u8>> {
        std::fs::read(self.dir().join(n)).ok()
    }
    fn files(&self) -> Vec<String> {
        let mut v: Vec<String> = std::fs::read_dir(self.dir()).unwrap().flatten().map(|e| e.file_name().to_string_lossy().into_owned()).collect();
        v.sort();
        v
    }
}

fn id_of(v: &[Section]) -> Option<Vec<u8>> {
    v.iter().filter_map(custom).find(|c| c.0 == "build_id").map(|c| c.1[1..].to_vec())
}

fn uuid4(b: &[u8]) -> bool {
    b.len() == 16 && b[6] >> 4 == 4 && b[8] >> 6 == 2
}

/// Code and debug id as symsorter and symbolicator see them.
fn identity(data: &[u8]) -> Option<(String, String)> {
    let a = symbolic::debuginfo::Archive::parse(data).ok()?;
    let o = a.objects().next()?.ok()?;
    Some((o.code_id().map(|c| c.to_string()).unwrap_or_default(), o.debug_id().to_string()))
}

struct Expect {
    main: Vec<Section>,
    debug: Option<Vec<Section>>,
}

/// What the outputs must contain, given the id that was reported.
fn expect(sections: &[Section], id: &[u8], o: &Opts, broken_name: bool) -> Expect {
    let mut all = sections.to_vec();
    if id_of(sections).is_none() {
        all.push(mk_custom("build_id", &prefixed(id)));
    }
    let mut main: Vec<Section> = all
        .iter()
        .filter(|s| match custom(s) {
            Some((n, _)) if o.strip => !n.starts_with(".debug_") && (n != "name" || !o.strip_names || broken_name),
            _ => true,
        })
        .cloned()
        .collect();
    let url = if o.url {
        Some("https://x.test/a b?c")
    } else if o.debug_out {
        Some("x é.debug.wasm")
    } else {
        None
    };
    if let Some(u) = url {
        let mut d = leb(u.len());
        d.extend(u.as_bytes());
        main.push(mk_custom("external_debug_info", &d));
    }
    Expect { main, debug: o.debug_out.then_some(all) }
}

/// A section that cannot be read is kept or stripped, but not changed.
fn same(got: &[Section], want: &[Section], broken: bool) -> bool {
    if !broken {
        return got == want;
    }
    let f = |v: &[Section]| v.iter().filter(|s| custom(s).is_none_or(|c| c.0 != "name")).cloned().collect::<Vec<_>>();
    f(got) == f(want)
}

fn show(v: &Option<Vec<u8>>) -> String {
    match v {
        None => "missing".into(),
        Some(b) => match parse(b) {
            None => format!("not a module ({} bytes)", b.len()),
            Some(s) => format!("{:?}", s.iter().map(|s| custom(s).map(|c| format!("{} {}", c.0, c.1.len())).unwrap_or(format!("#{}", s.0))).collect::<Vec<_>>()),
        },
    }
}

/// Everything that must hold after a successful run on a well-formed module.
fn success(w: &World, input: &[u8], o: &Opts, r: &Outcome, broken: bool, reported: bool) -> Vec<String> {
    let mut bad = vec![];
    let sections = parse(input).unwrap();
    if r.code != Some(0) {
        return vec![format!("exit code {:?}: {}", r.code, r.stderr)];
    }
    let target = if o.out { "out.wasm" } else { "in.wasm" };
    let main = w.read(target);
    let Some(got) = main.as_deref().and_then(parse) else {
        return vec![format!("{target} is {}", show(&main))];
    };
    let Some(id) = id_of(&got) else {
        return vec!["the output has no build id".into()];
    };
    match id_of(&sections) {
        Some(old) => {
            if id != old {
                bad.push(format!("the id changed from {} to {}", hex(&old), hex(&id)));
            }
        }
        None if o.build_id.is_some() => {
            if hex(&id) != IDS[o.build_id.unwrap()].replace('-', "").to_lowercase() {
                bad.push(format!("the id is {}", hex(&id)));
            }
        }
        None => {
            if !uuid4(&id) {
                bad.push(format!("the new id is {}", hex(&id)));
            }
        }
    }
    let e = expect(&sections, &id, o, broken);
    if !same(&got, &e.main, broken) {
        bad.push(format!("{target} is {}", show(&main)));
    }
    let debug = w.read("x é.debug.wasm");
    if debug.as_deref().and_then(parse) != e.debug || (debug.is_some() != o.debug_out) {
        bad.push(format!("the debug file is {}", show(&debug)));
    }
    // symbolicator finds both files by one identity
    if let (Some(d), Some(m), Some(_)) = (&debug, &main, identity(input)) {
        let (d, m) = (identity(d), identity(m));
        let ids = got.iter().filter_map(custom).filter(|c| c.0 == "build_id").count();
        if d != m || (ids == 1 && d.as_ref().is_none_or(|d| !d.0.ends_with(&hex(&id)))) {
            bad.push(format!("different identities: {d:?} and {m:?}"));
        }
    }
    if o.out && w.read("in.wasm").as_deref() != Some(input) {
        bad.push("the input was modified".into());
    }
    let out = String::from_utf8_lossy(&r.stdout);
    let want = if o.quiet { String::new() } else { format!("{}\n", hex(&id)) };
    if reported && out != want {
        bad.push(format!("printed {out:?}, the id is {}", hex(&id)));
    }
    bad
}

fn case(ck: &Check, w: &World, name: &[&str], input: &[u8], o: &Opts) {
    let k = format!("{name:?} {o:?}");
    let broken = name.contains(&"broken name");
    w.reset(input);
    // what was in the outputs before goes away
    if name.len() % 2 == 1 {
        for (_, n) in [(o.out, "out.wasm"), (o.debug_out, "x é.debug.wasm")].iter().filter(|n| n.0) {
            std::fs::write(w.dir().join(n), [7; 5000]).unwrap();
        }
    }
    let r = w.cmd(o).run();
    let mut bad = success(w, input, o, &r, broken, true);
    let mut files = vec!["in.wasm"];
    if o.out {
        files.push("out.wasm");
    }
    if o.debug_out {
        files.push("x é.debug.wasm");
    }
    if w.files() != files {
        bad.push(format!("files {:?}", w.files()));
    }
    // the result has an id now, which stays
    if bad.is_empty() && !o.quiet && !o.out {
        let again = w.cmd(&Opts { out: false, debug_out: false, strip: false, strip_names: false, quiet: false, build_id: Some(0), url: false });
        let before = w.read("in.wasm").unwrap();
        let r2 = again.run();
        if r2.code != Some(0) || r2.stdout != r.stdout || w.read("in.wasm").as_deref().and_then(parse) != parse(&before) {
            bad.push(format!("a second run: {:?} {:?}", r2.code, String::from_utf8_lossy(&r2.stdout)));
        }
    }
    ck.eval((!name.is_empty()).then(|| hash64(&k)));
    ck.sample(|| json!({"sections": name, "options": format!("{o:?}"), "id": String::from_utf8_lossy(&r.stdout)}));
    if !bad.is_empty() {
        ck.fail(&k, json!({"wrong": bad}));
    }
}

fn sequences(ks: &[Kind], len: usize) -> Vec<Vec<usize>> {
    let mut all: Vec<Vec<usize>> = vec![vec![]];
    let mut last = all.clone();
    for _ in 0..len {
        let mut next = vec![];
        for s in &last {
            let top = s.iter().map(|i| ks[*i].rank).max().unwrap_or(0);
            for (i, k) in ks.iter().enumerate() {
                if k.rank == 0 || k.rank > top {
                    let mut s = s.clone();
                    s.push(i);
                    next.push(s);
                }
            }
        }
        all.extend(next.iter().cloned());
        last = next;
    }
    all
}

fn build(ks: &[Kind], s: &[usize]) -> Vec<u8> {
    let mut v = HEADER.to_vec();
    for i in s {
        v.extend(&ks[*i].bytes);
    }
    v
}

pub fn c11() -> ! {
    let ck = Check::new(
        "C11",
        "exploration",
        "every sequence of up to two (thorough: three) sections of an alphabet of 16 under all 128 combinations of options, every sequence of three (thorough: four) under selected ones, and every truncation of a module; \
         the real binary is executed and its outputs are compared section by section with a reference; non-trivial: the module has sections",
    );
    let ks = kinds();
    let deep = usize::from(ck.thorough());
    let seqs = sequences(&ks, 3 + deep);
    let sel = [0b0000110, 0b0101111, 0b1000101, 0b0001100, 0b0000001, 0b0100010];
    let cases: Vec<(&Vec<usize>, Opts)> = seqs
        .iter()
        .flat_map(|s| {
            let all = s.len() <= 2 + deep;
            let bits: Vec<u32> = if all { (0..128).collect() } else { sel.to_vec() };
            bits.into_iter().flat_map(move |b| {
                let o = Opts::from_bits(b);
                // all ids for short modules
                let ids = if o.build_id.is_some() && s.len() <= 1 { IDS.len() } else { 1 };
                (0..ids).map(move |id| (s, Opts { build_id: o.build_id.map(|_| id), ..o }))
            })
        })
        .collect();
    parallel(8, |u| {
        let w = World::new();
        for (s, o) in cases.iter().skip(u).step_by(8) {
            if ck.saturated() {
                return;
            }
            let names: Vec<&str> = s.iter().map(|i| ks[*i].name).collect();
            case(&ck, &w, &names, &build(&ks, s), o);
        }
    });
    // damaged input: an error, and nothing is written
    let w = World::new();
    let full = build(&ks, &[0, 1, 2, 4, 6, 8]);
    let mut broken: Vec<(String, Vec<u8>)> = (0..full.len())
        .map(|n| (format!("truncated at {n}"), full[..n].to_vec()))
        .filter(|(_, b)| parse(b).is_none())
        .collect();
    broken.push(("version".into(), b"\0asm\x02\0\0\0".to_vec()));
    broken.push(("text".into(), b"(module)".to_vec()));
    for (n, b) in &broken {
        for bits in [0, 1, 2, 3, 0b1101111] {
            let o = Opts::from_bits(bits);
            w.reset(b);
            let r = w.cmd(&o).run();
            let k = format!("{n} {o:?}");
            ck.eval(Some(hash64(&k)));
            if r.code != Some(1) || w.files() != ["in.wasm"] || w.read("in.wasm").as_ref() != Some(b) || !r.stdout.is_empty() || r.stderr.is_empty() {
                ck.fail(&k, json!({"exit": r.code, "files": w.files(), "stderr": r.stderr}));
            }
        }
    }
    // fresh ids are fresh, permissions stay, symlinks are followed
    let plain = build(&ks, &[0, 1, 2]);
    let mut seen = std::collections::BTreeSet::new();
    for mode in [0o644, 0o755, 0o600, 0o640] {
        for link in [false, true] {
            w.reset(&plain);
            let f = w.dir().join("in.wasm");
            let real = if link {
                let real = w.dir().join("real.wasm");
                std::fs::rename(&f, &real).unwrap();
                std::os::unix::fs::symlink("real.wasm", &f).unwrap();
                real
            } else {
                f.clone()
            };
            std::fs::set_permissions(&real, std::fs::Permissions::from_mode(mode)).unwrap();
            let o = Opts::from_bits(0);
            let r = w.cmd(&o).run();
            let mut bad = success(&w, &plain, &o, &r, false, true);
            if std::fs::metadata(&f).unwrap().permissions().mode() & 0o777 != mode {
                bad.push("the permissions changed".into());
            }
            if std::fs::symlink_metadata(&f).unwrap().is_symlink() != link {
                bad.push("the symlink was replaced".into());
            }
            if !seen.insert(r.stdout.clone()) {
                bad.push("the id was given out before".into());
            }
            let k = format!("mode {mode:o} link {link}");
            ck.eval(Some(hash64(&k)));
            if !bad.is_empty() {
                ck.fail(&k, json!(bad));
            }
        }
    }
    ck.extra("sections", ks.len() as u64);
    ck.finish()
}

pub fn c12() -> ! {
    let ck = Check::new(
        "C12",
        "fault_enumeration",
        "for modules with and without debug data and build id, under all options that write: the process is killed before every file system operation, killed half way through every write, \
         every operation fails once (EIO, EACCES), or everything fails from some operation on; then the command is repeated; non-trivial: the fault point was reached",
    );
    let ks = kinds();
    let mut inputs: Vec<(Vec<&str>, Vec<u8>)> = [vec![0, 1, 2, 3, 4, 5], vec![0, 1, 2, 6, 4], vec![0, 1, 2], vec![4, 6, 7]]
        .iter()
        .map(|s| (s.iter().map(|i: &usize| ks[*i].name).collect(), build(&ks, s)))
        .collect();
    // more than one write
    let mut big = build(&ks, &[0, 1, 2]);
    big.extend(wasm_custom(".debug_info", &vec![7; if ck.thorough() { 100_000 } else { 20_000 }]));
    for i in 0..if ck.thorough() { 40u8 } else { 12 } {
        big.extend(wasm_custom("filler", &vec![i; 2000]));
    }
    inputs.push((vec!["big"], big));
    let units: Vec<(&(Vec<&str>, Vec<u8>), Opts)> =
        inputs.iter().flat_map(|i| (0..128).map(Opts::from_bits).filter(|o| !o.quiet).map(move |o| (i, o))).collect();
    let next = std::sync::atomic::AtomicUsize::new(0);
    parallel(8, |_| {
        let w = World::new();
        loop {
            let i = next.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
            if i >= units.len() || ck.saturated() {
                return;
            }
            let ((names, input), o) = &units[i];
            // the random id is the only difference
            unit(&ck, &w, names, input, o);
        }
    });
    ck.assume("A killed process loses nothing it has handed to the kernel (no power failure).");
    ck.finish()
}

/// The debug sections of the input are in one of the files.
fn nothing_lost(w: &World, sections: &[Section], o: &Opts) -> bool {
    let has = |n: &str| {
        w.read(n).as_deref().and_then(parse).is_some_and(|v| {
            sections.iter().filter(|s| custom(s).is_some_and(|c| c.0.starts_with(".debug_") || c.0 == "name")).all(|s| v.contains(s))
        })
    };
    // with --strip and no debug file they are thrown away on demand
    has("in.wasm") || has("out.wasm") || has("x é.debug.wasm") || (o.strip && !o.debug_out)
}

fn unit(ck: &Check, w: &World, names: &[&str], input: &[u8], o: &Opts) {
    let k0 = format!("{names:?} {o:?}");
    let sections = parse(input).unwrap();
    w.reset(input);
    let r = w.cmd(o).run_fault(&w.fault, Mode::None);
    let total = w.fault.count();
    let bad = success(w, input, o, &r, false, true);
    if !bad.is_empty() {
        ck.fail(&format!("{k0} without a fault"), json!(bad));
        return;
    }
    ck.extra_add("operations", total as u64);
    let mut modes = vec![];
    for n in 1..=total {
        modes.extend([Mode::Kill(n), Mode::Torn(n), Mode::Full(n), Mode::Err(n, libc::EIO)]);
        if ck.thorough() {
            modes.extend([Mode::Err(n, libc::EACCES), Mode::Err(n, libc::ENOSPC)]);
        }
    }
    for stale in [false, true] {
        for m in &modes {
            let k = format!("{k0} fault {m:?} over old outputs: {stale}");
            w.reset(input);
            if stale {
                // outputs of an earlier build are in the way
                for (f, n) in [(o.out, "out.wasm"), (o.debug_out, "x é.debug.wasm")] {
                    if f {
                        std::fs::write(w.dir().join(n), vec![0; 3000]).unwrap();
                    }
                }
            }
            let r = w.cmd(o).run_fault(&w.fault, *m);
            let hit = w.fault.hit();
            let mut bad = vec![];
            if hit.is_some() && r.code == Some(0) {
                // a failure nobody has to know about
                for b in success(w, input, o, &r, false, true) {
                    bad.push(format!("success reported, but {b}"));
                }
            } else if hit.is_some() && !matches!(m, Mode::Kill(_) | Mode::Torn(_)) && (r.code != Some(1) || r.stderr.is_empty()) {
                bad.push(format!("exit code {:?}", r.code));
            }
            let now = w.read("in.wasm");
            if now.as_deref() != Some(input) {
                let ok = Outcome { code: Some(0), stdout: vec![], stderr: String::new() };
                if o.out {
                    bad.push("the input was modified".into());
                } else if now.is_none() {
                    bad.push("the input is gone".into());
                } else {
                    for b in success(w, input, o, &ok, false, false) {
                        bad.push(format!("neither the old nor the new module, or without its debug file: {b}"));
                    }
                }
            }
            if !nothing_lost(w, &sections, o) {
                bad.push("debug data is lost".into());
            }
            // repeat, if the input is still the original one
            if now.as_deref() == Some(input) {
                let r = w.cmd(o).run();
                for b in success(w, input, o, &r, false, true) {
                    bad.push(format!("after the repeated run: {b}"));
                }
            }
            ck.eval(hit.is_some().then(|| hash64(&k)));
            ck.sample(|| json!({"module": names, "options": format!("{o:?}"), "fault": format!("{m:?}"), "at": hit}));
            if !bad.is_empty() {
                ck.fail(&k, json!({"at": hit, "wrong": bad}));
            }
        }
        if !(o.out || o.debug_out) || ck.saturated() {
            break;
        }
    }
}
