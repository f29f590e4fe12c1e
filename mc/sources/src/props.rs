use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::path::{Component, PathBuf};
use std::sync::Arc;

use symbolic_common::{CodeId, DebugId};
use symbolicator_sources::*;
use url::Url;
use vmc::serde_json::{json, Value};
use vmc::{hash64, no_panic, parallel, Check};

use crate::gen::*;
use crate::model::{self, Id};

pub fn run(id: &str) -> ! {
    match id {
        "C01" => c01(),
        "C02" => c02(),
        "C03" => c03(),
        "C04" => c04(),
        "C05" => c05(),
        "C06" => c06(),
        "C07" => c07(),
        "C13" => c13(),
        "C14" => c14(),
        "C15" => c15(),
        _ => panic!("unknown property {id}"),
    }
}

fn cfg(layout: DirectoryLayoutType, casing: FilenameCasing) -> CommonSourceConfig {
    CommonSourceConfig {
        layout: DirectoryLayout { ty: layout, casing },
        ..Default::default()
    }
}

fn locs(c: &CommonSourceConfig, fts: &[FileType], idx: Option<&SourceIndex>, o: &ObjectId) -> Vec<String> {
    // an endless list is as wrong as any other
    SourceLocationIter::new(c, fts, idx, o).take(4096).map(|l| l.to_string()).collect()
}

fn describe(l: DirectoryLayoutType, c: FilenameCasing, ft: FileType, o: &ObjectId) -> String {
    format!(
        "layout={l:?} casing={c:?} filetype={} type={} code_id={:?} code_file={:?} debug_id={:?} debug_file={:?}",
        ft.as_ref(),
        o.object_type,
        o.code_id.as_ref().map(|c| c.to_string()),
        o.code_file,
        o.debug_id.map(|d| d.to_string()),
        o.debug_file
    )
}

fn c01() -> ! {
    let ck = Check::new(
        "C01",
        "exploration",
        "full product of layouts x casings x file types x object types x code ids x debug ids x file names \
         (quick: code and debug file names vary over two crossing lines of the product; thorough: full product); \
         a case is non-trivial when the scheme has at least one location for it; plus all ordered pairs of file types per identity",
    );
    let full = ck.thorough();
    let (cis, dis, ns) = (code_ids(full), debug_ids(full), names(true));
    let mut pairs: Vec<(usize, usize)> = vec![];
    for i in 0..ns.len() {
        for j in 0..ns.len() {
            let rep = |k: usize| k == 0 || k == 5 || k == 6;
            if rep(i) || rep(j) || i == j || (i + 7) % ns.len() == j {
                pairs.push((i, j));
            }
        }
    }
    // unit of work: one name pair
    parallel(pairs.len(), |u| {
        if ck.saturated() {
            return;
        }
        let (i, j) = pairs[u];
        // dense in the identifiers for a few name pairs, sparse for the others
        for (ci, code_id) in cis.iter().enumerate() {
            for (di, debug_id) in dis.iter().enumerate() {
                if !full && !((i + j + ci + di) % 3 == 0 || i == 5 || j == 5) {
                    continue;
                }
                for ty in OBJTYPES {
                    let o = oid(ty, code_id, &ns[i], debug_id, &ns[j]);
                    let m = Id::of(&o);
                    for layout in LAYOUTS {
                        for casing in CASINGS {
                            let conf = cfg(layout, casing);
                            for ft in FILETYPES {
                                let got = match no_panic(|| locs(&conf, &[ft], None, &o)) {
                                    Ok(g) => g,
                                    Err(p) => {
                                        ck.fail(&format!("{}: panic", describe(layout, casing, ft, &o)), json!(p));
                                        continue;
                                    }
                                };
                                let want = m.locations(layout, casing, ft);
                                ck.eval((!want.order.is_empty()).then(|| hash64(&(&got, ft.as_ref()))));
                                if !want.matches(&got) {
                                    ck.fail(
                                        &describe(layout, casing, ft, &o),
                                        json!({"tried": got, "documented": want.order}),
                                    );
                                }
                                if !got.is_empty() {
                                    ck.sample(|| json!({"case": describe(layout, casing, ft, &o), "locations": got}));
                                }
                            }
                        }
                    }
                }
            }
        }
    });
    // Several file types: every file type's locations, in the order requested.
    let ids = identities();
    parallel(ids.len(), |u| {
        let o = &ids[u];
        let m = Id::of(o);
        for layout in LAYOUTS {
            for casing in CASINGS {
                let conf = cfg(layout, casing);
                let mut lists: Vec<Vec<FileType>> = vec![FileType::all().to_vec(), FileType::sources().to_vec(), vec![]];
                for ty in OBJTYPES {
                    lists.push(FileType::from_object_type(ty).to_vec());
                }
                for a in FILETYPES {
                    for b in FILETYPES {
                        lists.push(vec![a, b]);
                        for c in FILETYPES {
                            lists.push(vec![a, b, c]);
                        }
                    }
                }
                for fts in lists {
                    let got = locs(&conf, &fts, None, o);
                    let mut want = vec![];
                    for ft in &fts {
                        want.extend(m.locations(layout, casing, *ft).order);
                    }
                    let n = want.len();
                    let e = model::Expected { order: want };
                    ck.eval((n > 1).then(|| hash64(&got)));
                    if !e.matches(&got) {
                        let names: Vec<&str> = fts.iter().map(|f| f.as_ref()).collect();
                        ck.fail(
                            &format!("order {names:?} {}", describe(layout, casing, FILETYPES[0], o)),
                            json!({"tried": got, "documented": e.order}),
                        );
                    }
                }
            }
        }
    });
    // The candidate file types of an object kind, and the file types that can carry sources.
    for ty in OBJTYPES {
        let fts: Vec<&str> = FileType::from_object_type(ty).iter().map(|f| f.as_ref()).collect();
        let has = |x: &str| fts.contains(&x);
        // an application's debug file need not have the format of its executable
        let native = ["breakpad", "mach_debug", "pdb", "elf_debug"].iter().all(|x| has(x));
        let ok = match ty {
            ObjectType::Macho => native && fts[0] == "mach_code" && fts.len() == 5,
            ObjectType::Pe => native && fts[0] == "pe" && fts.len() == 5,
            ObjectType::Elf => native && fts[0] == "elf_code" && fts.len() == 5,
            ObjectType::Wasm => fts == ["wasm_code", "wasm_debug"],
            ObjectType::PeDotnet => fts == ["portablepdb"],
            // everything (a line mapping is no object)
            ObjectType::Unknown => FILETYPES.iter().all(|f| *f == FileType::Il2cpp || has(f.as_ref())),
        };
        let distinct: BTreeSet<_> = fts.iter().collect();
        ck.eval(Some(hash64(&("from_object_type", &fts))));
        if !ok || distinct.len() != fts.len() {
            ck.fail(&format!("file types of {ty}"), json!(fts));
        }
    }
    for ft in ["sourcebundle", "portablepdb", "elf_debug", "wasm_debug"] {
        ck.eval(Some(hash64(&("sources", ft))));
        if !FileType::sources().iter().any(|f| f.as_ref() == ft) {
            ck.fail(&format!("file types with sources lack {ft}"), json!(null));
        }
    }
    ck.assume("the alphabets of names and identifiers are representative; file names longer than 258 bytes and identifiers longer than 64 digits are not enumerated");
    ck.finish()
}

/// C02: the symbol-server path grammar is the inverse of the path scheme.
fn c02() -> ! {
    let ck = Check::new(
        "C02",
        "exploration",
        "every identity of the product enumerated, its symstore/ssqp path (in three casings) parsed back and compared; \
         plus all strings of path segments over an alphabet of marker fragments up to 3 segments, checked against an independent grammar; \
         non-trivial: paths that must be understood",
    );
    let full = ck.thorough();
    let (cis, dis, ns) = (code_ids(true), debug_ids(true), names(true));
    for layout in [DirectoryLayoutType::Symstore, DirectoryLayoutType::Ssqp] {
        for ft in [
            FileType::Pe,
            FileType::Pdb,
            FileType::ElfCode,
            FileType::ElfDebug,
            FileType::MachCode,
            FileType::MachDebug,
        ] {
            for name in &ns {
                for code_id in &cis {
                    for debug_id in &dis {
                        let ty = match ft {
                            FileType::Pe | FileType::Pdb => ObjectType::Pe,
                            FileType::ElfCode | FileType::ElfDebug => ObjectType::Elf,
                            _ => ObjectType::Macho,
                        };
                        if !full && ft != FileType::Pdb && debug_id.is_some() && code_id.is_some() {
                            continue;
                        }
                        let o = oid(ty, code_id, name, debug_id, name);
                        let path = get_directory_paths(
                            DirectoryLayout { ty: layout, casing: FilenameCasing::Default },
                            ft,
                            &o,
                        );
                        let Some(path) = path.last() else { continue };
                        let base = path.split('/').next().unwrap().to_string();
                        let lower = base.to_lowercase();
                        // names for which the scheme itself is ambiguous
                        let ambiguous = match ft {
                            FileType::Pe => lower.ends_with(".pdb"),
                            FileType::Pdb => !lower.ends_with(".pdb"),
                            _ => false,
                        };
                        let mut variants = vec![path.clone()];
                        variants.push(path.to_ascii_lowercase());
                        variants.push(path.to_ascii_uppercase());
                        let mut mixed: Vec<String> = path.split('/').map(|s| s.to_string()).collect();
                        mixed[0] = mixed[0].to_ascii_lowercase();
                        if let Some(m) = mixed.get_mut(2) {
                            *m = m.to_ascii_uppercase();
                        }
                        variants.push(mixed.join("/"));
                        for v in variants {
                            let key = || format!("{layout:?} {} parse({v:?})", ft.as_ref());
                            let r = match no_panic(|| parse_symstore_path(&v)) {
                                Ok(r) => r,
                                Err(p) => {
                                    ck.fail(&(key() + ": panic"), json!(p));
                                    continue;
                                }
                            };
                            ck.eval((!ambiguous).then(|| hash64(&v)));
                            if ambiguous {
                                continue;
                            }
                            let Some((fts, id)) = r else {
                                ck.fail(&key(), json!("the path is not recognised"));
                                continue;
                            };
                            let vname = v.split('/').next().unwrap();
                            let mut bad = vec![];
                            if !fts.contains(&ft) || fts.len() != 1 {
                                bad.push(format!("file types {fts:?}"));
                            }
                            if id.object_type != ty {
                                bad.push(format!("object type {}", id.object_type));
                            }
                            match ft {
                                FileType::Pdb => {
                                    if id.debug_id != *debug_id {
                                        bad.push(format!("debug id {:?}", id.debug_id));
                                    }
                                    if id.debug_file.as_deref() != Some(vname) {
                                        bad.push(format!("debug file {:?}", id.debug_file));
                                    }
                                    if id.code_id.is_some() {
                                        bad.push(format!("code id {:?}", id.code_id));
                                    }
                                }
                                _ => {
                                    let want = match ft {
                                        FileType::MachCode | FileType::MachDebug if code_id.is_none() => {
                                            debug_id.map(|d| CodeId::new(d.uuid().as_simple().to_string()))
                                        }
                                        _ => code_id.clone(),
                                    };
                                    if id.code_id != want {
                                        bad.push(format!("code id {:?} instead of {want:?}", id.code_id));
                                    }
                                    if id.code_file.as_deref() != Some(vname) {
                                        bad.push(format!("code file {:?}", id.code_file));
                                    }
                                    if id.debug_id.is_some() {
                                        bad.push(format!("debug id {:?}", id.debug_id));
                                    }
                                }
                            }
                            if id.debug_checksum.is_some() {
                                bad.push("checksum".into());
                            }
                            if !bad.is_empty() {
                                ck.fail(&key(), json!(bad));
                            }
                            ck.sample(|| json!({"path": v, "filetype": ft.as_ref(), "id": format!("{id:?}")}));
                            // and forward again: the file is looked up where it came from
                            if layout == DirectoryLayoutType::Symstore && v == *path && ft != FileType::ElfDebug && ft != FileType::MachDebug {
                                let again = get_directory_paths(
                                    DirectoryLayout { ty: layout, casing: FilenameCasing::Default },
                                    ft,
                                    &id,
                                );
                                if again.last() != Some(path) {
                                    ck.fail(&format!("{} round trip of {path:?}", ft.as_ref()), json!({"again": again}));
                                }
                            }
                        }
                    }
                }
            }
        }
    }
    // Arbitrary requests: total function, accepted iff the grammar accepts.
    let names = [
        "", "a", "A", "x.pdb", "X.PDB", "_.debug", "b.DEBUG", "_.dwarf", "é.pdb", "É.pdb", "K.dll", "elf-buildid-ab", ".pdb", "x.pd_", "x.exe ",
    ];
    let sigs = [
        "",
        "0",
        "abc",
        "497b72f6390a44fc878e5a2d63b6cc4b1",
        "497B72F6390A44FC878E5A2D63B6CC4Bffffffff",
        "497b72f6390a44fc878e5a2d63b6cc4b",
        "497b72f6390a44fc878e5a2d63b6cc4",
        "497b72f6390a44fc878e5a2d63b6cc4g1",
        "497b72f6-390a-44fc-878e-5a2d63b6cc4b1",
        "497b72f6390a44fc878e5a2d63b6cc4bfffffffff",
        "elf-buildid-",
        "elf-buildid-180a",
        "ELF-BuildId-180A",
        "elf-buildid-sym-",
        "elf-buildid-sym-180a",
        "Elf-BuildID-SYM-180A",
        "mach-uuid-",
        "mach-uuid-497b",
        "mach-uuid-sym-497b",
        "MACH-UUID-SYM-497B",
        "elf-buildıd-180a",
        "542D574Ec2000",
        "é",
        "\u{212a}elf-buildid-a",
    ];
    let mut reqs: Vec<String> = vec![];
    for a in names {
        reqs.push(a.to_string());
        for s in sigs {
            reqs.push(format!("{a}/{s}"));
            for b in names {
                reqs.push(format!("{a}/{s}/{b}"));
                reqs.push(format!("/{a}/{s}/{b}"));
                reqs.push(format!("{a}/{s}/{b}/"));
                reqs.push(format!("{a}/{s}/x/{b}"));
            }
        }
    }
    for r in &reqs {
        let got = match no_panic(|| parse_symstore_path(r)) {
            Ok(g) => g,
            Err(p) => {
                ck.fail(&format!("parse({r:?}): panic"), json!(p));
                continue;
            }
        };
        let mut parts = r.splitn(3, '/');
        let (a, s, b) = (parts.next(), parts.next(), parts.next());
        let want: Option<(FileType, Result<String, DebugId>)> = match (a, s, b) {
            (Some(a), Some(s), Some(b)) if a.to_lowercase() == b.to_lowercase() => {
                let (al, sl) = (a.to_lowercase(), s.to_ascii_lowercase());
                let hex = |x: &str| x.chars().filter(|c| c.is_ascii_hexdigit()).collect::<String>().to_ascii_lowercase();
                if let (true, Some(h)) = (al.ends_with(".debug"), sl.strip_prefix("elf-buildid-sym-")) {
                    Some((FileType::ElfDebug, Ok(hex(h))))
                } else if let Some(h) = sl.strip_prefix("elf-buildid-") {
                    Some((FileType::ElfCode, Ok(hex(h))))
                } else if let (true, Some(h)) = (al.ends_with(".dwarf"), sl.strip_prefix("mach-uuid-sym-")) {
                    Some((FileType::MachDebug, Ok(hex(h))))
                } else if let Some(h) = sl.strip_prefix("mach-uuid-") {
                    Some((FileType::MachCode, Ok(hex(h))))
                } else if al.ends_with(".pdb") {
                    DebugId::from_breakpad(s).ok().map(|d| (FileType::Pdb, Err(d)))
                } else {
                    Some((FileType::Pe, Ok(hex(s))))
                }
            }
            _ => None,
        };
        ck.eval(want.is_some().then(|| hash64(r)));
        let got_n = got.as_ref().map(|(f, i)| {
            (
                f.to_vec(),
                match (&i.code_id, i.debug_id) {
                    (Some(c), None) => Ok(c.to_string()),
                    (None, Some(d)) => Err(d),
                    other => Ok(format!("{other:?}")),
                },
                i.code_file.clone().or(i.debug_file.clone()),
            )
        });
        let want_n = want.map(|(f, i)| (vec![f], i, a.map(|s| s.to_string())));
        if got_n != want_n {
            ck.fail(
                &format!("parse({r:?})"),
                json!({"parsed": format!("{got_n:?}"), "grammar": format!("{want_n:?}")}),
            );
        }
    }
    ck.finish()
}

fn strings(alpha: &[&str], max: usize) -> Vec<String> {
    let mut all = vec![String::new()];
    let mut last = vec![String::new()];
    for _ in 0..max {
        let mut next = vec![];
        for s in &last {
            for a in alpha {
                next.push(format!("{s}{a}"));
            }
        }
        all.extend(next.iter().cloned());
        last = next;
    }
    all
}

/// C03: a source is only asked for what its filters allow.
fn c03() -> ! {
    let ck = Check::new(
        "C03",
        "exploration",
        "all filter configurations (file type subsets up to size 2, all patterns up to length 4 over {*,?,a,B,/,\\,[ab]}, checksum requirement) \
         x image names up to length 4 over {a,b,B,/,\\} in either or both name fields; oracle: independent glob matcher; \
         non-trivial: a pattern or type filter is present",
    );
    let full = ck.thorough();
    let pats: Vec<String> = strings(&["*", "?", "a", "B", "/", "\\", "[ab]", "[!a]"], if full { 4 } else { 3 })
        .into_iter()
        .filter(|p| !p.contains("**"))
        .collect();
    let paths: Vec<Option<String>> = std::iter::once(None)
        .chain(strings(&["a", "b", "B", "/", "\\"], if full { 4 } else { 3 }).into_iter().map(Some))
        .chain(["C:\\Windows\\a.dll", "c:/windows/b", ".a", "a/.b", "/.a/.b/a", "a.", "/usr/lib/libé.so", "É"].iter().map(|s| Some(s.to_string())))
        .collect();
    let mut pats2 = pats;
    pats2.extend(["c:/windows/*", "c:\\windows\\*", "?:/Windows/*", "*.dll", "*É*", "[a-c]:/*", "/usr/lib/*"].map(String::from));
    let parsed: Vec<(String, Glob)> = pats2
        .into_iter()
        .filter_map(|p| {
            let g: Result<Glob, _> = vmc::serde_json::from_value(Value::String(p.clone()));
            match g {
                Ok(g) => Some((p, g)),
                Err(e) => {
                    ck.fail(&format!("pattern {p:?} rejected"), json!(e.to_string()));
                    None
                }
            }
        })
        .collect();
    let canon = |s: &str| s.replace('\\', "/");
    parallel(parsed.len(), |u| {
        let (p, g) = &parsed[u];
        for a in &paths {
            let want1 = a.as_deref().is_some_and(|s| model::glob(&canon(p), &canon(s)));
            for (code, debug) in [(true, false), (false, true), (true, true)] {
                let o = ObjectId {
                    code_file: if code { a.clone() } else { None },
                    debug_file: if debug { a.clone() } else { None },
                    ..Default::default()
                };
                let f = SourceFilters { path_patterns: vec![g.clone()], ..Default::default() };
                let key = || format!("pattern {p:?} code_file={:?} debug_file={:?}", o.code_file, o.debug_file);
                let got = match no_panic(|| f.is_allowed(&o, FileType::Pe)) {
                    Ok(g) => g,
                    Err(e) => {
                        ck.fail(&(key() + ": panic"), json!(e));
                        continue;
                    }
                };
                ck.eval(Some(hash64(&(p, &o.code_file, &o.debug_file))));
                if got != want1 {
                    ck.fail(&key(), json!({"allowed": got, "expected": want1}));
                }
                if want1 {
                    ck.sample(|| json!({"case": key(), "allowed": got}));
                }
            }
        }
    });
    // Pattern lists are a disjunction over both names.
    let some: Vec<&(String, Glob)> = parsed.iter().filter(|p| p.0.len() <= 2).collect();
    let some_paths: Vec<Option<String>> = vec![None, Some("".into()), Some("a".into()), Some("b\\A".into()), Some("/b".into())];
    parallel(some.len(), |u| {
        let (p1, g1) = some[u];
        for (p2, g2) in some.iter().map(|x| (&x.0, &x.1)) {
            for c in &some_paths {
                for d in &some_paths {
                    let o = ObjectId { code_file: c.clone(), debug_file: d.clone(), ..Default::default() };
                    let f = SourceFilters { path_patterns: vec![g1.clone(), g2.clone()], ..Default::default() };
                    let want = [p1, p2].iter().any(|p| {
                        [c, d].iter().any(|n| n.as_deref().is_some_and(|s| model::glob(&canon(p), &canon(s))))
                    });
                    let got = f.is_allowed(&o, FileType::ElfDebug);
                    ck.eval(Some(hash64(&(p1, p2, c, d))));
                    if got != want {
                        ck.fail(
                            &format!("patterns {p1:?},{p2:?} code_file={c:?} debug_file={d:?}"),
                            json!({"allowed": got, "expected": want}),
                        );
                    }
                }
            }
        }
    });
    // File types, checksums and their conjunction with patterns; and that nothing filtered is tried.
    let mut sets: Vec<Vec<FileType>> = vec![vec![]];
    for a in FILETYPES {
        sets.push(vec![a]);
        for b in FILETYPES {
            sets.push(vec![a, b]);
        }
    }
    let ids = identities();
    parallel(sets.len(), |u| {
        let set = &sets[u];
        for req in [false, true] {
            for pat in [None, Some("*crash*"), Some("zzz")] {
                let glob: Vec<Glob> = pat.iter().map(|p| vmc::serde_json::from_value(json!(p)).unwrap()).collect();
                for checksum in [None, Some("SHA256:abcd".to_string()), Some(String::new())] {
                    for o in &ids {
                        let mut o = o.clone();
                        o.debug_checksum = checksum.clone();
                        let pat_ok = pat.is_none_or(|p| {
                            [&o.code_file, &o.debug_file]
                                .iter()
                                .any(|n| n.as_deref().is_some_and(|s| model::glob(p, &canon(s))))
                        });
                        let allowed = |ft: FileType| -> Option<bool> {
                            let base = (set.is_empty() || set.contains(&ft)) && pat_ok;
                            if req && checksum.is_none() {
                                // documented for portable PDBs only
                                return if ft == FileType::PortablePdb || !base { Some(false) } else { None };
                            }
                            Some(base)
                        };
                        let filters = SourceFilters { filetypes: set.clone(), path_patterns: glob.clone(), requires_checksum: req };
                        for ft in FILETYPES {
                            let got = filters.is_allowed(&o, ft);
                            ck.eval(Some(hash64(&(
                                set.iter().map(|f| f.as_ref()).collect::<Vec<_>>(),
                                req,
                                pat,
                                &checksum,
                                ft.as_ref(),
                                format!("{o:?}"),
                            ))));
                            if let Some(w) = allowed(ft) {
                                if w != got {
                                    ck.fail(
                                        &format!("filetypes={set:?} requires_checksum={req} pattern={pat:?} checksum={checksum:?} asked={} id={o:?}", ft.as_ref()),
                                        json!({"allowed": got, "expected": w}),
                                    );
                                }
                            }
                        }
                        for layout in [DirectoryLayoutType::Native, DirectoryLayoutType::Unified, DirectoryLayoutType::SlashSymbols] {
                            let conf = CommonSourceConfig { filters: filters.clone(), ..cfg(layout, FilenameCasing::Default) };
                            let got = locs(&conf, &FILETYPES, None, &o);
                            let m = Id::of(&o);
                            let want: Vec<Vec<String>> = FILETYPES
                                .iter()
                                .filter(|ft| allowed(**ft).unwrap_or_else(|| filters.is_allowed(&o, **ft)))
                                .flat_map(|ft| m.locations(layout, FilenameCasing::Default, *ft).order)
                                .collect();
                            let e = model::Expected { order: want };
                            if !e.matches(&got) {
                                ck.fail(
                                    &format!("locations with filetypes={set:?} requires_checksum={req} pattern={pat:?} checksum={checksum:?} layout={layout:?} id={o:?}"),
                                    json!({"tried": got, "expected": e.order}),
                                );
                            }
                        }
                    }
                }
            }
        }
    });
    ck.finish()
}

/// C04: the server index.
fn c04() -> ! {
    let ck = Check::new(
        "C04",
        "model_checking",
        "state: the set of paths known to the index; operations: parse an index file (all files of up to 3 lines over a line alphabet), \
         merge two or three of them in every order, write out and load again; after every operation the real index is compared with the model set, \
         and the locations tried with the index must be exactly the unindexed ones that are in the set",
    );
    let full = ck.thorough();
    let lines: Vec<(&str, Option<&str>)> = vec![
        ("\"a.dll\\4549B50183000\",\"D:\\x\\a.dll\"", Some("a.dll/4549B50183000/a.dll")),
        ("\"A.dll\\4549B50183000\",\"D:\\x\\a.dll\"", Some("A.dll/4549B50183000/A.dll")),
        ("\"a.pdb\\ABC1\"", Some("a.pdb/ABC1/a.pdb")),
        ("\"a.dll\\4549B50183000\",\"E:\\y\\z.dll\"", Some("a.dll/4549B50183000/a.dll")),
        ("\"we ird, name.dll\\01\",\"x\"", Some("we ird, name.dll/01/we ird, name.dll")),
        ("\"b\\c\\d\",\"x\"", Some("b/c\\d/b")),
        ("\"é.pdb\\FF\",\"x\"", Some("é.pdb/FF/é.pdb")),
        ("", None),
        ("garbage", None),
        ("\"nobackslash\",\"x\"", None),
        ("\"", None),
        ("a.dll\\123,\"D:\\a.dll\"", Some("D:/a.dll/D:")),
        ("  \"s.dll\\7\" , \"q\"", Some("s.dll/7/s.dll")),
    ];
    let read = |files: &SymstoreIndex| -> BTreeSet<String> { files.iter().map(|s| s.to_string()).collect() };
    let depth = if full { 4 } else { 3 };
    // all files
    let mut files: Vec<(String, BTreeSet<String>)> = vec![];
    let n = lines.len();
    let mut stack: Vec<Vec<usize>> = vec![vec![]];
    while let Some(f) = stack.pop() {
        for eol in ["\n", "\r\n"] {
            for last in [true, false] {
                if f.is_empty() && (eol != "\n" || !last) {
                    continue;
                }
                let mut text = f.iter().map(|i| lines[*i].0).collect::<Vec<_>>().join(eol);
                if last && !f.is_empty() {
                    text.push_str(eol);
                }
                files.push((text, f.iter().filter_map(|i| lines[*i].1.map(String::from)).collect()));
            }
        }
        if f.len() < depth {
            for i in 0..n {
                let mut g = f.clone();
                g.push(i);
                stack.push(g);
            }
        }
    }
    let probe: Vec<String> = lines
        .iter()
        .filter_map(|l| l.1.map(String::from))
        .chain(["a.dll".into(), "a.dll/4549B50183000".into(), "".into(), "a.dll/4549b50183000/a.dll".into(), "zzz/1/zzz".into()])
        .collect();
    let check_index = |idx: &SymstoreIndex, want: &BTreeSet<String>, what: &dyn Fn() -> String| {
        ck.transition(1);
        ck.state(hash64(want));
        if &read(idx) != want {
            ck.fail(&what(), json!({"index": read(idx), "expected": want}));
            return;
        }
        let si: SourceIndex = idx.clone().into();
        for p in &probe {
            if idx.contains(p) != want.contains(p) || si.contains(p) != want.contains(p) {
                ck.fail(&format!("{}: contains({p:?})", what()), json!({"expected": want.contains(p)}));
            }
        }
        let mut out = vec![];
        idx.write(&mut out).unwrap();
        // A destination that gets full, or takes one byte at a time.
        struct Full(usize, Vec<u8>);
        impl std::io::Write for Full {
            fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
                if b.is_empty() {
                    return Ok(0);
                }
                if self.1.len() == self.0 {
                    return Err(std::io::Error::from_raw_os_error(28));
                }
                self.1.push(b[0]);
                Ok(1)
            }
            fn flush(&mut self) -> std::io::Result<()> {
                Ok(())
            }
        }
        for room in 0..=out.len() {
            let mut w = Full(room, vec![]);
            let r = idx.write(&mut w);
            if r.is_ok() && w.1 != out {
                ck.fail(&format!("{}: written to a destination with room for {room} bytes", what()), json!({"written": w.1.len(), "needed": out.len()}));
                break;
            }
        }
        let again = SymstoreIndex::load(&out).unwrap();
        if &read(&again) != want {
            ck.fail(&format!("{}: written and loaded", what()), json!({"loaded": read(&again), "expected": want}));
        }
        let mut out2 = vec![];
        again.write(&mut out2).unwrap();
        if out != out2 {
            ck.fail(&format!("{}: written form is not canonical", what()), json!(null));
        }
    };
    parallel(files.len(), |u| {
        let (text, want) = &files[u];
        let r = no_panic(|| SymstoreIndex::parse_from_reader(text.as_bytes()));
        match r {
            Ok(Ok(idx)) => check_index(&idx, want, &|| format!("parse {text:?}")),
            Ok(Err(e)) => ck.fail(&format!("parse {text:?}"), json!(e.to_string())),
            Err(p) => ck.fail(&format!("parse {text:?}: panic"), json!(p)),
        }
        ck.trace();
        ck.sample(|| json!({"file": text, "paths": want}));
    });
    // merging, in every order
    let small: Vec<&(String, BTreeSet<String>)> = {
        let mut seen = BTreeSet::new();
        files.iter().filter(|f| f.0.lines().count() <= 2 && seen.insert(f.1.clone())).collect()
    };
    parallel(small.len(), |u| {
        let a = small[u];
        let ia = SymstoreIndex::parse_from_reader(a.0.as_bytes()).unwrap();
        for b in &small {
            let ib = SymstoreIndex::parse_from_reader(b.0.as_bytes()).unwrap();
            let mut m = ia.clone();
            m.append(ib.clone());
            let want: BTreeSet<String> = a.1.union(&b.1).cloned().collect();
            check_index(&m, &want, &|| format!("append {:?} + {:?}", a.0, b.0));
            // an index persisted in between, as the cache does
            let mut out = vec![];
            ia.write(&mut out).unwrap();
            let mut m2 = SymstoreIndex::load(&out).unwrap();
            m2.append(ib);
            check_index(&m2, &want, &|| format!("load(write {:?}) + {:?}", a.0, b.0));
            ck.trace();
        }
    });
    // the index decides what is tried
    let ids = identities();
    for layout in LAYOUTS {
        for o in &ids {
            for fts in [FileType::all(), FileType::sources(), FileType::from_object_type(o.object_type)] {
                let conf = cfg(layout, FilenameCasing::Default);
                let all = locs(&conf, fts, None, o);
                let uniq: Vec<String> = all.iter().cloned().collect::<BTreeSet<_>>().into_iter().collect();
                let k = uniq.len().min(8);
                for mask in 0..(1u32 << k) {
                    let set: BTreeSet<String> = (0..k).filter(|i| mask >> i & 1 == 1).map(|i| uniq[i].clone()).collect();
                    let text: String = set.iter().map(|s| format!("{s}\n")).collect();
                    let idx: SourceIndex = SymstoreIndex::load(text.as_bytes()).unwrap().into();
                    let got = locs(&conf, fts, Some(&idx), o);
                    let want: Vec<String> = all.iter().filter(|l| set.contains(*l)).cloned().collect();
                    ck.transition(1);
                    ck.state(hash64(&(format!("{layout:?}"), &set, &want)));
                    ck.trace();
                    if got != want {
                        ck.fail(&format!("indexed locations layout={layout:?} id={o:?} index={set:?}"), json!({"tried": got, "expected": want}));
                    }
                }
            }
        }
    }
    // broken input is an error, never a silently shorter index
    let bad = SymstoreIndex::load(b"a/b/a\n\xff\xfe\n").is_ok();
    ck.transition(1);
    if bad {
        ck.fail("load of invalid UTF-8", json!("accepted"));
    }
    ck.finish()
}

struct Src {
    name: String,
    make: Box<dyn Fn(&SourceLocation) -> RemoteFile + Sync>,
    kind: &'static str,
    base: String,
}

fn sources() -> Vec<Src> {
    let mut r: Vec<Src> = vec![];
    let id = SourceId::new("src");
    for base in [
        "https://example.org",
        "https://example.org/",
        "https://example.org/base",
        "https://example.org/base/",
        "http://user:pw@host:8080/a%20b/c/",
        "https://example.org/base?sig=a%2Fb&x=1",
        "https://example.org/.x/y.",
        "https://example.org/Base/a.b/?q",
        "http://[::1]:81/%25/%2F/",
    ] {
        let s = Arc::new(HttpSourceConfig {
            id: id.clone(),
            url: Url::parse(base).unwrap(),
            headers: BTreeMap::from([("x-a".to_string(), "b".to_string())]),
            files: CommonSourceConfig { is_public: true, ..Default::default() },
            accept_invalid_certs: false,
        });
        r.push(Src {
            name: format!("http {base}"),
            make: Box::new(move |l| HttpRemoteFile::new(s.clone(), l.clone()).into()),
            kind: "http",
            base: base.into(),
        });
    }
    for prefix in ["", "/", "pre", "/pre/fix/", "//p//", ".x/y.", "a b", "p?q#r", "p%2Fq", "ü~", "-P_", "P\\q"] {
        let s = Arc::new(S3SourceConfig {
            id: id.clone(),
            bucket: "bucket".into(),
            prefix: prefix.into(),
            source_key: Arc::new(S3SourceKey {
                region: S3Region::from("us-east-1"),
                aws_credentials_provider: AwsCredentialsProvider::Static,
                access_key: "k".into(),
                secret_key: "s".into(),
            }),
            files: Default::default(),
        });
        r.push(Src {
            name: format!("s3 {prefix:?}"),
            make: Box::new(move |l| S3RemoteFile::new(s.clone(), l.clone()).into()),
            kind: "s3",
            base: prefix.into(),
        });
        let g = Arc::new(GcsSourceConfig {
            id: id.clone(),
            bucket: "bucket".into(),
            prefix: prefix.into(),
            source_key: Arc::new(GcsSourceKey { private_key: "k".into(), client_email: "e".into() }),
            files: CommonSourceConfig { is_public: true, ..Default::default() },
        });
        r.push(Src {
            name: format!("gcs {prefix:?}"),
            make: Box::new(move |l| GcsRemoteFile::new(g.clone(), l.clone()).into()),
            kind: "gs",
            base: prefix.into(),
        });
    }
    for root in ["/srv/symbols", "/srv/symbols/", "rel/dir", "/", "/srv/.x y/ü.", "./d"] {
        let s = Arc::new(FilesystemSourceConfig { id: id.clone(), path: root.into(), files: Default::default() });
        r.push(Src {
            name: format!("filesystem {root}"),
            make: Box::new(move |l| FilesystemRemoteFile::new(s.clone(), l.clone()).into()),
            kind: "file",
            base: root.into(),
        });
    }
    r
}

fn pct_decode(s: &str) -> Option<String> {
    let b = s.as_bytes();
    let mut out = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'%' {
            out.push(u8::from_str_radix(s.get(i + 1..i + 3)?, 16).ok()?);
            i += 3;
        } else {
            out.push(b[i]);
            i += 1;
        }
    }
    String::from_utf8(out).ok()
}

fn segs(s: &str) -> Vec<String> {
    s.split('/').filter(|x| !x.is_empty() && *x != ".").map(String::from).collect()
}

/// Every location that any identity can produce.
fn all_locations(full: bool) -> Vec<String> {
    let mut set = BTreeSet::new();
    let ns = names(true);
    let extra: Vec<Option<String>> = ["%2e%2e", "%2E", "..%2f", "a%2Fb", "x;y=z", "a+b", "~x", "a&b=c", "file:x", "s3:", "\"q\"", "{x}|^", "a\u{a0}b", "<a>", "x.dll#1", "x.dll?2", "x.dll%3F2", "x y.dll"]
        .iter()
        .map(|s| Some(s.to_string()))
        .collect();
    for n in ns.iter().chain(&extra) {
        for c in code_ids(full) {
            for d in debug_ids(false) {
                for ty in OBJTYPES {
                    let o = oid(ty, &c, n, &d, n);
                    for l in LAYOUTS {
                        for ft in FILETYPES {
                            for p in get_directory_paths(DirectoryLayout { ty: l, casing: FilenameCasing::Default }, ft, &o) {
                                set.insert(p);
                            }
                        }
                    }
                }
            }
        }
    }
    set.into_iter().collect()
}

fn key_of(f: &RemoteFile) -> Option<String> {
    match f {
        RemoteFile::S3(f) => Some(f.key()),
        RemoteFile::Gcs(f) => Some(f.key()),
        RemoteFile::Filesystem(f) => Some(f.path().to_string_lossy().into_owned()),
        _ => None,
    }
}

/// C05: what is fetched and how it is identified.
fn c05() -> ! {
    // `./` (two-tier prefix of a name starting with two dots) has no URI spelling; such a location
    // only occurs in the symstore_index2 layout, where no other location is equivalent to it.
    let ck = Check::new(
        "C05",
        "exploration",
        "every location producible from the identity product (all layouts and file types), composed with 38 source roots of all kinds; \
         the request target must decode back to root + location, and identifiers must be pairwise distinct per source; \
         non-trivial: locations containing characters that need quoting, or any location of a bucket/HTTP source",
    );
    let mut locations = all_locations(ck.thorough());
    locations.retain(|l| !l.split('/').any(|s| s == "."));
    ck.extra("locations", locations.len() as u64);
    let srcs = sources();
    parallel(srcs.len(), |u| {
        let s = &srcs[u];
        let mut uris: HashMap<String, String> = HashMap::new();
        for l in &locations {
            let loc = SourceLocation::new(l.clone());
            let key = || format!("{} location {l:?}", s.name);
            let r = no_panic(|| {
                let f = (s.make)(&loc);
                (f.uri().to_string(), key_of(&f), f)
            });
            let (uri, k, f) = match r {
                Ok(r) => r,
                Err(p) => {
                    ck.fail(&(key() + ": panic"), json!(p));
                    continue;
                }
            };
            ck.eval(Some(hash64(&(&s.name, l))));
            ck.sample(|| json!({"source": s.name, "location": l, "uri": uri, "key": k}));
            let norm = segs(l);
            match s.kind {
                "http" => {
                    let base = Url::parse(&s.base).unwrap();
                    let RemoteFile::Http(h) = &f else { unreachable!() };
                    let url = h.url().unwrap();
                    if url.as_str() != uri {
                        ck.fail(&key(), json!({"uri": uri, "url": url.as_str()}));
                    }
                    let got: Option<Vec<String>> = url.path_segments().unwrap().map(pct_decode).collect();
                    let want: Vec<String> = segs(base.path()).iter().map(|s| pct_decode(s).unwrap()).chain(norm.clone()).collect();
                    let same_origin = url.origin() == base.origin()
                        && url.username() == base.username()
                        && url.password() == base.password()
                        && url.query() == base.query()
                        && url.fragment().is_none();
                    if got.as_ref() != Some(&want) || !same_origin {
                        ck.fail(&key(), json!({"url": url.as_str(), "decoded": got, "expected": want}));
                    }
                }
                "s3" | "gs" => {
                    let trimmed = s.base.trim_matches('/');
                    let want = if trimmed.is_empty() { l.clone() } else { format!("{trimmed}/{l}") };
                    if k.as_deref() != Some(want.as_str()) {
                        ck.fail(&(key() + ": key"), json!({"key": k, "expected": want}));
                    }
                    let ok = uri
                        .strip_prefix(&format!("{}://bucket/", s.kind))
                        .and_then(pct_decode)
                        .is_some_and(|p| p == want)
                        && !uri.contains(|c: char| c == '?' || c == '#' || c.is_control());
                    if !ok {
                        ck.fail(&(key() + ": uri"), json!({"uri": uri, "key": want}));
                    }
                }
                "file" => {
                    let want = PathBuf::from(&s.base).join(l);
                    if k.as_deref() != want.to_str() {
                        ck.fail(&(key() + ": path"), json!({"path": k, "expected": want}));
                    }
                    if uri != format!("file://{}", want.display()) {
                        ck.fail(&(key() + ": uri"), json!({"uri": uri}));
                    }
                }
                _ => unreachable!(),
            }
            if uri.contains('\n') {
                ck.fail(&(key() + ": uri has a line break"), json!(uri));
            }
            // HTTP collapses empty segments by contract
            let ident = if s.kind == "http" { norm.join("/") } else { l.clone() };
            if let Some(prev) = uris.insert(uri.clone(), ident.clone()) {
                if prev != ident {
                    ck.fail(&(key() + ": same identity as another location"), json!({"uri": uri, "other": prev}));
                }
            }
        }
    });
    // Sentry files and scraped URLs
    let bases = ["https://sentry.io/api/0/projects/x/y/files/dsyms/", "https://sentry.io/files?token=a"];
    let fids = ["1", "12", "a b", "a&id=2", "ü", ""];
    let mut seen: HashMap<String, String> = HashMap::new();
    for b in bases {
        let s = Arc::new(SentrySourceConfig { id: SourceId::new("sentry:project"), url: Url::parse(b).unwrap(), token: "t".into() });
        for fid in fids {
            for own in [None, Some("https://objectstore.example/x?sig=1")] {
                for cred in [true, false] {
                    let f = SentryRemoteFile::new(s.clone(), cred, SentryFileId(fid.into()), own.map(|u| Url::parse(u).unwrap()));
                    ck.eval(Some(hash64(&(b, fid, own, cred))));
                    let key = || format!("sentry base={b} file={fid:?} url={own:?} credentials={cred}");
                    if f.use_credentials() != cred {
                        ck.fail(&(key() + ": credentials"), json!(f.use_credentials()));
                    }
                    let url = f.url();
                    match own {
                        Some(u) => {
                            if url.as_str() != u {
                                ck.fail(&key(), json!(url.as_str()));
                            }
                        }
                        None => {
                            let base = Url::parse(b).unwrap();
                            let mut want: Vec<(String, String)> = base.query_pairs().map(|(a, b)| (a.into(), b.into())).collect();
                            want.push(("id".into(), fid.into()));
                            let got: Vec<(String, String)> = url.query_pairs().map(|(a, b)| (a.into(), b.into())).collect();
                            if got != want || url.path() != base.path() || url.origin() != base.origin() {
                                ck.fail(&key(), json!(url.as_str()));
                            }
                        }
                    }
                    let uri = f.uri().to_string();
                    if let Some(prev) = seen.insert(uri.clone(), fid.into()) {
                        if prev != fid {
                            ck.fail(&(key() + ": identity"), json!({"uri": uri, "other": prev}));
                        }
                    }
                    let rf: RemoteFile = f.into();
                    if rf.is_public() {
                        ck.fail(&(key() + ": public"), json!(null));
                    }
                }
            }
        }
    }
    for u in [
        "https://x.org/a/b.js",
        "https://x.org/a/b.js?x=1&y=%20",
        "https://x.org/",
        "https://x.org",
        "https://x.org/dir/",
        "https://x.org/a//b//",
        "https://x.org/a%20b/%E2%82%AC.js",
        "http://u:p@x.org:81/q/?",
        "http://[::1]/x",
    ] {
        for ssl in [true, false] {
            let want = Url::parse(u).unwrap();
            let f = HttpRemoteFile::from_url(want.clone(), ssl);
            ck.eval(Some(hash64(&(u, ssl))));
            let got = f.url().map(|u| u.to_string());
            if got.as_ref().ok() != Some(&want.to_string()) || f.uri().to_string() != want.as_str() {
                ck.fail(&format!("scraped url {u:?}"), json!({"fetched": got.ok(), "expected": want.as_str()}));
            }
            if f.source.accept_invalid_certs == ssl {
                ck.fail(&format!("scraped url {u:?} verify_ssl={ssl}"), json!(f.source.accept_invalid_certs));
            }
            if !f.headers.is_empty() || !f.source.headers.is_empty() {
                ck.fail(&format!("scraped url {u:?} carries headers"), json!(null));
            }
        }
    }
    // sharing flags
    for public in [true, false] {
        for id in ["sentry:ios", "sentry:", "sentryx", "abc", "my:sentry:"] {
            let common = CommonSourceConfig { is_public: public, ..Default::default() };
            let sid = SourceId::new(id);
            let l = SourceLocation::new("a/b");
            let files: Vec<RemoteFile> = vec![
                FilesystemRemoteFile::new(Arc::new(FilesystemSourceConfig { id: sid.clone(), path: "/x".into(), files: common.clone() }), l.clone()).into(),
                GcsRemoteFile::new(Arc::new(GcsSourceConfig { id: sid.clone(), bucket: "b".into(), prefix: "".into(), source_key: Arc::new(GcsSourceKey { private_key: "".into(), client_email: "".into() }), files: common.clone() }), l.clone()).into(),
                HttpRemoteFile::new(Arc::new(HttpSourceConfig { id: sid.clone(), url: Url::parse("http://x").unwrap(), headers: Default::default(), files: common.clone(), accept_invalid_certs: false }), l.clone()).into(),
                S3RemoteFile::new(Arc::new(S3SourceConfig { id: sid.clone(), bucket: "b".into(), prefix: "".into(), source_key: Arc::new(S3SourceKey { region: S3Region::from("r"), aws_credentials_provider: Default::default(), access_key: "".into(), secret_key: "".into() }), files: common.clone() }), l.clone()).into(),
            ];
            for f in files {
                ck.eval(Some(hash64(&(public, id, f.to_string()))));
                let key = || format!("source {f} is_public={public}");
                if f.is_public() != public {
                    ck.fail(&(key() + ": is_public"), json!(f.is_public()));
                }
                if f.source_id().as_str() != id {
                    ck.fail(&(key() + ": id"), json!(f.source_id().as_str()));
                }
                if f.is_builtin() != id.starts_with("sentry:") {
                    ck.fail(&(key() + ": builtin"), json!(f.is_builtin()));
                }
                let shared = !(matches!(f, RemoteFile::Gcs(_)) && id.starts_with("sentry:"));
                if f.worth_using_shared_cache() != shared {
                    ck.fail(&(key() + ": shared cache"), json!(f.worth_using_shared_cache()));
                }
            }
        }
    }
    ck.finish()
}

/// C07: containment.
fn c07() -> ! {
    let ck = Check::new(
        "C07",
        "exploration",
        "every location producible from the identity product in all casings (hostile names: parent, current, empty, absolute, encoded, drive and URL-like names; empty and short identifiers) \
         resolved against 20 source roots of all kinds; the resolved target must lie strictly below the root; non-trivial: hostile names",
    );
    let full = ck.thorough();
    let locations = all_locations(full);
    let srcs = sources();
    parallel(srcs.len(), |u| {
        let s = &srcs[u];
        for l0 in &locations {
            for l in [l0.clone(), l0.to_ascii_uppercase(), l0.to_ascii_lowercase()] {
                let key = || format!("{} location {l:?}", s.name);
                let loc = SourceLocation::new(l.clone());
                let Ok(f) = no_panic(|| (s.make)(&loc)) else {
                    ck.fail(&(key() + ": panic"), json!(null));
                    continue;
                };
                let hostile = segs(&l).iter().any(|x| x.contains("..") || x.contains('%') || x.contains(':') || x.starts_with('.')) || l.starts_with('/') || l.contains("//");
                ck.eval(hostile.then(|| hash64(&(&s.name, &l))));
                if hostile {
                    ck.sample(|| json!({"source": s.name, "location": l, "uri": f.uri().to_string()}));
                }
                match &f {
                    RemoteFile::Filesystem(x) => {
                        let root = normalise(&PathBuf::from(&s.base));
                        let p = normalise(&x.path());
                        match (root, p) {
                            (Some(r), Some(p)) if p.starts_with(&r) && p != r => {}
                            (r, p) => ck.fail(&key(), json!({"root": r, "resolved": p, "path": x.path()})),
                        }
                    }
                    RemoteFile::S3(_) | RemoteFile::Gcs(_) => {
                        let k = key_of(&f).unwrap();
                        let trimmed = s.base.trim_matches('/');
                        let bad = k.split('/').any(|x| x == "..")
                            || k.starts_with('/')
                            || (!trimmed.is_empty() && !k.starts_with(&format!("{trimmed}/")));
                        if bad {
                            ck.fail(&key(), json!({"key": k}));
                        }
                    }
                    RemoteFile::Http(h) => {
                        let base = Url::parse(&s.base).unwrap();
                        let url = h.url().unwrap();
                        // what a server sees after decoding once
                        let dec = pct_decode(url.path()).unwrap_or_default();
                        let b = pct_decode(base.path()).unwrap();
                        let b = b.trim_end_matches('/');
                        let bad = url.origin() != base.origin()
                            || !dec.starts_with(&format!("{b}/"))
                            || dec.split('/').any(|x| x == ".." || x == ".");
                        if bad {
                            ck.fail(&key(), json!({"url": url.as_str()}));
                        }
                    }
                    _ => unreachable!(),
                }
            }
        }
    });
    ck.finish()
}

fn normalise(p: &std::path::Path) -> Option<PathBuf> {
    let mut out = PathBuf::new();
    for c in p.components() {
        match c {
            Component::ParentDir => {
                if !out.pop() {
                    return None;
                }
            }
            Component::CurDir => {}
            c => out.push(c),
        }
    }
    Some(out)
}

/// C06: configuration round trip and documented defaults.
fn c06() -> ! {
    let ck = Check::new(
        "C06",
        "exploration",
        "product of all source kinds x layouts x casings x filter shapes x flags written with the documented spelling, read as JSON and as YAML; \
         the effective configuration is compared field by field with the document, and survives being written out and read again; \
         non-trivial: every document with at least one non-default option",
    );
    let layouts = [
        ("native", DirectoryLayoutType::Native),
        ("symstore", DirectoryLayoutType::Symstore),
        ("symstore_index2", DirectoryLayoutType::SymstoreIndex2),
        ("ssqp", DirectoryLayoutType::Ssqp),
        ("debuginfod", DirectoryLayoutType::Debuginfod),
        ("unified", DirectoryLayoutType::Unified),
        ("slashsymbols", DirectoryLayoutType::SlashSymbols),
    ];
    let casings = [
        (None, FilenameCasing::Default),
        (Some("default"), FilenameCasing::Default),
        (Some("lowercase"), FilenameCasing::Lowercase),
        (Some("uppercase"), FilenameCasing::Uppercase),
    ];
    let ft_names = [
        ("pe", FileType::Pe),
        ("pdb", FileType::Pdb),
        ("portablepdb", FileType::PortablePdb),
        ("mach_debug", FileType::MachDebug),
        ("mach_code", FileType::MachCode),
        ("elf_debug", FileType::ElfDebug),
        ("elf_code", FileType::ElfCode),
        ("wasm_debug", FileType::WasmDebug),
        ("wasm_code", FileType::WasmCode),
        ("breakpad", FileType::Breakpad),
        ("sourcebundle", FileType::SourceBundle),
        ("uuidmap", FileType::UuidMap),
        ("bcsymbolmap", FileType::BcSymbolMap),
        ("il2cpp", FileType::Il2cpp),
        ("proguard", FileType::Proguard),
    ];
    for (n, ft) in ft_names {
        let v: Result<FileType, _> = vmc::serde_json::from_value(json!(n));
        ck.eval(Some(hash64(&("filetype", n))));
        if v.as_ref().ok() != Some(&ft) || vmc::serde_json::to_value(ft).unwrap() != json!(n) || ft.as_ref() != n {
            ck.fail(&format!("file type name {n}"), json!({"read": format!("{v:?}"), "written": vmc::serde_json::to_value(ft).unwrap(), "name": ft.as_ref()}));
        }
    }
    for (n, t) in [
        ("elf", ObjectType::Elf),
        ("macho", ObjectType::Macho),
        ("pe", ObjectType::Pe),
        ("pe_dotnet", ObjectType::PeDotnet),
        ("wasm", ObjectType::Wasm),
        ("unknown", ObjectType::Unknown),
        ("something", ObjectType::Unknown),
        ("", ObjectType::Unknown),
        ("ELF", ObjectType::Unknown),
    ] {
        let v: Result<ObjectType, _> = vmc::serde_json::from_value(json!(n));
        ck.eval(Some(hash64(&("objecttype", n))));
        if v.ok() != Some(t) || (n == t.to_string() && vmc::serde_json::to_value(t).unwrap() != json!(n)) {
            ck.fail(&format!("object type {n:?}"), json!(null));
        }
    }
    let filters: Vec<(Option<Value>, Vec<FileType>, Vec<&str>, bool)> = vec![
        (None, vec![], vec![], false),
        (Some(json!({})), vec![], vec![], false),
        (Some(json!({"filetypes": ["pe", "pdb"]})), vec![FileType::Pe, FileType::Pdb], vec![], false),
        (Some(json!({"path_patterns": ["?:/windows/**", "*/a[bc]*"]})), vec![], vec!["?:/windows/**", "*/a[bc]*"], false),
        (
            Some(json!({"filetypes": ["portablepdb"], "path_patterns": ["*"], "requires_checksum": true})),
            vec![FileType::PortablePdb],
            vec!["*"],
            true,
        ),
    ];
    let kinds = ["filesystem", "gcs", "http", "s3", "s3-custom", "s3-container", "sentry"];
    for kind in kinds {
        for layout in std::iter::once(None).chain(layouts.iter().map(Some)) {
            for casing in &casings {
                if layout.is_none() && casing.0.is_some() {
                    continue;
                }
                for filter in &filters {
                    for public in [None, Some(true), Some(false)] {
                        for index in [None, Some(true), Some(false)] {
                            for opt in [false, true] {
                                let mut m = match kind {
                                    "filesystem" => json!({"type": "filesystem", "path": "/srv/x"}),
                                    "gcs" => json!({"type": "gcs", "bucket": "bu", "private_key": "pk", "client_email": "ce"}),
                                    "http" => json!({"type": "http", "url": "https://h.example/sym/"}),
                                    "s3" => json!({"type": "s3", "bucket": "bu", "region": "us-east-1", "access_key": "ak", "secret_key": "sk"}),
                                    "s3-custom" => json!({"type": "s3", "bucket": "bu", "region": ["minio", "http://minio/"], "access_key": "ak", "secret_key": "sk"}),
                                    "s3-container" => json!({"type": "s3", "bucket": "bu", "region": "eu-west-1", "aws_credentials_provider": "container"}),
                                    "sentry" => json!({"type": "sentry", "url": "https://s.example/dsyms/", "token": "tok"}),
                                    _ => unreachable!(),
                                };
                                let o = m.as_object_mut().unwrap();
                                o.insert("id".into(), json!("the-id"));
                                let mut nontrivial = opt;
                                if kind != "sentry" {
                                    if let Some((l, _)) = layout {
                                        let mut lm = json!({"type": l});
                                        if let Some(c) = casing.0 {
                                            lm["casing"] = json!(c);
                                        }
                                        o.insert("layout".into(), lm);
                                        nontrivial = true;
                                    }
                                    if let Some(f) = &filter.0 {
                                        o.insert("filters".into(), f.clone());
                                        nontrivial = true;
                                    }
                                    if let Some(p) = public {
                                        o.insert("is_public".into(), json!(p));
                                    }
                                    if let Some(p) = index {
                                        o.insert("has_index".into(), json!(p));
                                    }
                                    if opt {
                                        match kind {
                                            "http" => {
                                                o.insert("headers".into(), json!({"authorization": "x y", "b": "c"}));
                                                o.insert("accept_invalid_certs".into(), json!(true));
                                            }
                                            "gcs" | "s3" | "s3-custom" | "s3-container" => {
                                                o.insert("prefix".into(), json!("/windows"));
                                            }
                                            _ => {}
                                        }
                                    }
                                }
                                let doc = Value::Object(o.clone());
                                let key = || doc.to_string();
                                ck.eval(nontrivial.then(|| hash64(&doc.to_string())));
                                ck.sample(|| doc.clone());
                                let j: Result<SourceConfig, _> = vmc::serde_json::from_value(doc.clone());
                                let j2: Result<SourceConfig, _> = vmc::serde_json::from_str(&doc.to_string());
                                let y: Result<SourceConfig, _> = serde_yaml::from_str(&serde_yaml::to_string(&doc).unwrap());
                                let mut written: Vec<Value> = vec![];
                                for (how, c) in [("json value", j.map_err(|e| e.to_string())), ("json text", j2.map_err(|e| e.to_string())), ("yaml", y.map_err(|e| e.to_string()))] {
                                    let c = match c {
                                        Ok(c) => c,
                                        Err(e) => {
                                            ck.fail(&format!("{how} {}", key()), json!(e));
                                            continue;
                                        }
                                    };
                                    let mut cs = vec![c];
                                    let text = vmc::serde_json::to_string(&cs[0]);
                                    match text.as_ref().map(|t| vmc::serde_json::from_str::<SourceConfig>(t)) {
                                        Ok(Ok(c2)) => cs.push(c2),
                                        e => ck.fail(&format!("{how} {} rewritten", key()), json!(format!("{e:?}"))),
                                    }
                                    let ytext = serde_yaml::to_string(&cs[0]);
                                    match ytext.as_ref().map(|t| serde_yaml::from_str::<SourceConfig>(t)) {
                                        Ok(Ok(c2)) => cs.push(c2),
                                        e => ck.fail(&format!("{how} {} rewritten as yaml", key()), json!(format!("{e:?}"))),
                                    }
                                    for c in &cs {
                                        written.push(vmc::serde_json::to_value(c).unwrap());
                                        let bad = compare(c, kind, layout.map(|l| l.1), casing.1, filter, public, index, opt);
                                        if !bad.is_empty() {
                                            ck.fail(&format!("{how} {}", key()), json!(bad));
                                        }
                                    }
                                }
                                if written.windows(2).any(|w| w[0] != w[1]) {
                                    ck.fail(&format!("{} is written differently", key()), json!(written));
                                }
                            }
                        }
                    }
                }
            }
        }
    }
    // documents that must be refused
    for doc in [
        json!({"type": "s3", "id": "x", "bucket": "b", "region": ["a"]}),
        json!({"type": "s3", "id": "x", "bucket": "b", "region": ["a", "b", "c"]}),
        json!({"type": "s3", "id": "x", "bucket": "b", "region": []}),
        json!({"type": "s3", "id": "x", "bucket": "b", "region": null}),
        json!({"type": "s3", "id": "x", "bucket": "b"}),
        json!({"type": "s3", "id": "x", "region": "r"}),
        json!({"type": "s3", "id": "x", "bucket": "b", "region": "r", "aws_credentials_provider": "other"}),
        json!({"type": "http", "id": "x"}),
        json!({"type": "http", "id": "x", "url": "not a url"}),
        json!({"type": "http", "url": "https://x"}),
        json!({"type": "ftp", "id": "x", "url": "https://x"}),
        json!({"id": "x", "url": "https://x"}),
        json!({"type": "gcs", "id": "x", "bucket": "b"}),
        json!({"type": "sentry", "id": "x", "url": "https://x"}),
        json!({"type": "filesystem", "id": "x"}),
        json!({"type": "http", "id": "x", "url": "https://x", "layout": {"type": "bogus"}}),
        json!({"type": "http", "id": "x", "url": "https://x", "layout": {"casing": "bogus"}}),
        json!({"type": "http", "id": "x", "url": "https://x", "filters": {"filetypes": ["bogus"]}}),
        json!({"type": "http", "id": "x", "url": "https://x", "filters": {"path_patterns": ["a**b"]}}),
        json!({"type": "http", "id": "x", "url": "https://x", "filters": {"path_patterns": ["[a"]}}),
    ] {
        ck.eval(Some(hash64(&doc.to_string())));
        if let Ok(c) = vmc::serde_json::from_value::<SourceConfig>(doc.clone()) {
            ck.fail(&format!("accepted {doc}"), json!(format!("{c:?}")));
        }
    }
    ck.finish()
}

#[allow(clippy::too_many_arguments)]
fn compare(
    c: &SourceConfig,
    kind: &str,
    layout: Option<DirectoryLayoutType>,
    casing: FilenameCasing,
    filter: &(Option<Value>, Vec<FileType>, Vec<&str>, bool),
    public: Option<bool>,
    index: Option<bool>,
    opt: bool,
) -> Vec<String> {
    let mut bad = vec![];
    if c.id().as_str() != "the-id" {
        bad.push(format!("id {}", c.id()));
    }
    let tn = kind.split('-').next().unwrap();
    if c.type_name() != tn {
        bad.push(format!("type {}", c.type_name()));
    }
    let common = match c {
        SourceConfig::Filesystem(x) => {
            if x.path.to_str() != Some("/srv/x") {
                bad.push("path".into());
            }
            Some(&x.files)
        }
        SourceConfig::Gcs(x) => {
            if x.bucket != "bu" || x.source_key.private_key != "pk" || x.source_key.client_email != "ce" {
                bad.push("gcs credentials".into());
            }
            if x.prefix != if opt { "/windows" } else { "" } {
                bad.push(format!("prefix {:?}", x.prefix));
            }
            Some(&x.files)
        }
        SourceConfig::Http(x) => {
            if x.url.as_str() != "https://h.example/sym/" {
                bad.push("url".into());
            }
            if x.accept_invalid_certs != opt {
                bad.push("accept_invalid_certs".into());
            }
            let want: BTreeMap<String, String> = if opt {
                [("authorization", "x y"), ("b", "c")].iter().map(|(a, b)| (a.to_string(), b.to_string())).collect()
            } else {
                Default::default()
            };
            if x.headers != want {
                bad.push(format!("headers {:?}", x.headers));
            }
            Some(&x.files)
        }
        SourceConfig::S3(x) => {
            if x.bucket != "bu" || x.prefix != if opt { "/windows" } else { "" } {
                bad.push("bucket/prefix".into());
            }
            let (r, e) = match kind {
                "s3" => ("us-east-1", None),
                "s3-custom" => ("minio", Some("http://minio/".to_string())),
                _ => ("eu-west-1", None),
            };
            if x.source_key.region.region.as_ref() != r || x.source_key.region.endpoint != e {
                bad.push(format!("region {:?}", x.source_key.region));
            }
            let container = kind == "s3-container";
            if matches!(x.source_key.aws_credentials_provider, AwsCredentialsProvider::Container) != container {
                bad.push("credentials provider".into());
            }
            let want = if container { ("", "") } else { ("ak", "sk") };
            if (x.source_key.access_key.as_str(), x.source_key.secret_key.as_str()) != want {
                bad.push("keys".into());
            }
            Some(&x.files)
        }
        SourceConfig::Sentry(x) => {
            if x.url.as_str() != "https://s.example/dsyms/" || x.token != "tok" {
                bad.push("sentry".into());
            }
            None
        }
    };
    if let Some(f) = common {
        if f.layout.ty != layout.unwrap_or(DirectoryLayoutType::Native) {
            bad.push(format!("layout {:?}", f.layout.ty));
        }
        if std::mem::discriminant(&f.layout.casing) != std::mem::discriminant(&casing) {
            bad.push(format!("casing {:?}", f.layout.casing));
        }
        if f.filters.filetypes != filter.1 {
            bad.push(format!("filetypes {:?}", f.filters.filetypes));
        }
        let pats: Vec<String> = f.filters.path_patterns.iter().map(|p| p.to_string()).collect();
        if pats != filter.2 {
            bad.push(format!("patterns {pats:?}"));
        }
        if f.filters.requires_checksum != filter.3 {
            bad.push("requires_checksum".into());
        }
        if f.is_public != public.unwrap_or(false) {
            bad.push("is_public".into());
        }
        if f.has_index != index.unwrap_or(false) {
            bad.push("has_index".into());
        }
    }
    bad
}

/// C13: credential identity: two sources share a client only if all their authorization data agree.
fn c13() -> ! {
    let ck = Check::new(
        "C13",
        "exploration",
        "all pairs of S3 and GCS credentials from the product of regions x endpoints x providers x access keys x secret keys (emails x keys); \
         equality must hold iff every field agrees, hashes must agree for equal keys, and a map keyed by credentials must return the client created for those very credentials",
    );
    let mut s3 = vec![];
    for region in ["us-east-1", "eu-west-1", ""] {
        for endpoint in [None, Some("http://minio/"), Some("http://minip/"), Some("")] {
            for p in [AwsCredentialsProvider::Static, AwsCredentialsProvider::Container] {
                for a in ["", "k", "l", "K", "kk", "kl"] {
                    for s in ["", "k", "l", "K", "kk", "kl"] {
                        let cont = matches!(p, AwsCredentialsProvider::Container);
                        let mut r = S3Region::from(region);
                        r.endpoint = endpoint.map(String::from);
                        s3.push((
                            (region, endpoint, cont, a, s),
                            S3SourceKey { region: r, aws_credentials_provider: p, access_key: a.into(), secret_key: s.into() },
                        ));
                    }
                }
            }
        }
    }
    let mut map: HashMap<S3SourceKey, usize> = HashMap::new();
    for (i, k) in s3.iter().enumerate() {
        let j = *map.entry(k.1.clone()).or_insert(i);
        if j != i {
            ck.fail(&format!("S3 client of {:?} is used for {:?}", s3[j].0, k.0), json!(null));
        }
    }
    for (a, ka) in &s3 {
        for (b, kb) in &s3 {
            ck.eval((a != b).then(|| hash64(&(a, b))));
            if (a == b) != (ka == kb) {
                ck.fail(&format!("S3 credentials {a:?} vs {b:?}"), json!({"equal": ka == kb}));
            }
            if a == b && hash64(ka) != hash64(kb) {
                ck.fail(&format!("S3 credentials {a:?} hash"), json!(null));
            }
        }
    }
    let mut gcs = vec![];
    for e in ["", "a@x", "b@x", "a@xk"] {
        for k in ["", "k", "K", "l", "kk", "kl", "lk", "k ", "a@x", "b@x"] {
            gcs.push(((e, k), GcsSourceKey { private_key: k.into(), client_email: e.into() }));
        }
    }
    for (a, ka) in &gcs {
        for (b, kb) in &gcs {
            ck.eval((a != b).then(|| hash64(&(a, b, 1))));
            if (a == b) != (ka == kb) || (a == b && hash64(ka) != hash64(kb)) {
                ck.fail(&format!("GCS credentials {a:?} vs {b:?}"), json!({"equal": ka == kb}));
            }
        }
    }
    ck.sample(|| json!({"s3": s3.len(), "gcs": gcs.len()}));
    ck.finish()
}

/// C14: a file belongs to the source it is listed for.
fn c14() -> ! {
    let ck = Check::new(
        "C14",
        "exploration",
        "product of all source kinds x identifiers x visibility x hosts or buckets x locations; \
         non-trivial: files of sources with an identifier near those of built-in sources, or that are public",
    );
    let ids = ["s", "sentry:microsoft", "sentry:", "sentry", "sentry_x", "Sentry:x", "xsentry:y", " sentry:z", "", "builtin:sentry:", "sentry:project", "custom:sentry:a"];
    let hosts = ["a.example.com", "b.example.com", "a.example.com:8080", "user:pw@a.example.com", "[::1]", "127.0.0.1", "xn--bcher-kva.example"];
    let locations = ["a/b.pdb", "x", "sentry:/y", "a.example.com/b", "//b//c", "a b/%41"];
    for (ii, id) in ids.iter().enumerate() {
        for public in [false, true] {
            for (hi, host) in hosts.iter().enumerate() {
                for (li, l) in locations.iter().enumerate() {
                    let files = CommonSourceConfig { is_public: public, ..Default::default() };
                    let (loc, sid) = (SourceLocation::new(*l), SourceId::new(*id));
                    let bucket = format!("bucket{hi}");
                    let url = Url::parse(&format!("https://{host}/base/")).unwrap();
                    let plain = url.host_str().unwrap().to_string();
                    let all: Vec<(&str, RemoteFile, Option<String>, bool)> = vec![
                        (
                            "http",
                            HttpRemoteFile::new(
                                Arc::new(HttpSourceConfig { id: sid.clone(), url: url.clone(), headers: Default::default(), files: files.clone(), accept_invalid_certs: false }),
                                loc.clone(),
                            )
                            .into(),
                            Some(plain),
                            public,
                        ),
                        (
                            "s3",
                            S3RemoteFile::new(
                                Arc::new(S3SourceConfig {
                                    id: sid.clone(),
                                    bucket: bucket.clone(),
                                    prefix: host.to_string(),
                                    source_key: Arc::new(S3SourceKey {
                                        region: S3Region::from("us-east-1"),
                                        aws_credentials_provider: AwsCredentialsProvider::Static,
                                        access_key: "k".into(),
                                        secret_key: "s".into(),
                                    }),
                                    files: files.clone(),
                                }),
                                loc.clone(),
                            )
                            .into(),
                            Some(bucket.clone()),
                            public,
                        ),
                        (
                            "gcs",
                            GcsRemoteFile::new(
                                Arc::new(GcsSourceConfig {
                                    id: sid.clone(),
                                    bucket: bucket.clone(),
                                    prefix: host.to_string(),
                                    source_key: Arc::new(GcsSourceKey { private_key: "k".into(), client_email: "e".into() }),
                                    files: files.clone(),
                                }),
                                loc.clone(),
                            )
                            .into(),
                            Some(bucket.clone()),
                            public,
                        ),
                        ("filesystem", FilesystemRemoteFile::new(Arc::new(FilesystemSourceConfig { id: sid.clone(), path: PathBuf::from(host), files: files.clone() }), loc.clone()).into(), None, public),
                        (
                            "sentry",
                            SentryRemoteFile::new(
                                Arc::new(SentrySourceConfig { id: sid.clone(), url: url.clone(), token: "t".into() }),
                                true,
                                SentryFileId((*l).into()),
                                None,
                            )
                            .into(),
                            None,
                            false,
                        ),
                    ];
                    for (kind, f, want_host, want_public) in all {
                        let k = || format!("{kind} source {id:?} at {host}, public {public}, location {l:?}");
                        let builtin = id.starts_with("sentry:");
                        let r = no_panic(|| {
                            (f.source_id().to_string(), f.is_builtin(), f.source_metric_key().to_string(), f.is_public(), f.host(), f.worth_using_shared_cache())
                        });
                        let Ok((got_id, got_builtin, metric, got_public, got_host, shared)) = r else {
                            ck.fail(&(k() + ": panic"), json!(r.err()));
                            continue;
                        };
                        ck.eval((builtin || want_public || id.contains("entry")).then(|| hash64(&(kind, ii, public, hi, li))));
                        ck.sample(|| json!({"file": k(), "metric": metric, "host": got_host}));
                        let mut bad = vec![];
                        if got_id != *id {
                            bad.push(json!({"id": got_id}));
                        }
                        if got_builtin != builtin {
                            bad.push(json!({"built in": got_builtin}));
                        }
                        if metric != if builtin { *id } else { kind } {
                            bad.push(json!({"kind": metric}));
                        }
                        if got_public != want_public {
                            bad.push(json!({"public": got_public}));
                        }
                        if want_host.as_ref().is_some_and(|h| *h != got_host) {
                            bad.push(json!({"host": got_host}));
                        }
                        if shared != !(kind == "gcs" && builtin) {
                            bad.push(json!({"worth sharing": shared}));
                        }
                        if !bad.is_empty() {
                            ck.fail(&k(), json!(bad));
                        }
                    }
                }
            }
        }
    }
    // scraped files have no configured source
    for u in ["https://a.example.com/x.js", "http://a.example.com:81/x.js?q"] {
        let f: RemoteFile = HttpRemoteFile::from_url(Url::parse(u).unwrap(), true).into();
        ck.eval(Some(hash64(&u)));
        if f.host() != "a.example.com" || f.is_builtin() || f.is_public() || f.source_metric_key() != "http" {
            ck.fail(&format!("scraped {u}"), json!({"host": f.host(), "built in": f.is_builtin(), "public": f.is_public(), "kind": f.source_metric_key()}));
        }
    }
    ck.finish()
}

/// C15: what others say about modules is understood.
fn c15() -> ! {
    let ck = Check::new(
        "C15",
        "exploration",
        "every string up to a length over the letters and marks of type names, near misses of the names in every position, all as plain and escaped JSON and YAML; \
         every path up to a length over separators, dots, letters, control and multi-byte characters; all types and names in both directions; \
         non-trivial: the names of types, and paths with separators",
    );
    let full = ck.thorough();
    let names = [
        ("elf", ObjectType::Elf),
        ("macho", ObjectType::Macho),
        ("pe", ObjectType::Pe),
        ("pe_dotnet", ObjectType::PeDotnet),
        ("wasm", ObjectType::Wasm),
        ("unknown", ObjectType::Unknown),
    ];
    let known = |s: &str| names.iter().find(|n| n.0 == s).map_or(ObjectType::Unknown, |n| n.1);
    let mut texts: BTreeSet<String> = BTreeSet::new();
    let letters = ['e', 'l', 'f', 'p', 'E', '_', ' ', '\u{e9}', '\0', '"'];
    let mut all = vec![String::new()];
    for _ in 0..if full { 6 } else { 5 } {
        texts.extend(all.iter().cloned());
        all = all.iter().flat_map(|s| letters.iter().map(move |l| format!("{s}{l}"))).collect();
    }
    texts.extend(all);
    for (n, _) in names {
        texts.insert(n.to_string());
        texts.insert(n.to_uppercase());
        for i in 0..=n.len() {
            for l in letters.iter().chain(&['x', '-', '\n', 'A']) {
                texts.insert(format!("{}{l}{}", &n[..i], &n[i..]));
                if i < n.len() {
                    texts.insert(format!("{}{l}{}", &n[..i], &n[i + 1..]));
                    texts.insert(format!("{}{}", &n[..i], &n[i + 1..]));
                }
            }
        }
        for (m, _) in names {
            texts.insert(format!("{n}{m}"));
            texts.insert(format!("{n}_{m}"));
        }
    }
    for t in ["dotnet", "net", "mach_o", "mach-o", "mach", "dll", "exe", "pdb", "portablepdb", "mach_code", "elf_code", "wasm32", "coff", "elf64", "macho64", "dwarf", "breakpad", "linux", "apple", "sourcebundle", "jvm", "none", "null"] {
        texts.insert(t.to_string());
    }
    for t in &texts {
        let want = known(t);
        let escaped: String = std::iter::once("\"".to_string()).chain(t.encode_utf16().map(|u| format!("\\u{u:04x}"))).chain(std::iter::once("\"".to_string())).collect();
        let plain = serde_json::to_string(t).unwrap();
        let got = no_panic(|| {
            let mut got: Vec<Result<ObjectType, String>> = vec![Ok(t.parse().unwrap())];
            for json in [&escaped, &plain] {
                got.push(serde_json::from_str(json).map_err(|e| e.to_string()));
                got.push(serde_yaml::from_str(json).map_err(|e| e.to_string()));
                got.push(serde_json::from_str::<Value>(json).and_then(serde_json::from_value).map_err(|e| e.to_string()));
                got.push(serde_json::from_reader(json.as_bytes()).map_err(|e| e.to_string()));
            }
            got
        });
        ck.eval((want != ObjectType::Unknown).then(|| hash64(t)));
        match got {
            Ok(g) if g.iter().all(|g| *g == Ok(want)) => {}
            g => ck.fail(&format!("type named {t:?}"), json!({"understood": format!("{g:?}"), "documented": format!("{want:?}")})),
        }
    }
    for (n, t) in names {
        let shown = (t.to_string(), serde_json::to_value(t).unwrap(), serde_yaml::to_string(&t).unwrap().trim().to_string());
        ck.eval(Some(hash64(&("shown", n))));
        if shown != (n.to_string(), json!(n), n.to_string()) {
            ck.fail(&format!("type {n} is shown"), json!(format!("{shown:?}")));
        }
    }
    if ObjectType::default() != ObjectType::Unknown {
        ck.fail("a module without type", json!(ObjectType::default().to_string()));
    }

    // names of files
    let alphabet = ["a", "b.c", "/", "\\", ".", ":", " ", "\u{e9}", "\u{1}", "\u{85}"];
    let depth = if full { 7 } else { 6 };
    let mut paths: Vec<String> = vec![String::new()];
    let mut last = paths.clone();
    for _ in 0..depth {
        last = last.iter().flat_map(|p| alphabet.iter().map(move |a| format!("{p}{a}"))).collect();
        paths.extend(last.iter().cloned());
    }
    for n in [254, 255, 256] {
        for dir in ["", "/d/", "C:\\", "d/\u{1}/"] {
            for unit in ["x", "\u{e9}"] {
                let name = unit.repeat(n / unit.len()) + &"x".repeat(n % unit.len());
                paths.push(format!("{dir}{name}"));
                paths.push(format!("{dir}{name}/"));
            }
        }
    }
    let block = 5000;
    parallel(paths.len().div_ceil(block), |b| {
        for p in &paths[b * block..paths.len().min((b + 1) * block)] {
            // separators at the end do not count
            let trimmed = p.trim_end_matches(['/', '\\']);
            let base = match trimmed {
                // nothing but separators: there is no name
                "" => None,
                t => t.rsplit(['/', '\\']).next(),
            };
            let valid = base.filter(|n| !["", ".", ".."].contains(n) && n.len() <= 255 && !n.chars().any(|c| c.is_control()));
            let got = no_panic(|| {
                let code = ObjectId { code_file: Some(p.clone()), ..Default::default() };
                let debug = ObjectId { debug_file: Some(p.clone()), ..Default::default() };
                let s = |o: Option<&str>| o.map(String::from);
                let none = [code.debug_file_basename(), code.validated_debug_file_basename(), debug.code_file_basename(), debug.validated_code_file_basename()].iter().all(|x| x.is_none());
                (
                    [s(code.code_file_basename()), s(debug.debug_file_basename())],
                    [s(code.validated_code_file_basename()), s(debug.validated_debug_file_basename())],
                    none,
                )
            });
            ck.eval(p.contains(['/', '\\']).then(|| hash64(p)));
            let fine = match &got {
                Ok((names, checked, none)) => *none && (base.is_none() || names.iter().all(|n| n.as_deref() == base)) && checked.iter().all(|n| n.as_deref() == valid),
                Err(_) => false,
            };
            if !fine {
                ck.fail(&format!("name of {p:?}"), json!({"got": format!("{got:?}"), "name": base, "valid": valid}));
            }
        }
    });
    for d in debug_ids(true) {
        let Some(id) = d else { continue };
        let o = ObjectId::from(id);
        ck.eval(Some(hash64(&("id", id.to_string()))));
        if o.debug_id != Some(id) || o.code_id.is_some() || o.code_file.is_some() || o.debug_file.is_some() || o.debug_checksum.is_some() || o.object_type != ObjectType::Unknown {
            ck.fail(&format!("module of {id}"), json!(format!("{o:?}")));
        }
    }
    // patterns
    for p in ["", "*", "?", "[a-z]*", "**/x", "C:\\*\\y", "[!a]", "[]]", "a", "\u{e9}*"] {
        let j = json!(p);
        let g = serde_json::from_value::<Glob>(j.clone()).map(|g| serde_json::to_value(&g).unwrap());
        ck.eval(Some(hash64(&("glob", p))));
        if !g.as_ref().is_ok_and(|g| *g == j) {
            ck.fail(&format!("pattern {p}"), json!(format!("{g:?}")));
        }
    }
    for p in ["[", "a[", "***", "a**"] {
        ck.eval(Some(hash64(&("glob", p))));
        if serde_json::from_value::<Glob>(json!(p)).is_ok() {
            ck.fail(&format!("pattern {p} is accepted"), json!(null));
        }
    }
    ck.finish()
}
