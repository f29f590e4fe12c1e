//! Compressed downloads.
use crate::ctl::{self, world};
use crate::download::{http, service};
use crate::sys::{Act, Kind};
use crate::wire::{self, Chunk, Wire};
use std::io::{Read, Write};
use std::path::Path;
use std::sync::{Arc, Mutex};
use symbolicator_service::caching::CacheError;
use symbolicator_service::config::Config;
use symbolicator_service::download::fetch_file;
use vmc::serde_json::json;
use vmc::{Check, Scratch};

fn contents() -> Vec<(&'static str, Vec<u8>)> {
    let mut x = 1u32;
    let noise: Vec<u8> = (0..40_000)
        .map(|_| {
            x = x.wrapping_mul(1664525).wrapping_add(1013904223);
            (x >> 24) as u8
        })
        .collect();
    vec![
        ("nothing", vec![]),
        ("one byte", b"x".to_vec()),
        ("text", b"MODULE Linux x86_64 0123456789ABCDEF some.so\n".to_vec()),
        ("magic of another format", b"\x1f\x8bnot compressed again".to_vec()),
        ("compressed twice", zlib(b"inner", 6)),
        ("zeros", vec![0; 9000]),
        ("noise", noise),
    ]
}
fn zlib(b: &[u8], level: u32) -> Vec<u8> {
    let mut e = flate2::write::ZlibEncoder::new(vec![], flate2::Compression::new(level));
    e.write_all(b).unwrap();
    e.finish().unwrap()
}
/// The same stream announced with another level, as other encoders do.
fn zlib_announced(b: &[u8], flg: u8) -> Vec<u8> {
    let mut z = zlib(b, 6);
    z[..2].copy_from_slice(&[0x78, flg]);
    z
}
fn gzip(b: &[u8], level: u32, name: bool) -> Vec<u8> {
    let mut g = flate2::GzBuilder::new().mtime(12345);
    if name {
        g = g.filename("a.pdb").comment("comment").extra(b"extra".to_vec());
    }
    let mut e = g.write(vec![], flate2::Compression::new(level));
    e.write_all(b).unwrap();
    e.finish().unwrap()
}
fn zstd(b: &[u8], level: i32) -> Vec<u8> {
    let mut e = zstd::stream::Encoder::new(vec![], level).unwrap();
    e.include_checksum(true).unwrap();
    e.write_all(b).unwrap();
    e.finish().unwrap()
}
fn zip(files: &[(&str, &[u8])], stored: bool) -> Vec<u8> {
    let mut z = zip::ZipWriter::new(std::io::Cursor::new(vec![]));
    for (n, b) in files {
        let m = if stored { zip::CompressionMethod::Stored } else { zip::CompressionMethod::Deflated };
        z.start_file(*n, zip::write::SimpleFileOptions::default().compression_method(m)).unwrap();
        z.write_all(b).unwrap();
    }
    z.finish().unwrap().into_inner()
}
/// What the stand-in for `cabextract` unpacks: its exit status and the content.
fn cab(b: &[u8], status: u8) -> Vec<u8> {
    [b"MSCF", &[b'0' + status][..], b].concat()
}

/// What arrives, what it means, and at which lengths it is itself complete.
struct File {
    name: String,
    bytes: Vec<u8>,
    /// `None`: it is malformed.
    means: Option<Vec<u8>>,
    /// Complete prefixes and their meaning.
    prefixes: Vec<(usize, Vec<u8>)>,
}
fn files() -> Vec<File> {
    let mut v = vec![];
    let mut add = |name: String, bytes: Vec<u8>, means: Option<&[u8]>, prefixes: Vec<(usize, Vec<u8>)>| {
        v.push(File { name, bytes, means: means.map(|m| m.to_vec()), prefixes });
    };
    let all = contents();
    for (n, c) in &all {
        for l in [0, 1, 6, 9] {
            add(format!("gzip level {l}, {n}"), gzip(c, l, false), Some(c), vec![]);
        }
        for flg in [0x01, 0x5e, 0x9c, 0xda] {
            add(format!("zlib 78 {flg:02x}, {n}"), zlib_announced(c, flg), Some(c), vec![]);
        }
        add(format!("gzip with names, {n}"), gzip(c, 6, true), Some(c), vec![]);
        for l in [1, 3, 19] {
            add(format!("zstd level {l}, {n}"), zstd(c, l), Some(c), vec![]);
        }
        for s in [false, true] {
            add(format!("zip, stored {s}, {n}"), zip(&[("a.pdb", c)], s), Some(c), vec![]);
        }
        add(format!("cab, {n}"), cab(c, 0), Some(c), vec![]);
        add(format!("cab that fails, {n}"), cab(c, 1), None, vec![]);
        for (m, d) in [&all[0], &all[2], &all[5]] {
            let both = [&c[..], d].concat();
            let (a, b) = (gzip(c, 6, false), gzip(d, 6, false));
            add(format!("gzip {n}, gzip {m}"), [&a[..], &b].concat(), Some(&both), vec![(a.len(), c.clone())]);
            let (a, b) = (zstd(c, 3), zstd(d, 3));
            add(format!("zstd {n}, zstd {m}"), [&a[..], &b].concat(), Some(&both), vec![(a.len(), c.clone())]);
            add(format!("zip of {n} and {m}"), zip(&[("a", c), ("b", d)], false), None, vec![]);
        }
    }
    // not compressed
    let magics: [&[u8]; 8] = [b"\x28\xb5\x2f\xfd", b"\x1f\x8b\x08\x00", b"\x78\x01\x02\x03", b"\x78\x9c\x02\x03", b"\x78\xda\x02\x03", b"PK\x03\x04", b"MSCF", b"\x7fELF"];
    for m in magics {
        for n in 0..4 {
            add(format!("{n} bytes of {m:02x?}"), m[..n].to_vec(), Some(&m[..n]), vec![]);
        }
        for i in 0..4 {
            if (m[0] == 0x78 || m[0] == 0x1f) && i > 1 {
                continue;
            }
            let mut other = m.to_vec();
            other[i] ^= 0x20;
            other.extend(b"some more");
            add(format!("{other:02x?}"), other.clone(), Some(&other), vec![]);
        }
    }
    for (n, c) in &all {
        if !c.starts_with(b"\x1f\x8b") && !c.starts_with(b"\x78") {
            add(format!("plain {n}"), c.clone(), Some(c), vec![]);
        }
    }
    let empty = zip(&[], false);
    add("empty zip".into(), empty.clone(), Some(&empty), vec![]);
    v
}
fn magic(b: &[u8]) -> bool {
    b.len() >= 4 && (b.starts_with(b"\x28\xb5\x2f\xfd") || b.starts_with(b"\x1f\x8b") || (b[0] == 0x78 && [1, 0x5e, 0x9c, 0xda].contains(&b[1])) || b.starts_with(b"PK\x03\x04") || b.starts_with(b"MSCF"))
}

/// Result, content read through the returned handle, number of file operations.
fn fetch(dir: &Path, bytes: &[u8], fault: Option<(usize, bool, Act)>) -> (Result<(), CacheError>, Vec<u8>, usize, Option<String>) {
    let n = Arc::new(Mutex::new(0));
    let n2 = n.clone();
    let tmp = dir.join("tmp");
    std::fs::create_dir_all(&tmp).unwrap();
    let (r, got, odd) = ctl::run(&tmp, async {
        let body: Vec<Chunk> = bytes.chunks(10_000).map(|c| Chunk::Data(c.to_vec())).collect();
        let w = Wire::body(None, body);
        wire::install(move |_| w.clone());
        let svc = service(&Config::default());
        let mut t = tempfile::NamedTempFile::new_in(&tmp).unwrap();
        world().set_hook(Some(Arc::new(move |op| {
            if !matches!(op.kind, Kind::Create | Kind::Write | Kind::Truncate) {
                return Act::Go;
            }
            let mut n = n2.lock().unwrap();
            *n += 1;
            match &fault {
                Some((at, from, act)) if *n - 1 == *at || (*from && *n > *at) => match act {
                    Act::Short(_) if op.kind != Kind::Write => Act::Go,
                    a => a.clone(),
                },
                _ => Act::Go,
            }
        })));
        let r = fetch_file(svc, http("s", "symbols.example.com", "a/b"), &mut t).await;
        world().set_hook(None);
        let mut got = vec![];
        let mut odd = None;
        if r.is_ok() {
            t.as_file().read_to_end(&mut got).unwrap();
            if std::fs::read(t.path()).unwrap() != got {
                odd = Some("the file at the path differs from the file handle".to_string());
            }
        }
        let left = std::fs::read_dir(&tmp).unwrap().count();
        if left != 1 {
            odd = Some(format!("{left} files are left"));
        }
        (r, got, odd)
    });
    let n = *n.lock().unwrap();
    (r, got, n, odd)
}
fn kind(r: &Result<(), CacheError>, got: &[u8]) -> String {
    match r {
        Ok(()) if got.len() < 60 => format!("Ok({:?})", String::from_utf8_lossy(got)),
        Ok(()) => format!("Ok({} bytes, {:x})", got.len(), vmc::hash64(got)),
        Err(CacheError::Malformed(_)) => "Malformed".into(),
        Err(e) => format!("{e:?}"),
    }
}
fn means(m: &Option<Vec<u8>>) -> String {
    match m {
        None => "Malformed".into(),
        Some(m) => kind(&Ok(()), m),
    }
}

pub fn c29() {
    let check = Check::new(
        "C29",
        "fault_enumeration",
        "formats x contents; every truncation, every flipped bit and every failing file operation of the small ones",
    );
    check.assume("cabextract is a stand-in script; corruption is detectable: formats with checksums");
    let bin = Scratch::new("c29bin");
    let tool = bin.0.join("cabextract");
    std::fs::write(&tool, "#!/bin/sh\n[ \"$1\" = -sfqp ] && [ $# = 2 ] || exit 9\ntail -c +6 \"$2\"\nexit $(head -c 5 \"$2\" | tail -c 1)\n").unwrap();
    std::fs::set_permissions(&tool, std::os::unix::fs::PermissionsExt::from_mode(0o755)).unwrap();
    std::env::set_var("PATH", format!("{}:/usr/bin:/bin", bin.0.display()));

    let files = files();
    vmc::parallel(files.len(), |i| {
        let f = &files[i];
        one(&check, &f.name, &f.bytes, &[means(&f.means)]);
    });
    // damage
    let small = if check.thorough() { 400 } else { 120 };
    let damaged: Vec<&File> = files.iter().filter(|f| f.bytes.len() < small && magic(&f.bytes) && !f.name.starts_with("cab")).collect();
    vmc::parallel(damaged.len(), |i| {
        let f = damaged[i];
        for n in 0..f.bytes.len() {
            if check.saturated() {
                return;
            }
            let cut = &f.bytes[..n];
            let want = match f.prefixes.iter().find(|p| p.0 == n) {
                Some(p) => kind(&Ok(()), &p.1),
                None if !magic(cut) => kind(&Ok(()), cut),
                None => "Malformed".into(),
            };
            one(&check, &format!("{}, cut off after {n} bytes", f.name), cut, &[want]);
            for bit in 0..8 {
                let mut flip = f.bytes.clone();
                flip[n] ^= 1 << bit;
                let want: Vec<String> = match magic(&flip) {
                    false => vec![kind(&Ok(()), &flip)],
                    true => {
                        let mut w = vec!["Malformed".into(), means(&f.means)];
                        // another member is not recognised any more
                        w.extend(f.prefixes.iter().map(|p| kind(&Ok(()), &p.1)));
                        w
                    }
                };
                // sizes and names in an archive of two may be read as one of another
                if !f.name.starts_with("zip of") {
                    one(&check, &format!("{}, bit {bit} of byte {n} flipped", f.name), &flip, &want);
                }
            }
        }
    });
    // the disk
    let disk: Vec<&File> = files.iter().filter(|f| f.name.ends_with("text") || f.name.ends_with("noise") || f.name.starts_with("plain")).collect();
    vmc::parallel(disk.len(), |i| {
        let f = disk[i];
        for act in [Act::Err(libc::EIO), Act::Err(libc::ENOSPC), Act::Short(7)] {
            for from in [false, true] {
                for at in 0.. {
                    let k = || format!("{}, {act:?} at operation {at}{}", f.name, if from { " and later" } else { "" });
                    let s = Scratch::new("c29d");
                    let (r, got, n, odd) = fetch(&s.0, &f.bytes, Some((at, from, act.clone())));
                    if r.is_ok() || odd.is_some() {
                        check.expect(k, "result", &(kind(&r, &got), odd), &(means(&f.means), None));
                    }
                    check.eval((n > at).then(|| vmc::hash64(&k())));
                    if n <= at || check.saturated() {
                        break;
                    }
                }
            }
        }
    });
    check.finish()
}
fn one(check: &Check, name: &str, bytes: &[u8], want: &[String]) {
    check.guarded(|| name.to_string(), || {
        let s = Scratch::new("c29");
        let (r, got, n, odd) = fetch(&s.0, bytes, None);
        let is = kind(&r, &got);
        if !want.contains(&is) || odd.is_some() {
            check.fail(name, json!({"result": is, "expected": want, "also": odd, "error": format!("{r:?}")}));
        }
        check.eval(Some(vmc::hash64(name)));
        check.state(vmc::hash64(&is));
        check.transition(n as u64);
        check.sample(|| json!({"file": name, "result": is}));
    });
}
