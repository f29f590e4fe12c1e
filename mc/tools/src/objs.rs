//! Hand-made debug information files with known identities.

use std::io::Write as _;

/// Where (and how described) an object must be stored.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Obj {
    pub bytes: Vec<u8>,
    /// unified id and suffix; `None`: this object is not stored.
    pub slot: Option<(String, &'static str)>,
    /// storing it is an error
    pub error: bool,
    pub arch: &'static str,
    pub format: &'static str,
    pub code_id: Option<String>,
    pub debug_id: String,
    /// symbolicator's (object type, file type) for it; `None`: not addressed by the unified layout
    pub lookup: Option<(&'static str, &'static str)>,
}

pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}

/// breakpad debug id of a GUID given in text order.
pub fn breakpad(uuid: &[u8; 16], age: u32) -> String {
    format!("{}{:x}", hex(uuid), age)
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    Exe,
    Lib,
    Debug,
    Reloc,
}

struct W(Vec<u8>);
impl W {
    fn u8(&mut self, x: u8) -> &mut W {
        self.0.push(x);
        self
    }
    fn u16(&mut self, x: u16) -> &mut W {
        self.0.extend(x.to_le_bytes());
        self
    }
    fn u32(&mut self, x: u32) -> &mut W {
        self.0.extend(x.to_le_bytes());
        self
    }
    fn u64(&mut self, x: u64) -> &mut W {
        self.0.extend(x.to_le_bytes());
        self
    }
    fn b(&mut self, x: &[u8]) -> &mut W {
        self.0.extend(x);
        self
    }
    fn pad(&mut self, n: usize) -> &mut W {
        assert!(self.0.len() <= n, "{} > {n}", self.0.len());
        self.0.resize(n, 0);
        self
    }
    fn align(&mut self, n: usize) -> &mut W {
        while self.0.len() % n != 0 {
            self.0.push(0);
        }
        self
    }
}

/// A 64 bit ELF; `filler` makes the content distinct without touching the identity.
pub fn elf(build_id: Option<&[u8]>, kind: Kind, filler: &[u8]) -> Obj {
    let text: Option<Vec<u8>> = if kind == Kind::Debug { None } else { Some(vec![0x90; 32]) };
    let mut w = W(vec![]);
    // header
    w.b(b"\x7fELF").u8(2).u8(1).u8(1).pad(16);
    let etype = match kind {
        Kind::Exe => 2u16,
        Kind::Lib => 3,
        Kind::Debug => 3,
        Kind::Reloc => 1,
    };
    let interp = kind == Kind::Exe;
    let nph = u16::from(interp);
    w.u16(etype).u16(62).u32(1).u64(0);
    w.u64(if nph > 0 { 64 } else { 0 });
    let shoff_at = w.0.len();
    w.u64(0).u32(0).u16(64).u16(56).u16(nph).u16(64);
    let shnum_at = w.0.len();
    w.u16(0).u16(0);
    assert_eq!(w.0.len(), 64);
    let mut interp_at = 0;
    if interp {
        interp_at = w.0.len();
        w.u32(3).u32(4).u64(0).u64(0).u64(0).u64(0).u64(0).u64(1);
    }
    let mut secs: Vec<(&str, u32, u64, usize, usize)> = vec![];
    if interp {
        let o = w.0.len();
        w.b(b"/lib/ld.so\0");
        let l = w.0.len() - o;
        w.0[interp_at + 8..interp_at + 16].copy_from_slice(&(o as u64).to_le_bytes());
        w.0[interp_at + 32..interp_at + 40].copy_from_slice(&(l as u64).to_le_bytes());
        w.0[interp_at + 40..interp_at + 48].copy_from_slice(&(l as u64).to_le_bytes());
        w.align(8);
    }
    if let Some(id) = build_id {
        let o = w.0.len();
        w.u32(4).u32(id.len() as u32).u32(3).b(b"GNU\0").b(id).align(4);
        secs.push((".note.gnu.build-id", 7, 2, o, w.0.len() - o));
        w.align(8);
    }
    if let Some(t) = &text {
        let o = w.0.len();
        w.b(t);
        secs.push((".text", 1, 6, o, t.len()));
    }
    let o = w.0.len();
    w.b(filler);
    secs.push((".comment", 1, 0, o, filler.len()));
    // string table
    let mut names = vec![0u8];
    let mut offs = vec![];
    for s in &secs {
        offs.push(names.len() as u32);
        names.extend(s.0.as_bytes());
        names.push(0);
    }
    let strname = names.len() as u32;
    names.extend(b".shstrtab\0");
    let stro = w.0.len();
    w.b(&names).align(8);
    let shoff = w.0.len() as u64;
    w.b(&[0; 64]);
    for (s, n) in secs.iter().zip(offs) {
        w.u32(n).u32(s.1).u64(s.2).u64(if s.2 & 2 != 0 { s.3 as u64 } else { 0 }).u64(s.3 as u64).u64(s.4 as u64).u32(0).u32(0).u64(4).u64(0);
    }
    w.u32(strname).u32(3).u64(0).u64(0).u64(stro as u64).u64(names.len() as u64).u32(0).u32(0).u64(1).u64(0);
    let n = secs.len() as u16 + 2;
    w.0[shoff_at..shoff_at + 8].copy_from_slice(&shoff.to_le_bytes());
    w.0[shnum_at..shnum_at + 2].copy_from_slice(&n.to_le_bytes());
    w.0[shnum_at + 2..shnum_at + 4].copy_from_slice(&(n - 1).to_le_bytes());

    // identity: build id, else the xor of the text
    let mut h = [0u8; 16];
    match build_id {
        Some(id) => {
            let n = id.len().min(16);
            h[..n].copy_from_slice(&id[..n]);
        }
        None => {
            for (i, b) in text.iter().flatten().enumerate() {
                h[i % 16] ^= b;
            }
        }
    }
    h[0..4].reverse();
    h[4..6].reverse();
    h[6..8].reverse();
    let code_id = build_id.filter(|b| !b.is_empty()).map(hex);
    let nil = h == [0; 16];
    let debug_id = breakpad(&h, 0);
    let suffix = match kind {
        Kind::Exe | Kind::Lib => Some("executable"),
        Kind::Debug => Some("debuginfo"),
        Kind::Reloc => None,
    };
    let id = code_id.clone().or_else(|| (!nil).then(|| debug_id.clone()));
    let error = suffix.is_some() && id.is_none();
    Obj {
        bytes: w.0,
        slot: suffix.and_then(|s| id.map(|i| (i, s))),
        error,
        arch: "x86_64",
        format: "elf",
        lookup: code_id.as_ref().map(|_| ("elf", if kind == Kind::Debug { "elf_debug" } else { "elf_code" })),
        code_id,
        debug_id,
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Cpu {
    X64,
    Arm64,
}

pub fn macho(uuid: Option<&[u8; 16]>, kind: Kind, cpu: Cpu, filler: &[u8]) -> Obj {
    let mut w = W(vec![]);
    let (ct, cs, arch) = match cpu {
        Cpu::X64 => (0x0100_0007u32, 3u32, "x86_64"),
        Cpu::Arm64 => (0x0100_000c, 0, "arm64"),
    };
    let ft = match kind {
        Kind::Exe => 2,
        Kind::Lib => 6,
        Kind::Debug => 10,
        Kind::Reloc => 1,
    };
    let ncmds = u32::from(uuid.is_some());
    w.u32(0xfeed_facf).u32(ct).u32(cs).u32(ft).u32(ncmds).u32(24 * ncmds).u32(0).u32(0);
    if let Some(u) = uuid {
        w.u32(0x1b).u32(24).b(u);
    }
    w.b(filler);
    let suffix = match kind {
        Kind::Exe | Kind::Lib => Some("executable"),
        Kind::Debug => Some("debuginfo"),
        Kind::Reloc => None,
    };
    Obj {
        bytes: w.0,
        slot: suffix.and_then(|s| uuid.map(|i| (hex(i), s))),
        error: suffix.is_some() && uuid.is_none(),
        arch,
        format: "macho",
        code_id: uuid.map(|u| hex(u)),
        debug_id: breakpad(uuid.unwrap_or(&[0; 16]), 0),
        lookup: uuid.map(|_| ("macho", if kind == Kind::Debug { "mach_debug" } else { "mach_code" })),
    }
}

/// A fat archive of Mach-O objects (with `bad`: a slice reaching past the end).
pub fn fat(objs: &[Obj], cpus: &[Cpu]) -> Vec<u8> {
    let mut out = vec![];
    out.extend(0xcafe_babeu32.to_be_bytes());
    out.extend((objs.len() as u32).to_be_bytes());
    let mut off = 4096usize;
    for (o, c) in objs.iter().zip(cpus) {
        let (ct, cs) = match c {
            Cpu::X64 => (0x0100_0007u32, 3u32),
            Cpu::Arm64 => (0x0100_000c, 0),
        };
        for x in [ct, cs, off as u32, o.bytes.len() as u32, 12] {
            out.extend(x.to_be_bytes());
        }
        off += (o.bytes.len() + 4095) / 4096 * 4096;
    }
    let mut off = 4096usize;
    for o in objs {
        out.resize(off, 0);
        out.extend(&o.bytes);
        off += (o.bytes.len() + 4095) / 4096 * 4096;
    }
    out
}

pub fn pe(guid: Option<&[u8; 16]>, age: u32, dll: bool, filler: &[u8]) -> Obj {
    let mut w = W(vec![]);
    w.b(b"MZ").pad(60).u32(64);
    w.b(b"PE\0\0");
    let stamp = 0x5ab3_8077u32;
    w.u16(0x8664).u16(1).u32(stamp).u32(0).u32(0).u16(240).u16(if dll { 0x2022 } else { 0x22 });
    let opt = w.0.len();
    let size_of_image = 0x3000u32;
    // optional header (PE32+)
    w.u16(0x20b).u8(14).u8(0).u32(0x200).u32(0x200).u32(0).u32(0x1000).u32(0x1000);
    w.u64(0x1_4000_0000).u32(0x1000).u32(0x200).u16(6).u16(0).u16(0).u16(0).u16(6).u16(0).u32(0);
    w.u32(size_of_image).u32(0x200).u32(0).u16(3).u16(0);
    w.u64(0x10_0000).u64(0x1000).u64(0x10_0000).u64(0x1000).u32(0).u32(16);
    for i in 0..16 {
        if i == 6 && guid.is_some() {
            w.u32(0x1000).u32(28);
        } else {
            w.u32(0).u32(0);
        }
    }
    assert_eq!(w.0.len() - opt, 240);
    w.b(b".rdata\0\0").u32(0x200).u32(0x1000).u32(0x200).u32(0x200).u32(0).u32(0).u16(0).u16(0).u32(0x4000_0040);
    w.pad(0x200);
    if let Some(g) = guid {
        let pdb = b"a.pdb\0";
        w.u32(0).u32(stamp).u16(0).u16(0).u32(2).u32(24 + pdb.len() as u32).u32(0x1000 + 28).u32(0x200 + 28);
        let mut s = *g;
        s[0..4].reverse();
        s[4..6].reverse();
        s[6..8].reverse();
        w.b(b"RSDS").b(&s).u32(age).b(pdb);
    }
    w.b(filler);
    w.pad(0x400);
    let d = guid.map(|g| breakpad(g, age));
    Obj {
        bytes: w.0,
        slot: d.clone().map(|d| (d, "executable")),
        error: d.is_none(),
        arch: "x86_64",
        format: "pe",
        code_id: Some(format!("{stamp:08x}{size_of_image:x}")),
        debug_id: d.clone().unwrap_or_else(|| breakpad(&[0; 16], 0)),
        lookup: d.map(|_| ("pe", "pe")),
    }
}

pub fn breakpad_sym(uuid: &[u8; 16], age: u32, code_id: Option<&str>, filler: &str) -> Obj {
    let mut s = format!("MODULE Linux x86_64 {}{:X} crash\n", hex(uuid).to_uppercase(), age);
    if let Some(c) = code_id {
        s += &format!("INFO CODE_ID {c} crash\n");
    }
    s += &format!("FILE 0 {filler}\nPUBLIC 1000 0 main\n");
    let code_id = code_id.map(|c| c.to_lowercase());
    let d = breakpad(uuid, age);
    Obj {
        bytes: s.into_bytes(),
        slot: Some((code_id.clone().unwrap_or(d.clone()), "debuginfo")),
        error: false,
        arch: "x86_64",
        format: "breakpad",
        code_id,
        debug_id: d,
        lookup: None,
    }
}

pub fn leb(mut n: usize) -> Vec<u8> {
    let mut v = vec![];
    loop {
        let b = (n & 0x7f) as u8;
        n >>= 7;
        if n == 0 {
            v.push(b);
            return v;
        }
        v.push(b | 0x80);
    }
}

pub fn wasm_section(id: u8, payload: &[u8]) -> Vec<u8> {
    let mut v = vec![id];
    v.extend(leb(payload.len()));
    v.extend(payload);
    v
}

pub fn wasm_custom(name: &str, data: &[u8]) -> Vec<u8> {
    let mut p = leb(name.len());
    p.extend(name.as_bytes());
    p.extend(data);
    wasm_section(0, &p)
}

/// type, function and code section of one empty function
pub fn wasm_code() -> [Vec<u8>; 3] {
    [
        wasm_section(1, &[1, 0x60, 0, 0]),
        wasm_section(3, &[1, 0]),
        wasm_section(10, &[1, 2, 0, 0x0b]),
    ]
}

pub fn wasm(build_id: Option<&[u8]>, code: bool, filler: &[u8]) -> Obj {
    let mut v = b"\0asm\x01\0\0\0".to_vec();
    if code {
        for s in wasm_code() {
            v.extend(s);
        }
    }
    v.extend(wasm_custom("filler", filler));
    if let Some(b) = build_id {
        v.extend(wasm_custom("build_id", b));
    }
    let code_id = build_id.map(hex);
    let mut u = [0u8; 16];
    if let Some(b) = build_id {
        if b.len() >= 16 {
            u.copy_from_slice(&b[..16]);
        }
    }
    let id = code_id.clone().filter(|c| c.len() >= 2);
    Obj {
        bytes: v,
        error: id.is_none(),
        slot: id.map(|i| (i, if code { "executable" } else { "debuginfo" })),
        arch: "wasm32",
        format: "wasm",
        lookup: code_id.as_ref().map(|_| ("wasm", if code { "wasm_code" } else { "wasm_debug" })),
        code_id,
        debug_id: breakpad(&u, 0),
    }
}

/// A source bundle; `debug_id` in breakpad form without hyphens plus age.
pub fn source_bundle(uuid: &[u8; 16], code_id: Option<&str>, content: &str) -> Obj {
    let mut buf = vec![];
    buf.extend(b"SYSB");
    buf.extend(2u32.to_le_bytes());
    let mut cur = std::io::Cursor::new(vec![]);
    {
        let mut z = zip::ZipWriter::new(&mut cur);
        let opt = zip::write::SimpleFileOptions::default().compression_method(zip::CompressionMethod::Stored);
        let u = hex(uuid);
        let did = format!("{}-{}-{}-{}-{}", &u[..8], &u[8..12], &u[12..16], &u[16..20], &u[20..]);
        let mut attrs = serde_json::json!({"arch": "x86_64", "debug_id": did, "object_name": "crash"});
        if let Some(c) = code_id {
            attrs["code_id"] = c.into();
        }
        let mut m = attrs.clone();
        m["files"] = serde_json::json!({"files/a.c": {"type": "source", "path": "/src/a.c"}});
        z.start_file("manifest.json", opt).unwrap();
        z.write_all(m.to_string().as_bytes()).unwrap();
        z.start_file("files/a.c", opt).unwrap();
        z.write_all(content.as_bytes()).unwrap();
        z.finish().unwrap();
    }
    buf.extend(cur.into_inner());
    let d = breakpad(uuid, 0);
    Obj {
        bytes: buf,
        slot: Some((code_id.map(String::from).unwrap_or(d.clone()), "sourcebundle")),
        error: false,
        arch: "x86_64",
        format: "sourcebundle",
        code_id: code_id.map(String::from),
        debug_id: d,
        lookup: code_id.map(|_| ("elf", "sourcebundle")),
    }
}

/// An ordinary zip archive of named members.
pub fn zip(members: &[(&str, &[u8])], deflate: bool) -> Vec<u8> {
    let mut cur = std::io::Cursor::new(vec![]);
    {
        let mut z = zip::ZipWriter::new(&mut cur);
        let m = if deflate { zip::CompressionMethod::Deflated } else { zip::CompressionMethod::Stored };
        let opt = zip::write::SimpleFileOptions::default().compression_method(m);
        for (n, d) in members {
            z.start_file(n.to_string(), opt).unwrap();
            z.write_all(d).unwrap();
        }
        z.finish().unwrap();
    }
    cur.into_inner()
}
