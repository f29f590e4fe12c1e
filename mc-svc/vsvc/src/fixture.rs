//! Small object files.
use std::io::Write;

/// The identifier of module `n`, as it is written in Breakpad files and paths.
pub fn debug_id(n: u8) -> String {
    format!("{:031X}{n:X}0", 0xabc)
}
/// A Breakpad file with a marker in it.
pub fn breakpad(n: u8, marker: usize, symbols: bool, debug: bool, unwind: bool) -> Vec<u8> {
    let mut s = format!("MODULE Linux x86_64 {} lib{n}.so\nINFO CODE_ID {marker:08X}\n", debug_id(n));
    if debug {
        s += "FILE 0 a.c\nFUNC 1000 10 0 f\n1000 10 1 0\n";
    }
    if symbols {
        s += "PUBLIC 1000 0 g\n";
    }
    if unwind {
        s += "STACK CFI INIT 1000 10 .cfa: $rsp 8 + .ra: .cfa -8 + ^\n";
    }
    s.into_bytes()
}
pub fn zip(files: &[(&str, &[u8])], stored: bool) -> Vec<u8> {
    let mut z = zip::ZipWriter::new(std::io::Cursor::new(vec![]));
    for (n, b) in files {
        let m = if stored { zip::CompressionMethod::Stored } else { zip::CompressionMethod::Deflated };
        z.start_file(*n, zip::write::SimpleFileOptions::default().compression_method(m)).unwrap();
        z.write_all(b).unwrap();
    }
    z.finish().unwrap().into_inner()
}
/// A source bundle of one file.
pub fn bundle(n: u8, marker: usize) -> Vec<u8> {
    let manifest = format!(r#"{{"files": {{"files/a.c": {{"type": "source", "path": "/src/a.c"}}}}, "debug_id": "{}", "marker": "{marker}"}}"#, debug_id(n).to_lowercase());
    let mut b = b"SYSB\x02\0\0\0".to_vec();
    b.extend(zip(&[("files/a.c", b"int main;\n"), ("manifest.json", manifest.as_bytes())], true));
    b
}
/// A Mach-O file with nothing but an identifier.
pub fn macho(uuid: [u8; 16], cpu: u32) -> Vec<u8> {
    let mut b = vec![];
    for x in [0xfeed_facfu32, 0x0100_0000 | cpu, 0, 2, 1, 24, 0, 0, 0x1b, 24] {
        b.extend(x.to_le_bytes());
    }
    b.extend(uuid);
    b
}
/// A universal binary.
pub fn fat(slices: &[Vec<u8>]) -> Vec<u8> {
    let mut b = vec![];
    let be = |b: &mut Vec<u8>, x: u32| b.extend(x.to_be_bytes());
    be(&mut b, 0xcafe_babe);
    be(&mut b, slices.len() as u32);
    let mut offset = 4096;
    for (i, s) in slices.iter().enumerate() {
        for x in [0x0100_0000 | [7u32, 12, 18][i % 3], 0, offset, s.len() as u32, 12] {
            be(&mut b, x);
        }
        offset += 4096;
    }
    for (i, s) in slices.iter().enumerate() {
        b.resize(4096 * (i + 1), 0);
        b.extend(s);
    }
    b
}
