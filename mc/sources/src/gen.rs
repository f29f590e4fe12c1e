//! Alphabets of object identities.
use symbolic_common::{CodeId, DebugId, Uuid};
use symbolicator_sources::*;

pub const LAYOUTS: [DirectoryLayoutType; 7] = [
    DirectoryLayoutType::Native,
    DirectoryLayoutType::Symstore,
    DirectoryLayoutType::SymstoreIndex2,
    DirectoryLayoutType::Ssqp,
    DirectoryLayoutType::Debuginfod,
    DirectoryLayoutType::Unified,
    DirectoryLayoutType::SlashSymbols,
];
pub const CASINGS: [FilenameCasing; 3] =
    [FilenameCasing::Default, FilenameCasing::Lowercase, FilenameCasing::Uppercase];
pub const FILETYPES: [FileType; 15] = [
    FileType::Pe,
    FileType::Pdb,
    FileType::PortablePdb,
    FileType::MachDebug,
    FileType::MachCode,
    FileType::ElfDebug,
    FileType::ElfCode,
    FileType::WasmDebug,
    FileType::WasmCode,
    FileType::Breakpad,
    FileType::SourceBundle,
    FileType::UuidMap,
    FileType::BcSymbolMap,
    FileType::Il2cpp,
    FileType::Proguard,
];
pub const OBJTYPES: [ObjectType; 6] = [
    ObjectType::Elf,
    ObjectType::Macho,
    ObjectType::Pe,
    ObjectType::Wasm,
    ObjectType::PeDotnet,
    ObjectType::Unknown,
];

pub fn code_ids(full: bool) -> Vec<Option<CodeId>> {
    let mut v: Vec<&str> = vec![
        "",
        "a",
        "ab",
        "abc",
        "5ab3807",
        "5ab38077",
        "5ab380779",
        "5AB380779000",
        "67e9247c814e392ba027dbde6748fcbf",
        "67e9247c-814e-392b-a027-dbde6748fcbf",
        "dfb85de42daffd09640c8fe377d572de3e168920",
    ];
    if full {
        v.extend([
            "0",
            "00000000",
            "fedcba98FEDCBA98",
            "67e9247c814e392ba027dbde6748fcb",
            "67e9247c814e392ba027dbde6748fcbf1",
            "00112233445566778899aabbccddeeff00112233445566778899aabbccddeeff",
            "not-hex-z",
        ]);
    }
    let mut r: Vec<Option<CodeId>> = vec![None];
    r.extend(v.into_iter().map(|s| Some(CodeId::new(s.to_string()))));
    r
}

pub fn uuids() -> Vec<Uuid> {
    [
        "3249d99d-0c40-4931-8610-f4e4fb0b6936",
        "0a0b0c0d-0e0f-1011-0203-040506070809",
        "ffffffff-ffff-ffff-ffff-ffffffffffff",
        "00000000-0000-0000-0000-000000000000",
        "abcdefab-cdef-abcd-efab-cdefabcdefab",
    ]
    .iter()
    .map(|s| s.parse().unwrap())
    .collect()
}

pub fn debug_ids(full: bool) -> Vec<Option<DebugId>> {
    let mut r = vec![None];
    let us = uuids();
    let ages: &[u32] = if full { &[0, 1, 9, 0xa, 0x2b, 0xff, 0x1000, u32::MAX] } else { &[0, 1, 0x2b, u32::MAX] };
    for (i, u) in us.iter().enumerate() {
        for (j, a) in ages.iter().enumerate() {
            if full || i == 0 || j == i % ages.len() {
                r.push(Some(DebugId::from_parts(*u, *a)));
            }
        }
    }
    r
}

pub fn names(full: bool) -> Vec<Option<String>> {
    let mut v: Vec<String> = [
        "",
        "a",
        "ab",
        "abc",
        "crash.pdb",
        "crash.exe",
        "crash.dll",
        "Crash.PDB",
        "CRASH.Exe",
        "C:\\Windows\\Path\\Kernel32.Dll",
        "C:\\x/y\\mixed.exe.pdb",
        "/usr/lib/x86_64/libm-2.23.so",
        "libfoo.so.1",
        "/System/Library/Frameworks/Foo Bar",
        "..",
        ".",
        "/",
        "dir/",
        "x/..",
        ".pdb",
        "a.b.c.pdb",
        "noext",
        "_.debug",
        "Übung.Exe",
        "日本.pdb",
        "x\u{1}y.dll",
        "bad\ndir/good.dll",
        "nl\nname.pdb",
        "a?b#c%20d.dll",
        "C:relative.dll",
    ]
    .iter()
    .map(|s| s.to_string())
    .collect();
    if full {
        v.extend(
            [
                "é",
                "a/b",
                "a.",
                "x.y",
                ".x",
                "...",
                "..\\..\\evil.dll",
                "../../etc/passwd",
                "foo.pdb.dll",
                "foo.dll.exe",
                "foo.exe.dll.pdb",
                "foo.sym",
                "foo.PDB",
                "trailing ",
                " leading",
                "tab\tname",
                "del\u{7f}x",
                "nel\u{85}x",
                "http://host/x.dll",
                "a\\",
                "\\\\server\\share\\file.dll",
                "İstanbul.dll",
            ]
            .iter()
            .map(|s| s.to_string()),
        );
        v.push(format!("{}.pdb", "n".repeat(251)));
        v.push(format!("{}.pdb", "n".repeat(252)));
        v.push("é".repeat(127) + "x");
        v.push("é".repeat(128));
    }
    let mut r = vec![None];
    r.extend(v.into_iter().map(Some));
    r
}

pub fn oid(
    ty: ObjectType,
    code_id: &Option<CodeId>,
    code_file: &Option<String>,
    debug_id: &Option<DebugId>,
    debug_file: &Option<String>,
) -> ObjectId {
    ObjectId {
        code_id: code_id.clone(),
        code_file: code_file.clone(),
        debug_id: *debug_id,
        debug_file: debug_file.clone(),
        debug_checksum: None,
        object_type: ty,
    }
}

/// Small representative set of identities, used where the identity is not the point.
pub fn identities() -> Vec<ObjectId> {
    let mut r = vec![];
    let c = |s: &str| Some(CodeId::new(s.to_string()));
    let d = |s: &str| Some(s.parse::<DebugId>().unwrap());
    let n = |s: &str| Some(s.to_string());
    let pd = "3249d99d-0c40-4931-8610-f4e4fb0b6936-1";
    let md = "67e9247c-814e-392b-a027-dbde6748fcbf";
    r.push(oid(ObjectType::Pe, &c("5ab380779000"), &n("C:\\Win\\crash.exe"), &d(pd), &n("C:\\Win\\Crash.pdb")));
    r.push(oid(ObjectType::Pe, &None, &None, &d(pd), &n("Crash.pdb")));
    r.push(oid(ObjectType::Pe, &c("5ab380779000"), &n("crash.DLL"), &None, &None));
    r.push(oid(ObjectType::PeDotnet, &None, &n("app.dll"), &d(pd), &n("App.pdb")));
    r.push(oid(ObjectType::Macho, &None, &n("/Applications/Foo"), &d(md), &n("Foo")));
    r.push(oid(ObjectType::Macho, &c("67e9247c814e392ba027dbde6748fcbf"), &n("Foo Bar"), &d(md), &n("Foo Bar")));
    r.push(oid(ObjectType::Elf, &c("dfb85de42daffd09640c8fe377d572de3e168920"), &n("/lib/libm.so.6"), &d("e45db8df-af2d-09fd-640c-8fe377d572de"), &n("libm.so.6")));
    r.push(oid(ObjectType::Elf, &None, &n("/lib/libm.so.6"), &d("e45db8df-af2d-09fd-640c-8fe377d572de"), &n("libm.so.6")));
    r.push(oid(ObjectType::Wasm, &c("67e9247c814e392ba027dbde6748fcbf"), &None, &d(md), &n("file://foo/demo.wasm")));
    r.push(oid(ObjectType::Unknown, &c("67e9247c814e392ba027dbde6748fcbf"), &n("x"), &d(md), &n("y")));
    r.push(oid(ObjectType::Unknown, &None, &None, &None, &None));
    r
}
