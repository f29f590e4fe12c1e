//! Stand-in for `symbolic-symcache`: functions with their inlinees and lines as JSON.
//! A name that starts with `_Z` is C++, one that starts with `_R` is Rust.
use serde::{Deserialize, Serialize};
use symbolic_common::{Arch, AsSelf, Language, Name, NameMangling};
use symbolic_debuginfo::{Object, ObjectDebugSession};

pub const SYMCACHE_VERSION: u32 = 8;
const MAGIC: &[u8] = b"SYMX8\n";

#[derive(Debug, thiserror::Error)]
#[error("{0}")]
pub struct Error(String);

pub mod transform {
    use std::borrow::Cow;
    #[derive(Debug, Clone)]
    pub struct Function<'s> {
        pub name: Cow<'s, str>,
        pub comp_dir: Option<Cow<'s, str>>,
    }
    #[derive(Debug, Clone)]
    pub struct File<'s> {
        pub name: Cow<'s, str>,
        pub directory: Option<Cow<'s, str>>,
        pub comp_dir: Option<Cow<'s, str>>,
    }
    impl File<'_> {
        pub fn full(&self) -> String {
            let d = symbolic_common::join_path(self.comp_dir.as_deref().unwrap_or(""), self.directory.as_deref().unwrap_or(""));
            symbolic_common::clean_path(&symbolic_common::join_path(&d, &self.name)).into_owned()
        }
    }
    #[derive(Debug, Clone)]
    pub struct SourceLocation<'s> {
        pub file: File<'s>,
        pub line: u32,
    }
    pub trait Transformer {
        fn transform_function<'f>(&'f mut self, f: Function<'f>) -> Function<'f>;
        fn transform_source_location<'f>(&'f mut self, sl: SourceLocation<'f>) -> SourceLocation<'f>;
    }
    impl Transformer for symbolic_debuginfo::macho::BcSymbolMap<'_> {
        fn transform_function<'f>(&'f mut self, f: Function<'f>) -> Function<'f> {
            let name = self.resolve(unsafe { &*(&*f.name as *const str) }).to_owned();
            Function { name: name.into(), comp_dir: f.comp_dir }
        }
        fn transform_source_location<'f>(&'f mut self, l: SourceLocation<'f>) -> SourceLocation<'f> {
            let name = self.resolve(unsafe { &*(&*l.file.name as *const str) }).to_owned();
            SourceLocation { file: File { name: name.into(), ..l.file }, line: l.line }
        }
    }
}
use transform::Transformer;

#[derive(Serialize, Deserialize, Debug, Clone)]
struct Func {
    start: u64,
    size: u64,
    name: String,
    lines: Vec<(u64, Option<u64>, String, u32)>,
    inlinees: Vec<Func>,
}
#[derive(Serialize, Deserialize, Debug, Clone)]
struct Data {
    arch: String,
    functions: Vec<Func>,
    symbols: Vec<(u64, u64, String)>,
}

pub struct SymCacheConverter<'a> {
    data: Data,
    transformers: Vec<Box<dyn Transformer + 'a>>,
}
impl Default for SymCacheConverter<'_> {
    fn default() -> Self {
        Self::new()
    }
}
impl<'a> SymCacheConverter<'a> {
    pub fn new() -> Self {
        SymCacheConverter { data: Data { arch: "unknown".into(), functions: vec![], symbols: vec![] }, transformers: vec![] }
    }
    pub fn add_transformer<T: Transformer + 'a>(&mut self, t: T) {
        self.transformers.push(Box::new(t));
    }
    fn name(&mut self, n: &str) -> String {
        let mut name = n.to_owned();
        for t in &mut self.transformers {
            name = t.transform_function(transform::Function { name: name.as_str().into(), comp_dir: None }).name.into_owned();
        }
        name
    }
    fn function(&mut self, f: &symbolic_debuginfo::Function<'_>) -> Func {
        let lines = f
            .lines
            .iter()
            .map(|l| {
                let dir = l.file.dir_str().into_owned();
                let name = l.file.name_str().into_owned();
                let comp = String::from_utf8_lossy(f.compilation_dir).into_owned();
                let mut s = transform::SourceLocation {
                    file: transform::File { name: name.into(), directory: Some(dir.into()).filter(|d: &std::borrow::Cow<'_, str>| !d.is_empty()), comp_dir: Some(comp.into()).filter(|d: &std::borrow::Cow<'_, str>| !d.is_empty()) },
                    line: l.line as u32,
                };
                for t in &mut self.transformers {
                    let n = t.transform_source_location(s.clone());
                    s = transform::SourceLocation {
                        file: transform::File {
                            name: n.file.name.into_owned().into(),
                            directory: n.file.directory.map(|d| d.into_owned().into()),
                            comp_dir: n.file.comp_dir.map(|d| d.into_owned().into()),
                        },
                        line: n.line,
                    };
                }
                (l.address, l.size, s.file.full(), s.line)
            })
            .collect();
        let inlinees = f.inlinees.iter().map(|i| self.function(i)).collect();
        Func { start: f.address, size: f.size, name: self.name(f.name.as_str()), lines, inlinees }
    }
    pub fn process_object(&mut self, object: &Object<'_>) -> Result<(), Error> {
        let session = object.debug_session().map_err(|e| Error(e.to_string()))?;
        self.data.arch = object.arch().name().into();
        self.functions(&session)?;
        let mut symbols: Vec<_> = object.symbol_map().into_iter().filter_map(|s| Some((s.address, s.size, s.name.as_ref()?.to_string()))).collect();
        symbols.sort();
        for i in 0..symbols.len() {
            let size = match symbols[i].1 {
                0 => symbols.get(i + 1).map_or(u64::MAX, |n| n.0) - symbols[i].0,
                n => n,
            };
            let name = self.name(&symbols[i].2.clone());
            self.data.symbols.push((symbols[i].0, size, name));
        }
        Ok(())
    }
    fn functions(&mut self, session: &ObjectDebugSession<'_>) -> Result<(), Error> {
        for f in session.functions() {
            let f = f.map_err(|e| Error(e.to_string()))?;
            let f = self.function(&f);
            self.data.functions.push(f);
        }
        Ok(())
    }
    pub fn serialize<W: std::io::Write>(self, w: &mut W) -> std::io::Result<()> {
        w.write_all(MAGIC)?;
        serde_json::to_writer(w, &self.data)?;
        Ok(())
    }
}

#[derive(Clone, Debug)]
pub struct SymCache<'d> {
    data: std::sync::Arc<Data>,
    arch: Arch,
    marker: std::marker::PhantomData<&'d [u8]>,
}
impl<'s> AsSelf<'s> for SymCache<'_> {
    type Ref = SymCache<'s>;
    fn as_self(&'s self) -> &'s Self::Ref {
        unsafe { std::mem::transmute(self) }
    }
}
#[derive(Clone, Debug)]
pub struct Function<'d> {
    name: &'d str,
    entry: u64,
}
impl<'d> Function<'d> {
    pub fn name(&self) -> &'d str {
        self.name
    }
    pub fn language(&self) -> Language {
        match self.name.get(..2) {
            Some("_Z") => Language::Cpp,
            Some("_R") => Language::Rust,
            _ => Language::Unknown,
        }
    }
    pub fn entry_pc(&self) -> u32 {
        self.entry as u32
    }
    pub fn name_for_demangling(&self) -> Name<'d> {
        Name::new(self.name, NameMangling::Unknown, self.language())
    }
}
#[derive(Clone, Debug)]
pub struct File<'d>(&'d str);
impl File<'_> {
    pub fn full_path(&self) -> String {
        self.0.into()
    }
}
#[derive(Clone, Debug)]
pub struct SourceLocation<'d> {
    function: Function<'d>,
    file: Option<&'d str>,
    line: u32,
}
impl<'d> SourceLocation<'d> {
    pub fn line(&self) -> u32 {
        self.line
    }
    pub fn file(&self) -> Option<File<'d>> {
        self.file.map(File)
    }
    pub fn function(&self) -> Function<'d> {
        self.function.clone()
    }
}
impl<'d> SymCache<'d> {
    pub fn parse(data: &'d [u8]) -> Result<Self, Error> {
        let json = data.strip_prefix(MAGIC).ok_or_else(|| Error("bad magic".into()))?;
        let data: Data = serde_json::from_slice(json).map_err(|e| Error(e.to_string()))?;
        let arch = data.arch.parse().unwrap_or_default();
        Ok(SymCache { data: data.into(), arch, marker: std::marker::PhantomData })
    }
    pub fn arch(&self) -> Arch {
        self.arch
    }
    pub fn has_line_info(&self) -> bool {
        self.data.functions.iter().any(|f| !f.lines.is_empty())
    }
    /// The innermost function first.
    pub fn lookup(&self, addr: u64) -> std::vec::IntoIter<SourceLocation<'_>> {
        let mut v = vec![];
        if u32::try_from(addr).is_err() {
            return v.into_iter();
        }
        fn into<'a>(f: &'a Func, addr: u64, v: &mut Vec<SourceLocation<'a>>) {
            if let Some(i) = f.inlinees.iter().find(|i| covers(i.start, i.size, addr) && i.lines.iter().any(|l| covers(l.0, l.1.unwrap_or(u64::MAX), addr))) {
                into(i, addr, v);
            }
            let line = f.lines.iter().rev().find(|l| covers(l.0, l.1.unwrap_or(u64::MAX), addr));
            v.push(SourceLocation { function: Function { name: &f.name, entry: f.start }, file: line.map(|l| l.2.as_str()), line: line.map_or(0, |l| l.3) });
        }
        if let Some(f) = self.data.functions.iter().find(|f| covers(f.start, f.size, addr)) {
            into(f, addr, &mut v);
        } else if let Some(s) = self.data.symbols.iter().rev().find(|s| covers(s.0, s.1, addr)) {
            v.push(SourceLocation { function: Function { name: &s.2, entry: s.0 }, file: None, line: 0 });
        }
        v.into_iter()
    }
}
fn covers(start: u64, size: u64, addr: u64) -> bool {
    addr >= start && addr - start < size
}
