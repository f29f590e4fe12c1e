//! Stand-in for `symbolic-sourcemapcache`: source maps are decoded, the cache is their JSON.
//! Scopes are not computed from the source; they are listed in the member `x_scopes` of the map:
//! `[[line, column, name or null], ...]` of the generated file, each up to the next.
use serde::{Deserialize, Serialize};
use std::io::Write;

#[derive(Debug, thiserror::Error)]
#[error("{0}")]
pub struct Error(String);
pub type SourceMapCacheError = Error;
pub type SourceMapCacheWriterError = Error;

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct SourcePosition {
    pub line: u32,
    pub column: u32,
}
impl SourcePosition {
    pub fn new(line: u32, column: u32) -> Self {
        SourcePosition { line, column }
    }
}
#[derive(Debug, PartialEq, Eq, Clone, Copy)]
pub enum ScopeLookupResult<'a> {
    NamedScope(&'a str),
    AnonymousScope,
    Unknown,
}

#[derive(Deserialize)]
struct Raw {
    version: Option<u32>,
    #[serde(default)]
    sources: Vec<Option<String>>,
    #[serde(default, rename = "sourcesContent")]
    contents: Vec<Option<String>>,
    #[serde(default)]
    names: Vec<String>,
    #[serde(default)]
    mappings: String,
    #[serde(default, rename = "sourceRoot")]
    root: Option<String>,
    #[serde(default)]
    x_scopes: Vec<(u32, u32, Option<String>)>,
}
#[derive(Serialize, Deserialize, Debug, Clone)]
struct Token {
    at: (u32, u32),
    line: u32,
    column: u32,
    file: Option<usize>,
    name: Option<usize>,
}
#[derive(Serialize, Deserialize, Debug, Clone)]
struct Data {
    source: u64,
    tokens: Vec<Token>,
    files: Vec<(Option<String>, Option<String>)>,
    names: Vec<String>,
    scopes: Vec<(u32, u32, Option<String>)>,
}
const MAGIC: &[u8] = b"SMC1";

pub struct SourceMapCacheWriter(Data);
impl SourceMapCacheWriter {
    pub fn new(source: &str, sourcemap: &str) -> Result<Self, Error> {
        let raw: Raw = serde_json::from_str(sourcemap).map_err(|e| Error(e.to_string()))?;
        if raw.version.is_some_and(|v| v != 3) {
            return Err(Error("version".into()));
        }
        let mut tokens = vec![];
        let (mut file, mut line, mut column, mut name) = (0i64, 0i64, 0i64, 0i64);
        for (dst, l) in raw.mappings.split(';').enumerate() {
            let mut at = 0i64;
            for seg in l.split(',').filter(|s| !s.is_empty()) {
                let v = vlq(seg).ok_or_else(|| Error("bad mapping".into()))?;
                at += v[0];
                let mut t = Token { at: (dst as u32, at as u32), line: 0, column: 0, file: None, name: None };
                if v.len() >= 4 {
                    file += v[1];
                    line += v[2];
                    column += v[3];
                    if file < 0 || file as usize >= raw.sources.len() {
                        return Err(Error("bad source".into()));
                    }
                    (t.line, t.column, t.file) = (line as u32, column as u32, Some(file as usize));
                    if v.len() >= 5 {
                        name += v[4];
                        if name < 0 || name as usize >= raw.names.len() {
                            return Err(Error("bad name".into()));
                        }
                        t.name = Some(name as usize);
                    }
                }
                tokens.push(t);
            }
        }
        tokens.sort_by_key(|t| t.at);
        let root = raw.root.unwrap_or_default();
        let files = raw
            .sources
            .iter()
            .enumerate()
            .map(|(i, s)| {
                let name = s.as_ref().map(|s| if root.is_empty() || s.starts_with('/') || s.contains("://") { s.clone() } else { format!("{}/{s}", root.trim_end_matches('/')) });
                (name, raw.contents.get(i).cloned().flatten())
            })
            .collect();
        let source = source.bytes().fold(0xcbf29ce484222325u64, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3));
        Ok(SourceMapCacheWriter(Data { source, tokens, files, names: raw.names, scopes: raw.x_scopes }))
    }
    pub fn serialize<W: Write>(self, w: &mut W) -> std::io::Result<()> {
        w.write_all(MAGIC)?;
        w.write_all(&serde_json::to_vec(&self.0)?)
    }
}
fn vlq(s: &str) -> Option<Vec<i64>> {
    let mut out = vec![];
    let (mut acc, mut shift) = (0i64, 0);
    for c in s.bytes() {
        let d = match c {
            b'A'..=b'Z' => c - b'A',
            b'a'..=b'z' => c - b'a' + 26,
            b'0'..=b'9' => c - b'0' + 52,
            b'+' => 62,
            b'/' => 63,
            _ => return None,
        } as i64;
        acc |= (d & 31) << shift;
        shift += 5;
        if d & 32 == 0 {
            out.push(if acc & 1 == 1 { -(acc >> 1) } else { acc >> 1 });
            (acc, shift) = (0, 0);
        } else if shift > 50 {
            return None;
        }
    }
    (shift == 0 && matches!(out.len(), 1 | 4 | 5)).then_some(out)
}

#[derive(Debug, Clone)]
pub struct SourceMapCache<'a>(Data, std::marker::PhantomData<&'a [u8]>);
impl<'slf, 'a: 'slf> crate::common::AsSelf<'slf> for SourceMapCache<'a> {
    type Ref = SourceMapCache<'slf>;
    fn as_self(&'slf self) -> &'slf Self::Ref {
        self
    }
}
impl<'a> SourceMapCache<'a> {
    pub fn parse(buf: &'a [u8]) -> Result<Self, Error> {
        let b = buf.strip_prefix(MAGIC).ok_or_else(|| Error("magic".into()))?;
        serde_json::from_slice(b).map(|d| SourceMapCache(d, Default::default())).map_err(|e| Error(e.to_string()))
    }
    /// The source that the cache was made for.
    pub fn source_hash(&self) -> u64 {
        self.0.source
    }
    pub fn lookup(&self, p: SourcePosition) -> Option<SourceLocation<'_>> {
        let i = self.0.tokens.partition_point(|t| t.at <= (p.line, p.column));
        let t = self.0.tokens[..i].last()?;
        let j = self.0.scopes.iter().rposition(|s| (s.0, s.1) <= (p.line, p.column));
        Some(SourceLocation { data: &self.0, token: t, scope: j.map(|j| &self.0.scopes[j]) })
    }
    pub fn files(&self) -> impl Iterator<Item = File<'_>> {
        self.0.files.iter().map(File)
    }
}
#[derive(Clone, Copy)]
pub struct File<'a>(&'a (Option<String>, Option<String>));
impl<'a> File<'a> {
    pub fn name(&self) -> Option<&'a str> {
        self.0 .0.as_deref()
    }
    pub fn source(&self) -> Option<&'a str> {
        self.0 .1.as_deref()
    }
    pub fn line(&self, no: usize) -> Option<&'a str> {
        self.source()?.lines().nth(no)
    }
}
pub struct SourceLocation<'a> {
    data: &'a Data,
    token: &'a Token,
    scope: Option<&'a (u32, u32, Option<String>)>,
}
impl<'a> SourceLocation<'a> {
    pub fn file(&self) -> Option<File<'a>> {
        self.token.file.map(|f| File(&self.data.files[f]))
    }
    pub fn file_name(&self) -> Option<&'a str> {
        self.file().and_then(|f| f.name())
    }
    pub fn file_source(&self) -> Option<&'a str> {
        self.file().and_then(|f| f.source())
    }
    pub fn line(&self) -> u32 {
        self.token.line
    }
    pub fn column(&self) -> u32 {
        self.token.column
    }
    pub fn line_contents(&self) -> Option<&'a str> {
        self.file().and_then(|f| f.line(self.token.line as usize))
    }
    pub fn name(&self) -> Option<&'a str> {
        self.token.name.map(|n| self.data.names[n].as_str())
    }
    pub fn scope(&self) -> ScopeLookupResult<'a> {
        match self.scope {
            Some((_, _, Some(n))) => ScopeLookupResult::NamedScope(n),
            Some((_, _, None)) => ScopeLookupResult::AnonymousScope,
            None => ScopeLookupResult::Unknown,
        }
    }
}
