//! Stand-in for `symbolic-il2cpp`: the mapping is JSON, `{generated: {source: {line: line}}}`.
use crate::symcache::transform::{File, Function, SourceLocation, Transformer};
use std::collections::BTreeMap;

#[derive(Clone, Debug)]
pub struct LineMapping(BTreeMap<String, BTreeMap<String, BTreeMap<u32, u32>>>);
impl LineMapping {
    pub fn parse(data: &[u8]) -> Option<Self> {
        serde_json::from_slice(data).ok().map(LineMapping)
    }
    pub fn lookup(&self, file: &str, line: u32) -> Option<(&str, u32)> {
        self.0.get(file)?.iter().find_map(|(f, lines)| Some((f.as_str(), *lines.range(..=line).next_back()?.1)))
    }
}
impl Transformer for LineMapping {
    fn transform_function<'f>(&'f mut self, f: Function<'f>) -> Function<'f> {
        f
    }
    fn transform_source_location<'f>(&'f mut self, mut l: SourceLocation<'f>) -> SourceLocation<'f> {
        let full = l.file.full();
        if let Some((file, line)) = self.lookup(&full, l.line) {
            l.file = File { name: file.to_owned().into(), directory: None, comp_dir: None };
            l.line = line;
        }
        l
    }
}
