//! Stand-in for `proguard`: mapping files are kept as text, and looked up by scanning them.
//!
//! A frame whose class is `vmc.Panic` in the mapping makes `remap_frame` panic, standing for any
//! panic below a request.
use std::fmt;
use std::io::Write;

const MAGIC: &[u8] = b"PRGD";

#[derive(Clone, Debug)]
pub struct ProguardMapping<'s> {
    source: &'s [u8],
}

impl<'s> ProguardMapping<'s> {
    pub fn new(source: &'s [u8]) -> Self {
        Self { source }
    }
    pub fn is_valid(&self) -> bool {
        parse(self.source).is_some_and(|classes| !classes.is_empty())
    }
    pub fn has_line_info(&self) -> bool {
        parse(self.source).is_some_and(|classes| {
            classes.iter().flat_map(|c| &c.members).any(|m| m.start.is_some())
        })
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
struct Member<'d> {
    obfuscated: &'d str,
    start: Option<usize>,
    end: usize,
    class: Option<&'d str>,
    method: &'d str,
    parameters: &'d str,
    original_start: usize,
    original_end: Option<usize>,
}

#[derive(Clone, Debug, PartialEq, Eq)]
struct Class<'d> {
    original: &'d str,
    obfuscated: &'d str,
    file: Option<&'d str>,
    members: Vec<Member<'d>>,
}

fn parse(source: &[u8]) -> Option<Vec<Class<'_>>> {
    let source = std::str::from_utf8(source).ok()?;
    let mut classes: Vec<Class> = vec![];
    for line in source.lines() {
        let text = line.trim();
        if let Some(comment) = text.strip_prefix('#') {
            if let (Some(class), Some((_, file))) =
                (classes.last_mut(), comment.split_once("\"fileName\":\""))
            {
                class.file = file.split('"').next();
            }
        } else if let Some(class) = text.strip_suffix(':').filter(|_| !line.starts_with(' ')) {
            let (original, obfuscated) = class.split_once(" -> ")?;
            classes.push(Class { original, obfuscated, file: None, members: vec![] });
        } else if line.starts_with(' ') {
            if let Some(member) = member(text) {
                classes.last_mut()?.members.push(member);
            }
        }
    }
    Some(classes)
}

/// `1:2:type class.method(params):3:4 -> obfuscated`
fn member(text: &str) -> Option<Member<'_>> {
    let (left, obfuscated) = text.split_once(" -> ")?;
    let mut left = left;
    let mut range = None;
    let parts: Vec<_> = left.splitn(3, ':').collect();
    if let [a, b, rest] = parts[..] {
        if let (Ok(a), Ok(b)) = (a.parse(), b.parse()) {
            range = Some((a, b));
            left = rest;
        }
    }
    let (_ty, rest) = left.split_once(' ')?;
    let (name, rest) = rest.split_once('(')?;
    let (parameters, original) = rest.split_once(')')?;
    let mut original = original.split(':').skip(1).map(|n| n.parse::<usize>().ok());
    let original_start = original.next().flatten();
    let original_end = original.next().flatten();
    let (class, method) = match name.rsplit_once('.') {
        Some((class, method)) => (Some(class), method),
        None => (None, name),
    };
    let (start, end) = match range {
        Some((a, b)) => (Some(a), b),
        None => (None, 0),
    };
    Some(Member {
        obfuscated,
        start,
        end,
        class,
        method,
        parameters,
        original_start: original_start.or(start).unwrap_or(0),
        original_end: match original_start {
            Some(_) => original_end,
            None => Some(end),
        },
    })
}

#[derive(Clone, Debug)]
pub struct CacheError;
impl fmt::Display for CacheError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("invalid proguard cache")
    }
}
impl std::error::Error for CacheError {}

#[derive(Clone, Debug)]
pub struct ProguardCache<'data> {
    classes: Vec<Class<'data>>,
}

impl<'data> ProguardCache<'data> {
    pub fn write<W: Write>(mapping: &ProguardMapping, writer: &mut W) -> std::io::Result<()> {
        writer.write_all(MAGIC)?;
        writer.write_all(mapping.source)
    }

    pub fn parse(buf: &'data [u8]) -> Result<Self, CacheError> {
        let source = buf.strip_prefix(MAGIC).ok_or(CacheError)?;
        Ok(Self { classes: parse(source).ok_or(CacheError)? })
    }

    pub fn test(&self) {}

    fn class(&self, class: &str) -> Option<&Class<'data>> {
        self.classes.iter().find(|c| c.obfuscated == class)
    }

    pub fn remap_class(&self, class: &str) -> Option<&'data str> {
        Some(self.class(class)?.original)
    }

    pub fn remap_method(&self, class: &str, method: &str) -> Option<(&'data str, &'data str)> {
        let class = self.class(class)?;
        let mut names = class.members.iter().filter(|m| m.obfuscated == method).map(|m| m.method);
        let name = names.next()?;
        names.all(|other| other == name).then_some((class.original, name))
    }

    pub fn remap_frame<'r>(&'r self, frame: &StackFrame<'data>) -> std::vec::IntoIter<StackFrame<'data>> {
        let mut frames = vec![];
        if let Some(class) = self.class(frame.class) {
            assert!(class.original != "vmc.Panic", "panic asked for by the mapping");
            for m in class.members.iter().filter(|m| m.obfuscated == frame.method) {
                let line = match frame.parameters {
                    Some(parameters) if m.parameters != parameters => continue,
                    Some(_) => 0,
                    None => {
                        let start = m.start.unwrap_or(0);
                        if m.end > 0 && (frame.line < start || frame.line > m.end) {
                            continue;
                        }
                        if m.original_end.is_none_or(|end| end == m.original_start) {
                            m.original_start
                        } else {
                            m.original_start + frame.line - start
                        }
                    }
                };
                frames.push(StackFrame {
                    class: m.class.unwrap_or(class.original),
                    method: m.method,
                    line,
                    file: match m.class {
                        Some(_) => None,
                        None => class.file.or(frame.file),
                    },
                    parameters: frame.parameters,
                });
            }
        }
        frames.into_iter()
    }

    pub fn deobfuscate_signature(&self, signature: &str) -> Option<DeobfuscatedSignature> {
        let (parameters, result) = signature.strip_prefix('(')?.split_once(')')?;
        let mut rest = parameters;
        let mut types = vec![];
        while !rest.is_empty() {
            let (ty, tail) = self.ty(rest)?;
            types.push(ty);
            rest = tail;
        }
        let (result, tail) = self.ty(result)?;
        tail.is_empty().then_some(DeobfuscatedSignature { parameters: types, result })
    }

    fn ty<'t>(&self, text: &'t str) -> Option<(String, &'t str)> {
        let (first, rest) = text.split_at_checked(1)?;
        let name = match first {
            "V" => "void",
            "I" => "int",
            "Z" => "boolean",
            "J" => "long",
            "[" => {
                let (ty, rest) = self.ty(rest)?;
                return Some((format!("{ty}[]"), rest));
            }
            "L" => {
                let (class, rest) = rest.split_once(';')?;
                let class = class.replace('/', ".");
                return Some((self.remap_class(&class).map(String::from).unwrap_or(class), rest));
            }
            _ => return None,
        };
        Some((name.to_owned(), rest))
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct DeobfuscatedSignature {
    parameters: Vec<String>,
    result: String,
}
impl DeobfuscatedSignature {
    pub fn return_type(&self) -> &str {
        &self.result
    }
    pub fn parameters_types(&self) -> impl Iterator<Item = &str> {
        self.parameters.iter().map(String::as_str)
    }
    pub fn format_signature(&self) -> String {
        let mut signature = format!("({})", self.parameters.join(", "));
        if !self.result.is_empty() && self.result != "void" {
            signature.push_str(": ");
            signature.push_str(&self.result);
        }
        signature
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct StackFrame<'s> {
    class: &'s str,
    method: &'s str,
    line: usize,
    file: Option<&'s str>,
    parameters: Option<&'s str>,
}
impl<'s> StackFrame<'s> {
    pub fn new(class: &'s str, method: &'s str, line: usize) -> Self {
        Self { class, method, line, file: None, parameters: None }
    }
    pub fn with_file(class: &'s str, method: &'s str, line: usize, file: &'s str) -> Self {
        Self { class, method, line, file: Some(file), parameters: None }
    }
    pub fn with_parameters(class: &'s str, method: &'s str, parameters: &'s str) -> Self {
        Self { class, method, line: 0, file: None, parameters: Some(parameters) }
    }
    pub fn class(&self) -> &'s str {
        self.class
    }
    pub fn method(&self) -> &'s str {
        self.method
    }
    pub fn file(&self) -> Option<&'s str> {
        self.file
    }
    pub fn line(&self) -> usize {
        self.line
    }
    pub fn parameters(&self) -> Option<&'s str> {
        self.parameters
    }
}
