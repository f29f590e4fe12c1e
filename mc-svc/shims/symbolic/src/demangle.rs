//! Stand-in for `symbolic-demangle`: the names that start with `_Z` are mangled; `_Zname` stands
//! for `name()`, and with options that keep types `void name()`.
use std::borrow::Cow;
use symbolic_common::{Language, Name, NameMangling};

#[derive(Clone, Copy, Debug)]
pub struct DemangleOptions {
    return_type: bool,
    parameters: bool,
}
impl DemangleOptions {
    pub const fn name_only() -> Self {
        DemangleOptions { return_type: false, parameters: false }
    }
    pub const fn complete() -> Self {
        DemangleOptions { return_type: true, parameters: true }
    }
    pub const fn return_type(mut self, x: bool) -> Self {
        self.return_type = x;
        self
    }
    pub const fn parameters(mut self, x: bool) -> Self {
        self.parameters = x;
        self
    }
}
pub trait Demangle {
    fn detect_language(&self) -> Language;
    fn demangle(&self, opts: DemangleOptions) -> Option<String>;
    fn try_demangle(&self, opts: DemangleOptions) -> Cow<'_, str>;
}
impl Demangle for Name<'_> {
    fn detect_language(&self) -> Language {
        match self.language() {
            Language::Unknown if self.as_str().starts_with("_Z") => Language::Cpp,
            l => l,
        }
    }
    fn demangle(&self, opts: DemangleOptions) -> Option<String> {
        if self.mangling() == NameMangling::Unmangled {
            return Some(self.to_string());
        }
        let rest = self.as_str().strip_prefix("_Z")?;
        if self.detect_language() != Language::Cpp {
            return None;
        }
        let ret = if opts.return_type { "void " } else { "" };
        let par = if opts.parameters { "()" } else { "" };
        Some(format!("{ret}{rest}{par}"))
    }
    fn try_demangle(&self, opts: DemangleOptions) -> Cow<'_, str> {
        match self.demangle(opts) {
            Some(s) => s.into(),
            None => self.as_str().into(),
        }
    }
}
