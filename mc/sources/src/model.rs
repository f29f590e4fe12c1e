//! Reference model of the documented naming schemes (docs/advanced/symbol-server-compatibility.md),
//! written independently of the implementation.  `None` = the scheme has no location.
use symbolicator_sources::*;

/// A set of acceptable answers (documentation leaves a few corner cases open).
pub struct Expected {
    /// Locations in the order in which they must be tried; each element lists the accepted
    /// spellings of that location.
    pub order: Vec<Vec<String>>,
}

/// The last path component as recorded by either a Windows or a Unix system.
pub fn basename(p: &str) -> Option<String> {
    let t = p.trim_end_matches(['/', '\\']);
    let b = match t.rfind(['/', '\\']) {
        Some(i) => &t[i + 1..],
        None => t,
    };
    if b.is_empty() || b == "." || b == ".." {
        return None;
    }
    if b.len() > 255 || b.chars().any(|c| c.is_control()) {
        return None;
    }
    Some(b.to_string())
}

pub struct Id {
    pub ty: ObjectType,
    pub code_id: Option<String>,
    pub code: Option<String>,
    pub debug: Option<String>,
    /// signature (32 hex digits, lowercase), age
    pub sig: Option<(String, u32)>,
}

impl Id {
    pub fn of(o: &ObjectId) -> Id {
        Id {
            ty: o.object_type,
            code_id: o.code_id.as_ref().map(|c| c.as_str().to_string()),
            code: o.code_file.as_deref().and_then(basename),
            debug: o.debug_file.as_deref().and_then(basename),
            sig: o.debug_id.map(|d| {
                let mut s = String::new();
                for b in d.uuid().as_bytes() {
                    s.push_str(&format!("{b:02x}"));
                }
                (s, d.appendix())
            }),
        }
    }

    /// 32 lowercase hex digits of the image UUID.
    fn mach(&self) -> Option<String> {
        match &self.code_id {
            // only a 128 bit code id is a UUID
            Some(c) if c.len() == 32 => Some(c.clone()),
            Some(_) => None,
            None => self.sig.clone().map(|s| s.0),
        }
    }
    fn gdb(&self) -> Option<String> {
        let c = self.code_id.as_ref()?;
        if c.len() < 2 {
            return None;
        }
        let (a, b) = c.split_at(2);
        Some(format!("{a}/{b}"))
    }
    fn lldb(&self) -> Option<String> {
        let u = self.mach()?.to_uppercase();
        Some(format!("{}/{}/{}/{}/{}/{}", &u[..4], &u[4..8], &u[8..12], &u[12..16], &u[16..20], &u[20..]))
    }
    fn pdb(&self, ssqp: bool) -> Option<String> {
        let mut name = self.debug.clone()?;
        let (sig, age) = self.sig.clone()?;
        let age = if self.ty == ObjectType::PeDotnet { 0xffff_ffff } else { age };
        let id = if ssqp {
            name = name.to_lowercase();
            format!("{sig}{age:X}")
        } else {
            format!("{}{age:x}", sig.to_uppercase())
        };
        Some(format!("{name}/{id}/{name}"))
    }
    fn pe(&self, ssqp: bool) -> Option<String> {
        let mut name = self.code.clone()?;
        let c = self.code_id.clone()?;
        let id = if ssqp {
            name = name.to_lowercase();
            c
        } else {
            if c.len() < 8 {
                return None;
            }
            let (ts, size) = c.split_at(8);
            format!("{}{}", ts.to_uppercase(), size.to_lowercase())
        };
        Some(format!("{name}/{id}/{name}"))
    }
    /// `<debug_name>/<breakpad id>/` and the accepted stems of the last component.
    fn breakpad(&self) -> Option<(String, Vec<String>)> {
        if self.ty == ObjectType::Wasm {
            return None;
        }
        let name = self.debug.clone()?;
        let (sig, age) = self.sig.clone()?;
        let dir = format!("{name}/{}{age:x}/", sig.to_uppercase());
        let mut stems = vec![];
        let stem = [".exe", ".dll", ".pdb"].iter().find_map(|e| name.strip_suffix(e));
        match stem {
            Some(s) => {
                stems.push(s.to_string());
                // The documentation only replaces extensions on Windows.
                if !matches!(self.ty, ObjectType::Pe | ObjectType::PeDotnet) {
                    stems.push(name.clone());
                }
            }
            None => {
                stems.push(name.clone());
                // Other casings of the extension are not specified.
                let l = name.to_ascii_lowercase();
                if [".exe", ".dll", ".pdb"].iter().any(|e| l.ends_with(e)) && name.is_char_boundary(name.len() - 4) {
                    stems.push(name[..name.len() - 4].to_string());
                }
            }
        }
        Some((dir, stems))
    }

    fn cut_ext(path: &str) -> String {
        match path.rfind('.') {
            Some(i) => path[..i].to_string(),
            None => path.to_string(),
        }
    }

    fn native(&self, ft: FileType) -> Vec<Vec<String>> {
        let one = |o: Option<String>| o.into_iter().map(|x| vec![x]).collect::<Vec<_>>();
        match ft {
            FileType::ElfCode | FileType::WasmCode => one(self.gdb()),
            FileType::ElfDebug | FileType::WasmDebug => one(self.gdb().map(|p| p + ".debug")),
            FileType::MachDebug => one(self.lldb()),
            FileType::MachCode => one(self.lldb().map(|p| p + ".app")),
            FileType::Pdb | FileType::PortablePdb => one(self.pdb(false)),
            FileType::Pe => one(self.pe(false)),
            FileType::Breakpad => self
                .breakpad()
                .map(|(d, stems)| stems.iter().map(|s| format!("{d}{s}.sym")).collect())
                .into_iter()
                .collect(),
            FileType::SourceBundle => {
                let base = match self.ty {
                    ObjectType::Elf | ObjectType::Wasm => self.gdb(),
                    ObjectType::Macho => self.lldb(),
                    ObjectType::Pe | ObjectType::PeDotnet => self.pdb(false).map(|p| Id::cut_ext(&p)),
                    ObjectType::Unknown => None,
                };
                let Some(base) = base else { return vec![] };
                let primary = base + ".src.zip";
                let mut r = vec![vec![primary.clone()]];
                if let Some((d, stems)) = self.breakpad() {
                    let alt: Vec<String> = stems.iter().map(|s| format!("{d}{s}.src.zip")).collect();
                    if alt[0] != primary {
                        r.push(alt);
                    }
                }
                r
            }
            FileType::UuidMap | FileType::BcSymbolMap | FileType::Il2cpp | FileType::Proguard => vec![],
        }
    }

    fn symstore(&self, ft: FileType, ssqp: bool) -> Option<String> {
        let low = |s: String| if ssqp { s.to_lowercase() } else { s };
        match ft {
            FileType::ElfCode => {
                let n = low(self.code.clone()?);
                Some(format!("{n}/elf-buildid-{}/{n}", self.code_id.clone()?))
            }
            FileType::ElfDebug => Some(format!("_.debug/elf-buildid-sym-{}/_.debug", self.code_id.clone()?)),
            FileType::MachCode => {
                let n = low(self.code.clone()?);
                Some(format!("{n}/mach-uuid-{}/{n}", self.mach()?))
            }
            FileType::MachDebug => Some(format!("_.dwarf/mach-uuid-sym-{}/_.dwarf", self.mach()?)),
            FileType::Pdb | FileType::PortablePdb => self.pdb(ssqp),
            FileType::Pe => self.pe(ssqp),
            FileType::SourceBundle if self.ty == ObjectType::Pe => {
                self.pdb(ssqp).map(|p| Id::cut_ext(&p) + ".src.zip")
            }
            _ => None,
        }
    }

    fn unified_id(&self, ft: FileType) -> Option<String> {
        match ft {
            FileType::Pe | FileType::Pdb | FileType::PortablePdb => {
                self.sig.clone().map(|(s, a)| format!("{s}{a:x}"))
            }
            FileType::ElfCode | FileType::ElfDebug => self.code_id.clone(),
            FileType::MachCode
            | FileType::MachDebug
            | FileType::WasmCode
            | FileType::WasmDebug
            | FileType::UuidMap
            | FileType::BcSymbolMap => match &self.code_id {
                Some(c) => Some(c.clone()),
                None => self.sig.clone().map(|s| s.0),
            },
            FileType::SourceBundle | FileType::Breakpad | FileType::Il2cpp => match self.ty {
                ObjectType::Elf => self.unified_id(FileType::ElfCode),
                ObjectType::Macho => self.unified_id(FileType::MachCode),
                ObjectType::Wasm => self.unified_id(FileType::WasmCode),
                ObjectType::Pe | ObjectType::PeDotnet => self.unified_id(FileType::Pe),
                ObjectType::Unknown => None,
            },
            FileType::Proguard => None,
        }
    }

    /// Locations in the order they have to be tried.
    pub fn locations(&self, layout: DirectoryLayoutType, casing: FilenameCasing, ft: FileType) -> Expected {
        let base: Vec<Vec<String>> = match layout {
            DirectoryLayoutType::Native => self.native(ft),
            DirectoryLayoutType::Symstore => self.symstore(ft, false).map(|p| vec![p]).into_iter().collect(),
            DirectoryLayoutType::Ssqp => self.symstore(ft, true).map(|p| vec![p]).into_iter().collect(),
            DirectoryLayoutType::SymstoreIndex2 => self
                .symstore(ft, false)
                .map(|p| {
                    let mut cs = p.chars();
                    let (a, b) = (cs.next().unwrap(), cs.next().unwrap());
                    // A prefix cannot end in a dot or contain the separator.
                    if b == '/' || b == '.' {
                        vec![format!("{a}/{p}")]
                    } else if a.is_ascii() && b.is_ascii() {
                        vec![format!("{a}{b}/{p}")]
                    } else {
                        // "first two characters" of non-ASCII names: characters or bytes
                        vec![format!("{a}{b}/{p}"), format!("{a}/{p}"), p.clone()]
                    }
                })
                .into_iter()
                .collect(),
            DirectoryLayoutType::Debuginfod => match (ft, &self.code_id) {
                (FileType::ElfCode, Some(c)) if !c.is_empty() => vec![vec![format!("{c}/executable")]],
                (FileType::ElfDebug, Some(c)) if !c.is_empty() => vec![vec![format!("{c}/debuginfo")]],
                _ => vec![],
            },
            DirectoryLayoutType::Unified => {
                let suffix = match ft {
                    FileType::Pe | FileType::MachCode | FileType::ElfCode | FileType::WasmCode => "executable",
                    FileType::Pdb
                    | FileType::MachDebug
                    | FileType::ElfDebug
                    | FileType::WasmDebug
                    | FileType::PortablePdb => "debuginfo",
                    FileType::Breakpad => "breakpad",
                    FileType::SourceBundle => "sourcebundle",
                    FileType::UuidMap => "uuidmap",
                    FileType::BcSymbolMap => "bcsymbolmap",
                    FileType::Il2cpp => "il2cpp",
                    FileType::Proguard => "proguard",
                };
                match self.unified_id(ft) {
                    Some(id) if id.len() >= 2 => vec![vec![format!("{}/{}/{suffix}", &id[..2], &id[2..])]],
                    _ => vec![],
                }
            }
            DirectoryLayoutType::SlashSymbols => match (&self.code, &self.code_id) {
                (Some(n), Some(c)) => vec![vec![format!("{n}/{c}/symbols")]],
                _ => vec![],
            },
        };
        let mut order = vec![];
        for alts in base {
            let alts: Vec<String> = alts
                .into_iter()
                .map(|p| match casing {
                    FilenameCasing::Default => p,
                    FilenameCasing::Lowercase => p.to_ascii_lowercase(),
                    FilenameCasing::Uppercase => p.to_ascii_uppercase(),
                })
                .collect();
            order.push(alts.clone());
            if matches!(ft, FileType::Pe | FileType::Pdb) {
                order.push(
                    alts.iter()
                        .map(|p| {
                            let mut c: Vec<char> = p.chars().collect();
                            c.pop();
                            c.push('_');
                            c.into_iter().collect()
                        })
                        .collect(),
                );
            }
        }
        Expected { order }
    }
}

impl Expected {
    pub fn matches(&self, got: &[String]) -> bool {
        got.len() == self.order.len() && got.iter().zip(&self.order).all(|(g, alts)| alts.contains(g))
    }
}

/// Case-insensitive glob matching of `*`, `?`, `[...]` where `*` and `?` also match separators.
pub fn glob(pat: &str, s: &str) -> bool {
    fn go(p: &[char], s: &[char]) -> bool {
        match p.first() {
            None => s.is_empty(),
            Some('*') => (0..=s.len()).any(|i| go(&p[1..], &s[i..])),
            Some('?') => !s.is_empty() && go(&p[1..], &s[1..]),
            Some('[') => {
                let neg = p.get(1) == Some(&'!');
                let start = if neg { 2 } else { 1 };
                let end = start + 1 + p[start + 1..].iter().position(|c| *c == ']').expect("closed class");
                let Some(c) = s.first() else { return false };
                let set = &p[start..end];
                let mut hit = false;
                let mut i = 0;
                while i < set.len() {
                    if i + 2 < set.len() && set[i + 1] == '-' {
                        let (a, b) = (set[i], set[i + 2]);
                        hit |= (a..=b).contains(&c.to_ascii_lowercase()) || (a..=b).contains(&c.to_ascii_uppercase());
                        i += 3;
                    } else {
                        hit |= set[i].eq_ignore_ascii_case(c);
                        i += 1;
                    }
                }
                hit != neg && go(&p[end + 1..], &s[1..])
            }
            Some(c) => s.first().is_some_and(|x| x.eq_ignore_ascii_case(c)) && go(&p[1..], &s[1..]),
        }
    }
    let p: Vec<char> = pat.chars().collect();
    let s: Vec<char> = s.chars().collect();
    go(&p, &s)
}
