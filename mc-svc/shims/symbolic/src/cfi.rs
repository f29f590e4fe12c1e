//! Stand-in for `symbolic-cfi`: the `MODULE` and `STACK` lines of Breakpad files, nothing for
//! other objects.
use symbolic_common::ByteView;
use symbolic_debuginfo::Object;

pub const CFICACHE_LATEST_VERSION: u32 = 2;
const MAGIC: &[u8] = b"CFIX2\n";

#[derive(Debug, thiserror::Error)]
#[error("{0}")]
pub struct CfiError(&'static str);

pub struct CfiCache<'a>(ByteView<'a>);
impl CfiCache<'static> {
    pub fn from_object(object: &Object<'_>) -> Result<Self, CfiError> {
        let mut out = vec![];
        if object.has_unwind_info() {
            let data = std::str::from_utf8(object.data()).map_err(|_| CfiError("not a text"))?;
            for l in data.lines().filter(|l| l.starts_with("MODULE ") || l.starts_with("STACK CFI ")) {
                if l.starts_with("STACK CFI INIT ") && rule(l).is_none() {
                    return Err(CfiError("bad rule"));
                }
                out.extend(l.as_bytes());
                out.push(b'\n');
            }
        }
        let mut all = MAGIC.to_vec();
        all.extend(out);
        Ok(CfiCache(ByteView::from_vec(all)))
    }
}
/// Start and length of the range of a rule.
pub fn rule(l: &str) -> Option<(u64, u64)> {
    let mut w = l.strip_prefix("STACK CFI INIT ")?.split(' ');
    let n = |s: Option<&str>| u64::from_str_radix(s?, 16).ok();
    Some((n(w.next())?, n(w.next())?))
}
impl<'a> CfiCache<'a> {
    pub fn from_bytes(bytes: ByteView<'a>) -> Result<Self, CfiError> {
        if bytes.is_empty() || bytes.starts_with(MAGIC) {
            Ok(CfiCache(bytes))
        } else {
            Err(CfiError("bad magic"))
        }
    }
    pub fn version(&self) -> u32 {
        CFICACHE_LATEST_VERSION
    }
    pub fn is_latest(&self) -> bool {
        true
    }
    pub fn as_slice(&self) -> &[u8] {
        self.0.get(MAGIC.len()..).unwrap_or_default()
    }
    pub fn write_to<W: std::io::Write>(&self, mut w: W) -> std::io::Result<()> {
        w.write_all(&self.0)
    }
}
