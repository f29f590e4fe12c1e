//! Stand-in for the `symbolic` umbrella crate: common, debuginfo and ppdb are the real crates,
//! the cache formats that are not installed are replaced by small textual ones.
pub use symbolic_common as common;
pub use symbolic_debuginfo as debuginfo;
pub use symbolic_ppdb as ppdb;

pub mod cfi;
pub mod demangle;
pub mod il2cpp;
pub mod sourcemapcache;
pub mod symcache;
