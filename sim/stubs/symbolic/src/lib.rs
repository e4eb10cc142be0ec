//! Stand-in for the `symbolic` facade: real `symbolic-common` and `symbolic-debuginfo`.
pub use symbolic_common as common;
pub use symbolic_debuginfo as debuginfo;
pub mod cfi { pub const CFICACHE_LATEST_VERSION: u32 = 2; }
pub mod symcache { pub const SYMCACHE_VERSION: u32 = 8; }
pub mod sourcemapcache;
