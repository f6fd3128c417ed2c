//! Stand-in for jemalloc-sys: only what level_db_rust names.
use std::os::raw::{c_char, c_void};
pub type malloc_cb = Option<unsafe extern "C" fn(*mut c_void, *const c_char)>;
pub unsafe fn malloc_stats_print(_cb: Option<extern "C" fn(*mut c_void, *const c_char)>, _op: *mut c_void, _opts: *const c_char) {}
