// C entry points for the public Rust functions that the C interface of fast64 does not export
extern crate fast64;
use fast64::FAST;
#[no_mangle] pub extern "C" fn slow64(t: *const FAST<u64>, k: u64, a: *mut u64, b: *mut u64) { unsafe { let r = (*t).slow_lookup(k); *a = r.0; *b = r.1; } }
#[no_mangle] pub extern "C" fn slow32(t: *const FAST<u32>, k: u32, a: *mut u32, b: *mut u32) { unsafe { let r = (*t).slow_lookup(k); *a = r.0; *b = r.1; } }
#[no_mangle] pub extern "C" fn keep() -> usize { fast64::create_fast64 as usize ^ fast64::lookup_fast64 as usize ^ fast64::destroy_fast64 as usize ^ fast64::size_fast64 as usize ^ fast64::create_fast32 as usize ^ fast64::lookup_fast32 as usize ^ fast64::destroy_fast32 as usize ^ fast64::size_fast32 as usize }
