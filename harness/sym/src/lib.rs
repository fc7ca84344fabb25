//! Symbolic build of the harnesses: the engine interprets the LLVM IR of this crate.
#![allow(dead_code, unused_imports, unused_macros)]
#[macro_use]
#[path = "../../props/macros.rs"]
mod macros;
pub mod api {
    mod ext {
        extern "C" {
            pub fn dsym_sym(n: *const u8, l: usize, bits: u32, lo: u64, hi: u64) -> u64;
            pub fn dsym_assume(c: bool);
            pub fn dsym_check(c: bool, n: *const u8, l: usize);
            pub fn dsym_reach(n: *const u8, l: usize);
            pub fn dsym_concretize(v: u64) -> u64;
            pub fn dsym_expect_panic(on: u64, n: *const u8, l: usize);
            pub fn dsym_trace(v: u64);
            pub fn dsym_fork(c: bool) -> bool;
            pub fn dsym_param(n: *const u8, l: usize, d: u64) -> u64;
            pub fn dsym_is_sym() -> bool;
            pub fn dsym_stop();
        }
    }
    use ext::*;
    #[inline(always)] pub fn sym(n: &str, bits: u32, lo: u64, hi: u64) -> u64 { unsafe { dsym_sym(n.as_ptr(), n.len(), bits, lo, hi) } }
    #[inline(always)] pub fn assume(c: bool) { unsafe { dsym_assume(c) } }
    #[inline(always)] pub fn check(c: bool, n: &str) { unsafe { dsym_check(c, n.as_ptr(), n.len()) } }
    #[inline(always)] pub fn reach(n: &str) { unsafe { dsym_reach(n.as_ptr(), n.len()) } }
    #[inline(always)] pub fn concretize(v: u64) -> u64 { unsafe { dsym_concretize(v) } }
    #[inline(always)] pub fn expect_panic(n: &str) { unsafe { dsym_expect_panic(1, n.as_ptr(), n.len()) } }
    #[inline(always)] pub fn no_panic() { unsafe { dsym_expect_panic(0, b"".as_ptr(), 0) } }
    #[inline(always)] pub fn trace(v: u64) { unsafe { dsym_trace(v) } }
    #[inline(always)] pub fn fork(c: bool) -> bool { unsafe { dsym_fork(c) } }
    #[inline(always)] pub fn param(n: &str, d: u64) -> u64 { unsafe { dsym_param(n.as_ptr(), n.len(), d) } }
    #[inline(always)] pub fn stop() { unsafe { dsym_stop() } }
}
#[path = "../../props/util.rs"]
pub mod util;
pub mod prop {
    use crate::api::*;
    use crate::util::*;
    include!(env!("DSYM_PROP"));
}
