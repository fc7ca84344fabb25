use crate::api::*;
pub fn u(n: &str, lo: u64, hi: u64) -> u64 { sym(n, (64 - hi.leading_zeros()).max(1), lo, hi) }
pub fn u32v(n: &str, lo: u32, hi: u32) -> u32 { u(n, lo as u64, hi as u64) as u32 }
pub fn i(n: &str, lo: i64, hi: i64) -> i64 { lo.wrapping_add(u(n, 0, hi.wrapping_sub(lo) as u64) as i64) }
pub fn boolean(n: &str) -> bool { sym(n, 1, 0, 1) != 0 }
pub fn pick(n: &str, lo: u64, hi: u64) -> u64 { concretize(u(n, lo, hi)) }
