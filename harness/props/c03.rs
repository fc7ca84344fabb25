use demixer::bit::Bit;
use demixer::coding::FinalProbability;
use demixer::fixed_point::*;
use demixer::fixed_point::types::*;
use demixer::lut::LookUpTables;

struct U32<const B: u8>(u32);
struct U64<const B: u8>(u64);
impl<const B: u8> FixedPoint for U32<B> { type Raw = u32; fn raw(&self) -> u32 { self.0 } fn new_unchecked(r: u32) -> Self { U32(r) } const FRACTIONAL_BITS: u8 = B; }
impl<const B: u8> FixedPoint for U64<B> { type Raw = u64; fn raw(&self) -> u64 { self.0 } fn new_unchecked(r: u64) -> Self { U64(r) } const FRACTIONAL_BITS: u8 = B; }

jobs! {
// one path per cell [c, c+1) * 2^-11 of the significand: the value inside the cell is symbolic
fn significand_cells() {
    let luts = LookUpTables::new();
    let lut = luts.log2_lut();
    let idx = pick("cell", 0, 2047) as u32;
    let x = ((2048 + idx) << 20) + u32v("low", 0, (1 << 20) - 1);
    let y = U32::<31>(x).log2(lut).raw();
    trace(y as u64);
    let lo = ((2048 + idx) as f64 / 2048.0).log2() * 2048.0;
    let hi = ((2049 + idx) as f64 / 2048.0).log2() * 2048.0;
    // for every value v of the cell: log2(v) - 2 < result <= log2(v) + 1/2 in units of 2^-11
    let least = (hi - 1.999).ceil() as i32; let most = (lo + 0.5001).floor() as i32;
    check(y >= least && y <= most, "log2 is at most half a unit above and less than two units below the exact logarithm");
    if idx == 0 { check(y == 0, "log2(1) is 0"); }
    // the next cell never has a smaller logarithm
    let next = if idx == 2047 { 2048 } else { U32::<31>((2049 + idx) << 20).log2(lut).raw() };
    check(y <= next, "log2 never decreases");
    reach("end");
}
// shifting the value by a power of two shifts the logarithm by exactly one
fn scaling_32() {
    let luts = LookUpTables::new();
    let lut = luts.log2_lut();
    let k = pick("magnitude", 0, 31) as u32;
    // the leading 11 bits after the first one, and whatever follows
    let t = if k < 11 { k } else { 11 };
    let idx = if k == 0 { 0 } else { u32v("significand", 0, (1 << t) - 1) };
    let low = if k > 11 { u32v("low", 0, (1 << (k - 11)) - 1) } else { 0 };
    let x = (1u32 << k) | (idx << (k - t)) | low;
    let norm = U32::<31>((1 << 31) | (idx << (31 - t))).log2(lut).raw();
    check(norm >= 0 && norm <= 2048, "the fraction of a logarithm is between 0 and 1");
    check(U32::<0>(x).log2(lut).raw() == norm + ((k as i32) << 11), "log2 of an integer");
    check(U32::<17>(x).log2(lut).raw() == norm + ((k as i32 - 17) << 11), "log2 with 17 fractional bits");
    check(U32::<31>(x).log2(lut).raw() == norm + ((k as i32 - 31) << 11), "log2 with 31 fractional bits");
    reach("end");
}
fn scaling_64() {
    let luts = LookUpTables::new();
    let lut = luts.log2_lut();
    let k = pick("magnitude", 0, 63) as u32;
    let t = if k < 11 { k } else { 11 };
    let idx = if k == 0 { 0 } else { u32v("significand", 0, (1 << t) - 1) };
    let low = if k > 11 { u("low", 0, (1 << (k - 11)) - 1) } else { 0 };
    let x = (1u64 << k) | ((idx as u64) << (k - t)) | low;
    // the 64-bit logarithm agrees with the 32-bit logarithm of the leading bits
    let norm = U32::<31>((1 << 31) | (idx << (31 - t))).log2(lut).raw();
    check(U64::<33>(x).log2(lut).raw() == norm + ((k as i32 - 33) << 11), "64-bit log2 with 33 fractional bits");
    check(U64::<0>(x).log2(lut).raw() == norm + ((k as i32) << 11), "64-bit log2 of an integer");
    check(U64::<63>(x).log2(lut).raw() == norm + ((k as i32 - 63) << 11), "64-bit log2 with 63 fractional bits");
    reach("end");
}
// the cost of a bit is minus the logarithm of its probability
fn cost() {
    let luts = LookUpTables::new();
    let lut = luts.log2_lut();
    let k = pick("magnitude", 0, 22) as u32;
    let p = (1u32 << k) + if k == 0 { 0 } else { u32v("rest", 0, (1u32 << k) - 1) };
    let c0 = FinalProbability::new(p, 23).estimate_cost(Bit::Zero, lut).raw();
    let c1 = FinalProbability::new((1 << 23) - p, 23).estimate_cost(Bit::One, lut).raw();
    let l = U32::<23>(p).log2(lut).raw();
    check(c0 == -l, "the cost of bit 0 is minus the logarithm of the probability of bit 0");
    check(c1 == c0, "the cost of bit 1 is that of bit 0 under the complementary probability");
    check(c0 > 0 && c0 <= 23 << 11, "a cost is positive and at most 23 bits");
    reach("end");
}
}
