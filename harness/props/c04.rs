use demixer::fixed_point::*;
use demixer::fixed_point::types::*;

// fixed-point types with a chosen number of fractional bits
#[derive(Clone, Copy)] struct I32<const B: u8>(i32);
#[derive(Clone, Copy)] struct U32<const B: u8>(u32);
#[derive(Clone, Copy)] struct I64<const B: u8>(i64);
#[derive(Clone, Copy)] struct U64<const B: u8>(u64);
impl<const B: u8> FixedPoint for I32<B> { type Raw = i32; fn raw(&self) -> i32 { self.0 } fn new_unchecked(r: i32) -> Self { I32(r) } const FRACTIONAL_BITS: u8 = B; }
impl<const B: u8> FixedPoint for U32<B> { type Raw = u32; fn raw(&self) -> u32 { self.0 } fn new_unchecked(r: u32) -> Self { U32(r) } const FRACTIONAL_BITS: u8 = B; }
impl<const B: u8> FixedPoint for I64<B> { type Raw = i64; fn raw(&self) -> i64 { self.0 } fn new_unchecked(r: i64) -> Self { I64(r) } const FRACTIONAL_BITS: u8 = B; }
impl<const B: u8> FixedPoint for U64<B> { type Raw = u64; fn raw(&self) -> u64 { self.0 } fn new_unchecked(r: u64) -> Self { U64(r) } const FRACTIONAL_BITS: u8 = B; }

const ROUND: &str = "the result is the exact quotient rounded to nearest, ties away from zero";
const EDGE: &str = "at the end of the representable range the result is at most one unit towards zero";

// q is x / 2^s rounded to nearest with ties away from zero (s <= 62, |x| + 2^(s-1) representable)
fn rounded_shift(x: i64, s: u32, q: i64) -> bool {
    let h = 1i64 << (s - 1);
    let r = x.wrapping_sub(q.wrapping_mul(1i64 << s));
    let m = 1i64 << (63 - s);
    q >= -m && q <= m - 1 && if x > 0 { r >= -h && r < h } else if x < 0 { r > -h && r <= h } else { q == 0 }
}
fn rounded_div(x: i64, d: i64, q: i64) -> bool {
    let h = d / 2;
    let r = x - q * d;
    if d & 1 == 1 { r >= -h && r <= h } else if x > 0 { r >= -h && r < h } else if x < 0 { r > -h && r <= h } else { q == 0 }
}

fn shift_i(x: i64, s: u32, q: i64, max: i64) {
    trace(q as u64);
    let h = if s == 64 { 0 } else { 1i64 << (s - 1) };
    if x >= -(max - h) && x <= max - h {
        if s == 63 { check(q == 0, ROUND) } else { check(rounded_shift(x, s, q), ROUND) }
    } else {
        let top = if s >= 63 { 0 } else { max >> s };
        let e = if x > 0 { top } else { -top };
        check(q == e || q == if x > 0 { e + 1 } else { e - 1 }, EDGE);
    }
    reach("end");
}

const DIVS: [i64; 24] = [1, 2, 3, 4, 5, 6, 7, 10, 12, 15, 16, 17, 100, 127, 128, 1000, 1001, 4097, 65535, 65536, 1000003, 16777216, 1 << 30, (1 << 31) - 1];

jobs! {
fn shift_i16() { let s = pick("shift", 1, 15) as u32; let x = i("x", -32768, 32767); shift_i(x, s, fix_i16::scaled_down(x as i16, s as u8) as i64, 32767); }
fn shift_i32() { let s = pick("shift", 1, 31) as u32; let x = i("x", i32::MIN as i64, i32::MAX as i64); shift_i(x, s, fix_i32::scaled_down(x as i32, s as u8) as i64, i32::MAX as i64); }
fn shift_i64() { let s = pick("shift", 1, 63) as u32; let x = i("x", i64::MIN, i64::MAX); shift_i(x, s, fix_i64::scaled_down(x, s as u8), i64::MAX); }
fn shift_unsigned() {
    let kind = pick("kind", 0, 2);
    let bits = [16, 32, 64][kind as usize] as u32;
    let s = pick("shift", 1, bits as u64 - 1) as u32;
    let max = u64::MAX >> (64 - bits);
    let x = u("x", 0, max);
    let q = match kind { 0 => fix_u16::scaled_down(x as u16, s as u8) as u64, 1 => fix_u32::scaled_down(x as u32, s as u8) as u64, _ => fix_u64::scaled_down(x, s as u8) };
    trace(q);
    let h = 1u64 << (s - 1);
    if x <= max - h { check(q == (x + h) >> s, ROUND) } else { check(q == max >> s || q - 1 == max >> s, EDGE) }
    reach("end");
}
fn divide() {
    let d = DIVS[pick("d", 0, 23) as usize];
    match pick("kind", 0, 3) {
        0 => { let x = i("x", i32::MIN as i64, i32::MAX as i64); let q = I32::<7>::new(x as i32, 7).div(d as i32).raw() as i64; trace(q as u64);
            if x.abs() + d / 2 <= i32::MAX as i64 { check(rounded_div(x, d, q), ROUND) } else { check((q - x / d).abs() <= 1 && q.abs() <= x.abs() / d + 1, EDGE) } }
        1 => { let x = u("x", 0, u32::MAX as u64) as i64; let q = U32::<7>::new(x as u32, 7).div(d as u32).raw() as i64; trace(q as u64);
            if x + d / 2 <= u32::MAX as i64 { check(rounded_div(x, d, q), ROUND) } else { check((q - x / d).abs() <= 1, EDGE) } }
        2 => { let x = i("x", i64::MIN / 2, i64::MAX / 2); let q = I64::<7>::new(x, 7).div(d).raw(); trace(q as u64); check(rounded_div(x, d, q), ROUND) }
        _ => { let x = u("x", 0, i64::MAX as u64 / 2) as i64; let q = U64::<7>::new(x as u64, 7).div(d as u64).raw() as i64; trace(q as u64); check(rounded_div(x, d, q), ROUND) }
    }
    reach("end");
}
fn multiply() {
    let a = i("a", i32::MIN as i64, i32::MAX as i64); let b = i("b", i32::MIN as i64, i32::MAX as i64);
    let p = a * b;
    match pick("types", 0, 3) {
        // narrowing result: exact rounding or a panic, never a wrapped value
        0 => mul_down(p, 21, || fix_i32::mul::<I32<21>, I32<21>, I32<21>>(&I32(a as i32), &I32(b as i32)).raw()),
        1 => mul_down(p, 31, || fix_i32::mul::<I32<21>, I32<31>, I32<21>>(&I32(a as i32), &I32(b as i32)).raw()),
        2 => { let q = fix_i32::mul_wide::<I32<21>, I32<21>, I64<40>>(&I32(a as i32), &I32(b as i32)).raw(); trace(q as u64); check(rounded_shift(p, 2, q), ROUND) }
        _ => { let q = fix_i32::mul_wide::<I32<21>, I32<31>, I64<40>>(&I32(a as i32), &I32(b as i32)).raw(); trace(q as u64); check(rounded_shift(p, 12, q), ROUND) }
    }
    reach("end");
}
fn multiply_up() {
    // results with more fractional bits than the product: exact, or a panic when the result does not fit
    let a = i("a", i32::MIN as i64, i32::MAX as i64); let b = i("b", i32::MIN as i64, i32::MAX as i64);
    let p = a * b;
    if boolean("wide") {
        let fits = p >= -(1 << 60) && p < 1 << 60;
        if !fits { expect_panic("a product that does not fit is refused"); }
        let q = fix_i32::mul_wide::<I32<4>, I32<3>, I64<10>>(&I32(a as i32), &I32(b as i32)).raw(); trace(q as u64);
        check(q == p << 3, "an exactly representable product is exact");
    } else {
        let fits = p >= -(1 << 28) && p < 1 << 28;
        if !fits { expect_panic("a product that does not fit is refused"); }
        let q = fix_i32::mul::<I32<4>, I32<3>, I32<10>>(&I32(a as i32), &I32(b as i32)).raw(); trace(q as u64);
        check(q as i64 == p << 3, "an exactly representable product is exact");
    }
    reach("end");
}
fn multiply_unsigned() {
    let a = u("a", 0, u32::MAX as u64); let b = u("b", 0, u32::MAX as u64);
    let p = a * b;
    match pick("types", 0, 3) {
        0 => { let h = 1u64 << 30; let fits = p >= h && (p - h) >> 63 == 0 || p < h; let _ = fits;
            // 31 + 31 -> 31 bits
            if p > u64::MAX - h { expect_panic("a product that does not fit is refused"); } else if (p + h) >> 31 > u32::MAX as u64 { expect_panic("a product that does not fit is refused"); }
            let q = fix_u32::mul::<U32<31>, U32<31>, U32<31>>(&U32(a as u32), &U32(b as u32)).raw(); trace(q as u64); check(q as u64 == (p + h) >> 31, ROUND) }
        1 => { if (p >> 29) != 0 { expect_panic("a product that does not fit is refused"); }
            let q = fix_u32::mul::<U32<4>, U32<3>, U32<10>>(&U32(a as u32), &U32(b as u32)).raw(); trace(q as u64); check(q as u64 == p << 3, "an exactly representable product is exact") }
        2 => { let q = fix_u32::mul_wide::<U32<23>, U32<22>, U64<40>>(&U32(a as u32), &U32(b as u32)).raw(); trace(q); check(q == (p + 16) >> 5 , ROUND) }
        _ => { if (p >> 61) != 0 { expect_panic("a product that does not fit is refused"); }
            let q = fix_u32::mul_wide::<U32<4>, U32<3>, U64<10>>(&U32(a as u32), &U32(b as u32)).raw(); trace(q); check(q == p << 3, "an exactly representable product is exact") }
    }
    reach("end");
}
fn convert() {
    let conv = pick("conversion", 0, 13);
    macro_rules! go {
        // value range, source, conversion, source bits, target bits, target range
        ($lo:expr, $hi:expr, $t:ty, $s:ident, $sb:expr, $m:ident, $r:ident, $rb:expr, $tlo:expr, $thi:expr) => {{
            let x = i("x", $lo as i64, $hi as i64);
            let (down, d) = if $sb > $rb { (true, $sb - $rb) } else { (false, $rb - $sb) };
            let half = if down { 1i64 << (d - 1) } else { 0 };
            let src = $s::<$sb>::new(x as $t, $sb);
            if down {
                let big = x > i64::MAX - half || x < -(i64::MAX - half) || x > $hi as i64 - half || x < -($hi as i64 - half) && ($lo as i64) < 0;
                if big { return; }
                // the rounded value is outside the target exactly when x is beyond these bounds
                let q = if x >= 0 { (x + half) >> d } else { -((half - x) >> d) };
                if q > $thi as i64 || q < $tlo as i64 { expect_panic("a value that does not fit the target is refused"); }
                let y = src.$m::<$r<$rb>>().raw() as i64; trace(y as u64);
                check(rounded_shift(x, d as u32, y), ROUND);
            } else {
                let lim = ($thi as i64) >> d;
                if x > lim || x < -lim - 1 { expect_panic("a value that does not fit the target is refused"); }
                let y = src.$m::<$r<$rb>>().raw() as i64; trace(y as u64);
                check(y == x << d, "a conversion to more fractional bits is exact");
            }
        }}
    }
    match conv {
        0 => go!(i32::MIN, i32::MAX, i32, I32, 21, to_fix_i32, I32, 11, i32::MIN, i32::MAX),
        1 => go!(i32::MIN, i32::MAX, i32, I32, 11, to_fix_i32, I32, 21, i32::MIN, i32::MAX),
        2 => go!(i32::MIN, i32::MAX, i32, I32, 21, to_fix_i64, I64, 40, i64::MIN, i64::MAX),
        3 => go!(i32::MIN, i32::MAX, i32, I32, 21, to_fix_i64, I64, 11, i64::MIN, i64::MAX),
        4 => go!(i64::MIN, i64::MAX, i64, I64, 40, to_fix_i32, I32, 21, i32::MIN, i32::MAX),
        5 => go!(i64::MIN, i64::MAX, i64, I64, 40, to_fix_i64, I64, 21, i64::MIN, i64::MAX),
        6 => go!(i64::MIN, i64::MAX, i64, I64, 21, to_fix_i64, I64, 40, i64::MIN, i64::MAX),
        7 => go!(i64::MIN, i64::MAX, i64, I64, 11, to_fix_i32, I32, 21, i32::MIN, i32::MAX),
        8 => go!(0, u32::MAX, u32, U32, 31, to_fix_u32, U32, 23, 0, u32::MAX),
        9 => go!(0, u32::MAX, u32, U32, 11, to_fix_u32, U32, 21, 0, u32::MAX),
        10 => go!(0, u32::MAX, u32, U32, 31, to_fix_u64, U64, 23, 0, i64::MAX),
        11 => go!(0, u32::MAX, u32, U32, 11, to_fix_u64, U64, 21, 0, i64::MAX),
        12 => go!(0, i64::MAX, u64, U64, 40, to_fix_u32, U32, 31, 0, u32::MAX),
        _ => go!(0, i64::MAX, u64, U64, 40, to_fix_u64, U64, 23, 0, i64::MAX),
    }
    reach("end");
}
fn add_sub() {
    match pick("kind", 0, 7) {
        0 => { let (a, b) = (i("a", i32::MIN as i64, i32::MAX as i64), i("b", i32::MIN as i64, i32::MAX as i64)); let e = a + b; if e > i32::MAX as i64 || e < i32::MIN as i64 { expect_panic("an overflowing sum is refused"); } check(I32::<9>(a as i32).add(&I32(b as i32)).raw() as i64 == e, "sum is exact") }
        1 => { let (a, b) = (i("a", i32::MIN as i64, i32::MAX as i64), i("b", i32::MIN as i64, i32::MAX as i64)); let e = a - b; if e > i32::MAX as i64 || e < i32::MIN as i64 { expect_panic("an overflowing difference is refused"); } check(I32::<9>(a as i32).sub(&I32(b as i32)).raw() as i64 == e, "difference is exact") }
        2 => { let (a, b) = (u("a", 0, u32::MAX as u64), u("b", 0, u32::MAX as u64)); let e = a + b; if e > u32::MAX as u64 { expect_panic("an overflowing sum is refused"); } check(U32::<9>(a as u32).add(&U32(b as u32)).raw() as u64 == e, "sum is exact") }
        3 => { let (a, b) = (u("a", 0, u32::MAX as u64), u("b", 0, u32::MAX as u64)); if a < b { expect_panic("an overflowing difference is refused"); } check(U32::<9>(a as u32).sub(&U32(b as u32)).raw() as u64 == a.wrapping_sub(b), "difference is exact") }
        4 => { let (a, b) = (i("a", i64::MIN, i64::MAX), i("b", i64::MIN, i64::MAX)); let e = a.wrapping_add(b); if (a ^ e) & (b ^ e) < 0 { expect_panic("an overflowing sum is refused"); } check(I64::<9>(a).add(&I64(b)).raw() == e, "sum is exact") }
        5 => { let (a, b) = (i("a", i64::MIN, i64::MAX), i("b", i64::MIN, i64::MAX)); let e = a.wrapping_sub(b); if (a ^ b) & (a ^ e) < 0 { expect_panic("an overflowing difference is refused"); } check(I64::<9>(a).sub(&I64(b)).raw() == e, "difference is exact") }
        6 => { let (a, b) = (u("a", 0, u64::MAX), u("b", 0, u64::MAX)); let e = a.wrapping_add(b); if e < a { expect_panic("an overflowing sum is refused"); } check(U64::<9>(a).add(&U64(b)).raw() == e, "sum is exact") }
        _ => { let (a, b) = (u("a", 0, u64::MAX), u("b", 0, u64::MAX)); if a < b { expect_panic("an overflowing difference is refused"); } check(U64::<9>(a).sub(&U64(b)).raw() == a.wrapping_sub(b), "difference is exact") }
    }
    reach("end");
}
fn typed() {
    // the named types: complements, sign conversions, truncation, clamping
    match pick("kind", 0, 6) {
        0 => { let x = u32v("x", 1, (1 << 31) - 1); check(FractOnlyU32::new(x, 31).flip().raw() == (1 << 31) - x, "1 - x is exact"); check(FractOnlyU32::new(x, 31).to_signed().raw() == x as i32, "sign conversion keeps the value"); }
        1 => { let x = u("x", 1, (1 << 63) - 1); check(FractOnlyU64::new(x, 63).flip().raw() == (1 << 63) - x, "1 - x is exact"); check(FractOnlyU64::new(x, 63).to_signed().raw() == x as i64, "sign conversion keeps the value"); }
        2 => { let x = i("x", i64::MIN, i64::MAX); let l = 12i64 << 40; let e = if x > l { l } else if x < -l { -l } else { x }; check(StretchedProbQ::new(x, 40).clamped().raw() == e, "clamping keeps the value within the limits"); }
        3 => { let x = i("x", i32::MIN as i64, i32::MAX as i64); let l = 8i64 << 21; let e = if x > l { l } else if x < -l { -l } else { x }; check(MixerWeight::new(x as i32, 21).clamped().raw() as i64 == e, "clamping keeps the value within the limits"); }
        4 => { let x = i("x", i32::MIN as i64, i32::MAX as i64); check(I32::<9>(x as i32).trunc() as i64 == x >> 9, "truncation is the floor"); if x == i32::MIN as i64 { expect_panic("negating the minimum is refused"); } check(I32::<9>(x as i32).neg().raw() as i64 == -x, "negation is exact"); }
        5 => { let x = i("x", i64::MIN, i64::MAX); check(I64::<9>(x).trunc() == x >> 9, "truncation is the floor"); if x == i64::MIN { expect_panic("negating the minimum is refused"); } check(I64::<9>(x).neg().raw() == x.wrapping_neg(), "negation is exact"); }
        _ => { let bits = pick("bits", 0, 7) as u32; let x = i("x", -(12 << 21), 12 << 21); let k = StretchedProbD::new(x as i32, 21).to_interval_index(bits as u8) as i64;
            let e = (x + (12 << 21)) >> (21 - bits); let n = 24i64 << bits; check(k == if e == n { n - 1 } else { e }, "interval index of a stretched value"); check(k >= 0 && k < StretchedProbD::intervals_count(bits as u8) as i64 && StretchedProbD::interval_stops_count(bits as u8) as i64 == n + 1, "interval index is within the intervals"); }
    }
    reach("end");
}
}
fn mul_down<F: FnOnce() -> i32>(p: i64, d: u32, f: F) {
    let h = 1i64 << (d - 1);
    let (pos, neg) = ((i32::MAX as i64 + 1) << d, (i32::MIN as i64) << d);
    // p / 2^d rounds into the target exactly for  (MIN - 1/2) * 2^d < p < (MAX + 1/2) * 2^d
    if p >= pos - h || p <= neg - h { expect_panic("a product that does not fit is refused"); }
    let q = f() as i64; trace(q as u64);
    check(rounded_shift(p, d, q), ROUND);
}
