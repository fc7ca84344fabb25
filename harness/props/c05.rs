use demixer::lut::LookUpTables;
use demixer::lut::squash::SquashLut;
use demixer::lut::stretch::StretchLut;
use demixer::fixed_point::*;
use demixer::fixed_point::types::*;

fn st(lut: &StretchLut, x: u32) -> i64 { lut.stretch(FractOnlyU32::new(x, 31)).raw() as i64 }
fn sq(lut: &SquashLut, x: i64) -> i64 { lut.squash(StretchedProbD::new(x as i32, 21)).raw() as i64 }

jobs! {
fn squash_cells() {
    let luts = LookUpTables::new();
    let lut = luts.squash_lut();
    // one path per table cell; the position inside the cell is symbolic
    let cell = pick("cell", 0, 24 * 128 - 1) as i64;
    // the end points of a cell are separate (concrete) paths, so that x and x + 1 stay inside one cell otherwise
    let fr = match pick("part", 0, 2) { 0 => u("fr", 1, (1 << 14) - 2) as i64, 1 => 0, _ => (1 << 14) - 1 };
    let base = (cell << 14) - (12 << 21);
    let x = base + fr;
    let s = sq(lut, x);
    trace(s as u64);
    let l = sq(lut, base);
    let r = sq(lut, base + (1 << 14));
    check(s > 0 && s < 1 << 31, "squash is a probability strictly between 0 and 1");
    check(sq(lut, -x) == (1 << 31) - s, "squash(-x) == 1 - squash(x)");
    let exact = l * ((1 << 14) - fr) + r * fr;
    check((s << 14) - exact <= 1 << 14 && exact - (s << 14) <= 1 << 14, "squash is within one unit of the line between its neighbours");
    if x < 12 << 21 { check(sq(lut, x + 1) + 1 >= s, "squash never drops by more than rounding"); }
    reach("end");
}
fn stretch_cells() {
    let luts = LookUpTables::new();
    let lut = luts.stretch_lut();
    // one path per cell [base, base + 2^w): level by level towards zero
    let level = pick("level", 0, 7) as u32;
    let idx = pick("idx", 0, 511) as u32;
    let (base, w) = if level < 7 { ((1u32 << (29 - level)) + (idx << (20 - level)), 20 - level) } else { (idx << 14, 14) };
    let fr = match pick("part", 0, 2) { 0 => u32v("fr", 1, (1 << w) - 2), 1 => 0, _ => (1 << w) - 1 };
    let x = base + fr;
    if x == 0 { return; }
    let s = st(lut, x);
    trace(s as u64);
    check(s <= 0 && s >= -(12 << 21), "stretch stays within +-12 and has the sign of x - 1/2");
    check(st(lut, (1 << 31) - x) == -s, "stretch(1 - x) == -stretch(x)");
    check(st(lut, x + 1) + 1 >= s, "stretch never drops by more than rounding");
    if base > 0 {
        let l = st(lut, base);
        let r = st(lut, base + (1 << w));
        let fr = fr as i64;
        let exact = l * ((1 << w) - fr) + r * fr;
        check((s << w) - exact <= 1 << w && exact - (s << w) <= 1 << w, "stretch is within one unit of the line between its neighbours");
    }
    reach("end");
}

fn roundtrip() {
    let luts = LookUpTables::new();
    let (lut, squ) = (luts.stretch_lut(), luts.squash_lut());
    let level = pick("level", 0, 7) as u32;
    let idx = pick("idx", 0, 511) as u32;
    let (base, w) = if level < 7 { ((1u32 << (29 - level)) + (idx << (20 - level)), 20 - level) } else { (idx << 14, 14) };
    if base < 1 << 21 { return; }
    let x = base + u32v("fr", 0, (1 << w) - 1);
    let x = if boolean("upper_half") { (1 << 31) - x } else { x };
    let s = st(lut, x);
    // one path per squash cell that the value can fall into
    concretize(((s + (12 << 21)) >> 14) as u64);
    let y = sq(squ, s);
    trace(y as u64);
    check(y - x as i64 <= 4096 && x as i64 - y <= 4096, "squash(stretch(x)) is x to within 2^-19");
    reach("end");
}
fn grid_accuracy() {
    let luts = LookUpTables::new();
    let (lut, squ) = (luts.stretch_lut(), luts.squash_lut());
    // the table points themselves against the mathematical functions (concrete: floating point)
    let k = pick("k", 1, 511) as u32;
    let level = pick("level", 0, 7) as u32;
    let x = if level < 7 { (1u32 << (29 - level)) + (k << (20 - level)) } else { k << 14 };
    let p = x as f64 / (1u64 << 31) as f64;
    let e = (p / (1.0 - p)).ln();
    let a = st(lut, x) as f64 / (1 << 21) as f64;
    check((a - e).abs() < 2e-6, "stretch of a table point is ln(p/(1-p))");
    let g = (k as i64) * 8 + level as i64;
    if g <= 24 * 128 {
        let v = (g as f64) / 128.0 - 12.0;
        let e = 1.0 / (1.0 + (-v).exp());
        let a = sq(squ, (g << 14) - (12 << 21)) as f64 / (1u64 << 31) as f64;
        check((a - e).abs() < 6e-6, "squash of a table point is 1/(1+exp(-x))");
        reach("squash point");
    }
    reach("end");
}
}
