use demixer::bit::Bit;
use demixer::fixed_point::*;
use demixer::fixed_point::types::*;
use demixer::lut::LookUpTables;
use demixer::predictor::post_process::PredictionFinalizer;
use demixer::util::last_bytes::LastBytesCache;

fn sq(x: u64) -> FractOnlyU32 { FractOnlyU32::new(x as u32, 31) }
fn bytes(b: &[u8], bits: &[u64]) -> LastBytesCache {
    let mut l = LastBytesCache::new();
    for x in b { l.start_new_byte(); for k in (0..8).rev() { l.on_next_bit(Bit::from(x >> k & 1 == 1)); } }
    l.start_new_byte();
    for &x in bits { l.on_next_bit(Bit::from(x == 1)); }
    l
}
// contexts sharing less and less with the first one: all, the last two bytes, the last byte, the unfinished byte, nothing
fn context(k: u64) -> LastBytesCache {
    match k {
        0 => bytes(&[1, 2, 3], &[1, 0]),
        1 => bytes(&[9, 2, 3], &[1, 0]),
        2 => bytes(&[9, 8, 3], &[1, 0]),
        3 => bytes(&[9, 8, 7], &[1, 0]),
        _ => bytes(&[1, 2, 3], &[1, 1]),
    }
}
// bounds of a cell of the stretch table, chosen per path
fn cell(step: u64) -> (u64, u64) {
    let level = pick("level", 0, 7);
    let idx = pick("idx", 0, (512 / step) - 1) * step + step / 3;
    let (base, w) = if level < 7 { ((1u64 << (29 - level)) + (idx << (20 - level)), 20 - level) } else { (idx << 14, 14) };
    let (lo, hi) = (if base == 0 { 1 } else { base }, base + (1 << w) - 1);
    if boolean("upper_half") { ((1 << 31) - hi, (1 << 31) - lo) } else { (lo, hi) }
}
fn refine(f: &mut PredictionFinalizer, luts: &LookUpTables, p: u64, l: &LastBytesCache) -> i64 {
    let q = sq(p);
    let r = f.refine(q, luts.stretch_lut().stretch(q), 3, l).raw() as i64;
    check(r >= 1 && r < 1 << 23, "the final probability lies strictly between 0 and 1");
    r
}
const END: u64 = 16384; // squash(-12): the table ends there
jobs! {
fn fresh() {
    let luts = LookUpTables::new();
    let mut f = PredictionFinalizer::new(&luts);
    let (lo, hi) = cell(param("step", 1));
    let p = u("prob", lo, hi);
    let r = refine(&mut f, &luts, p, &context(0)) << 8;
    let p = p as i64;
    let near = if p < END as i64 { END as i64 } else if p > (1 << 31) - END as i64 { (1 << 31) - END as i64 } else { p };
    check(r - near <= 132 && near - r <= 132, "a fresh finalizer returns its input rounded to 23 bits");
    reach("end");
}
fn learning() {
    let luts = LookUpTables::new();
    let mut f = PredictionFinalizer::new(&luts);
    let (lo, hi) = cell(param("step", 64));
    // the whole cell, or the start, the middle and the end of it
    let w = param("window", 0);
    let (lo, hi) = if w == 0 || hi - lo < w { (lo, hi) } else { match pick("part", 0, 2) { 0 => (lo, lo + w), 1 => ((lo + hi) / 2, (lo + hi) / 2 + w), _ => (hi - w, hi) } };
    let bit = pick("bit", 0, 1);
    let k = pick("context", 0, 4);
    // the first stage moves the probability by 1/256 of the distance to the bit
    let moved = |p: u64| if bit == 0 { p + ((1 << 31) - p) / 250 } else { p - p / 250 };
    let at = |p: u64| luts.stretch_lut().stretch(sq(p)).raw() >> 21;
    let inside = at(lo) == at(hi) && at(lo) == at(moved(lo)) && at(hi) == at(moved(hi)) && lo > END && hi < (1 << 31) - END;
    let p = u("prob", lo, hi);
    let before = refine(&mut f, &luts, p, &context(0));
    f.update(Bit::from(bit == 1), 3, &context(0));
    let after = refine(&mut f, &luts, p, &context(k));
    let (d, dist) = if bit == 0 { (after - before, (1 << 23) - before) } else { (before - after, before) };
    if k == 4 { check(d == 0, "a context sharing nothing is left unchanged"); }
    else {
        check(d >= 0, "training never moves the probability away from the bit");
        // in 1/64 of the distance: 1/4 from the unfinished byte, then 1/4, 1/2, 1/4 from one, two, three bytes
        let share = match k { 0 => 5, 1 => 4, 2 => 2, _ => 1 };
        if inside {
            reach("inside");
            check(d * 256 <= dist * share + 512 && d * 256 >= dist * share * 31 / 32 - 512, "the probability moves by the shares of the contexts in common");
        }
        check(d * 256 <= dist * 6 + 512, "training moves the probability by no more than 6/256 of the distance");
    }
    reach("end");
}
fn histories() {
    let luts = LookUpTables::new();
    let mut f = PredictionFinalizer::new(&luts);
    let steps = param("steps", 3);
    for i in 0..steps {
        let k = pick("context", 0, 3);
        let p = match pick("at", 0, 3) { 0 => 1, 1 => 1 << 29, 2 => (1 << 30) + 12345, _ => (1 << 31) - 1 };
        refine(&mut f, &luts, p, &context(k));
        f.update(Bit::from(boolean("bit")), i as usize, &context(k));
    }
    let (lo, hi) = match pick("query", 0, 4) { 0 => (1, 9000), 1 => (1 << 29, (1 << 29) + (1 << 20) - 1), 2 => ((1 << 30) + 1, (1 << 30) + (1 << 20) - 1), 3 => ((1 << 31) - 9000, (1 << 31) - 1), _ => (1 << 30, 1 << 30) };
    let p = u("prob", lo, hi);
    let r = refine(&mut f, &luts, p, &context(0));
    trace(r as u64);
    reach("end");
}
// after long training towards one side the probability is still valid and follows the bits
fn saturated() {
    let luts = LookUpTables::new();
    let mut f = PredictionFinalizer::new(&luts);
    let mut fresh = PredictionFinalizer::new(&luts);
    let bit = pick("bit", 0, 1);
    let at = match pick("at", 0, 5) { 0 => 1, 1 => END + 9000, 2 => 1 << 26, 3 => 1 << 30, 4 => (1 << 31) - END - 9000, _ => (1 << 31) - 1 };
    for _ in 0..param("steps", 1200) {
        refine(&mut f, &luts, at, &context(0));
        f.update(Bit::from(bit == 1), 3, &context(0));
    }
    let step = at / 128 + (((1u64 << 31) - at) / 128).min(at) / 2;
    let step = step.min(8192);
    let (lo, hi) = (if at > step { at - step } else { 1 }, (at + step).min((1 << 31) - 1));
    let p = u("prob", lo, hi);
    let r = refine(&mut f, &luts, p, &context(0));
    let other = refine(&mut fresh, &luts, p, &context(4));
    check(if bit == 0 { r >= other } else { r <= other }, "long training keeps the probability on the side of the bit");
    reach("end");
}
fn refusals() {
    let luts = LookUpTables::new();
    let mut f = PredictionFinalizer::new(&luts);
    let p = (1 << 30) + u("prob", 0, 4096);
    let n = pick("rounds", 0, 2);
    for _ in 0..n { refine(&mut f, &luts, p, &context(0)); f.update(Bit::from(boolean("bit")), 3, &context(0)); }
    if boolean("twice") {
        refine(&mut f, &luts, p, &context(0));
        reach("refine twice");
        expect_panic("refining twice without an update");
        refine(&mut f, &luts, p, &context(pick("context", 0, 4)));
    } else {
        reach("update first");
        expect_panic("updating without refining");
        f.update(Bit::from(boolean("bit")), 3, &context(0));
    }
}
}
