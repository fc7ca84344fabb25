use demixer::bit::Bit;
use demixer::coding::FinalProbability;
use demixer::estimators::cost::CostTracker;
use demixer::fixed_point::*;
use demixer::fixed_point::types::*;
use demixer::lut::LookUpTables;
fn upd(t: u32, c: u32) -> u32 { CostTracker::new(t as u16).updated(Log2D::new(c as i32, 11)).raw() as u32 }
jobs! {
fn step() {
    let t = u32v("tracker", 0, 65535); let c = u32v("cost", 1, 65535);
    let y = upd(t, c);
    trace(y as u64);
    // t - round(t / 16) + c, saturating
    let dec = (t + 8) >> 4; let dec = if t > 65527 { 4095 } else { dec };
    let e = t - dec + c;
    check(y == if e > 65535 { 65535 } else { e }, "the tracked cost decays by a sixteenth and grows by the new cost, saturating");
    let c2 = u32v("more", 1, 65535); assume(c2 >= c);
    check(upd(t, c2) >= y, "a larger cost never gives a smaller tracked cost");
    let t2 = u32v("tracker2", 0, 65535); assume(t2 >= t);
    check(upd(t2, c) >= y || t2 - t == 1, "a larger tracked cost stays larger");
    check(upd(t2, c) + 1 >= y, "a larger tracked cost stays larger up to rounding");
    reach("end");
}
fn on_bit() {
    let luts = LookUpTables::new();
    let t = u32v("tracker", 0, 65535);
    let k = pick("magnitude", 0, 31) as u32;
    let p = if k == 31 { 0 } else { (1u32 << k) + if k == 0 { 0 } else { u32v("rest", 0, (1u32 << k) - 1) } };
    let p = if pick("upper", 0, 1) == 1 { (1u32 << 31) - p } else { p };
    if p == 1 << 31 { return; }
    let bit = Bit::from(pick("bit", 0, 1) == 1);
    let pr = FractOnlyU32::new(p, 31);
    let y = CostTracker::new(t as u16).updated_on_bit(pr, bit, &luts).raw();
    trace(y as u64);
    // rounded to the 23 bits of a coding probability, strictly inside (0, 1)
    let q = (p + 128) >> 8; let q = if q == 0 { 1 } else if q >= 1 << 23 { (1 << 23) - 1 } else { q };
    let z = CostTracker::new(t as u16).updated(FinalProbability::new(q, 23).estimate_cost(bit, luts.log2_lut())).raw();
    check(y == z, "a bit costs what coding it under that probability costs");
    reach("end");
}
fn constant_cost() {
    // a constant cost c drives the tracked cost to 16 c (to within rounding) from any start
    let c = u32v("cost", 1, 4095);
    let t = u32v("tracker", 0, 65535);
    let y = upd(t, c) as i64; let (c, t) = (c as i64, t as i64);
    let d = t - 16 * c;
    if d > 8 { check(y <= t && y >= 16 * c - 8, "a tracked cost above its target falls towards it") }
    else if d < -8 { check(y >= t && y <= 16 * c + 8, "a tracked cost below its target rises towards it") }
    else { check((y - 16 * c).abs() <= 8, "a tracked cost at its target stays there") }
    reach("end");
}
}
