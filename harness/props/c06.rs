use demixer::bit::Bit;
use demixer::estimators::decelerating::DeceleratingEstimator;
use demixer::fixed_point::*;
use demixer::fixed_point::types::*;
use demixer::lut::LookUpTables;

const ONE: i64 = 1 << 22;
fn raw22(e: &DeceleratingEstimator) -> i64 { let r = e.prediction().raw(); (r >> 9) as i64 }
fn est(p: i64, n: u64) -> DeceleratingEstimator { DeceleratingEstimator::make(FractOnlyU32::new((p as u32) << 9, 31), n as u16) }

jobs! {
// any state whose prediction lies between those reached by pure runs of the same length, then one more bit
fn step() {
    let luts = LookUpTables::new();
    let rates = luts.d_estimator_rates();
    // the most extreme prediction after n bits, by running the estimator on zeros; at the cap: its limit
    let n = pick("count", 0, 1000);
    let mut run = DeceleratingEstimator::new();
    for _ in 0..n { run.update(Bit::Zero, rates); }
    if n == 1000 { let mut last = 0; while raw22(&run) != last { last = raw22(&run); run.update(Bit::Zero, rates); } }
    let max = raw22(&run);
    check(max < ONE && max >= ONE / 2, "a pure run never reaches certainty");
    let p = i("prediction", ONE - max, max);
    let bit = Bit::from(pick("bit", 0, 1) == 1);
    let mut e = est(p, n);
    check(raw22(&e) == p && e.usage_count() as u64 == n, "an estimator holds the prediction and count it was made with");
    e.update(bit, rates);
    trace(raw22(&e) as u64);
    let q = raw22(&e);
    check(e.prediction().raw() & 511 == 0, "a prediction has 22 bits");
    check(e.usage_count() as u64 == if n < 1000 { n + 1 } else { 1000 }, "the count grows by one up to its cap");
    // exact update: p + (target - p) / (n + 2) to within one unit
    let target = if bit.is_0() { ONE } else { 0 };
    let d = (q - p) * (n as i64 + 2) - (target - p);
    check(d.abs() <= n as i64 + 2, "the prediction moves towards the bit by 1/(n+2) of the error, to one unit");
    if bit.is_0() { check(q >= p, "a 0 bit never lowers the prediction of bit 0") } else { check(q <= p, "a 1 bit never raises the prediction of bit 0") }
    run.update(Bit::Zero, rates);
    let max2 = raw22(&run);
    check(q >= ONE - max2 && q <= max2, "no history is more extreme than a pure run of the same length");
    // mirrored bits give the mirrored prediction
    let mut m = est(ONE - p, n);
    m.update(!bit, rates);
    check(raw22(&m) == ONE - q, "complementing the bits complements the prediction");
    reach("end");
}
// short histories from a fresh estimator: the prediction is (zeros + 1/2) / (n + 1)
fn frequencies() {
    let luts = LookUpTables::new();
    let rates = luts.d_estimator_rates();
    let mut e = DeceleratingEstimator::new();
    let n = param("length", 9);
    let mut zeros = 0i64;
    for _ in 0..n {
        let b = pick("bit", 0, 1) == 1;
        e.update(Bit::from(b), rates);
        if !b { zeros += 1; }
    }
    let d = raw22(&e) * (n as i64 + 1) - ((2 * zeros + 1) << 21);
    trace(raw22(&e) as u64);
    check(d.abs() <= (n as i64 + 1) * 3, "the prediction is (zeros + 1/2) / (length + 1) to three units");
    reach("end");
}
}
