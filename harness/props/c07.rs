use demixer::bit::Bit;
use demixer::estimators::fixed_speed::FixedSpeedEstimator;
use demixer::fixed_point::*;
fn raw(e: &FixedSpeedEstimator) -> u32 { e.prediction().raw() >> 15 }
jobs! {
fn step() {
    let x = u32v("prediction", 1, 65535);
    let mut e = FixedSpeedEstimator::new(x as u16);
    check(e.prediction().raw() == x << 15, "the prediction is the fraction it was made with");
    let bit = boolean("bit");
    e.update(Bit::from(bit));
    let y = raw(&e);
    trace(y as u64);
    check(e.prediction().raw() == y << 15, "a prediction has 16 bits");
    check(y >= 1 && y <= 65535, "the prediction stays strictly between 0 and 1");
    let err = if bit { x } else { 65536 - x };
    check(y == if bit { x - err / 128 } else { x + err / 128 }, "the prediction moves towards the bit by 1/128 of the error rounded down");
    // the other direction and order are preserved
    let x2 = u32v("other", 1, 65535);
    assume(x2 >= x);
    let mut f = FixedSpeedEstimator::new(x2 as u16);
    f.update(Bit::from(bit));
    check(raw(&f) >= y, "the update keeps the order of predictions");
    check(raw(&FixedSpeedEstimator::default()) == 32768, "a fresh estimator predicts one half");
    reach("end");
}
fn histories() {
    let n = param("length", 2);
    let mut e = FixedSpeedEstimator::new(u32v("prediction", 1, 65535) as u16);
    let mut p = raw(&e);
    for _ in 0..n {
        let bit = pick("bit", 0, 1) == 1;
        e.update(Bit::from(bit));
        p = if bit { p - p / 128 } else { p + (65536 - p) / 128 };
        check(raw(&e) == p, "every step of a history moves by 1/128 of the error");
        check(p >= 1 && p <= 65535, "the prediction stays strictly between 0 and 1");
    }
    trace(p as u64);
    reach("end");
}
}
