use demixer::bit::Bit;
use demixer::fixed_point::*;
use demixer::fixed_point::types::*;
use demixer::lut::LookUpTables;
use demixer::mixing::mixer::*;

const L: i64 = 12 << 21; // stretched probabilities lie in [-L, L]
const WL: i64 = 8 << 21; // weights lie in [-WL, WL]
fn st(x: i64) -> StretchedProbD { StretchedProbD::new(x as i32, 21) }
fn sq(x: u64) -> FractOnlyU32 { FractOnlyU32::new(x as u32, 31) }
fn stretched(name: &str) -> i64 { i(name, -L, L) }

// gives a mixer fully symbolic weights: directly, when the word that holds the weight can be told apart (a fresh mixer with
// one dominant input differs from its other inputs in that word only), otherwise by an update with symbolic inputs
fn weight_word() -> Option<usize> {
    let mut m = Mixer2::new(0, MixerInitializationMode::DominantFirst);
    let words = std::mem::size_of::<MixerInput>() / 4;
    let (a, b) = (&m.inputs_mut()[0] as *const MixerInput as *const u32, &m.inputs()[1] as *const MixerInput as *const u32);
    let mut found = None;
    for k in 0..words { unsafe { if *a.add(k) != *b.add(k) { if found.is_some() || *a.add(k) != 1 << 21 || *b.add(k) != 0 { return None; } found = Some(k); } } }
    found
}
fn symbolic_weights<M: Mixer>(m: &mut M, luts: &LookUpTables) { some_weights(m, luts, 99) }
fn some_weights<M: Mixer>(m: &mut M, luts: &LookUpTables, only: usize) {
    let word = weight_word();
    if let Some(k) = word {
        for j in 0..m.size() { let w = if only == 99 || only == j { i("weight", -WL, WL) as i32 } else { [1 << 22, -1234567, 321, -(1 << 23)][j % 4] }; let p = &mut m.inputs_mut()[j] as *mut MixerInput as *mut i32; unsafe { *p.add(k) = w; } check(m.weight(j).raw() == w, "the weight can be read back"); }
        return;
    }
    for k in 0..m.size() { m.set_input(k, FractOnlyU32::HALF, st(stretched("source"))); }
    m.update_and_reset(Bit::Zero, sq(1), 0, luts.d_estimator_rates());
    let more = pick("further", 0, 2);
    for _ in 0..(more + 1) / 2 * 2 { for k in 0..m.size() { m.set_input(k, FractOnlyU32::HALF, st(if more == 1 { L } else { -L })); }
        m.update_and_reset(Bit::Zero, sq(1), 0, luts.d_estimator_rates()); }
}
fn initial<M: Mixer>(m: &M, mode: usize) {
    let n = m.size();
    for k in 0..n {
        let w = m.weight(k).raw() as i64;
        let one = 1i64 << 21;
        check(match mode { 0 => w == 0, 1 => w == if k == 0 { one } else { 0 }, _ => (w * n as i64 - one).abs() <= n as i64 }, "initial weights");
    }
}
fn mix<M: Mixer>(mut m: M, only: usize) {
    let luts = LookUpTables::new();
    let n = m.size();
    some_weights(&mut m, &luts, only);
    let mut sum = 0i64;
    let mut ps = Vec::new();
    for k in 0..n {
        let w = m.weight(k).raw() as i64;
        check(w <= WL && w >= -WL, "weights stay in range");
        let p = if only == 99 || only == k { stretched("input") } else { [1 << 21, 2000001, -1 << 24, -77777][k % 4] };
        let q = u("squashed", 1, (1 << 31) - 1);
        m.set_input(k, sq(q), st(p));
        check(m.prediction_st(k).raw() as i64 == p && m.prediction_sq(k).raw() as u64 == q, "the inputs can be read back");
        sum += w * p;
        ps.push(p);
    }
    let (rq, rs) = m.mix_all(luts.squash_lut());
    let r = rs.raw() as i64;
    let tol = (1i64 << 20) + 2 * n as i64 + 2;
    check(r <= L && r >= -L, "the result stays in range");
    check((r << 21) <= sum + tol || r == -L, "the result is not above the weighted sum");
    check((r << 21) >= sum - tol || r == L, "the result is not below the weighted sum");
    trace(r as u64);
    check(rq.raw() == luts.squash_lut().squash(rs).raw(), "the squashed result corresponds to the stretched one");
    reach("end");
}
const MODES: [MixerInitializationMode; 3] = [MixerInitializationMode::AllZero, MixerInitializationMode::DominantFirst, MixerInitializationMode::EqualSummingToOne];
fn which(n: usize) -> usize { if param("all", 1) == 1 { 99 } else { pick("symbolic", 0, n as u64 - 1) as usize } }
fn fixed<M: Mixer + FixedSizeMixer>() { for k in 0..3 { initial(&M::new(0, MODES[k]), k) } mix(M::new(0, MODES[0]), which(M::SIZE)) }
fn boxed(n: usize) { for k in 0..3 { initial(&MixerN::new(n, 0, MODES[k]), k) } mix(MixerN::new(n, 0, MODES[0]), which(n)) }
fn refuse<M: Mixer>(mut m: M) {
    let luts = LookUpTables::new();
    let n = m.size();
    let one = |m: &mut M, k: usize| m.set_input(k, sq(u("squashed", 1, (1 << 31) - 1)), st(stretched("input")));
    // some full rounds first, so that stale inputs are there
    for _ in 0..pick("rounds", 0, 1) { for k in 0..n { one(&mut m, k); } m.update_and_reset(Bit::One, sq(1 << 30), 1000, luts.d_estimator_rates()); }
    let mask = pick("given", 0, (1 << n) - 1);
    for k in 0..n { if mask >> k & 1 == 1 { one(&mut m, k); } }
    let all = mask == (1 << n) - 1;
    match pick("misuse", 0, 5) {
        0 => if !all { expect_panic("mixing needs every input"); let _ = m.mix_all(luts.squash_lut()); },
        1 => if !all { expect_panic("an update needs every input"); m.update_and_reset(Bit::Zero, sq(1 << 30), 1000, luts.d_estimator_rates()); },
        2 => { let k = pick("which", 0, n as u64 - 1) as usize; if mask >> k & 1 == 1 { expect_panic("an input is given once"); one(&mut m, k); } }
        3 => { let k = u("which", n as u64, 31) as usize; expect_panic("an input that does not exist"); one(&mut m, k); }
        4 => { let k = pick("which", 0, n as u64 - 1) as usize; if mask >> k & 1 == 0 { expect_panic("an input that was not given cannot be read"); if boolean("squashed_one") { trace(m.prediction_sq(k).raw() as u64) } else { trace(m.prediction_st(k).raw() as u64) } } }
        _ => if all { expect_panic("the limit of the learning rate exceeds its table"); m.update_and_reset(Bit::Zero, sq(1 << 30), u("limit", 1001, 65535) as u16, luts.d_estimator_rates()); },
    }
}
fn learn<M: Mixer>(m: &mut M, inputs: &[i64], err: u64, bit: Bit, index: u16, max: u16, luts: &LookUpTables) {
    let n = m.size();
    let mut w0 = Vec::new(); let mut ps = Vec::new();
    for k in 0..n { w0.push(m.weight(k).raw() as i64); let p = inputs[k]; m.set_input(k, FractOnlyU32::HALF, st(p)); ps.push(p); }
    let res = if bit.is_0() { (1u64 << 31) - err } else { err };
    m.update_and_reset(bit, sq(res), max, luts.d_estimator_rates());
    // half the rate of an estimator that has seen `index` bits, times the error
    let rate = luts.d_estimator_rates()[index].raw() as u64;
    let f = ((err as u128 * rate as u128) >> 32) as i64; // 31 fractional bits
    for k in 0..n {
        let w = m.weight(k).raw() as i64;
        let d = if bit.is_0() { w - w0[k] } else { w0[k] - w };
        let p = ps[k];
        check(w <= WL && w >= -WL, "weights stay in range");
        check(if p > 0 { d >= 0 } else if p < 0 { d <= 0 } else { d == 0 }, "a weight moves in the direction that reduces the error");
        let (a, b) = (d.abs() << 31, p.abs() * f);
        let tol = (1i64 << 30) + 2 * p.abs();
        check(a <= b + tol, "a weight moves at most by the input times error times rate");
        check(a >= b - tol || w == WL || w == -WL, "a weight moves by the input times error times rate");
    }
}
const ERRORS: [u64; 8] = [1, 1000, 1 << 20, 1 << 29, 1 << 30, 3 << 29, (1 << 31) - 1000, (1 << 31) - 1];
const INPUTS: [i64; 12] = [L, -L, L - 1, 1 - L, 1 << 21, -1 << 21, 12345, -12345, 3, -3, 1, -1];
jobs! {
fn mixing() {
    match pick("mixer", param("smallest", 1), param("largest", 3)) {
        1 => fixed::<Mixer1>(), 2 => fixed::<Mixer2>(), 3 => fixed::<Mixer3>(), 4 => fixed::<Mixer4>(), 5 => fixed::<Mixer5>(),
        k => boxed(k as usize - 5)
    }
}
fn learning_inputs() {
    let luts = LookUpTables::new();
    let mut m = Mixer2::new(0, MixerInitializationMode::AllZero);
    symbolic_weights(&mut m, &luts);
    let e = ERRORS[pick("error", 0, 7) as usize];
    let bit = Bit::from(pick("bit", 0, 1) == 1);
    learn(&mut m, &[stretched("input"), stretched("input")], e, bit, 0, 0, &luts);
    reach("end");
}
fn learning_errors() {
    let luts = LookUpTables::new();
    let mut m = Mixer1::new(0, MixerInitializationMode::AllZero);
    symbolic_weights(&mut m, &luts);
    let p = INPUTS[pick("input", 0, 11) as usize];
    let bit = Bit::from(pick("bit", 0, 1) == 1);
    learn(&mut m, &[p], u("error", 1, (1 << 31) - 1), bit, 0, 0, &luts);
    reach("end");
}
fn schedule() {
    let luts = LookUpTables::new();
    let start = [0, 1, 7, 998, 1000][pick("start", 0, 4) as usize] as u16;
    let max = start + [0, 1, 2, 400][pick("room", 0, 3) as usize] as u16;
    if max > 1000 { return; }
    let mut m = Mixer2::new(start, MixerInitializationMode::EqualSummingToOne);
    let steps = pick("steps", 1, param("steps", 4)) as u16;
    for k in 0..steps {
        let bit = Bit::from(pick("bit", 0, 1) == 1);
        let p = if k + 1 == steps { i("input", -1 << 21, 1 << 21) } else { 54321 };
        learn(&mut m, &[p, -(2 << 21)], 1 << 29, bit, max.min(start + k), max, &luts);
    }
    reach("end");
}
fn refusals() {
    match pick("mixer", 1, 4) {
        1 => refuse(Mixer1::new(0, MODES[0])), 2 => refuse(Mixer2::new(3, MODES[1])), 3 => refuse(Mixer3::new(5, MODES[2])), _ => refuse(MixerN::new(2, 0, MODES[2]))
    }
}
fn refused_makers() {
    let index = u("index", 0, 65535) as u16;
    let good = index <= 1000;
    match pick("maker", 0, 2) {
        0 => { if !good { expect_panic("the learning rate index exceeds its table"); } let m = Mixer3::new(index, MODES[1]); check(m.size() == 3, "size"); }
        1 => { if !good { expect_panic("the learning rate index exceeds its table"); } let m = MixerN::new(4, index, MODES[1]); check(m.size() == 4, "size"); }
        _ => { let luts = LookUpTables::new(); let index = [0, 1, 500, 999, 1000][pick("start", 0, 4) as usize]; let max = u("limit", 0, 1000) as u16; let mut m = Mixer1::new(index, MODES[1]); m.set_input(0, FractOnlyU32::HALF, st(0));
            if max < index { expect_panic("the limit of the learning rate lies below its index"); } m.update_and_reset(Bit::Zero, sq(1 << 30), max, luts.d_estimator_rates()); check(m.weight(0).raw() == 1 << 21, "a neutral input keeps its weight"); }
    }
    reach("end");
}
}
