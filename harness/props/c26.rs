use demixer::bit::Bit;
use demixer::estimators::cost::CostTracker;
use demixer::estimators::decelerating::DeceleratingEstimator;
use demixer::fixed_point::*;
use demixer::history::state::bits_runs::BitsRunsTracker;
use demixer::history::state::recent_bits::RecentBitsHistory;
use demixer::lut::LookUpTables;

fn bit(n: &str) -> Bit { Bit::from(pick(n, 0, 1) == 1) }
fn runs(t: &BitsRunsTracker) -> (bool, Bit, u16, u16, u16) { (t.is_single_bit_run(), t.last_bit(), t.last_bit_run_length(), t.opposite_bit_run_length(), t.last_bit_previous_run_length()) }
jobs! {
fn estimator() {
    // replaying every run length gives a table; the shortcut is compared with it at a symbolic run length
    let luts = LookUpTables::new();
    let last = bit("last");
    let (mut ps, mut cs) = (Vec::new(), Vec::new());
    let mut e = DeceleratingEstimator::new();
    for _ in 0..1001 {
        let mut x = e;
        x.update(last, luts.d_estimator_rates());
        ps.push(x.prediction().raw()); cs.push(x.usage_count());
        e.update(!last, luts.d_estimator_rates());
    }
    let n = u("run", 0, 1000) as usize;
    let got = luts.d_estimator_cache().for_new_node(last, n as u16);
    trace(got.prediction().raw() as u64);
    check(got.usage_count() == cs[n], "number of bits seen");
    check(got.prediction().raw() == ps[n], "estimate after a run and the differing bit");
    reach("end");
}
fn estimator_refused() {
    let luts = LookUpTables::new();
    let n = u("run", 1001, 65535);
    let last = bit("last");
    expect_panic("runs longer than the estimator counts");
    trace(luts.d_estimator_cache().for_new_node(last, n as u16).prediction().raw() as u64);
}
fn costs() {
    let luts = LookUpTables::new();
    let last = bit("last");
    let mut cs = Vec::new();
    let mut e = DeceleratingEstimator::new();
    let mut t = CostTracker::INITIAL;
    for _ in 0..1024 {
        cs.push(t.updated_on_bit(e.prediction(), last, &luts).raw());
        t = t.updated_on_bit(e.prediction(), !last, &luts);
        e.update(!last, luts.d_estimator_rates());
    }
    let n = match pick("part", 0, 2) { 0 => u("run", 0, 511), 1 => u("run", 512, 1023), _ => u("run", 1024, 65535) };
    let got = luts.cost_trackers_lut().for_new_node(n as u16).raw();
    trace(got as u64);
    let want = cs[if n > 1023 { 1023 } else { n } as usize];
    check(got == want, "cost after a run and the differing bit");
    reach("end");
}
fn runs_step() {
    // induction over the run length: n + 1 equals n and one more bit; then the bit that ends the run
    let b = bit("bit");
    let n = u("run", 0, 65534) as u16;
    let (x, y) = (BitsRunsTracker::for_bit_run(b, n), BitsRunsTracker::for_bit_run(b, n + 1));
    if n > 0 { check(runs(&x.updated(b)) == runs(&y), "a run one bit longer equals one more bit"); }
    check(runs(&y) == (true, b, if n < 1000 { n + 1 } else { 1000 }, 0, 0), "a run is a single run of its length");
    let m = u("run2", 0, 65535) as u16;
    check(runs(&BitsRunsTracker::for_new_node(!b, m)) == runs(&BitsRunsTracker::for_bit_run(b, m).updated(!b)), "a new node equals its run and one differing bit");
    reach("end");
}
fn runs_start() {
    let b = bit("bit");
    let mut t = BitsRunsTracker::new();
    for k in 1..6 { t = t.updated(b); let (x, y) = (runs(&t), runs(&BitsRunsTracker::for_bit_run(b, k))); check(x.1 == y.1 && x.2 == y.2 && x.3 == y.3 && x.4 == y.4, "a short run equals its bits"); }
    reach("end");
}
fn recent_step() {
    let b = bit("bit");
    let n = u("run", 0, 65534) as u16;
    let (x, y) = (RecentBitsHistory::for_bit_run(b, n), RecentBitsHistory::for_bit_run(b, n + 1));
    check(x.updated(b) == y, "a run one bit longer equals one more bit");
    check(RecentBitsHistory::for_bit_run(b, 0) == RecentBitsHistory::new_unchecked(1), "a run of no bits is empty");
    check(y.is_valid(), "a run is valid");
    let m = u("run2", 0, 65535) as u16;
    check(RecentBitsHistory::for_new_node(!b, m) == RecentBitsHistory::for_bit_run(b, m).updated(!b), "a new node equals its run and one differing bit");
    reach("end");
}
fn direct() {
    // predictions for contexts that have seen one repeated bit: an estimator that starts with one bit counted
    let luts = LookUpTables::new();
    let (mut sq, mut st) = (Vec::new(), Vec::new());
    let mut e = DeceleratingEstimator::make(demixer::fixed_point::types::FractOnlyU32::HALF, 1);
    for _ in 0..1001 {
        sq.push(e.prediction().raw()); st.push(luts.stretch_lut().stretch(e.prediction()).raw());
        e.update(Bit::Zero, luts.d_estimator_rates());
    }
    let n = u("run", 0, 1000) as usize;
    let (q, s) = luts.direct_predictions().for_0_bit_run(n as u16);
    trace(q.raw() as u64);
    check(q.raw() == sq[n], "prediction after a run of zeros");
    check(s.raw() == st[n], "stretched prediction after a run of zeros");
    reach("end");
}
}
