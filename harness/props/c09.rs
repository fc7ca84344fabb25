use demixer::bit::Bit;
use demixer::history::state::bits_runs::BitsRunsTracker;
const MAX: u64 = 1000;
// the lengths of the last three runs of a history, most recent first, capped
struct Model { last: bool, runs: [u64; 3], count: u64 }
fn observe(t: &BitsRunsTracker, m: &Model) {
    trace(t.last_bit_run_length() as u64);
    check(t.last_bit().is_1() == m.last, "the last bit is known");
    check(t.last_bit_run_length() as u64 == m.runs[0], "the length of the last run is exact up to its cap");
    check(t.opposite_bit_run_length() as u64 == m.runs[1], "the length of the run before is exact up to its cap");
    check(t.last_bit_previous_run_length() as u64 == m.runs[2], "the length of the run two before is exact up to its cap");
    check(t.is_single_bit_run() == (m.runs[1] == 0 && m.runs[2] == 0), "a history of one repeated bit is recognised");
}
fn push(m: &mut Model, b: bool, n: u64) {
    let cap = |x: u64| if x > MAX { MAX } else { x };
    if m.count > 0 && m.last == b { m.runs[0] = cap(m.runs[0] + n) }
    else { m.runs = [cap(n), m.runs[0], m.runs[1]]; m.last = b; }
    m.count += n;
}
jobs! {
// every history of a few bits after runs of any length
fn steps() {
    let mut t = BitsRunsTracker::new();
    let mut m = Model { last: false, runs: [0; 3], count: 0 };
    let kind = pick("start", 0, 3);
    if kind > 0 {
        let first = boolean("first");
        let n = u("run", 0, 1200);
        if kind == 1 { t = BitsRunsTracker::for_bit_run(Bit::from(first), n as u16); push(&mut m, first, n); }
        else {
            t = BitsRunsTracker::for_new_node(Bit::from(first), n as u16);
            if n > 0 { push(&mut m, !first, n); } push(&mut m, first, 1);
            if n == 0 { m.runs = [1, 0, 0]; }
            if kind == 3 { // a new run of the other bit on top
                let b = !first; t = t.updated(Bit::from(b)); push(&mut m, b, 1); }
        }
        if m.runs[0] == 0 { m.last = first; }
    }
    observe(&t, &m);
    for _ in 0..param("steps", 5) {
        let b = boolean("bit");
        t = t.updated(Bit::from(b));
        if m.runs[0] == 0 { m.runs[0] = 1; m.last = b; m.count = 1; } else { push(&mut m, b, 1); }
        observe(&t, &m);
    }
    reach("end");
}
// long runs, one bit at a time, through the cap
fn long_runs() {
    let a = u("a", 1, 2); let b = u("b", 995, 1004); let c = u("c", 1, 3);
    let first = pick("first", 0, 1) == 1;
    let mut t = BitsRunsTracker::new(); let mut m = Model { last: false, runs: [0; 3], count: 0 };
    let order = pick("order", 0, 2);
    let lens = match order { 0 => [concretize(a), concretize(b), concretize(c)], 1 => [concretize(b), concretize(a), concretize(c)], _ => [concretize(a), concretize(c), concretize(b)] };
    let mut bit = first;
    for n in lens.iter() { for _ in 0..*n { t = t.updated(Bit::from(bit)); } push(&mut m, bit, *n); observe(&t, &m); bit = !bit; }
    reach("end");
}
}
