use demixer::bit::Bit;
use demixer::estimators::cost::CostTracker;
use demixer::estimators::decelerating::DeceleratingEstimator;
use demixer::fixed_point::*;
use demixer::fixed_point::types::*;
use demixer::history::{CollectedContextStates, ContextState};
use demixer::history::state::bits_runs::BitsRunsTracker;
use demixer::history::state::recent_bits::RecentBitsHistory;
use demixer::history::tree::node::CostTrackers;
use demixer::lut::LookUpTables;
use demixer::mixing::mixer::*;
use demixer::predictor::chain::ContextsChainPredictionMixer;

type P2 = (FractOnlyU32, StretchedProbD);
// what one context looks like to this check
#[derive(Clone)]
struct C { node: bool, distance: u64, bit: bool, count: u16, p: u64, run: u16, other: u16, s: u64, n: u64 }
impl C {
    fn state(&self) -> ContextState {
        if self.node {
            let b = Bit::from(self.bit);
            let mut runs = BitsRunsTracker::for_bit_run(!b, self.other);
            for _ in 0..self.run { runs = runs.updated(b); }
            ContextState::ForNode {
                last_occurrence_distance: self.distance as usize,
                probability_estimator: DeceleratingEstimator::make(FractOnlyU32::new((self.p << 9) as u32, 31), self.count),
                recent_bits: RecentBitsHistory::new_unchecked(1), bits_runs: runs,
                cost_trackers: CostTrackers::new(CostTracker::new(self.s as u16), CostTracker::new(self.n as u16)),
            }
        } else {
            ContextState::ForEdge { last_occurrence_distance: self.distance as usize, occurrence_count: self.count, repeated_bit: Bit::from(self.bit) }
        }
    }
}
fn far(d: u64) -> u64 { if d < 100 { 0 } else if d < 1000 { 1 } else if d < 10000 { 2 } else { 3 } }
// lengths count alike when they share their two leading binary digits
fn length(n: u16) -> u64 { if n < 2 { n as u64 } else { let mut n = n as u64; let mut z = 0; while n > 3 { n /= 2; z += 1; } 10 * z + n } }
// which coder was cheaper lately, and by how much
fn cheaper(s: u64, n: u64) -> u64 { let (s, n) = (s as u32, n as u32); if s + s / 2 < n { 0 } else if s + s / 8 < n { 1 } else if s < n { 2 } else if s < n + n / 8 { 3 } else if s < n + n / 2 { 4 } else { 5 } }

// reference: every kind of situation has its own mixer and its own estimator
struct Model<'a> { luts: &'a LookUpTables, node: Vec<([u64; 6], Mixer3)>, edge: Vec<([u64; 5], Mixer4)>, est: Vec<([u64; 4], DeceleratingEstimator)> }
fn slot<K: PartialEq, V, F: Fn() -> V>(v: &mut Vec<(K, V)>, k: K, f: F) -> usize {
    for i in 0..v.len() { if v[i].0 == k { return i; } }
    v.push((k, f())); v.len() - 1
}
impl<'a> Model<'a> {
    // predictions of every order, then what is learnt from the bit
    fn round(&mut self, chain: &[C], byte: u8, bit: Bit) -> (P2, Vec<(u64, u64)>) {
        let luts = self.luts;
        let mut last: P2 = (FractOnlyU32::HALF, StretchedProbD::ZERO);
        let mut costs = Vec::new();
        let stretched = |e: &DeceleratingEstimator| (e.prediction(), luts.stretch_lut().stretch(e.prediction()));
        for (o, c) in chain.iter().enumerate() {
            let top = (o + 1 == chain.len()) as u64;
            let same = if o == 0 { 0 } else if chain[o - 1].node && !c.node { 2 }
                else { (chain[o - 1].count == c.count && (!c.node || chain[o - 1].p == c.p)) as u64 };
            if c.node {
                let e = slot(&mut self.est, [1, o as u64, length(c.run), c.bit as u64], DeceleratingEstimator::new);
                let m = slot(&mut self.node, [o as u64, top, same, cheaper(c.s, c.n), far(c.distance), length(c.other)], || Mixer3::new(10, MixerInitializationMode::DominantFirst));
                let (runs, own) = (stretched(&self.est[e].1), { let q = FractOnlyU32::new((c.p << 9) as u32, 31); (q, luts.stretch_lut().stretch(q)) });
                let mixer = &mut self.node[m].1;
                mixer.set_input(0, last.0, last.1); mixer.set_input(1, own.0, own.1); mixer.set_input(2, runs.0, runs.1);
                last = mixer.mix_all(luts.squash_lut());
                mixer.update_and_reset(bit, last.0, 100, luts.d_estimator_rates());
                self.est[e].1.update(bit, luts.d_estimator_rates());
                let cost = |old: u64, p: FractOnlyU32| CostTracker::new(old as u16).updated_on_bit(p, bit, luts).raw() as u64;
                costs.push((cost(c.s, own.0), cost(c.n, runs.0)));
            } else {
                let e = slot(&mut self.est, [0, o as u64, length(c.count), byte as u64], DeceleratingEstimator::new);
                let m = slot(&mut self.edge, [o as u64, top, same, far(c.distance), c.bit as u64], || Mixer4::new(10, MixerInitializationMode::DominantFirst));
                let seen = stretched(&self.est[e].1);
                let fixed = StretchedProbD::new(2 << 21, 21);
                let direct = luts.direct_predictions().for_0_bit_run(c.count);
                let mixer = &mut self.edge[m].1;
                mixer.set_input(0, last.0, last.1); mixer.set_input(1, direct.0, direct.1);
                mixer.set_input(2, luts.squash_lut().squash(fixed), fixed); mixer.set_input(3, seen.0, seen.1);
                last = mixer.mix_all(luts.squash_lut());
                mixer.update_and_reset(bit, last.0, 300, luts.d_estimator_rates());
                self.est[e].1.update(bit, luts.d_estimator_rates());
            }
        }
        (last, costs)
    }
}
fn collect(chain: &[C]) -> CollectedContextStates { let mut c = CollectedContextStates::new(8); for x in chain { c.push(x.state()); } c }
fn distance(class: u64) -> u64 { match class { 0 => u("distance", 0, 99), 1 => u("distance", 100, 999), 2 => u("distance", 1000, 9999), _ => u("distance", 10000, 1 << 24) } }
fn base(kinds: u64) -> Vec<C> {
    let nodes: &[bool] = match kinds { 0 => &[], 1 => &[true], 2 => &[false], 3 => &[true, true], 4 => &[true, false], 5 => &[false, false], _ => &[true, true, false] };
    nodes.iter().enumerate().map(|(o, &node)| C { node, distance: distance(1), bit: o != 1, count: 3 + o as u16, p: (1 << 21) + 400_000 * (o as u64 + 1), run: 2, other: 4, s: u("stationary", 400, 410), n: u("non_stationary", 420, 430) }).collect()
}
fn vary(chain: &mut Vec<C>, how: u64, byte: &mut u8) {
    let last = chain.len() - 1;
    match how {
        0 => (),
        1 => { let k = pick("class", 0, 3); chain[last].distance = distance(k); }
        2 => chain[last].bit = !chain[last].bit,
        3 => chain[last].count = [1, 2, 3, 5, 6, 1000][pick("count", 0, 5) as usize],
        4 => *byte = [66, 4, 255][pick("byte", 0, 2) as usize],
        5 => chain[last].run = [1, 2, 3, 4, 5, 6, 40][pick("run", 0, 6) as usize],
        6 => chain[last].other = [0, 1, 3, 5, 6, 1000][pick("other", 0, 5) as usize],
        7 => { chain[last].s = u("stationary_any", 0, 65535); chain[last].n = u("non_stationary_any", 0, 65535); }
        8 => { if last > 0 { chain[last].count = chain[last - 1].count; chain[last].p = chain[last - 1].p; } }
        9 => { chain.pop(); }
        _ => { let mut c = chain[last].clone(); c.node = false; c.count += 1; chain.push(c); }
    }
}
fn play(chain: &mut ContextsChainPredictionMixer, model: &mut Model, c: &[C], byte: u8) {
    let contexts = collect(c);
    let p = chain.predict(&contexts, byte);
    let bit = boolean("bit");
    let costs = chain.update(Bit::from(bit), &contexts);
    let (q, expected) = model.round(c, byte, Bit::from(bit));
    check(p.0.raw() > 0 && p.0.raw() < 1 << 31, "the mixed probability lies strictly between 0 and 1");
    check(p.0.raw() == q.0.raw() && p.1.raw() == q.1.raw(), "the prediction is the one of the mixers and estimators of this situation");
    check(costs.len() == expected.len(), "one pair of cost trackers per branching context");
    for i in 0..expected.len() {
        check(costs[i].stationary().raw() as u64 == expected[i].0, "the stationary cost grows by the cost under the estimator of the context");
        check(costs[i].non_stationary().raw() as u64 == expected[i].1, "the other cost grows by the cost under the estimator of the run");
    }
    trace(p.0.raw() as u64);
}
jobs! {
fn situations() {
    let luts = LookUpTables::new();
    let mut chain = ContextsChainPredictionMixer::new(3, &luts);
    let mut model = Model { luts: &luts, node: Vec::new(), edge: Vec::new(), est: Vec::new() };
    let kinds = pick("kinds", 0, param("kinds", 5));
    let a = base(kinds); let mut b = a.clone(); let (ba, mut bb) = (65, 65);
    play(&mut chain, &mut model, &a, ba);
    if !a.is_empty() {
        let how = pick("vary", 0, 10);
        vary(&mut b, how, &mut bb);
        play(&mut chain, &mut model, &b, bb);
    }
    play(&mut chain, &mut model, &a, ba);
    reach("end");
}
// every estimate of a window, in trained mixers
fn estimates() {
    let luts = LookUpTables::new();
    let mut chain = ContextsChainPredictionMixer::new(1, &luts);
    let mut model = Model { luts: &luts, node: Vec::new(), edge: Vec::new(), est: Vec::new() };
    let mut c = base(pick("kinds", 0, 1) * 2 + 1);
    for _ in 0..pick("rounds", 0, param("rounds", 1)) { play(&mut chain, &mut model, &c, 7); }
    let last = c.len() - 1;
    let w = param("window", 16);
    let at = match pick("at", 0, 4) { 0 => 1, 1 => (1 << 19) - w / 2, 2 => (1 << 21) - w / 2, 3 => (1 << 21) + 1000, _ => (1 << 22) - w };
    c[last].p = u("estimate", at, at + w - 1);
    c[last].count = 1000;
    play(&mut chain, &mut model, &c, 7);
    reach("end");
}
fn refusals() {
    let luts = LookUpTables::new();
    let mut chain = ContextsChainPredictionMixer::new(1, &luts);
    let mut model = Model { luts: &luts, node: Vec::new(), edge: Vec::new(), est: Vec::new() };
    let a = base(pick("kinds", 1, 5));
    if boolean("used") { play(&mut chain, &mut model, &a, 0); }
    match pick("how", 0, 3) {
        0 => { reach("twice"); let s = collect(&a); chain.predict(&s, 1); expect_panic("predicting twice without an update"); chain.predict(&s, 1); }
        1 => { reach("update"); expect_panic("updating without predicting"); chain.update(Bit::from(boolean("bit")), &collect(&a)); }
        2 => { reach("order"); let b = base(3); let mut e = base(2); e.push(b[1].clone()); expect_panic("a branching context longer than an unbranched one"); chain.predict(&collect(&e), 1); }
        _ => { reach("long"); let mut b = base(3); let x = b[1].clone(); b.push(x); expect_panic("more contexts than the mixer was made for"); chain.predict(&collect(&b), 1); }
    }
}
}
