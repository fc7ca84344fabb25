use demixer::bit::Bit;
use demixer::coding::FinalProbability;
use demixer::estimators::cost::CostTracker;
use demixer::estimators::decelerating::DeceleratingEstimator;
use demixer::fixed_point::*;
use demixer::fixed_point::types::*;
use demixer::history::{CollectedContextStates, ContextState};
use demixer::history::state::bits_runs::BitsRunsTracker;
use demixer::history::state::recent_bits::RecentBitsHistory;
use demixer::history::tree::node::CostTrackers;
use demixer::lut::LookUpTables;
use demixer::predictor::Predictor;
use demixer::predictor::stats::PredictionStatistics;
use demixer::util::last_bytes::LastBytesCache;

// contexts of one bit: how many branching ones, how many unbranched ones after them, occurrences of the longest
fn contexts(nodes: u64, edges: u64, occurrences: u16) -> CollectedContextStates {
    let mut c = CollectedContextStates::new(32);
    for i in 0..nodes + edges {
        let count = if i + 1 == nodes + edges { occurrences } else { 999 };
        c.push(if i < nodes { ContextState::ForNode { last_occurrence_distance: 5, probability_estimator: DeceleratingEstimator::make(FractOnlyU32::HALF, count), recent_bits: RecentBitsHistory::new_unchecked(1), bits_runs: BitsRunsTracker::NEW, cost_trackers: CostTrackers::new(CostTracker::INITIAL, CostTracker::INITIAL) } }
            else { ContextState::ForEdge { last_occurrence_distance: 5, occurrence_count: count, repeated_bit: Bit::Zero } });
    }
    c
}
// what the statistics must say
struct Sums { cost: i64, contexts: u64, bytes: u64, byte: i64, kind: Vec<(u64, i64, u64)>, symbol: Vec<(u8, u64, i64)> }
fn compare(s: &PredictionStatistics, m: &Sums) {
    check(s.verif_total_bytes() == m.bytes, "every started byte is counted");
    check(s.verif_total_contexts_count() == m.contexts, "every context of every bit is counted");
    check(s.verif_total_cost() == m.cost, "the total cost is the sum of the costs of the bits with a context");
    let (mut kinds, mut bits, mut all_bits) = (0, 0, 0);
    for i in 0..25 { let (n, c, o) = s.verif_per_order(i); let k = &m.kind[i]; kinds += c; bits += n as u64; all_bits += k.0;
        check(n as u64 == k.0 && o == k.2, "bits and occurrences are counted for the kind of their contexts");
        check(c == k.1, "costs are counted for the kind of the contexts"); }
    check(kinds == m.cost && bits == all_bits, "the costs by kind of context add up to the total");
    let (mut symbols, mut count) = (0, 0);
    for i in 0..256 { let (n, c) = s.verif_per_symbol(i as u8); symbols += c; count += n as u64; if n > 0 || m.symbol.iter().any(|x| x.0 as usize == i) {
        let e: Vec<_> = m.symbol.iter().filter(|x| x.0 as usize == i).collect();
        check(e.len() == 1 && n as u64 == e[0].1, "every completed byte is counted for its value");
        check(c == e[0].2, "the cost of a byte is counted for its value"); } }
    if m.bytes > 0 {
        check(s.verif_current_byte_cost() == m.byte, "the cost of the unfinished byte is the sum of its bits");
        check(symbols + m.byte == m.cost && count + 1 == m.bytes, "the costs by value and of the unfinished byte add up to the total");
    }
}
fn sums() -> Sums { Sums { cost: 0, contexts: 0, bytes: 0, byte: 0, kind: vec![(0, 0, 0); 25], symbol: Vec::new() } }
impl Sums {
    fn start(&mut self, previous: Option<u8>) {
        if let Some(b) = previous { match self.symbol.iter().position(|x| x.0 == b) { Some(i) => { self.symbol[i].1 += 1; self.symbol[i].2 += self.byte; } None => self.symbol.push((b, 1, self.byte)) } }
        self.byte = 0; self.bytes += 1;
    }
    fn bit(&mut self, nodes: u64, edges: u64, occurrences: u64, cost: i64) {
        let n = nodes + edges;
        self.contexts += n;
        if n == 0 { return; }
        self.cost += cost; self.byte += cost;
        let k = &mut self.kind[((n - 1).min(4) * 5 + edges.min(4)) as usize];
        k.0 += 1; k.1 += cost; k.2 += occurrences;
    }
}
// minus the logarithm, as fixed-point number of 11 bits, of the probability of the bit
fn cost(p: u64, bit: bool, luts: &LookUpTables) -> i64 { FinalProbability::new(p as u32, 23).estimate_cost(Bit::from(bit), luts.log2_lut()).raw() as i64 }

jobs! {
fn bits() {
    let luts = LookUpTables::new();
    let mut s = PredictionStatistics::new(20, &luts);
    let mut m = sums();
    let mut last = LastBytesCache::new();
    compare(&s, &m);
    let free = param("free", 2);
    let skip = pick("before", 0, 2) * 7;
    let mut byte = None;
    let mut value = 0u64;
    for i in 0..skip + free {
        if i % 8 == 0 { last.start_new_byte(); s.start_new_byte(&last); m.start(byte); value = 0; compare(&s, &m); }
        let (nodes, edges, p, bit, occ);
        if i >= skip {
            let shape = pick("shape", 0, 7) as usize;
            nodes = [0, 1, 0, 2, 1, 6, 1, 3][shape]; edges = [0, 0, 1, 0, 1, 0, 6, 2][shape];
            let w = param("window", 8);
            p = match pick("at", 0, 3) { 0 => u("p", 1, w), 1 => u("p", 3_000_000, 3_000_000 + w), 2 => u("p", 5_800_000, 5_800_000 + w), _ => u("p", (1 << 23) - w, (1 << 23) - 1) };
            bit = boolean("bit");
            occ = u("occurrences", 1, 1000);
        } else { nodes = (i * 7 + 1) % 4; edges = i % 3; p = 1 << (1 + i); bit = i % 3 == 0; occ = i + 1; }
        let f = FinalProbability::new(p as u32, 23);
        s.on_next_bit(Bit::from(bit), &contexts(nodes, edges, occ as u16), f);
        last.on_next_bit(Bit::from(bit));
        m.bit(nodes, edges, occ, cost(p, bit, &luts));
        value = value * 2 + bit as u64;
        if i % 8 == 7 { byte = Some(concretize(value) as u8); }
        if i >= skip { compare(&s, &m); }
    }
    trace(s.verif_total_cost() as u64);
    reach("end");
}
// the assembled predictor feeds its statistics
fn predictor() {
    let luts = LookUpTables::new();
    let mut a = Predictor::new(&luts);
    let mut total = 0; let mut bytes: Vec<u8> = Vec::new();
    let n = param("bytes", 3);
    let letters = [(0x61, 0x62), (0, 255), (7, 7)][pick("letters", 0, 2) as usize];
    for i in 0..n {
        a.start_new_byte();
        let b: u64 = if boolean("letter") { letters.0 } else { letters.1 };
        let b = concretize(b) as u8;
        for k in (0..8).rev() {
            let bit = b >> k & 1 == 1;
            let before = a.verif_statistics().verif_total_cost();
            let before_contexts = a.verif_statistics().verif_total_contexts_count();
            let p = a.predict().raw() as u64;
            a.update(Bit::from(bit));
            let with = a.verif_statistics().verif_total_contexts_count() > before_contexts;
            let d = a.verif_statistics().verif_total_cost() - before;
            check(d == if with { cost(p, bit, &luts) } else { 0 }, "the cost of the predicted bit is added");
            total += d;
        }
        bytes.push(b);
        check(a.verif_statistics().verif_total_bytes() == i + 1, "bytes are counted");
    }
    a.start_new_byte();
    let s = a.verif_statistics();
    check(s.verif_total_cost() == total, "the total is the sum");
    let mut sum = 0;
    for i in 0..256 { let (c, x) = s.verif_per_symbol(i as u8); sum += x; check(c == bytes.iter().filter(|&&b| b as usize == i).count(), "bytes are counted by value"); }
    check(sum == total, "the costs by value add up");
    reach("end");
}
}
