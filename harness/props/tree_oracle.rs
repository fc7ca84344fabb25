// shared by c19, c20, c21: symbolic inputs for history sources and the plain search they are compared with
use demixer::bit::Bit;
use demixer::estimators::cost::CostTracker;
use demixer::history::{CollectedContextStates, ContextState, HistorySource};
use demixer::history::state::bits_runs::BitsRunsTracker;
use demixer::history::state::recent_bits::RecentBitsHistory;
use demixer::history::tree::*;
use demixer::history::tree::node::CostTrackers;
use demixer::lut::LookUpTables;

// An alphabet of distinct bytes. Every set of `n` bytes is covered: one path per shape of their binary trie
// (where they differ and how), every bit on which they all agree, or on which only one byte has a say, is symbolic.
#[derive(Clone, Copy, PartialEq)]
enum B { Free(usize), Fixed(u64) }
struct Letters { bits: Vec<[B; 8]>, vars: Vec<u64> }
impl Letters {
    fn new(n: usize, positions: &[usize]) -> Letters {
        let mut l = Letters { bits: Vec::new(), vars: Vec::new() };
        let first = l.fresh(0, [B::Fixed(0); 8]);
        l.bits.push(first);
        while l.bits.len() < n {
            let mut choices = Vec::new();
            for p in 0..l.bits.len() { for &q in positions {
                let same = |o: usize, upto: usize| (0..upto).all(|k| l.bits[o][k] == l.bits[p][k]);
                if (0..p).any(|o| same(o, q + 1)) { continue; } // the same place is reached from an earlier letter
                if (0..l.bits.len()).any(|o| same(o, q) && l.bits[o][q] != l.bits[p][q]) { continue; } // already branching here
                choices.push((p, q));
            } }
            let (p, q) = choices[pick("branch", 0, choices.len() as u64 - 1) as usize];
            let mine = l.bits[p][q];
            let value = pick("order", 0, 1);
            for o in 0..l.bits.len() { if l.bits[o][q] == mine && (0..q).all(|k| l.bits[o][k] == l.bits[p][k]) { l.bits[o][q] = B::Fixed(value); } }
            let mut prefix = l.bits[p];
            prefix[q] = B::Fixed(1 - value);
            let new = l.fresh(q + 1, prefix);
            l.bits.push(new);
        }
        l
    }
    fn fresh(&mut self, from: usize, mut b: [B; 8]) -> [B; 8] {
        for k in from..8 { b[k] = B::Free(self.vars.len()); self.vars.push(u("bit", 0, 1)); }
        b
    }
    fn bit(&self, letter: usize, b: usize) -> u64 { match self.bits[letter][7 - b] { B::Free(v) => self.vars[v], B::Fixed(x) => x } } // b counts from the least significant
    fn same(&self, x: usize, y: usize, b: usize) -> bool { (0..7 - b).all(|k| self.bits[x][k] == self.bits[y][k]) } // bits above b agree
    fn same_bit(&self, x: usize, y: usize, b: usize) -> bool { self.bits[x][7 - b] == self.bits[y][7 - b] }
}
fn bit(v: u64) -> Bit { Bit::from(v == 1) }
// every string of length n over at most k letters, up to renaming
fn string(n: usize, k: usize) -> (Vec<usize>, usize) {
    let (mut s, mut used) = (Vec::new(), 0);
    for _ in 0..n { let c = pick("letter", 0, used.min(k - 1) as u64) as usize; used = used.max(c + 1); s.push(c); }
    (s, used)
}
#[derive(Clone, Debug)]
struct Expected { distance: usize, branching: bool, repeated: u64, inside: usize }
// contexts of the byte at i before its bit b, found by searching the last bytes from `start` on
fn search(l: &Letters, s: &[usize], start: usize, i: usize, b: usize, order: usize) -> Vec<Expected> {
    let mut out = Vec::new();
    for k in 0..order + 1 {
        if i < k + start { break; }
        let cur = i - k;
        let (mut last, mut count, mut other) = (None, 0, false);
        for st in (start..cur).rev() {
            if s[st..st + k] == s[cur..i] && l.same(s[st + k], s[i], b) {
                count += 1;
                match last { None => last = Some(st), Some(t) => { let t: usize = t; if !l.same_bit(s[t + k], s[st + k], b) { other = true; } } }
            }
        }
        match last { None => break, Some(t) => out.push(Expected { distance: cur - t, branching: other, repeated: l.bit(s[t + k], b), inside: count }) }
    }
    out
}
fn symbolic_trackers(states: &[ContextState]) -> Vec<CostTrackers> {
    states.iter().filter(|c| c.is_for_node()).map(|_| CostTrackers::new(CostTracker::new(u("cost", 0, 65535) as u16), CostTracker::new(u("cost", 0, 65535) as u16))).collect()
}
fn neutral_trackers(states: &[ContextState]) -> Vec<CostTrackers> { states.iter().filter(|c| c.is_for_node()).map(|_| CostTrackers::DEFAULT).collect() }
