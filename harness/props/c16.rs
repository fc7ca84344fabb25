use demixer::bit::Bit;
use demixer::fixed_point::*;
use demixer::fixed_point::types::*;
use demixer::lut::LookUpTables;
use demixer::mixing::apm::AdaptiveProbabilityMap;

const ONE: u64 = 1 << 31;
fn sq(x: u64) -> FractOnlyU32 { FractOnlyU32::new(x as u32, 31) }
fn st(x: i64) -> StretchedProbD { StretchedProbD::new(x as i32, 21) }
fn bit(n: &str) -> Bit { Bit::from(pick(n, 0, 1) == 1) }

// a map of some contexts, together with the interval stops it is made from (positions on the stretched and squashed scale)
struct Map<'a> { m: AdaptiveProbabilityMap, bits: u8, luts: &'a LookUpTables, stops: Vec<u64>, first: i64 }
impl<'a> Map<'a> {
    fn new(contexts: usize, bits: u8, luts: &'a LookUpTables) -> Map<'a> {
        let half = 12i64 << bits;
        let stops = (-half..half + 1).map(|k| luts.squash_lut().squash(st(k << (21 - bits))).raw() as u64).collect();
        Map { m: AdaptiveProbabilityMap::new(contexts, bits, luts.squash_lut()), bits, luts, stops, first: -half }
    }
    fn stretched(&self, k: usize) -> i64 { (self.first + k as i64) << (21 - self.bits) }
    fn refine(&mut self, ctx: usize, q: u64, s: i64) -> u64 {
        let r = self.m.refine(ctx, sq(q), st(s), self.luts.apm_lut(self.bits)).raw() as u64;
        check(r < ONE, "a refined probability lies below one");
        r
    }
    fn update(&mut self, ctx: usize, b: Bit, rate: u8, fixed: bool) { self.m.update_predictions(ctx, b, rate, fixed) }
    // the entry at stop k is what refining exactly there gives (the last one only within rounding)
    fn entry(&mut self, ctx: usize, k: usize) -> u64 {
        let q = self.stops[k];
        let s = self.stretched(k);
        self.refine(ctx, q, s)
    }
}
fn refresh<'a>(history: &Vec<(usize, u64, i64, Bit, u8, bool)>, contexts: usize, bits: u8, luts: &'a LookUpTables) -> Map<'a> {
    let mut m = Map::new(contexts, bits, luts);
    for &(c, q, s, b, r, f) in history { m.refine(c, q, s); m.update(c, b, r, f); }
    m
}
const RATES: [u8; 4] = [1, 2, 5, 29];
// a position in interval k: the middle, next to the left end, next to the right end, where the two weights are equal and as given
fn place(m: &Map, k: usize, which: u64) -> (u64, i64) {
    let (a, b) = (m.stops[k], m.stops[k + 1]);
    let q = match which { 0 => (a + b) / 2, 1 => a, 2 => b - 1, _ => a + (b - a) / 3 };
    (q, m.stretched(k) + 1000)
}
jobs! {
fn stops() {
    let luts = LookUpTables::new();
    for bits in 0..3u8 {
        let m = Map::new(1, bits, &luts);
        let l = luts.apm_lut(bits);
        check(l.stretched_fract_index_bits() == bits && l.squashed_interval_stops().len() == m.stops.len(), "number of stops");
        for k in 0..m.stops.len() { check(l.squashed_interval_stops()[k].raw() as u64 == m.stops[k], "interval stops are equidistant on the stretched scale"); }
    }
    reach("end");
}
fn fresh_any() {
    // every probability of an interval with every stretched position that belongs to the interval
    let luts = LookUpTables::new();
    let bits = pick("bits", 0, 2) as u8;
    let mut m = Map::new(2, bits, &luts);
    let k = pick("interval", 0, (24 << bits) - 1) as usize;
    let (a, b) = (m.stops[k], m.stops[k + 1]);
    let s = m.stretched(k) + i("stretched", 0, (1 << (21 - bits)) - 1);
    let kind = pick("kind", 0, 2);
    let last = k + 1 == 24 << bits;
    if kind == 1 && k > 0 && !last { return; }
    if kind == 2 && last { return; }
    let (q, want, s) = match kind {
        0 => { let q = u("prob", a, b); (q, q, s) }
        // beyond the outermost stops: cut off there
        1 if k == 0 => (u("prob", 1, a), a, s),
        1 => { let q = u("prob", b, ONE - 1); (q, b, s) }
        // squashing rounds: a position just right of a stop may go with a probability just left of it
        _ => { let q = u("prob", b - (b - a) / 8, b - 1); (q, q, m.stretched(k + 1) + i("behind", 0, 1 << 14)) }
    };
    let r = m.refine(pick("context", 0, 1) as usize, q, s);
    trace(r);
    check(r <= want + 4 && want <= r + 4, "a fresh map returns the probability it is given");
    reach("end");
}
fn fresh_pairs() {
    // stretched positions just left and right of every stop together with their squashed probability, which is rounded
    // (elsewhere in an interval the squashed probability lies well inside it, and fresh_any covers every such pair)
    let luts = LookUpTables::new();
    let bits = pick("bits", param("bits", 0), 2) as u8;
    let mut m = Map::new(1, bits, &luts);
    let cell = (pick("stop", 0, 24 << bits) as i64) * (128 >> bits) - pick("left", 0, 1) as i64;
    if cell < 0 { return; }
    // as far from the stop as a few units of the probability
    let s = if cell == 24 * 128 { 12 << 21 } else {
        let start = (cell << 14) - (12 << 21);
        let d = luts.squash_lut().squash(st(start + (1 << 14))).raw() as i64 - luts.squash_lut().squash(st(start)).raw() as i64;
        let w = ((3 << 14) / d.max(1) + 2).min(param("far", 60) as i64);
        start + if pick("end", 0, 1) == 0 { i("fr", 0, w) } else { i("fr", (1 << 14) - w, (1 << 14) - 1) }
    };
    let q = luts.squash_lut().squash(st(s)).raw() as u64;
    let r = m.refine(0, q, s);
    trace(r);
    if param("close", 1) == 1 { check(r <= q + 4 && q <= r + 4, "a fresh map returns the probability it is given"); }
    reach("end");
}
fn between() {
    // after some training the result at every position lies between the two entries
    let luts = LookUpTables::new();
    let bits = pick("bits", 0, 2) as u8;
    let last = (24usize << bits) - 1;
    let at = pick("around", 0, 6) as usize;
    let base = [0, 1, last / 4, last / 2, last / 2 + 1, last - 1, last][at];
    let mut h = Vec::new();
    let m = Map::new(2, bits, &luts);
    for _ in 0..pick("steps", 0, param("steps", 2)) {
        let k = (base + 2 * pick("near", 0, 1) as usize).max(1).min(last + 1) - 1;
        let (q, s) = place(&m, k, 0);
        let (b, r) = (bit("bit"), [1, 5][pick("rate", 0, 1) as usize]);
        for _ in 0..if r == 1 { 60 } else { 1 } { h.push((1, q, s, b, r, r == 1)); }
    }
    let (l, r) = (refresh(&h, 2, bits, &luts).entry(1, base), if base < last { refresh(&h, 2, bits, &luts).entry(1, base + 1) } else { let mut m = refresh(&h, 2, bits, &luts); let (q, s) = (m.stops[base + 1], m.stretched(base + 1)); m.refine(1, q, s) });
    let mut m = refresh(&h, 2, bits, &luts);
    let (a, b) = (m.stops[base], m.stops[base + 1]);
    let q = u("prob", a, b);
    let x = m.refine(1, q, m.stretched(base) + 1);
    trace(x);
    let slack = if base == last { 5 } else { 1 };
    check(x + slack >= l.min(r) && x <= l.max(r) + slack, "a refined probability lies between the neighbouring entries");
    // and divides the distance between them as the probability divides the interval
    let (d, w) = ((r as i64 - l as i64) as i128, (b - a) as i128);
    let off = (x as i64 - l as i64) as i128 * w - d * (q - a) as i128;
    check(off <= 8 * w && off >= -8 * w, "interpolation is linear");
    reach("end");
}
fn any_entries() {
    // two neighbouring entries of any value (trained at a symbolic position), refined at fixed positions
    let luts = LookUpTables::new();
    let bits = pick("bits", 0, 2) as u8;
    let last = (24usize << bits) - 1;
    let base = [1, last / 4, last / 2, last - 1][pick("around", 0, 3) as usize];
    let m0 = Map::new(1, bits, &luts);
    let mut h = Vec::new();
    let b0 = bit("first_bit");
    for _ in 0..pick("before", 0, 1) * 12 { h.push((0, m0.stops[base], m0.stretched(base), b0, 1, true)); }
    let (a, b) = (m0.stops[base], m0.stops[base + 1]);
    h.push((0, u("where", a, b), m0.stretched(base), bit("bit"), RATES[pick("rate", 0, 1) as usize], false));
    let (l, r) = (refresh(&h, 1, bits, &luts).entry(0, base), refresh(&h, 1, bits, &luts).entry(0, base + 1));
    let mut m = refresh(&h, 1, bits, &luts);
    let (q, s) = place(&m, base, pick("place", 0, 3));
    let x = m.refine(0, q, s);
    trace(x);
    check(x + 1 >= l.min(r) && x <= l.max(r) + 1, "a refined probability lies between the neighbouring entries");
    reach("end");
}
fn learning() {
    // one update: the two entries around the position move towards the bit by their share, the others stay
    let luts = LookUpTables::new();
    let bits = pick("bits", 0, 2) as u8;
    let last = (24usize << bits) - 1;
    let base = [0, last / 4, last / 2, last - 1][pick("around", 0, 3) as usize];
    let m0 = Map::new(3, bits, &luts);
    let mut h = Vec::new();
    for _ in 0..pick("before", 0, param("before", 1)) {
        let (q, s) = place(&m0, base, 0);
        let b = bit("first_bit");
        for _ in 0..16 { h.push((1, q, s, b, 1, true)); }
    }
    let c = pick("observed", 0, 2) as usize;
    let what = pick("entry", 0, if c == 1 { 5 } else { 1 });
    let k = match what { 0 => base, 1 => base + 1, 2 => if base > 0 { base - 1 } else { return }, 3 => if base + 2 <= last { base + 2 } else { return }, 4 => 0, _ => last };
    let e0 = refresh(&h, 3, bits, &luts).entry(c, k) as i64;
    let (a, b) = (m0.stops[base], m0.stops[base + 1]);
    let bt = bit("bit");
    let rate = [1u8, 3, 5, 29][pick("rate", 0, 3) as usize];
    let fixed = pick("fixed", 0, 1) == 1;
    let q = u("where", a, b - 1);
    h.push((1, q, m0.stretched(base), bt, rate, fixed));
    let e1 = refresh(&h, 3, bits, &luts).entry(c, k) as i64;
    trace(e1 as u64);
    if c != 1 || (k != base && k != base + 1) { check(e1 == e0, "only the two entries around the refined position of the context change"); }
    else {
        let err = if bt.is_0() { ONE as i64 - e0 } else { e0 };
        let d = if bt.is_0() { e1 - e0 } else { e0 - e1 };
        check(d >= 0, "an update moves an entry towards the bit");
        check(d < err, "an update never moves an entry onto or beyond the bit");
        // the share of the entry: half, or as near as the position is to it; the rate divides the error by a power of two
        let step = err >> rate;
        let w = (b - a) as i128;
        if fixed { check((2 * d - step).abs() <= 1, "an update moves an entry by half of the error over the rate"); }
        else {
            let part = if k == base { b - q } else { q - a } as i128;
            let off = d as i128 * w - step as i128 * part;
            check(off <= 4 * w, "an update moves an entry by at most its share of the error over the rate");
            check(off >= -4 * w, "an update moves an entry by its share of the error over the rate");
        }
    }
    reach("end");
}
fn refusals() {
    let luts = LookUpTables::new();
    let bits = pick("bits", 0, 2) as u8;
    let contexts = pick("contexts", 1, 3) as usize;
    let mut m = Map::new(contexts, bits, &luts);
    for _ in 0..pick("rounds", 0, 2) { m.refine(0, ONE / 2 + 1000, 12345); m.update(0, bit("bit"), 4, true); }
    let q = u("prob", 1, ONE - 1);
    let k = pick("interval", 0, (24 << bits) - 1) as usize;
    let (lo, hi) = (if k == 0 { 1 } else { m.stops[k] }, m.stops[k + 1]);
    assume(q >= lo && q <= hi);
    let s = m.stretched(k) + 5;
    match pick("misuse", 0, 5) {
        0 => { m.refine(0, q, s); expect_panic("refining twice without an update"); m.refine(contexts - 1, ONE / 2, 0); }
        1 => { expect_panic("updating without refining"); m.update(contexts - 1, Bit::One, 5, true); }
        2 => { m.refine(0, q, s); m.update(0, Bit::Zero, 5, false); expect_panic("updating twice"); m.update(0, Bit::Zero, 5, false); }
        3 => { let c = contexts + [0, 1, 1000][pick("beyond", 0, 2) as usize]; expect_panic("refining in a context that does not exist"); m.refine(c, q, s); }
        4 => { m.refine(0, q, s); let c = u("beyond", contexts as u64, contexts as u64 + 1000) as usize; expect_panic("updating a context that does not exist"); m.update(c, Bit::One, 5, true); }
        _ => { let other = pick("other", 0, 2) as u8; if other != bits { expect_panic("refining with the table of another resolution"); m.m.refine(0, sq(q), st(s), luts.apm_lut(other)); } }
    }
    reach("end");
}
fn refused_rates() {
    let luts = LookUpTables::new();
    let mut m = Map::new(1, 1, &luts);
    m.refine(0, ONE / 3, 12345 - (1 << 20));
    let r = u("rate", 0, 255) as u8;
    let f = pick("fixed", 0, 1) == 1;
    if r == 0 || r >= 30 { expect_panic("the rate is out of range"); m.update(0, Bit::One, r, f); }
    else { m.update(0, Bit::One, r, f); let x = m.refine(0, ONE / 3, 12345 - (1 << 20)); check(x <= ONE / 3 + 4, "an update moves towards the bit"); reach("end"); }
}
}
