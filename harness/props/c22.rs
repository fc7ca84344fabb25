use demixer::bit::Bit;
use demixer::coding::FinalProbability;
use demixer::coding::decoder::Decoder;
use demixer::coding::encoder::Encoder;
use demixer::fixed_point::*;
use demixer::history::{CollectedContextStates, HistorySource};
use demixer::history::tree::TreeHistorySource;
use demixer::history::fat_map::FatMapHistorySource;
use demixer::lut::LookUpTables;
use demixer::predictor::Predictor;
use demixer::predictor::chain::ContextsChainPredictionMixer;
use demixer::predictor::post_process::PredictionFinalizer;
use demixer::util::last_bytes::LastBytesCache;

const ORDER: usize = 20;
fn valid(p: FinalProbability) -> FinalProbability { check(p.raw() >= 1 && p.raw() < 1 << 23, "the probability lies strictly between 0 and 1"); p }
fn bits_of(b: u64) -> Vec<bool> { (0..8).rev().map(|k| b >> k & 1 == 1).collect() }

// the parts of the predictor, put together by the check
struct Parts<'a, H: HistorySource<'a>> { last: LastBytesCache, history: H, chain: ContextsChainPredictionMixer<'a>, last_step: PredictionFinalizer<'a>, contexts: CollectedContextStates }
impl<'a, H: HistorySource<'a>> Parts<'a, H> {
    fn new(luts: &'a LookUpTables) -> Self { Parts { last: LastBytesCache::new(), history: H::new(1000, ORDER, luts), chain: ContextsChainPredictionMixer::new(ORDER, luts), last_step: PredictionFinalizer::new(luts), contexts: CollectedContextStates::new(ORDER) } }
    fn start(&mut self) { self.last.start_new_byte(); self.history.start_new_byte(); }
    fn predict(&mut self) -> FinalProbability {
        self.contexts = CollectedContextStates::new(ORDER);
        self.history.gather_history_states(&mut self.contexts);
        let m = self.chain.predict(&self.contexts, self.last.unfinished_byte().raw());
        self.last_step.refine(m.0, m.1, self.contexts.items().len(), &self.last)
    }
    fn update(&mut self, bit: Bit) {
        let costs = self.chain.update(bit, &self.contexts);
        self.history.process_input_bit(bit, &costs);
        self.last_step.update(bit, self.contexts.items().len(), &self.last);
        self.last.on_next_bit(bit);
    }
}

// everything is made before the first choice, and shared by all paths
struct All<'a> { a: Predictor<'a>, e: Predictor<'a>, d: Predictor<'a>, t: Parts<'a, TreeHistorySource<'a>>, f: Parts<'a, FatMapHistorySource<'a>> }
impl<'a> All<'a> {
    fn new(luts: &'a LookUpTables) -> Self { All { a: Predictor::new(luts), e: Predictor::new(luts), d: Predictor::new(luts), t: Parts::new(luts), f: Parts::new(luts) } }
    fn parts(&mut self, bits: &[bool], map: bool) {
        for (i, &b) in bits.iter().enumerate() {
            if i % 8 == 0 { self.a.start_new_byte(); self.t.start(); if map { self.f.start(); } }
            let p = valid(self.a.predict());
            check(self.t.predict().raw() == p.raw(), "the predictor equals its parts put together");
            if map { check(self.f.predict().raw() == p.raw(), "the predictor gives the same with the contexts kept in a map"); }
            if i + 1 == bits.len() { trace(p.raw() as u64); }
            let b = Bit::from(b);
            self.a.update(b); self.t.update(b); if map { self.f.update(b); }
        }
    }
    fn round_trip(&mut self, bits: &[bool]) {
        let mut buffer: Vec<u8> = Vec::with_capacity(4096);
        {
            let mut e = Encoder::new(&mut buffer);
            for (i, &b) in bits.iter().enumerate() { if i % 8 == 0 { self.e.start_new_byte(); } e.encode_bit(valid(self.e.predict()), Bit::from(b)); self.e.update(Bit::from(b)); }
        }
        let mut slice: &[u8] = &buffer;
        {
            let mut d = Decoder::new(&mut slice);
            for (i, &b) in bits.iter().enumerate() {
                if i % 8 == 0 { self.d.start_new_byte(); }
                let x = d.decode_bit(self.d.predict());
                check(x.is_1() == b, "a decoder driven by the predictor reproduces the input");
                self.d.update(x);
            }
        }
        check(slice.is_empty(), "the decoder leaves nothing unread");
    }
}
// a free bit; with `fixed` every path fixes it at once
fn free(name: &str) -> bool { let b = boolean(name); if param("fixed", 0) == 1 { concretize(b as u64) == 1 } else { b } }
fn letters() -> (u64, u64) { [(0x61, 0x62), (0, 255), (0x40, 0xc0), (7, 7)][pick("letters", 0, 3) as usize] }
fn text(length: u64) -> Vec<bool> {
    let (x, y) = letters();
    let mut bits = Vec::new();
    for _ in 0..length { bits.extend(bits_of(if free("letter") { x } else { y })); }
    bits
}
jobs! {
fn bytes() {
    let luts = LookUpTables::new();
    let mut all = All::new(&luts);
    let n = param("bits", 9);
    let bits: Vec<bool> = (0..n).map(|_| free("bit")).collect();
    all.parts(&bits, param("map", 1) == 1);
    all.round_trip(&bits);
    reach("end");
}
fn texts() {
    let luts = LookUpTables::new();
    let mut all = All::new(&luts);
    let bits = text(param("length", 4));
    all.parts(&bits, param("map", 1) == 1);
    all.round_trip(&bits);
    reach("end");
}
// long runs (every count saturates), then any bits
fn runs() {
    let luts = LookUpTables::new();
    let mut a = Predictor::new(&luts);
    let letter = [0, 255, 0x55][pick("run_of", 0, 2) as usize];
    let n = param("length", 1010);
    let mut same = 0;
    for i in 0..n {
        a.start_new_byte();
        for b in bits_of(letter) {
            let p = valid(a.predict()).raw();
            if i > 20 { check(if b { p < 1 << 22 } else { p > 1 << 22 }, "after twenty equal bytes the same byte is expected"); }
            if i + 1 == n { same += if b { p } else { (1 << 23) - p }; }
            a.update(Bit::from(b));
        }
    }
    check(same < 8 * (1 << 12), "after a long run its byte is almost certain");
    a.start_new_byte();
    for _ in 0..param("free", 3) { let p = valid(a.predict()).raw(); trace(p as u64); a.update(Bit::from(boolean("bit"))); }
    reach("end");
}
fn refusals() {
    let luts = LookUpTables::new();
    let mut a = Predictor::new(&luts);
    let n = pick("bits", 0, 9);
    let how = pick("how", 0, 3);
    if n > 0 || how != 3 { a.start_new_byte(); }
    for i in 0..n { a.predict(); a.update(Bit::from(boolean("bit"))); if i == 7 { a.start_new_byte(); } }
    match how {
        0 => { reach("twice"); a.predict(); expect_panic("predicting twice without an update"); a.predict(); }
        1 => { reach("update"); expect_panic("updating without predicting"); a.update(Bit::from(boolean("bit"))); }
        2 => { reach("start"); a.predict(); expect_panic("starting a byte in the middle of a prediction"); a.start_new_byte(); }
        _ => if n == 0 { reach("none"); expect_panic("predicting before any byte was started"); a.predict(); }
             else { reach("middle"); if n % 8 == 0 { return; } expect_panic("starting a byte before the previous one is complete"); a.start_new_byte(); }
    }
}
}
