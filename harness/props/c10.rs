use demixer::bit::Bit;
use demixer::history::state::recent_bits::RecentBitsHistory;
// n <= 15 bits, the oldest in the highest position
fn bits_of(h: &RecentBitsHistory, n: u32, v: u32) {
    trace(h.histogram() as u64); trace(h.last_7_bits() as u64);
    let ones = v.count_ones();
    check(h.is_valid(), "a history is valid");
    check(h.histogram() as u32 == (ones << 4) | (n - ones), "the histogram counts the ones and zeros of the last 15 bits");
    check(h.last_7_bits() as u32 == if n >= 7 { 128 | (v & 127) } else { (1 << n) | v }, "the last 7 bits are the last 7 bits of the history");
}
jobs! {
// any 15-bit-or-shorter history, continued by several bits: always the most recent 15 bits
fn steps() {
    let mut n = pick("length", 0, 15) as u32;
    let mut v = if n == 0 { 0 } else { u32v("bits", 0, (1 << n) - 1) };
    let mut h = RecentBitsHistory::new_unchecked(((1u32 << n) | v) as u16);
    bits_of(&h, n, v);
    for _ in 0..param("steps", 3) {
        let b = boolean("bit");
        h = h.updated(Bit::from(b));
        v = ((v << 1) | b as u32) & 0x7fff;
        if n < 15 { n += 1; }
        check(h == RecentBitsHistory::new_unchecked(((1u32 << n) | v) as u16), "equal recent bits are equal histories");
        bits_of(&h, n, v);
    }
    reach("end");
}
fn runs() {
    let bit = pick("bit", 0, 1) == 1;
    let run = u("run", 0, 65535);
    let n = if run > 15 { 15 } else { concretize(run) as u32 };
    let v = if bit { (1u32 << n) - 1 } else { 0 };
    bits_of(&RecentBitsHistory::for_bit_run(Bit::from(bit), run as u16), n, v);
    let n2 = if n < 15 { n + 1 } else { 15 };
    bits_of(&RecentBitsHistory::for_new_node(Bit::from(!bit), run as u16), n2, ((v << 1) | !bit as u32) & 0x7fff);
    check(!RecentBitsHistory::INVALID.is_valid(), "the invalid history is recognised");
    reach("end");
}
}
