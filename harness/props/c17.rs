use demixer::bit::Bit;
use demixer::history::window::*;
use std::cell::RefCell;

// a window and, as oracle, the plain list of the bytes it holds
struct Both { w: InputWindow, bytes: Vec<u64>, max: usize, base: usize }
impl Both {
    fn new(max: usize, shift: usize) -> Both { Both { w: InputWindow::new(max, shift), bytes: Vec::new(), max, base: shift } }
    fn open(&mut self) { self.w.advance_cursor(); self.bytes.push(0); }
    fn set(&mut self, b: u64) { self.w.set_byte_at_cursor(b as u8); let n = self.bytes.len(); self.bytes[n - 1] = b; }
    fn set_bit(&mut self, bit: u64, index: u64) { self.w.set_bit_at_cursor(Bit::from(bit == 1), index as usize); let n = self.bytes.len(); self.bytes[n - 1] = (self.bytes[n - 1] & !(1 << index)) | (bit << index); }
    fn drop_first(&mut self) { self.w.advance_start(); self.bytes.remove(0); self.base = (self.base + 1) % self.max; }
    fn at(&self, offset: usize) -> WindowIndex { WindowIndex::new((self.base + offset) % self.max) }
    fn verify(&self) {
        let n = self.bytes.len();
        check(self.w.size() == n && self.w.max_size() == self.max, "size");
        for k in 0..n { check(self.w[self.at(k)] as u64 == self.bytes[k], "bytes stay where they were put"); }
        if n > 0 { check(self.w.start() == self.at(0) && self.w.cursor() == self.at(n - 1), "first and last byte"); }
        let seen = RefCell::new(Vec::new());
        self.w.for_each_suffix(|i| seen.borrow_mut().push(i));
        let seen = seen.borrow();
        check(seen.len() == n, "every suffix is visited once");
        for k in 0..n { check(seen[k] == self.at(k), "suffixes are visited in order"); }
    }
}
// any way to fill a window: bytes of any value, the last one possibly unfinished, old bytes leaving when it is full or earlier
fn filled(max: usize) -> Both {
    let mut b = Both::new(max, pick("shift", 0, max as u64 - 1) as usize);
    let n = pick("bytes", 0, param("bytes", 2 * max as u64));
    let early = pick("early", 0, n);
    for k in 0..n {
        if b.bytes.len() == max { b.drop_first(); }
        b.open();
        if k + 1 < n { b.set(u("byte", 0, 255)); }
        else { match pick("last", 0, 2) { 0 => b.set(u("byte", 0, 255)), j => { let stop = if j == 1 { 0 } else { 4 }; for i in (stop..8).rev() { b.set_bit(u("bit", 0, 1), i); } } } }
        if k + 1 == early && b.bytes.len() > 1 { b.drop_first(); }
    }
    b
}
jobs! {
fn contents() {
    let mut b = filled(pick("max", 1, param("max", 4)) as usize);
    b.verify();
    if b.bytes.len() > 0 { let i = u("index", 0, 7); b.set_bit(u("new_bit", 0, 1), i); b.verify(); }
    while b.bytes.len() > 0 { b.drop_first(); b.verify(); }
    for _ in 0..b.max { b.open(); b.verify(); }
    reach("end");
}
fn compare() {
    let max = pick("max", 1, param("max", 4)) as usize;
    let b = filled(max);
    let n = b.bytes.len();
    if n == 0 { return; }
    let x = pick("first", 0, n as u64 - 1) as usize;
    let y = pick("second", 0, n as u64 - 1) as usize;
    let len = pick("length", 0, (n - 1 - x.max(y)) as u64) as usize;
    let bit = pick("bit_index", 0, 7) as usize;
    // equal in all whole bytes and in the bits above the given one of the next byte
    let mut same = true;
    for k in 0..len { same &= b.bytes[x + k] == b.bytes[y + k]; }
    same &= b.bytes[x + len] >> (bit + 1) == b.bytes[y + len] >> (bit + 1);
    check(b.w.compare_for_equal_prefix(b.at(x), b.at(y), bit, len) == same, "two positions agree up to a bit exactly if their bytes do");
    check(b.w.bytes_differ_on(b.at(x), b.at(y), bit) == ((b.bytes[x] ^ b.bytes[y]) >> bit & 1 == 1), "two bytes differ in a bit exactly if their values do");
    check((b.w.get_bit(b.at(x), bit) == Bit::One) == (b.bytes[x] >> bit & 1 == 1), "a bit of a byte");
    reach("end");
}
fn indices() {
    let max = pick("max", 1, param("max", 6)) as usize;
    let mut b = Both::new(max, pick("shift", 0, max as u64 - 1) as usize);
    for _ in 0..pick("bytes", 1, 2 * max as u64) { if b.bytes.len() == max { b.drop_first(); } b.open(); }
    let n = b.bytes.len() as u64;
    let (x, y) = (pick("first", 0, n - 1) as usize, pick("second", 0, n - 1) as usize);
    check(b.w.index_is_smaller(b.at(x), b.at(y)) == (x < y), "positions are ordered as they were entered");
    check(b.w.index_is_smaller_or_equal(b.at(x), b.at(y)) == (x <= y), "positions are ordered as they were entered (or equal)");
    if x <= y {
        check(b.w.index_add(b.at(x), y - x) == b.at(y), "moving forward");
        check(b.w.index_subtract(b.at(y), y - x) == b.at(x), "moving back");
        check(b.w.index_diff(b.at(y), b.at(x)) == y - x, "distance");
        if x + 1 == y { check(b.w.index_increment(b.at(x)) == b.at(y) && b.w.index_decrement(b.at(y)) == b.at(x), "one step"); }
    }
    reach("end");
}
fn large_indices() {
    // index arithmetic of a full window at any position
    let max = [1usize, 2, 255, 1000][pick("max", 0, 3) as usize];
    let mut w = InputWindow::new(max, 0);
    for _ in 0..max { w.advance_cursor(); }
    let i = u("index", 0, max as u64 - 1) as usize;
    let d = u("distance", 0, max as u64 - 1) as usize;
    let j = w.index_add(WindowIndex::new(i), d);
    trace(j.raw() as u64);
    check(j.raw() < max && (j.raw() == i + d || j.raw() + max == i + d), "moving forward wraps around");
    check(w.index_subtract(j, d).raw() == i, "moving back undoes moving forward");
    check(w.index_diff(j, WindowIndex::new(i)) == d, "distance");
    reach("end");
}
fn refusals() {
    let max = pick("max", 0, 4) as usize;
    if max == 0 { expect_panic("a window of no bytes"); let w = InputWindow::new(0, 0); trace(w.size() as u64); return; }
    let mut b = Both::new(max, pick("shift", 0, max as u64 - 1) as usize);
    for _ in 0..pick("bytes", 0, max as u64) { b.open(); b.set(u("byte", 0, 255)); }
    if pick("misuse", 0, 1) == 0 { while b.bytes.len() > 0 { b.drop_first(); } expect_panic("removing from an empty window"); b.drop_first(); }
    else { while b.bytes.len() < max { b.open(); } expect_panic("adding to a full window"); b.open(); }
}
}
