use demixer::coding::FinalProbability;
use demixer::coding::decoder::Decoder;
use demixer::fixed_point::*;

const TOP: u32 = (1 << 23) - 1;
const PS: [u32; 5] = [1 << 22, 1, TOP, 0x7f_0000, 12345];
#[derive(Clone, Copy)]
struct Question { rare: bool, p: u32 }
// questions put to the decoder: all with any probability, or one with any and the others from a set that reaches both ends
fn questions(n: u64, free: bool) -> Vec<Question> {
    let at = if free || n == 0 { 0 } else { pick("position", 0, n - 1) };
    (0..n).map(|k| {
        let kind = pick("kind", 0, if free || k == at { 1 } else { param("set", 3) });
        if kind == 0 { Question { rare: true, p: 0 } }
        else if free || k == at { Question { rare: false, p: u32v("p", 1, TOP) } }
        else { Question { rare: false, p: PS[(kind - 1) as usize] } }
    }).collect()
}
fn stream(n: usize, name: &str) -> Vec<u8> {
    let s: Vec<u8> = (0..n).map(|_| u(name, 0, 255) as u8).collect();
    // the code itself is below one: not 31 set bits
    assume(!(s[0] == 255 && s[1] == 255 && s[2] == 255 && s[3] >= 254));
    s
}
fn ask(d: &mut Decoder, q: &Question) -> bool { if q.rare { d.decode_rare_event() } else { d.decode_bit(FinalProbability::new(q.p, 23)).is_1() } }
// the value of the bits of the stream from 31 bits on: the stream is shifted by one bit against the code
struct Code<'a> { s: &'a [u8], next: usize, high: u64 }
impl<'a> Code<'a> { fn byte(&mut self) -> u64 { let b = self.s[self.next] as u64; self.next += 1; let r = (b >> 1) + (self.high << 7); self.high = b & 1; r } }

fn exact(n: u64, free: bool) {
    let qs = questions(n, free);
    let s = stream(4 + 3 * n as usize, "byte");
    let mut left: &[u8] = &s;
    let mut d = Decoder::new(&mut left);
    // oracle: `code` lies in an interval of `range` codes; a question splits it, a small interval is refined by one more byte
    let mut c = Code { s: &s, next: 0, high: 0 };
    let (mut code, mut range) = (0u64, 0x7fff_ffffu64);
    for _ in 0..4 { code = (code << 8) + c.byte(); }
    for q in qs.iter() {
        while range < 1 << 23 { code = (code << 8) + c.byte(); range <<= 8; }
        check(code < range && range < 1 << 31, "the code stays inside the interval");
        let lower = if q.rare { range - 1 } else { (range * q.p as u64) >> 23 };
        check(lower >= 1 && lower < range, "both outcomes keep a part of the interval");
        let one = ask(&mut d, q);
        check(one == (code >= lower), "the part the code lies in decides");
        if one { code -= lower; range -= lower; } else { range = lower; }
    }
    drop(d);
    check(s.len() - left.len() == c.next, "no byte is read before it is needed");
    reach("end");
}
jobs! {
fn splits() { exact(param("questions", 2), true); }
fn splits_longer() { exact(param("questions", 4), false); }
// a larger code never decodes to a smaller sequence of outcomes
fn ordered() {
    let n = param("questions", 3);
    let qs = questions(n, param("free", 0) == 1);
    let (a, b) = (stream(4 + 3 * n as usize, "low"), stream(4 + 3 * n as usize, "high"));
    let first = pick("differ", 0, a.len() as u64 - 1) as usize;
    for k in 0..first { assume(a[k] == b[k]); }
    assume(a[first] < b[first]);
    let (mut x, mut y): (&[u8], &[u8]) = (&a, &b);
    let (mut d, mut e) = (Decoder::new(&mut x), Decoder::new(&mut y));
    for q in qs.iter() {
        let (low, high) = (ask(&mut d, q), ask(&mut e, q));
        check(low <= high, "a larger code decodes to the larger outcome first");
        if low != high { break; }
    }
    reach("end");
}
fn out_of_bytes() {
    let n = pick("length", 0, 3) as usize;
    let s: Vec<u8> = (0..n).map(|_| u("byte", 0, 255) as u8).collect();
    let mut left: &[u8] = &s;
    expect_panic("a code of less than four bytes is refused");
    let mut d = Decoder::new(&mut left);
    trace(d.decode_rare_event() as u64);
}
}
