use demixer::bit::Bit;
use demixer::util::hash::Fnv1A;
use demixer::util::last_bytes::{LastBytesCache, UnfinishedByte};

fn fnv(bytes: &[u8]) -> u64 {
    let mut h: u64 = 14695981039346656037;
    for &b in bytes { h = (h ^ b as u64).wrapping_mul(1099511628211); }
    h
}
fn fold16(h: u64) -> u16 {
    let h = h ^ (h >> 32);
    let h = h as u32;
    (h ^ (h >> 16)) as u16
}
// h: the complete bytes so far, oldest first; n, v: the bits of the unfinished byte
fn observe(c: &LastBytesCache, h: &[u8], n: u32, v: u8) {
    let l = h.len();
    let b = |k: usize| if l >= k { h[l - k] } else { 0 };
    check(c.previous_byte_1() == b(1), "the previous byte");
    check(c.previous_byte_2() == b(2), "the byte before the previous byte");
    check(c.previous_byte_3() == b(3), "the third last byte");
    let uf = (1u8 << n) | v;
    check(c.unfinished_byte().raw() == uf, "the unfinished byte shows its bits after a leading one");
    check((c.unfinished_byte() == UnfinishedByte::EMPTY) == (n == 0), "a byte without bits is recognised");
    check(c.hash01_16() == (1u16 << (8 + n)) + ((b(1) as u16) << n) + v as u16, "the order-1 hash is the previous byte and the unfinished bits");
    check(c.hash02_16() == fold16(fnv(&[b(2), b(1), uf])), "the order-2 hash is FNV-1a of two bytes and the unfinished byte");
    check(c.hash03_16() == fold16(fnv(&[b(3), b(2), b(1), uf])), "the order-3 hash is FNV-1a of three bytes and the unfinished byte");
    trace(c.hash01_16() as u64); trace(c.hash02_16() as u64); trace(c.hash03_16() as u64);
}
jobs! {
fn histories() {
    let mut c = LastBytesCache::new();
    let mut h: Vec<u8> = Vec::new();
    let bytes = param("bytes", 5);
    for _ in 0..bytes {
        let x = u("byte", 0, 255) as u8;
        c.start_new_byte();
        for n in 0..8 {
            observe(&c, &h, n, if n == 0 { 0 } else { x >> (8 - n) });
            c.on_next_bit(Bit::from((x >> (7 - n)) & 1 == 1));
        }
        h.push(x);
    }
    reach("end");
}
fn refusals() {
    let mut c = LastBytesCache::new();
    let bytes = pick("bytes", 0, 2);
    for _ in 0..bytes { c.start_new_byte(); for _ in 0..8 { c.on_next_bit(Bit::from(boolean("bit"))); } }
    let n = pick("bits", 0, 8);
    if n > 0 || pick("started", 0, 1) == 1 { c.start_new_byte(); for _ in 0..n { c.on_next_bit(Bit::from(boolean("bit"))); }
        if n < 8 {
            reach("middle");
            expect_panic("a byte cannot be started before the previous one is complete");
            c.start_new_byte();
            return;
        } }
    reach("complete");
    match pick("use", 0, 2) {
        0 => { expect_panic("a bit cannot be added to a complete byte"); c.on_next_bit(Bit::from(boolean("bit"))); }
        1 => { expect_panic("there is no unfinished byte"); trace(c.unfinished_byte().raw() as u64); }
        _ => { expect_panic("there is no unfinished byte to hash"); trace(c.hash01_16() as u64); }
    }
}
fn fnv1a() {
    let mut f = Fnv1A::new(); let mut g = Fnv1A::new(); let mut k = Fnv1A::new();
    let n = pick("length", 0, param("length", 8));
    let mut h: Vec<u8> = Vec::new();
    for _ in 0..n { let x = u("byte", 0, 255) as u8; h.push(x); f.mix_byte(x); g.mix_byte(x); k.mix_byte(x); }
    let m = fnv(&h);
    trace(m);
    check(f.into_u64() == m, "FNV-1a, 64 bits");
    check(g.into_u32() == (m ^ (m >> 32)) as u32, "FNV-1a folded to 32 bits");
    check(k.into_u16() == fold16(m), "FNV-1a folded to 16 bits");
    reach("end");
}
}
