use demixer::bit::Bit;
use demixer::coding::FinalProbability;
use demixer::coding::decoder::Decoder;
use demixer::coding::encoder::Encoder;
use demixer::fixed_point::*;

#[derive(Clone, Copy)]
struct Ev { rare: bool, p: u32, v: bool }

// a concrete prefix that leaves `n` bytes 0xff pending behind the carry position
fn prefix(kind: u64, n: u64) -> Vec<Ev> {
    let mut r = Vec::new();
    for _ in 0..n {
        match kind {
            0 => r.push(Ev { rare: false, p: (1 << 23) - 1, v: true }),
            1 => r.push(Ev { rare: false, p: 1 << 22, v: true }),
            2 => r.push(Ev { rare: true, p: 0, v: true }),
            3 => r.push(Ev { rare: false, p: 0x7f_0000, v: true }),
            4 => r.push(Ev { rare: false, p: 1, v: false }),
            _ => r.push(Ev { rare: true, p: 0, v: false }),
        }
    }
    r
}

fn encode(events: &[Ev]) -> Vec<u8> {
    let mut buffer: Vec<u8> = Vec::with_capacity(256);
    {
        let mut e = Encoder::new(&mut buffer);
        for x in events {
            if x.rare { e.encode_rare_event(x.v) } else { e.encode_bit(FinalProbability::new(x.p, 23), Bit::from(x.v)) }
        }
    }
    buffer
}

fn round_trip(events: &[Ev]) {
    let buffer = encode(events);
    trace(buffer.len() as u64);
    for &b in buffer.iter() { trace(b as u64); }
    let mut slice: &[u8] = &buffer;
    {
        let mut d = Decoder::new(&mut slice);
        for x in events {
            if x.rare { check(d.decode_rare_event() == x.v, "a rare event is decoded as it was encoded") }
            else { check(d.decode_bit(FinalProbability::new(x.p, 23)).is_1() == x.v, "a bit is decoded as it was encoded") }
        }
    }
    check(slice.is_empty(), "the decoder consumes exactly the bytes the encoder wrote");
    reach("end");
}

fn symbolic_events(n: u64, events: &mut Vec<Ev>) {
    for _ in 0..n {
        let rare = pick("rare", 0, 1) == 1;
        let v = pick("value", 0, 1) == 1;
        let p = if rare { 0 } else { u32v("p", 1, (1 << 23) - 1) };
        events.push(Ev { rare, p, v });
    }
}

const PS: [u32; 5] = [1 << 22, 1, (1 << 23) - 1, 0x7f_0000, 12345];
// one event with a fully symbolic probability at any position among events whose
// probabilities come from a set reaching both ends of the range
fn mixed(n: u64, events: &mut Vec<Ev>, set: u64) {
    let at = pick("position", 0, n - 1);
    for k in 0..n {
        let kind = pick("kind", 0, if k == at { 1 } else { set });
        let v = pick("value", 0, 1) == 1;
        if kind == 0 { events.push(Ev { rare: true, p: 0, v }) }
        else if k == at { events.push(Ev { rare: false, p: u32v("p", 1, (1 << 23) - 1), v }) }
        else { events.push(Ev { rare: false, p: PS[(kind - 1) as usize], v }) }
    }
}

// a concrete prefix whose interval keeps straddling the middle of the code space while it narrows, so that a
// long run of 0xff bytes stays undecided: (distance from the low end to the middle, range) as in the coder
fn straddle(pairs: u64) -> Vec<Ev> {
    let (mut d, mut r, mut ev) = (1u64 << 30, 0x7fff_ffffu64, Vec::new());
    let norm = |d: &mut u64, r: &mut u64| while *r < 1 << 23 { *d <<= 8; *r <<= 8; };
    for _ in 0..pairs {
        norm(&mut d, &mut r);
        let p = ((d - 1) << 23) / r;
        if p >= 1 { ev.push(Ev { rare: false, p: p as u32, v: true }); let h = (r * p) >> 23; d -= h; r -= h; }
        norm(&mut d, &mut r);
        let p = (((d + 2) << 23) / r + 1).min((1 << 23) - 1);
        ev.push(Ev { rare: false, p: p as u32, v: false }); r = (r * p) >> 23;
    }
    ev
}
jobs! {
fn long_carry() {
    let pairs = [1, 2, 3, 4, 5, 7, 130][pick("pairs", 0, 6) as usize];
    let mut ev = straddle(pairs);
    mixed(param("events", 2), &mut ev, 1);
    round_trip(&ev);
}
fn one_symbolic() {
    let mut ev = Vec::new();
    mixed(param("events", 3), &mut ev, param("set", 5));
    round_trip(&ev);
}
fn short_sequences() {
    let n = pick("n", 0, param("events", 3));
    let mut ev = Vec::new();
    symbolic_events(n, &mut ev);
    round_trip(&ev);
}
fn pending_carry() {
    let kind = pick("kind", 0, 5);
    let n = pick("prefix", 1, param("prefix", 6));
    let mut ev = prefix(kind, n);
    mixed(param("events", 2), &mut ev, 3);
    round_trip(&ev);
}
}
