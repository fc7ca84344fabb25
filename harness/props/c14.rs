use demixer::random::MersenneTwister;
// reference implementation after Matsumoto and Nishimura (mt19937-64.c), written as a stream
struct Ref { mt: Vec<u64>, i: usize }
impl Ref {
    fn init(seed: u64) -> Ref {
        let mut mt = Vec::with_capacity(312);
        mt.push(seed);
        let mut x = seed;
        for i in 1..312u64 { x = 6364136223846793005u64.wrapping_mul(x ^ (x >> 62)).wrapping_add(i); mt.push(x); }
        Ref { mt, i: 312 }
    }
    fn init_by_array(key: &[u64]) -> Ref {
        let mut r = Ref::init(19650218);
        let (mut i, mut j) = (1usize, 0usize);
        let mut k = if key.len() > 312 { key.len() } else { 312 };
        while k > 0 {
            let p = r.mt[i - 1];
            r.mt[i] = (r.mt[i] ^ (p ^ (p >> 62)).wrapping_mul(3935559000370003845)).wrapping_add(key[j]).wrapping_add(j as u64);
            i += 1; j += 1;
            if i >= 312 { r.mt[0] = r.mt[311]; i = 1; }
            if j >= key.len() { j = 0; }
            k -= 1;
        }
        k = 311;
        while k > 0 {
            let p = r.mt[i - 1];
            r.mt[i] = (r.mt[i] ^ (p ^ (p >> 62)).wrapping_mul(2862933555777941757)).wrapping_sub(i as u64);
            i += 1;
            if i >= 312 { r.mt[0] = r.mt[311]; i = 1; }
            k -= 1;
        }
        r.mt[0] = 1 << 63;
        r
    }
    fn next(&mut self) -> u64 {
        if self.i == 312 {
            for i in 0..312 {
                let x = (self.mt[i] & 0xFFFFFFFF80000000) | (self.mt[(i + 1) % 312] & 0x7FFFFFFF);
                let mag = (x & 1).wrapping_neg() & 0xB5026F5AA96619E9;
                self.mt[i] = self.mt[(i + 156) % 312] ^ (x >> 1) ^ mag;
            }
            self.i = 0;
        }
        let mut x = self.mt[self.i];
        self.i += 1;
        x ^= (x >> 29) & 0x5555555555555555;
        x ^= (x << 17) & 0x71D67FFFEDA60000;
        x ^= (x << 37) & 0xFFF7EEE000000000;
        x ^ (x >> 43)
    }
}
jobs! {
fn scalar_seed() {
    let seed = u("seed", 0, !0);
    let mut a = MersenneTwister::new_by_scalar_seed(seed);
    let mut b = Ref::init(seed);
    for k in 0..param("outputs", 400) {
        let x = b.next();
        if k % 3 == 2 { check(a.next_int63() as u64 == x >> 1, "63-bit output") } else { let y = a.next_int64(); trace(y); check(y == x, "64-bit output") }
    }
    reach("end");
}
fn vector_seed() {
    let n = pick("length", 1, param("length", 4));
    let mut key = Vec::new();
    for _ in 0..n { key.push(u("key", 0, !0)); }
    let mut a = MersenneTwister::new_by_vector_seed(&key);
    let mut b = Ref::init_by_array(&key);
    for _ in 0..param("outputs", 320) { let y = a.next_int64(); trace(y); check(y == b.next(), "64-bit output") }
    reach("end");
}
fn default_seed() {
    let mut a = MersenneTwister::default();
    let mut b = Ref::init(5489);
    for _ in 0..700 { let y = a.next_int64(); trace(y); check(y == b.next(), "64-bit output of the default seed") }
    for _ in 0..200 { let x = b.next(); check(a.next_real1() == (x >> 11) as f64 * (1.0 / 9007199254740991.0), "real in [0, 1]"); }
    for _ in 0..200 { let x = b.next(); check(a.next_real2() == (x >> 11) as f64 * (1.0 / 9007199254740992.0), "real in [0, 1)"); }
    for _ in 0..200 { let x = b.next(); check(a.next_real3() == ((x >> 12) as f64 + 0.5) * (1.0 / 4503599627370496.0), "real in (0, 1)"); }
    reach("end");
}
}
