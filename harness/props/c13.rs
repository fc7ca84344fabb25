use demixer::util::quantizers::OccurrenceCountQuantizer as Q;
fn q(x: u32) -> u32 { Q::quantize(x as u16) as u32 }
jobs! {
fn classes() {
    let k = pick("magnitude", 0, 15) as u32;
    let x = (1u32 << k) + if k == 0 { 0 } else { u32v("rest", 0, (1u32 << k) - 1) };
    let y = q(x);
    trace(y as u64);
    check(q(0) == 0, "no occurrences are class 0");
    check(y <= Q::max_output() as u32, "no class above the declared maximum");
    check(Q::max_output() as u32 == q(65535), "the declared maximum is the class of the largest count");
    // class 2k + next bit: 1 -> 1, 2 -> 2, 3 -> 3, 4-5 -> 4, 6-7 -> 5, 8-11 -> 6 ...
    let m = if k == 0 { 1 } else { 2 * k + ((x >> (k - 1)) & 1) };
    check(y == m, "classes halve every power of two, contiguously");
    let x2 = u32v("other", 0, 65535);
    if x2 <= x {
        let y2 = q(x2);
        check(y2 <= y, "a smaller count never has a larger class");
        check(y2 != y || 2 * (x - x2) < x2, "counts in one class differ by less than half of the smaller");
    }
    reach("end");
}
fn contiguous() {
    let x = u32v("count", 0, 65534);
    let a = q(x); let b = q(x + 1);
    trace(a as u64);
    check(b == a || b == a + 1, "no class is skipped");
    reach("end");
}
}
