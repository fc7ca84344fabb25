use demixer::util::indexer::*;
fn dims(n: usize, lim: u64) -> Vec<usize> { let mut r = Vec::new(); for _ in 0..n { r.push(u("limit", 1, lim) as usize); } r }
fn sub(d: &[usize]) -> Vec<usize> { let mut r = Vec::new(); for &l in d { let x = u("sub", 0, l as u64 * 0 + 255) as usize; assume(x < l); r.push(x); } r }
fn feed<I: Indexer>(x: &mut I, v: &[usize]) -> usize { for &k in v { x.with_sub_index(k); } x.get_array_index_and_reset() }

fn one<I: Indexer>(n: usize, lim: u64) {
    let d = dims(n, lim);
    let mut ix = I::new(d.clone());
    let mut size = 1usize; for &l in d.iter() { size *= l; }
    check(ix.get_array_size() == size, "the array size is the product of the dimensions");
    let a = sub(&d); let b = sub(&d);
    let mut ma = 0; for k in 0..n { ma = ma * d[k] + a[k]; }
    let mut mb = 0; for k in 0..n { mb = mb * d[k] + b[k]; }
    let ia = feed(&mut ix, &a);
    check(ia == ma, "the index is row-major");
    let ib = feed(&mut ix, &b);
    check(ib == mb, "the index does not depend on what was indexed before");
    check(ix.get_array_size() == size, "indexing leaves the array size alone");
    trace(ia as u64); trace(ib as u64);
    reach("end");
}
fn bound<I: Indexer>(n: usize, lim: u64) {
    let d = dims(n, lim);
    let mut ix = I::new(d.clone());
    let a = sub(&d);
    let ia = feed(&mut ix, &a);
    check(ia < ix.get_array_size(), "every index is inside the array");
    // one sub-index larger: a different, larger index
    let at = pick("position", 0, n as u64 - 1) as usize;
    let mut b = a.clone(); let more = u("more", 0, 255) as usize; assume(more > a[at] && more < d[at]); b[at] = more;
    for k in at + 1..n { let x = u("other", 0, 255) as usize; assume(x < d[k]); b[k] = x; }
    let ib = feed(&mut ix, &b);
    check(ib > ia, "indexes are ordered like the sub-index tuples, hence distinct");
    trace(ia as u64); trace(ib as u64);
    reach("end");
}
fn refuse<I: Indexer>(n: usize) {
    let d = dims(n, 200);
    let kind = pick("misuse", 0, 4);
    if kind == 0 { let other = pick("length", 0, 7) as usize; if other == n { return; } expect_panic("the number of dimensions is fixed"); let _ = I::new(dims(other, 200)); return; }
    let mut ix = I::new(d.clone());
    if pick("before", 0, 1) == 1 { let a = sub(&d); trace(feed(&mut ix, &a) as u64); }
    let a = sub(&d);
    let m = pick("given", 0, n as u64) as usize;
    for k in 0..m { ix.with_sub_index(a[k]); }
    match kind {
        1 => { if m == n { expect_panic("too many sub-indexes"); ix.with_sub_index(0); } }
        2 => { if m < n { expect_panic("too few sub-indexes"); trace(ix.get_array_index_and_reset() as u64); } }
        3 => { if m < n { let x = u("sub", 0, 0xffff_ffff) as usize; assume(x >= d[m]); expect_panic("a sub-index out of range"); ix.with_sub_index(x); } }
        _ => { if m > 0 { expect_panic("the size is not available in the middle of indexing"); trace(ix.get_array_size() as u64); } }
    }
}
jobs! {
fn bijection() {
    let lim = param("limit", 200);
    match pick("dimensions", 1, 6) { 1 => one::<Indexer1>(1, lim), 2 => one::<Indexer2>(2, lim), 3 => one::<Indexer3>(3, lim), 4 => one::<Indexer4>(4, lim), 5 => one::<Indexer5>(5, lim), _ => one::<Indexer6>(6, lim) }
}
fn order() {
    let lim = param("limit", 8);
    match pick("dimensions", 1, 6) { 1 => bound::<Indexer1>(1, lim), 2 => bound::<Indexer2>(2, lim), 3 => bound::<Indexer3>(3, lim), 4 => bound::<Indexer4>(4, lim), 5 => bound::<Indexer5>(5, lim), _ => bound::<Indexer6>(6, lim) }
}
fn refusals() {
    match pick("dimensions", 1, 6) { 1 => refuse::<Indexer1>(1), 2 => refuse::<Indexer2>(2), 3 => refuse::<Indexer3>(3), 4 => refuse::<Indexer4>(4), 5 => refuse::<Indexer5>(5), _ => refuse::<Indexer6>(6) }
}
}
