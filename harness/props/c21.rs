use demixer::history::fat_map::FatMapHistorySource;
include!("tree_oracle.rs");

fn drive(l: &Letters, s: &[usize], n: usize, order: usize, window: usize, shift: usize, watch: usize, next: &mut dyn FnMut() -> usize, luts: &LookUpTables) {
    let mut tree = TreeHistorySource::new_special(window, order, shift, luts);
    let mut fat = FatMapHistorySource::new(n, order, luts);
    let (mut x, mut y) = (CollectedContextStates::new(order), CollectedContextStates::new(order));
    for i in 0..n {
        let letter = if i < s.len() { s[i] } else { next() };
        tree.start_new_byte();
        fat.start_new_byte();
        for b in (0..8).rev() {
            x.reset(); y.reset();
            tree.gather_history_states(&mut x);
            fat.gather_history_states(&mut y);
            check(x.items().len() == y.items().len(), "both report the same context lengths");
            for k in 0..x.items().len() { check(x.items()[k] == y.items()[k], "both report the same state"); }
            let given = if i >= watch { symbolic_trackers(x.items()) } else { neutral_trackers(x.items()) };
            let v = bit(l.bit(letter, b));
            tree.process_input_bit(v, &given);
            fat.process_input_bit(v, &given);
        }
    }
    reach("end");
}
// the map hashes the bytes, so they are concrete on each path
fn fixed(mut l: Letters) -> Letters {
    let fill = pick("fill", 0, param("fills", 3) - 1);
    for k in 0..l.vars.len() { l.vars[k] = match fill { 0 => 0, 1 => 1, _ => k as u64 % 2 }; }
    l
}
jobs! {
fn whole() {
    let luts = LookUpTables::new();
    let (s, used) = string(param("bytes", 5) as usize, param("letters", 2) as usize);
    let l = fixed(Letters::new(used, if param("all", 1) == 1 { &[0, 1, 2, 3, 4, 5, 6, 7] } else { &[0, 3, 7] }));
    let order = pick("order", 0, param("order", 2)) as usize;
    let window = s.len() + param("spare", 0) as usize;
    drive(&l, &s, s.len(), order, window, pick("shift", 0, 1) as usize * (window - 1), 0, &mut || 0, &luts);
}
fn long_runs() {
    let luts = LookUpTables::new();
    let lengths = [1000, 1001, 256];
    let run = lengths[pick("run", 0, param("runs", 2)) as usize];
    let period = pick("period", 1, 2) as usize;
    let s: Vec<usize> = (0..run).map(|k| k % period).collect();
    let l = fixed(Letters::new(2, &[0, 7]));
    let n = run + param("tail", 3) as usize;
    drive(&l, &s, n, param("order", 1) as usize, n, 0, run, &mut || pick("letter", 0, 1) as usize, &luts);
}
}
