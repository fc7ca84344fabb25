use demixer::history::naive::NaiveHistorySource;
include!("tree_oracle.rs");

// what a context reported when it occurred last must have turned into, given the bit that followed and the trackers supplied
fn follows(now: &ContextState, before: &ContextState, bit: Bit, given: Option<&CostTrackers>, luts: &LookUpTables) {
    if let &ContextState::ForNode { ref probability_estimator, ref recent_bits, ref bits_runs, ref cost_trackers, .. } = now {
        match before {
            &ContextState::ForNode { probability_estimator: ref e, recent_bits: ref r, bits_runs: ref t, .. } => {
                let mut e = e.clone();
                e.update(bit, luts.d_estimator_rates());
                check(*probability_estimator == e, "the estimator learned the bit that followed last");
                check(*recent_bits == r.updated(bit) && *bits_runs == t.updated(bit), "the bit histories took in the bit that followed last");
                check(Some(cost_trackers) == given, "the supplied cost trackers are kept");
            }
            &ContextState::ForEdge { occurrence_count, .. } => {
                let cost = luts.cost_trackers_lut().for_new_node(occurrence_count);
                check(*probability_estimator == luts.d_estimator_cache().for_new_node(bit, occurrence_count), "the estimator of a new branch replays the run");
                check(*recent_bits == RecentBitsHistory::for_new_node(bit, occurrence_count) && *bits_runs == BitsRunsTracker::for_new_node(bit, occurrence_count), "the bit histories of a new branch replay the run");
                check(*cost_trackers == CostTrackers::new(cost.clone(), cost), "the cost trackers of a new branch");
            }
        }
    }
}
fn drive(l: &Letters, s: &[usize], window: usize, order: usize, shift: usize, luts: &LookUpTables) {
    let mut tree = TreeHistorySource::new_special(window, order, shift, luts);
    let mut found = CollectedContextStates::new(order);
    let whole = s.len() <= window;
    let mut naive = NaiveHistorySource::new(s.len(), order, luts);
    let mut wanted = CollectedContextStates::new(order);
    let mut past: Vec<Vec<(Vec<ContextState>, Vec<CostTrackers>)>> = Vec::new();
    for i in 0..s.len() {
        tree.start_new_byte();
        if whole { naive.start_new_byte(); }
        let start = (i + 1).saturating_sub(window);
        let mut states = vec![(Vec::new(), Vec::new()); 8];
        for b in (0..8).rev() {
            found.reset();
            tree.gather_history_states(&mut found);
            let expected = search(l, s, start, i, b, order);
            check(found.items().len() == expected.len(), "the context lengths that occurred before");
            let given = symbolic_trackers(found.items());
            for k in 0..expected.len() {
                let (now, e) = (&found.items()[k], &expected[k]);
                check(now.last_occurrence_distance() == e.distance, "distance of the last occurrence");
                check(now.is_for_node() == e.branching, "both bits have followed, or only one");
                if let &ContextState::ForEdge { repeated_bit, .. } = now { check(repeated_bit == bit(e.repeated), "the bit that always followed"); }
                let count = now.occurrence_count() as usize;
                check(count >= e.inside && count <= i, "occurrences are counted");
                if !whole { // the naive source below settles this otherwise
                    let last = i - e.distance;
                    let (ref then, ref trackers): (Vec<ContextState>, Vec<CostTrackers>) = past[last][b];
                    if k < then.len() { follows(now, &then[k], bit(l.bit(s[last], b)), trackers.get(k), luts); }
                    else { check(!now.is_for_node(), "one occurrence is not a branch"); }
                }
            }
            if whole {
                wanted.reset();
                naive.gather_history_states(&mut wanted);
                check(wanted.items().len() == expected.len(), "the reference finds the same contexts");
                for k in 0..expected.len() {
                    let (mut x, mut y) = (found.items()[k].clone(), wanted.items()[k].clone());
                    if let ContextState::ForNode { ref cost_trackers, .. } = x {
                        let last = i - expected[k].distance;
                        let (ref then, ref trackers): (Vec<ContextState>, Vec<CostTrackers>) = past[last][b];
                        if then[k].is_for_node() { check(Some(cost_trackers) == trackers.get(k), "the supplied cost trackers are kept"); }
                        else { let cost = luts.cost_trackers_lut().for_new_node(then[k].occurrence_count()); check(*cost_trackers == CostTrackers::new(cost.clone(), cost), "the cost trackers of a new branch"); }
                    }
                    x.neutralize_cost_trackers(); y.neutralize_cost_trackers();
                    check(x == y, "the tree reports what the reference search reports");
                }
                naive.process_input_bit(bit(l.bit(s[i], b)), &neutral_trackers(wanted.items()));
            }
            tree.process_input_bit(bit(l.bit(s[i], b)), &given);
            states[b] = (found.items().to_vec(), given);
        }
        past.push(states);
    }
    reach("end");
}
const ALL: [usize; 8] = [0, 1, 2, 3, 4, 5, 6, 7];
const FEW: [usize; 3] = [0, 3, 7];
jobs! {
// no byte leaves the window
fn whole() {
    let luts = LookUpTables::new();
    let (s, used) = string(param("bytes", 5) as usize, param("letters", 2) as usize);
    let l = Letters::new(used, if param("all", 1) == 1 { &ALL } else { &FEW });
    let order = pick("order", 0, param("order", 2)) as usize;
    let window = s.len() + pick("spare", 0, 1) as usize;
    let shift = pick("shift", 0, window as u64 - 1) as usize;
    drive(&l, &s, window, order, shift, &luts);
}
// the oldest bytes leave
fn sliding() {
    let luts = LookUpTables::new();
    let (s, used) = string(param("bytes", 7) as usize, param("letters", 2) as usize);
    let l = Letters::new(used, if param("all", 1) == 1 { &ALL } else { &FEW });
    let window = pick("window", param("least", 1), param("most", 4)) as usize;
    let order = pick("order", 0, param("order", 3)) as usize;
    let shift = if param("shifts", 1) == 1 { pick("shift", 0, window as u64 - 1) as usize } else { 0 };
    drive(&l, &s, window, order, shift, &luts);
}
// a long run (or a long alternation) first, so that the counts saturate
fn long_runs() {
    let luts = LookUpTables::new();
    let lengths = [15, 16, 127, 128, 254, 255, 256, 257, 998, 999, 1000, 1001, 1002, 1024];
    let run = lengths[pick("run", 0, param("runs", 13)) as usize];
    let mut s = vec![0; run];
    if pick("alternating", 0, 1) == 1 { for k in 0..run { s[k] = k % 2; } }
    let tail = param("tail", 3) as usize;
    let l = Letters::new(2, &[0, 7]);
    let order = param("order", 1) as usize;
    let window = run + if pick("sliding", 0, 1) == 1 { 0 } else { tail };
    let mut tree = TreeHistorySource::new_special(window, order, 0, &luts);
    let mut naive = NaiveHistorySource::new(run + tail, order, &luts);
    let (mut found, mut wanted) = (CollectedContextStates::new(order), CollectedContextStates::new(order));
    for i in 0..run + tail {
        if i >= run { s.push(pick("letter", 0, 1) as usize); }
        tree.start_new_byte();
        naive.start_new_byte();
        for b in (0..8).rev() {
            found.reset();
            tree.gather_history_states(&mut found);
            if i >= run {
                let expected = search(&l, &s, (i + 1).saturating_sub(window), i, b, order);
                check(found.items().len() == expected.len(), "the context lengths that occurred before");
                for k in 0..expected.len() {
                    check(found.items()[k].last_occurrence_distance() == expected[k].distance, "distance of the last occurrence");
                    check(found.items()[k].is_for_node() == expected[k].branching, "both bits have followed, or only one");
                }
                if i < window {
                    wanted.reset();
                    naive.gather_history_states(&mut wanted);
                    check(wanted.items().len() == expected.len(), "the reference finds the same contexts");
                    for k in 0..expected.len() {
                        let (mut x, mut y) = (found.items()[k].clone(), wanted.items()[k].clone());
                        x.neutralize_cost_trackers(); y.neutralize_cost_trackers();
                        check(x == y, "the tree reports what the reference search reports");
                    }
                }
            }
            let v = bit(l.bit(s[i], b));
            naive.process_input_bit(v, &[]);
            tree.process_input_bit(v, &neutral_trackers(found.items()));
        }
    }
    reach("end");
}
}
