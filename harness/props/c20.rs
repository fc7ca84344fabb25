use demixer::history::tree::direction::Direction;
include!("tree_oracle.rs");

// the bytes in the window, the last one known down to its lowest `open` bits
struct View<'a> { l: &'a Letters, s: &'a [usize], start: usize, open: usize, window: usize, shift: usize, deepest: usize }
impl<'a> View<'a> {
    fn size(&self) -> usize { self.s.len() - self.start }
    // position of a window index, counted from the oldest byte
    fn place(&self, raw: usize) -> usize { (raw + self.window * 2 - (self.shift + self.start) % self.window) % self.window }
    fn known(&self, j: usize) -> usize { (self.size() - j) * 8 - self.open }
    fn same_bit(&self, j: usize, k: usize, n: usize) -> bool { let (x, y) = (self.s[self.start + j + n / 8], self.s[self.start + k + n / 8]); x == y || self.l.same_bit(x, y, 7 - n % 8) }
    fn agree(&self, j: usize, k: usize, n: usize) -> bool {
        let n = n.min(self.known(j)).min(self.known(k));
        j == k || (0..n / 8).all(|x| self.s[self.start + j + x] == self.s[self.start + k + x]) && (n / 8 * 8..n).all(|d| self.same_bit(j, k, d))
    }
    fn bit(&self, j: usize, n: usize) -> u64 { self.l.bit(self.s[self.start + j + n / 8], 7 - n % 8) }
}
fn sound(t: &TreeHistorySource, v: &View) {
    let tree = &t.tree;
    check(tree.window.size() == v.size(), "the window holds the bytes that have not left");
    let uniform = (1..v.size()).all(|j| v.agree(0, j, 8));
    check((tree.tree_state() == TreeState::Degenerate) == uniform, "there is no tree as long as all bytes agree");
    if uniform {
        check(tree.nodes().live_nodes_count() == 0, "an empty tree has no nodes");
        return;
    }
    let (mut nodes, mut leaves) = (0, vec![false; v.size()]);
    // every node: what lies below agrees down to its depth and branches there
    let mut stack = vec![(tree.get_root_node_index(), 0, 0u32)];
    while let Some((index, above, _)) = stack.pop() {
        nodes += 1;
        check(nodes <= v.window, "nodes form a tree");
        let node = &tree.nodes()[index];
        check(node.is_valid(), "no reference to a freed node");
        let depth = node.depth();
        check(depth < v.deepest && (nodes == 1 || depth > above), "children lie deeper than their parents");
        let text = v.place(node.text_start().raw());
        check(text < v.size(), "a node names a suffix in the window");
        for &d in [Direction::Left, Direction::Right].iter() {
            let wanted = d.fold(|| 0, || 1);
            let mut below = vec![node.child(d)];
            let mut first = true;
            while let Some(c) = below.pop() {
                check(c.is_valid(), "both children exist");
                if c.is_node_index() {
                    let n = &tree.nodes()[c.to_node_index()];
                    check(n.depth() > depth, "children lie deeper than their parents");
                    below.push(n.child(Direction::Left)); below.push(n.child(Direction::Right));
                    if first { stack.push((c.to_node_index(), depth, 0)); }
                } else {
                    let leaf = v.place(c.to_window_index().raw());
                    check(leaf < v.size(), "leaves lie in the window");
                    check(v.known(leaf) > depth, "a leaf reaches below its node");
                    check(v.bit(leaf, depth) == wanted, "a leaf is on the side its bit says");
                    check(v.agree(leaf, text, depth), "what lies below a node agrees down to its depth");
                    if first { check(!leaves[leaf], "no suffix is indexed twice"); leaves[leaf] = true; }
                }
                first = false;
            }
        }
    }
    check(leaves.iter().filter(|&&x| x).count() == nodes + 1, "every node branches");
    check(tree.nodes().live_nodes_count() == nodes, "no node leaks");
    check(nodes < v.window.max(2), "there are fewer nodes than bytes in a full window");
    // every suffix in the window is found, or a later one equal as far as contexts go
    for j in 0..v.size() {
        let mut index = tree.get_root_node_index();
        loop {
            let node = &tree.nodes()[index];
            if node.depth() >= v.known(j) { break; }
            let side = if v.bit(j, node.depth()) == 1 { Direction::Right } else { Direction::Left };
            let child = node.child(side);
            if child.is_node_index() { index = child.to_node_index(); continue; }
            let leaf = v.place(child.to_window_index().raw());
            check(leaf >= j && v.agree(j, leaf, v.deepest), "every suffix is indexed by itself or by its latest repetition");
            break;
        }
    }
}
fn drive(n: usize, k: usize, all: bool, window: usize, order: usize, shift: usize, early: usize, every_bit: bool, luts: &LookUpTables) {
    let (s, used) = string(n, k);
    let l = Letters::new(used, if all { &[0, 1, 2, 3, 4, 5, 6, 7] } else { &[0, 3, 7] });
    let mut t = TreeHistorySource::new_special(window, order, shift, luts);
    let mut found = CollectedContextStates::new(order);
    let mut start = 0;
    for i in 0..n {
        if early == i && i > start { t.tree.remove_leftmost_suffix(&mut t.active_contexts); start += 1; }
        let view = |start, open| View { l: &l, s: &s[..i + 1], start, open, window, shift, deepest: order * 8 + 8 };
        t.start_new_byte();
        start = start.max((i + 1).saturating_sub(window));
        t.check_integrity_on_next_byte();
        if i > start { sound(&t, &view(start, 8)); }
        for b in (0..8).rev() {
            found.reset();
            t.gather_history_states(&mut found);
            if i >= start { check(found.items().len() <= i - start, "contexts occurred in the window"); }
            t.process_input_bit(bit(l.bit(s[i], b)), &neutral_trackers(found.items()));
            if b == 0 || every_bit && (0..used).any(|x| matches!(l.bits[x][7 - b], B::Fixed(_))) { sound(&t, &view(start, b)); }
        }
    }
    if param("empty", 1) == 0 { reach("end"); return; }
    // empty it again
    t.bit_index = 7;
    for start in start..n {
        t.check_integrity_on_next_byte();
        sound(&t, &View { l: &l, s: &s, start, open: 0, window, shift, deepest: order * 8 + 8 });
        t.tree.remove_leftmost_suffix(&mut t.active_contexts);
    }
    check(t.tree.window.size() == 0 && t.tree.nodes().live_nodes_count() == 0, "nothing is left");
    reach("end");
}
jobs! {
fn sliding() {
    let luts = LookUpTables::new();
    let window = pick("window", param("least", 1), param("most", 4)) as usize;
    let n = param("bytes", 6) as usize;
    let order = pick("order", 0, param("order", 2)) as usize;
    let shift = if param("shifts", 1) == 1 { pick("shift", 0, window as u64 - 1) as usize } else { 0 };
    let early = if param("early", 1) == 1 { pick("early", 0, n as u64 - 1) as usize } else { 0 };
    drive(n, param("letters", 2) as usize, param("all", 0) == 1, window, order, shift, early, param("every_bit", 1) == 1, &luts);
}
}
