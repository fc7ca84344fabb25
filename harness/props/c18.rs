use demixer::bit::Bit;
use demixer::estimators::cost::CostTracker;
use demixer::estimators::decelerating::DeceleratingEstimator;
use demixer::fixed_point::*;
use demixer::fixed_point::types::*;
use demixer::history::state::bits_runs::BitsRunsTracker;
use demixer::history::state::recent_bits::RecentBitsHistory;
use demixer::history::tree::direction::Direction;
use demixer::history::tree::node::*;
use demixer::history::tree::node_child::*;
use demixer::history::tree::nodes::*;
use demixer::history::window::WindowIndex;
use demixer::lut::LookUpTables;

const TOP: u64 = (1 << 31) - 1;
fn wi(n: &str) -> WindowIndex { WindowIndex::new(u(n, 0, TOP) as usize) }
fn ni(n: &str) -> NodeIndex { NodeIndex::new(u(n, 1, TOP) as usize) }
fn child(n: &str, node: bool) -> NodeChild { if node { ni(n).into() } else { wi(n).into() } }
fn dir(right: bool) -> Direction { if right { Direction::Right } else { Direction::Left } }
// the fields of a node as plain numbers
#[derive(Clone, PartialEq, Debug)]
struct Plain { text: u64, depth: u64, left: u64, right: u64, pred: u64, count: u64, cost0: u64, cost1: u64, runs: u64, recent: u64, c0: NodeChild, c1: NodeChild }
fn estimator(pred: u64, count: u64) -> DeceleratingEstimator { DeceleratingEstimator::make(FractOnlyU32::new((pred << 9) as u32, 31), count as u16) }
fn symbolic() -> Plain {
    Plain { text: u("text", 0, TOP), depth: u("depth", 0, 65535), left: u("left", 0, 1000), right: u("right", 0, 1000), pred: u("pred", 1, (1 << 22) - 1), count: u("count", 0, 1000),
        cost0: u("cost_a", 0, 65535), cost1: u("cost_b", 0, 65535), runs: u("runs", 1, 1000), recent: u("recent", 1, 65535), c0: child("child_a", false), c1: child("child_b", true) }
}
fn make(p: &Plain) -> Node {
    Node::new(WindowIndex::new(p.text as usize), estimator(p.pred, p.count), p.depth as usize, CostTrackers::new(CostTracker::new(p.cost0 as u16), CostTracker::new(p.cost1 as u16)),
        BitsRunsTracker::for_bit_run(Bit::One, p.runs as u16), p.left as u16, p.right as u16, RecentBitsHistory::new_unchecked(p.recent as u16), NodeChildren::new([p.c0, p.c1]))
}
fn same(n: &Node, p: &Plain) {
    check(n.text_start().raw() as u64 == p.text, "text start");
    check(n.depth() as u64 == p.depth, "depth");
    check(n.left_count() as u64 == p.left && n.right_count() as u64 == p.right, "counts");
    check(n.probability_estimator() == estimator(p.pred, p.count), "probability estimator");
    check(n.cost_trackers().stationary().raw() as u64 == p.cost0 && n.cost_trackers().non_stationary().raw() as u64 == p.cost1, "cost trackers");
    check(n.bits_runs() == BitsRunsTracker::for_bit_run(Bit::One, p.runs as u16), "runs");
    check(n.recent_bits() == RecentBitsHistory::new_unchecked(p.recent as u16), "recent bits");
    check(n.child(Direction::Left) == p.c0 && n.child(Direction::Right) == p.c1, "children");
    check(n.is_valid(), "a made node is valid");
}
jobs! {
fn references() {
    let (w, v) = (wi("window"), wi("window2"));
    let (n, m) = (ni("node"), ni("node2"));
    let (a, b, c, d): (NodeChild, NodeChild, NodeChild, NodeChild) = (w.into(), v.into(), n.into(), m.into());
    check(a.is_valid() && a.is_window_index() && !a.is_node_index(), "a reference to a window position is one");
    check(c.is_valid() && c.is_node_index() && !c.is_window_index(), "a reference to a node is one");
    check(a.to_window_index() == w, "the window position comes back");
    check(c.to_node_index() == n, "the node index comes back");
    check((a == b) == (w == v) && (c == d) == (n == m) && a != c, "references are equal only if made from the same value");
    check(!NodeChild::INVALID.is_valid() && a != NodeChild::INVALID && c != NodeChild::INVALID, "the invalid reference differs from every valid one");
    check(!n.is_root() && NodeIndex::new(0).is_root(), "only the first node is the root");
    reach("end");
}
fn refused_references() {
    match pick("misuse", 0, 5) {
        0 => { let c = child("node", true); expect_panic("a node reference is not a window position"); trace(c.to_window_index().raw() as u64); }
        1 => { let c = child("window", false); expect_panic("a window reference is not a node"); trace(c.to_node_index().raw() as u64); }
        2 => { let w = WindowIndex::new(u("window", TOP + 1, !0) as usize); expect_panic("a window position of more than 31 bits"); let c: NodeChild = w.into(); trace(c.is_valid() as u64); }
        3 => { let n = NodeIndex::new(u("node", TOP + 1, !0) as usize); expect_panic("a node index of more than 31 bits"); let c: NodeChild = n.into(); trace(c.is_valid() as u64); }
        4 => { expect_panic("the root is nobody's child"); let c: NodeChild = NodeIndex::new(0).into(); trace(c.is_valid() as u64); }
        _ => {
            let mut p = symbolic();
            match pick("field", 0, 2) { 0 => p.text = u("large_text", TOP + 1, !0), 1 => p.depth = u("large_depth", 65536, !0), _ => p.recent = 0 }
            expect_panic("a node with a field out of range"); trace(make(&p).depth() as u64);
        }
    }
}
fn node() {
    let luts = LookUpTables::new();
    let mut p = symbolic();
    let mut n = make(&p);
    same(&n, &p);
    // changing one field changes no other
    match pick("change", 0, 4) {
        0 => { let t = wi("new_text"); n.text_start = t.raw() as u32; p.text = t.raw() as u64; same(&n, &p); }
        1 => { let c = child("new_child", boolean("node_child")); n.children[Direction::Left] = c; p.c0 = c; same(&n, &p); }
        2 => { let c = child("new_child", boolean("node_child")); n.children[Direction::Right] = c; p.c1 = c; same(&n, &p); }
        3 => {
            let bit = Bit::from(pick("bit", 0, 1) == 1);
            p.count = [0, 1, 77, 999, 1000][pick("seen", 0, 4) as usize];
            n = make(&p);
            let mut e = estimator(p.pred, p.count);
            e.update(bit, luts.d_estimator_rates());
            p.cost0 = u("new_cost_a", 0, 65535); p.cost1 = u("new_cost_b", 0, 65535);
            n.update_on_next_bit(bit, CostTrackers::new(CostTracker::new(p.cost0 as u16), CostTracker::new(p.cost1 as u16)), luts.d_estimator_rates());
            let (l, r) = if bit.is_0() { (if p.left < 1000 { p.left + 1 } else { 1000 }, p.right) } else { (p.left, if p.right < 1000 { p.right + 1 } else { 1000 }) };
            check(n.left_count() as u64 == l && n.right_count() as u64 == r, "the count of the bit grows by one up to its limit");
            check(n.probability_estimator() == e, "the estimator learns the bit");
            check(n.recent_bits() == RecentBitsHistory::new_unchecked(p.recent as u16).updated(bit), "the bit is the most recent one");
            check(n.bits_runs() == BitsRunsTracker::for_bit_run(Bit::One, p.runs as u16).updated(bit), "the bit extends the runs");
            check(n.cost_trackers().stationary().raw() as u64 == p.cost0 && n.cost_trackers().non_stationary().raw() as u64 == p.cost1, "the cost trackers are replaced");
            check(n.text_start().raw() as u64 == p.text && n.depth() as u64 == p.depth && n.child(Direction::Left) == p.c0 && n.child(Direction::Right) == p.c1, "place and children stay");
        }
        _ => { let m = n.clone(); n.text_start = 0; n.children[Direction::Left] = NodeChild::INVALID; same(&m, &p); check(!n.is_valid(), "a node without a child is not valid"); n.children[Direction::Left] = p.c0; n.children[Direction::Right] = NodeChild::INVALID; check(!n.is_valid(), "a node without a child is not valid"); }
    }
    check(!Node::INVALID.is_valid(), "the invalid node is not valid");
    for b in 0..2 { let bit = Bit::from(b == 1); let d: Direction = bit.into(); check(d == dir(b == 1) && !d == dir(b == 0) && d.fold(|| 0, || 1) == b, "directions follow bits"); }
    reach("end");
}
fn pool() {
    // every short sequence of additions, replacements and removals, against a plain list of live nodes
    let limit = pick("limit", 1, param("limit", 4)) as usize;
    let mut pool = Nodes::new(limit);
    check(pool.live_nodes_count() == 0, "a new pool is empty");
    let mut live: Vec<(usize, Plain)> = Vec::new();
    let root = symbolic();
    pool.update_node(NodeIndex::new(0), make(&root));
    live.push((0, root));
    for _ in 0..pick("steps", 0, param("steps", 5)) {
        match pick("operation", 0, 2) {
            0 => {
                let p = symbolic();
                if live.len() == limit { expect_panic("a full pool takes no more nodes"); pool.add_node(make(&p)); return; }
                let c = pool.add_node(make(&p));
                check(c.is_node_index(), "adding gives a reference to a node");
                let i = c.to_node_index().raw();
                for &(j, _) in &live { check(i != j, "a live node is never handed out"); }
                check(i < limit, "nodes stay within the limit");
                live.push((i, p));
            }
            1 => { if live.len() < 2 { return; } let k = pick("which", 1, live.len() as u64 - 1) as usize; pool.delete_node(NodeIndex::new(live[k].0)); live.remove(k); }
            _ => { let k = pick("which", 0, live.len() as u64 - 1) as usize; let p = symbolic(); pool.update_node(NodeIndex::new(live[k].0), make(&p)); live[k].1 = p; }
        }
        check(pool.live_nodes_count() == live.len(), "number of live nodes");
    }
    for (i, p) in &live { same(&pool[NodeIndex::new(*i)], p); }
    if boolean("empty") { pool.update_node(NodeIndex::new(0), Node::INVALID); check(pool.live_nodes_count() == 0, "without a root no node counts"); expect_panic("an invalid root is not read"); trace(pool[NodeIndex::new(0)].depth() as u64); return; }
    reach("end");
}
fn refused_pools() {
    let limit = u("limit", 0, 0) as usize;
    expect_panic("a pool without room for the root");
    trace(Nodes::new(limit).live_nodes_count() as u64);
}
}
