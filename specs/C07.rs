//! f32 is exact real arithmetic (rounding is not modelled; native replay compares the real f32 within tolerance).
//! every edge of the store has a weight >= 1 and its start node a degree >= 1 (C08); weights and degrees are below 2^31.
//! MaterializedEdge/NodeRef keys compare by (segment, cluster) of their nodes (C08).
//@include base.rs
//@include coll.rs
//@include float.rs
//@include nodes.rs
verus! {
pub struct MaterializedEdge { pub from_node: IndependentNode, pub to_node: IndependentNode }
impl VKey for IndependentNode { type K = (usize, usize); open spec fn k(&self) -> (usize, usize) { (self.segment, self.cluster) } }
impl VKey for MaterializedEdge { type K = ((usize, usize), (usize, usize)); open spec fn k(&self) -> ((usize, usize), (usize, usize)) { (self.from_node.k(), self.to_node.k()) } }
impl Edge {
    pub open spec fn mk(self) -> ((usize, usize), (usize, usize)) { (self.from_node.k(), self.to_node.k()) }
//@extract src/data_store/edge/materialized.rs :: impl Materialize<MaterializedEdge> for Edge :: materialize
//@ret r
//@spec
    ensures r.k() == self.mk(), r.from_node == self.from_node, r.to_node == self.to_node,
//@subst .deref().clone() ==> .clone()
//@end
}
pub struct ScoringHelperInstruction { pub start: usize, pub length: usize }
pub struct ScoringHelperResponse { pub start: usize, pub scores: Vec<F>, pub first_empty: bool }
pub struct Ctx { }
pub struct ScoringHelper { pub edges: Vec<Edge>, pub edges_in_time: Vec<usize>, pub edge_weight: HashMap<MaterializedEdge, usize>, pub node_degrees: HashMap<NodeRef, usize>, pub query_length: usize, pub sent: Ghost<Seq<ScoringHelperResponse>> }
#[verifier::external_body] pub fn slice_it<T>(v: &Vec<T>, r: core::ops::Range<usize>) -> (q: It<&T>)
    requires r.start <= r.end <= v@.len()
    ensures q.pos() == 0, q.all().len() == r.end - r.start, forall|i: int| 0 <= i < q.all().len() ==> *(#[trigger] q.all()[i]) == v@[r.start + i] { unimplemented!() }
pub open spec fn fsum(s: Seq<F>) -> real decreases s.len() { if s.len() == 0 { 0real } else { fsum(s.drop_last()) + s.last().r() } }
impl It<F> { #[verifier::external_body] pub fn vsum(self) -> (r: F) requires self.pos() == 0 ensures r.r() == fsum(self.all()) { unimplemented!() } }

// ---- the score of a window --------------------------------------------------------------------
pub open spec fn known(h: ScoringHelper) -> bool {
    forall|i: int| 0 <= i < h.edges@.len() ==> h.edge_weight@.contains_key((#[trigger] h.edges@[i]).mk()) && 1 <= h.edge_weight@[h.edges@[i].mk()] < 0x8000_0000
        && h.node_degrees@.contains_key(h.edges@[i].from_node.k()) && 1 <= h.node_degrees@[h.edges@[i].from_node.k()] < 0x8000_0000
}
// weight of the edge times (degree of its start node - 1)
pub open spec fn term(h: ScoringHelper, j: int) -> real { ((h.edge_weight@[h.edges@[j].mk()] as int) * (h.node_degrees@[h.edges@[j].from_node.k()] - 1)) as real }
pub open spec fn total(h: ScoringHelper, a: int, b: int) -> real decreases b - a { if b <= a { 0real } else { total(h, a, b - 1) + term(h, b - 1) } }
pub proof fn total_is(h: ScoringHelper, a: int, b: int, s: Seq<F>) requires a <= b, s.len() == b - a, forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).r() == term(h, a + i) ensures fsum(s) == total(h, a, b) decreases b - a {
    if b > a { total_is(h, a, b - 1, s.drop_last()); assert(s.last().r() == term(h, a + (s.len() - 1))); }
}
pub proof fn eps() ensures rl(1, 100000000) > 0real { assert(rl(1, 100000000) * (100000000int as real) == 1real) by (nonlinear_arith); assert(rl(1, 100000000) > 0real) by (nonlinear_arith) requires rl(1, 100000000) * (100000000int as real) == 1real; }
pub open spec fn mean(h: ScoringHelper, a: int, b: int) -> real { total(h, a, b) / (rl(1, 100000000) + (b - a) as real) }
// edges of the window of query_length points starting at point i
pub open spec fn wfrom(h: ScoringHelper, i: int) -> int { h.edges_in_time@[i] as int }
pub open spec fn wto(h: ScoringHelper, i: int) -> int { let t = h.edges_in_time@[i + h.query_length - 1] + 1; if t < h.edges@.len() { t } else { h.edges@.len() as int } }
// score of a window, None if it has no edges
pub open spec fn raw(h: ScoringHelper, i: int) -> Option<real> { if wto(h, i) == wfrom(h, i) { None } else { Some(0real - mean(h, wfrom(h, i), wto(h, i))) } }
// scores from window `start` on: a window without edges repeats the previous score of the chunk, or 0 at its beginning
pub open spec fn carried(h: ScoringHelper, start: int, k: int) -> real decreases k {
    match raw(h, start + k) { Some(x) => x, None => if k <= 0 { 0real } else { carried(h, start, k - 1) } }
}
pub open spec fn ready(h: ScoringHelper) -> bool {
    &&& known(h) && h.query_length >= 1 && h.edges@.len() < usize::MAX
    &&& forall|i: int| 0 <= i < h.edges_in_time@.len() ==> (#[trigger] h.edges_in_time@[i]) <= h.edges@.len()
    &&& forall|i: int, j: int| 0 <= i <= j < h.edges_in_time@.len() ==> (#[trigger] h.edges_in_time@[i]) <= (#[trigger] h.edges_in_time@[j])
}
impl ScoringHelper {
    #[verifier::external_body] pub fn vsend(&mut self, m: ScoringHelperResponse)
        ensures final(self).sent@ == old(self).sent@.push(m), final(self).edges == old(self).edges, final(self).edges_in_time == old(self).edges_in_time, final(self).edge_weight == old(self).edge_weight, final(self).node_degrees == old(self).node_degrees, final(self).query_length == old(self).query_length { unimplemented!() }
//@extract src/training/scoring/helper.rs :: impl ScoringHelper :: score_p_degree
//@ret r
//@spec
    requires known(*old(self)), edge_range.start <= edge_range.end <= old(self).edges@.len(),
    ensures *final(self) == *old(self), r.1 == edge_range.end - edge_range.start, r.0.r() == mean(*old(self), edge_range.start as int, edge_range.end as int),
//@floats
//@subst Range<usize> ==> core::ops::Range<usize>
//@subst self.edges[edge_range].iter() ==> slice_it(&self.edges, edge_range)
//@subst self.edge_weight.get(&edge.materialize()).unwrap() ==> (*hs.edge_weight.get(&edge.materialize()).unwrap())
//@subst self.node_degrees.get(&edge.get_from_node()).expect("Edge with unknown Node found!") ==> (*hs.node_degrees.get(&edge.get_from_node()).unwrap())
//@subst .sum() ==> .vsum()
//@top
    let hs: &ScoringHelper = &*self; let ghost a = edge_range.start as int; let ghost b = edge_range.end as int;
    proof {
        eps();
        assert forall|x: int, y: int| 0 <= x < 0x8000_0000 && 0 <= y < 0x8000_0000 implies 0 <= #[trigger] (x * y) < 0x4000_0000_0000_0000 by { assert(0 <= x * y < 0x4000_0000_0000_0000) by (nonlinear_arith) requires 0 <= x < 0x8000_0000, 0 <= y < 0x8000_0000; }
        assert forall|s: Seq<F>| s.len() == b - a && (forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).r() == term(*hs, a + i)) implies #[trigger] fsum(s) == total(*hs, a, b) by { total_is(*hs, a, b, s); }
    }
//@closure 0
    |edge: &Edge| -> (q: F)
        requires hs.edge_weight@.contains_key(edge.mk()), hs.node_degrees@.contains_key(edge.from_node.k()), 1 <= hs.node_degrees@[edge.from_node.k()] < 0x8000_0000, hs.edge_weight@[edge.mk()] < 0x8000_0000
        ensures q.r() == ((hs.edge_weight@[edge.mk()] as int) * (hs.node_degrees@[edge.from_node.k()] - 1)) as real
//@end
//@extract src/training/scoring/helper.rs :: impl Handler<ScoringHelperInstruction> for ScoringHelper :: handle
//@spec
    requires ready(*old(self)), msg.start + msg.length + old(self).query_length - 1 <= old(self).edges_in_time@.len(),
    ensures final(self).sent@.len() == old(self).sent@.len() + 1, final(self).sent@.drop_last() == old(self).sent@,
        ({ let r = final(self).sent@.last(); let h = *old(self);
           &&& r.start == msg.start && r.scores@.len() == msg.length
           &&& forall|k: int| 0 <= k < msg.length ==> (#[trigger] r.scores@[k]).r() == carried(h, msg.start as int, k)
           // told apart: the chunk begins with a window without edges
           &&& r.first_empty == (msg.length > 0 && raw(h, msg.start as int) is None) }),
//@floats
//@subst &mut self, msg: ScoringHelperInstruction, _ctx: &mut Self::Context) -> Self::Result ==> &mut self, msg: ScoringHelperInstruction)
//@subst self.receiver.do_send( ==> self.vsend(
//@rename last=vlast min=vmin
//@top
    assert(self.edges_in_time.len() == self.edges_in_time@.len());
//@loop 0 top
            assert(self.edges_in_time.len() == self.edges_in_time@.len());
            let ghost before = single_scores@;
//@loop 0 end
            proof { let kk = i - msg.start; assert(single_scores@.len() == kk + 1); assert(single_scores@.drop_last() =~= before);
                assert(single_scores@[kk].r() == carried(*self, msg.start as int, kk)); }
//@loop 0
            invariant ready(*self), *self == *old(self), msg.start + msg.length + self.query_length - 1 <= self.edges_in_time@.len(),
                msg.start <= vit_0 <= vend_0, vend_0 == msg.start + msg.length, single_scores@.len() == vit_0 - msg.start,
                forall|k: int| 0 <= k < single_scores@.len() ==> (#[trigger] single_scores@[k]).r() == carried(*self, msg.start as int, k),
                first_empty == (vit_0 > msg.start && raw(*self, msg.start as int) is None),
            decreases vend_0 - vit_0,
//@tail
    proof { assert(self.sent@.drop_last() =~= old(self).sent@); }
//@end
}
} // verus!
fn main() {}
