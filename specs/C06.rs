//! edges are sorted by the point they lead to (sort_edges / transposition, C13 and C20) and none precedes the partition's first point
//! NodeRef/EdgeRef (Arc) are their immutable contents.
//@include base.rs
//@include coll.rs
//@include nodes.rs
verus! {
pub struct ClusterNodes { pub n: usize, pub own: usize }
impl ClusterNodes {
    // contracts proved for the real type in C12: len = number of other nodes
    #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r as int == self.n - 1 { unimplemented!() }
    #[verifier::external_body] pub fn get_own_idx(&self) -> (r: usize) ensures r == self.own { unimplemented!() }
}
pub struct DataStore { pub edges: Vec<Edge> }
pub struct Transposition { pub range_start_point: Option<usize> }
pub struct Training { pub data_store: DataStore, pub transposition: Transposition, pub num_rotated: Option<usize>, pub cluster_nodes: ClusterNodes }
#[verifier::external_body] pub fn once_ref<T>(x: &T) -> (r: It<&T>) ensures r.pos() == 0, r.all().len() == 1, *r.all()[0] == *x { unimplemented!() }
#[verifier::external_body] pub fn edges_it(d: &DataStore) -> (r: It<&Edge>) ensures r.pos() == 0, r.all().len() == d.edges@.len(), forall|i: int| 0 <= i < r.all().len() ==> *(#[trigger] r.all()[i]) == d.edges@[i] { unimplemented!() }
pub open spec fn to(e: Edge) -> int { e.to_node.from_point_id as int }
pub open spec fn sorted(es: Seq<Edge>) -> bool { forall|i: int, j: int| 0 <= i <= j < es.len() ==> to(#[trigger] es[i]) <= to(#[trigger] es[j]) }
// exactly the first k edges lead to a point <= x; for sorted edges: k = number of edges to a point <= x
pub open spec fn cut(es: Seq<Edge>, k: int, x: int) -> bool {
    0 <= k <= es.len() && (forall|j: int| 0 <= j < k ==> to(#[trigger] es[j]) <= x) && (forall|j: int| k <= j < es.len() ==> to(#[trigger] es[j]) > x)
}
pub proof fn cut_unique(es: Seq<Edge>, k: int, l: int, x: int) requires cut(es, k, x), cut(es, l, x) ensures k == l {
    if k < l { assert(to(es[k]) <= x); } else if l < k { assert(to(es[l]) <= x); }
}
pub open spec fn result_len(t: Training) -> int { t.num_rotated->0 - (if t.cluster_nodes.own as int == t.cluster_nodes.n - 1 { 1int } else { 0 }) }
pub open spec fn reach(es: Seq<Edge>, start: int) -> int { if es.len() == 0 { 0 } else { to(es.last()) - start + 1 } }
impl Training {
//@extract src/training/scoring/weights.rs :: impl ScoringWeights for Training :: count_edges_in_time
//@ret r
//@spec
    requires sorted(old(self).data_store.edges@), old(self).data_store.edges@.len() < usize::MAX, old(self).num_rotated is Some, result_len(*old(self)) >= 0,
        old(self).cluster_nodes.n >= 1,
        forall|i: int| 0 <= i < old(self).data_store.edges@.len() ==> to(#[trigger] old(self).data_store.edges@[i]) >= (if old(self).transposition.range_start_point is Some { old(self).transposition.range_start_point->0 } else { 0 }),
        forall|i: int| 0 <= i < old(self).data_store.edges@.len() ==> to(#[trigger] old(self).data_store.edges@[i]) < usize::MAX,
    ensures *final(self) == *old(self),
        ({ let es = old(self).data_store.edges@; let st = if old(self).transposition.range_start_point is Some { old(self).transposition.range_start_point->0 as int } else { 0 };
           &&& r@.len() == (if reach(es, st) > result_len(*old(self)) { reach(es, st) } else { result_len(*old(self)) })
           &&& forall|p: int| 0 <= p < r@.len() ==> cut(es, #[trigger] r@[p] as int, st + p) }),
//@subst self .data_store .get_edges() .iter() .chain(&[pseudo_edge]) .enumerate() ==> edges_it(&self.data_store).chain(once_ref(&pseudo_edge)).enumerate()
//@subst .into_ref(); let mut edges_in_time = vec![]; ==> ; let mut edges_in_time: Vec<usize> = vec![];
//@subst let mut last_point_id = None; ==> let mut last_point_id: Option<usize> = None;
//@rename ne=vne lt=vlt eq=veqq
//@top
    let ghost es = self.data_store.edges@; let ghost st = if self.transposition.range_start_point is Some { self.transposition.range_start_point->0 as int } else { 0 };
//@loop 0 pre
        let ghost all = es.push(pseudo_edge);
//@loop 0
        invariant *self == *old(self), es == self.data_store.edges@, sorted(es), es.len() < usize::MAX, start_point as int == st, all == es.push(pseudo_edge), 
            forall|i: int| 0 <= i < es.len() ==> st <= to(#[trigger] es[i]) < to(pseudo_edge),
            vit_0.all().len() == all.len(), forall|i: int| 0 <= i < all.len() ==> (#[trigger] vit_0.all()[i]).0 == i && *vit_0.all()[i].1 == all[i],
            0 <= vit_0.pos() <= all.len(),
            vit_0.pos() == 0 ==> last_point_id is None && last_len == 0 && edges_in_time@.len() == 0,
            vit_0.pos() > 0 ==> last_point_id == Some(all[vit_0.pos() - 1].to_node.from_point_id),
            // last_len: where the current group of equal points starts
            0 <= last_len <= vit_0.pos(), vit_0.pos() > 0 ==> last_len < vit_0.pos(), forall|j: int| last_len <= j < vit_0.pos() ==> to(#[trigger] all[j]) == to(all[vit_0.pos() - 1]),
            edges_in_time@.len() == (if last_len == 0 { 0 } else { to(es[last_len - 1]) - st + 1 }),
            last_len > 0 && vit_0.pos() <= es.len() ==> to(es[last_len - 1]) < to(es[last_len as int]),
            forall|p: int| 0 <= p < edges_in_time@.len() ==> cut(es, #[trigger] edges_in_time@[p] as int, st + p),
        ensures vit_0.pos() == all.len(),
        decreases all.len() - vit_0.pos(),
//@loop 0 top
            let ghost pp = vit_0.pos() - 1;
            proof { assert(vit_0.all()[pp].0 == pp); assert(*edge == all[pp]); if pp > 0 { assert(to(all[last_len as int]) == to(all[pp - 1])); assert(all[last_len as int] == es[last_len as int]); } }
//@loop 0 after
        proof { if last_len < es.len() { assert(to(all[last_len as int]) == to(all[all.len() - 1])); assert(all[last_len as int] == es[last_len as int]); } }
//@loop 1
                            invariant start_point as int == st, last_point_id_ref >= start_point, last_len <= pp <= es.len(), last_len < es.len(), sorted(es), pp > 0,
                                last_point_id_ref == to(es[last_len as int]), last_len > 0 ==> to(es[last_len - 1]) < to(es[last_len as int]),
                                edges_in_time@.len() >= (if last_len == 0 { 0 } else { to(es[last_len - 1]) - st + 1 }),
                                edges_in_time@.len() <= last_point_id_ref - st,
                                forall|p: int| 0 <= p < edges_in_time@.len() ==> cut(es, #[trigger] edges_in_time@[p] as int, st + p),
                            decreases last_point_id_ref - st - edges_in_time@.len(),
//@loop 2
            invariant result_length as int == result_len(*self), *self == *old(self), sorted(es),
                forall|i: int| 0 <= i < es.len() ==> st <= to(#[trigger] es[i]),
                last_len == es.len(), edges_in_time@.len() >= reach(es, st), edges_in_time@.len() <= (if reach(es, st) > result_len(*self) { reach(es, st) } else { result_len(*self) }),
                forall|p: int| 0 <= p < edges_in_time@.len() ==> cut(es, #[trigger] edges_in_time@[p] as int, st + p),
            decreases result_length - edges_in_time@.len(),
//@end
}
} // verus!
fn main() {}
