//! NodeRef/EdgeRef (Arc) are their immutable contents; Option<NodeRef> equality compares segment and cluster (proved for the node type in C08); derived Default gives empty vectors and None.
//! the node index returns, per point id, the nodes in insertion order (C20); precondition: they are sorted by segment with at most one gap (C04/C17 produce them that way).
//@include base.rs
//@include coll.rs
//@include nodes.rs
verus! {
//@struct src/training/edge_estimation/edges_orderer.rs :: EdgesOrderer
pub trait OptEq { spec fn oe(&self, o: &Self) -> bool; fn veq(&self, o: &Self) -> (r: bool) ensures r == self.oe(o); }
impl OptEq for Option<NodeRef> {
    open spec fn oe(&self, o: &Self) -> bool { (self is None && o is None) || (self is Some && o is Some && self->0.same(o->0)) }
    #[verifier::external_body] fn veq(&self, o: &Self) -> (r: bool) { unimplemented!() }
}
#[verifier::external_body] pub fn clone_on(o: &Option<NodeRef>) -> (r: Option<NodeRef>) ensures r == *o { unimplemented!() }
#[verifier::external_body] pub fn or_on(a: Option<NodeRef>, b: Option<NodeRef>) -> (r: Option<NodeRef>) ensures r == (if a is Some { a } else { b }) { unimplemented!() }

// ---- what the chain must be ------------------------------------------------------------------
pub open spec fn gap_at(l: Seq<NodeRef>, i: int) -> bool { 1 <= i < l.len() && l[i].segment != l[i - 1].segment + 1 }
pub open spec fn one_gap(l: Seq<NodeRef>) -> bool { forall|i: int, j: int| gap_at(l, i) && gap_at(l, j) ==> i == j }
// the nodes of one transition in the order they are passed: after the gap first
pub open spec fn split(l: Seq<NodeRef>, g: int) -> Seq<NodeRef> { l.skip(g) + l.take(g) }
pub open spec fn edge(a: NodeRef, b: NodeRef) -> Edge { Edge { from_node: a, to_node: b } }
// the edges along a path
pub open spec fn along(p: Seq<NodeRef>) -> Seq<Edge> { Seq::new((if p.len() == 0 { 0 } else { p.len() - 1 }) as nat, |i: int| edge(p[i], p[i + 1])) }
pub open spec fn with_prev(prev: Option<NodeRef>, p: Seq<NodeRef>) -> Seq<NodeRef> { if prev is Some { seq![prev->0] + p } else { p } }
pub open spec fn path(l: Seq<NodeRef>) -> Seq<NodeRef> { if exists|g: int| gap_at(l, g) { split(l, choose|g: int| gap_at(l, g)) } else { l } }
pub proof fn path_is(l: Seq<NodeRef>, g: int) requires one_gap(l), gap_at(l, g) ensures path(l) == split(l, g) {
    let h = choose|h: int| gap_at(l, h); assert(gap_at(l, h)); assert(h == g);
}
// state of the orderer after the first k nodes of l
pub open spec fn inv(o: EdgesOrderer, prev: Option<NodeRef>, l: Seq<NodeRef>, k: int) -> bool {
    &&& 0 <= k <= l.len() && o.previous_transition_node == prev
    &&& k == 0 ==> o.edges_small@.len() == 0 && o.edges_large@.len() == 0 && o.first_node is None && o.middle_node is None && o.last_node is None
    &&& k >= 1 && (forall|i: int| gap_at(l, i) ==> i >= k) ==> {
        &&& o.edges_small@ == along(l.take(k)) && o.edges_large@.len() == 0 && o.first_node == Some(l[0]) && o.middle_node is None && o.last_node is None }
    &&& forall|g: int| #[trigger] gap_at(l, g) && g < k ==> {
        &&& o.edges_small@ == along(l.take(g)) && o.edges_large@ == along(with_prev(prev, l.subrange(g, k)))
        &&& o.middle_node == Some(l[0]) && o.last_node == Some(l[g - 1]) && o.first_node == Some(l[g]) }
}
impl EdgesOrderer {
    #[verifier::external_body] pub fn vdefault() -> (r: Self) ensures r.previous_transition_node is None, r.edges_small@.len() == 0, r.edges_large@.len() == 0, r.first_node is None, r.middle_node is None, r.last_node is None { unimplemented!() }
//@extract src/training/edge_estimation/edges_orderer.rs :: impl EdgesOrderer :: new
//@ret r
//@spec
    ensures r.previous_transition_node == previous_node, forall|l: Seq<NodeRef>| #[trigger] inv(r, previous_node, l, 0),
//@subst ..Default::default() ==> ..EdgesOrderer::vdefault()
//@end
//@extract src/training/edge_estimation/edges_orderer.rs :: impl EdgesOrderer :: push
//@spec
    ensures *final(self) == (EdgesOrderer { edges_small: final(self).edges_small, edges_large: final(self).edges_large, ..*old(self) }),
        old(self).last_node is Some ==> final(self).edges_large@ == old(self).edges_large@.push(value) && final(self).edges_small == old(self).edges_small,
        old(self).last_node is None ==> final(self).edges_small@ == old(self).edges_small@.push(value) && final(self).edges_large == old(self).edges_large,
//@end
//@extract src/training/edge_estimation/edges_orderer.rs :: impl EdgesOrderer :: check_for_gap
//@ret r
//@spec
    requires previous_node.segment < usize::MAX,
    ensures r == (current_node.segment != previous_node.segment + 1),
        !r ==> *final(self) == *old(self),
        r ==> {
            &&& final(self).previous_transition_node == old(self).previous_transition_node && final(self).edges_small == old(self).edges_small
            &&& final(self).last_node == Some(*previous_node) && final(self).first_node == Some(*current_node)
            &&& final(self).middle_node == (if old(self).edges_small@.len() > 0 { Some(old(self).edges_small@[0].from_node) } else { Some(*previous_node) })
            &&& final(self).edges_large@ == (if old(self).previous_transition_node is Some { old(self).edges_large@.push(edge(old(self).previous_transition_node->0, *current_node)) } else { old(self).edges_large@ }) },
//@rename get=vget
//@end
//@extract src/training/edge_estimation/edges_orderer.rs :: impl EdgesOrderer :: add_node
//@spec
    requires previous_node is Some ==> previous_node->0.segment < usize::MAX,
    ensures added(*old(self), *final(self), *previous_node, *current_node),
//@rename eq=veq
//@end
//@extract src/training/edge_estimation/edges_orderer.rs :: impl EdgesOrderer :: into_vec
//@ret r
//@spec
    requires closed_ok(self),
    ensures r@ == closed_path(self),
//@rename last=vlast into_iter=vinto_iter
//@subst vself.edges_small.clone() ==> vself.edges_small.vclone()
//@subst vself.edges_large.clone() ==> vself.edges_large.vclone()
//@end
}
// effect of add_node
pub open spec fn added(o: EdgesOrderer, n: EdgesOrderer, p: Option<NodeRef>, c: NodeRef) -> bool {
    if o.previous_transition_node.oe(&p) && o.edges_small@.len() == 0 && o.first_node is None { n == (EdgesOrderer { first_node: Some(c), ..o }) }
    else if p is None { n == o }
    else if c.segment != p->0.segment + 1 {
        &&& n.previous_transition_node == o.previous_transition_node && n.edges_small == o.edges_small && n.last_node == p && n.first_node == Some(c)
        &&& n.middle_node == (if o.edges_small@.len() > 0 { Some(o.edges_small@[0].from_node) } else { p })
        &&& n.edges_large@ == (if o.previous_transition_node is Some { o.edges_large@.push(edge(o.previous_transition_node->0, c)) } else { o.edges_large@ })
    } else {
        &&& n == (EdgesOrderer { edges_small: n.edges_small, edges_large: n.edges_large, ..o })
        &&& o.last_node is Some ==> n.edges_large@ == o.edges_large@.push(edge(p->0, c)) && n.edges_small == o.edges_small
        &&& o.last_node is None ==> n.edges_small@ == o.edges_small@.push(edge(p->0, c)) && n.edges_large == o.edges_large
    }
}
pub open spec fn closed_ok(o: EdgesOrderer) -> bool {
    if o.middle_node is Some { o.last_node is Some && (o.edges_large@.len() > 0 || o.first_node is Some) } else { o.previous_transition_node is Some ==> o.first_node is Some }
}
// result of into_vec
pub open spec fn closed_path(o: EdgesOrderer) -> Seq<Edge> {
    if o.middle_node is Some {
        let from = if o.edges_large@.len() > 0 { o.edges_large@.last().to_node } else { o.first_node->0 };
        o.edges_large@.push(edge(from, o.middle_node->0)) + o.edges_small@
    } else if o.previous_transition_node is Some { seq![edge(o.previous_transition_node->0, o.first_node->0)] + o.edges_small@ }
    else { o.edges_small@ }
}
pub proof fn add_step(o: EdgesOrderer, n: EdgesOrderer, p: Option<NodeRef>, c: NodeRef, prev: Option<NodeRef>, l: Seq<NodeRef>, k: int)
    requires inv(o, prev, l, k), 0 <= k < l.len(), c == l[k], one_gap(l), p == (if k == 0 { prev } else { Some(l[k - 1]) }), added(o, n, p, c),
    ensures inv(n, prev, l, k + 1)
{
    if k == 0 {
        assert(n.edges_small@ =~= along(l.take(1)));
        assert forall|g: int| #[trigger] gap_at(l, g) && g < 1 implies false by {}
    } else if c.segment != p->0.segment + 1 {
        assert(gap_at(l, k));
        assert forall|i: int| gap_at(l, i) implies i >= k by { assert(i == k); }
        assert(o.edges_small@ == along(l.take(k)));
        if k > 1 { assert(along(l.take(k))[0].from_node == l[0]); assert(o.edges_small@.len() > 0); }
        assert forall|g: int| #[trigger] gap_at(l, g) && g < k + 1 implies
            n.edges_small@ == along(l.take(g)) && n.edges_large@ == along(with_prev(prev, l.subrange(g, k + 1))) && n.middle_node == Some(l[0]) && n.last_node == Some(l[g - 1]) && n.first_node == Some(l[g]) by {
            assert(g == k);
            assert(n.edges_large@ =~= along(with_prev(prev, l.subrange(g, k + 1))));
        }
    } else {
        if exists|g: int| gap_at(l, g) && g < k {
            let g = choose|g: int| gap_at(l, g) && g < k; assert(gap_at(l, g));
            assert(o.last_node is Some);
            let q = with_prev(prev, l.subrange(g, k)); let q2 = with_prev(prev, l.subrange(g, k + 1));
            assert(q2 =~= q.push(c)); assert(q.last() == p->0);
            assert(along(q2) =~= along(q).push(edge(p->0, c)));
            assert forall|h: int| #[trigger] gap_at(l, h) && h < k + 1 implies h == g by {}
        } else {
            assert forall|i: int| gap_at(l, i) implies i >= k + 1 by { if i < k { assert(gap_at(l, i) && i < k); } }
            assert(o.last_node is None && o.edges_small@ == along(l.take(k)));
            assert(l.take(k + 1) =~= l.take(k).push(c)); assert(l.take(k).last() == p->0);
            assert(along(l.take(k + 1)) =~= along(l.take(k)).push(edge(p->0, c)));
        }
    }
}
pub proof fn finish(o: EdgesOrderer, prev: Option<NodeRef>, l: Seq<NodeRef>)
    requires inv(o, prev, l, l.len() as int), l.len() > 0, one_gap(l),
    ensures closed_ok(o), closed_path(o) == along(with_prev(prev, path(l))), path(l).len() == l.len(), path(l).last() == (if o.last_node is Some { o.last_node->0 } else { l.last() }),
{
    let n = l.len() as int;
    if exists|g: int| gap_at(l, g) {
        let g = choose|g: int| gap_at(l, g); assert(gap_at(l, g) && g < n);
        let q = with_prev(prev, l.subrange(g, n)); let a = l.take(g);
        assert(l.skip(g) =~= l.subrange(g, n));
        let full = with_prev(prev, path(l));
        assert(full =~= q + a);
        assert(o.edges_large@ == along(q) && o.edges_small@ == along(a));
        assert(q.last() == l[n - 1]); assert(a[0] == l[0]);
        if q.len() >= 2 { assert(along(q).last().to_node == q.last()); } else { assert(q =~= seq![l[g]]); }
        assert(along(full) =~= along(q).push(edge(q.last(), a[0])) + along(a));
        assert(path(l).last() == l[g - 1]);
    } else {
        assert(l.take(n) =~= l);
        assert(path(l) == l);
        if prev is Some { assert(along(with_prev(prev, l)) =~= seq![edge(prev->0, l[0])] + along(l)); }
    }
}
// ---- connect_nodes -----------------------------------------------------------------------------
pub struct DatasetStats { pub n: Option<usize> }
pub struct NodeEstimation { pub next_foreign_node: HashMap<(usize, usize), (usize, IndependentNode)> }
pub struct DataStore { pub nodes: Ghost<Map<usize, Seq<NodeRef>>>, pub edges: Vec<Edge> }
impl DataStore {
    #[verifier::external_body] pub fn get_nodes_by_point_id(&self, point_id: usize) -> (r: Option<&Vec<NodeRef>>)
        ensures (r is Some) == self.nodes@.contains_key(point_id), r is Some ==> r->0@ == self.nodes@[point_id] { unimplemented!() }
//@extract src/data_store/mod.rs :: impl DataStore :: add_edge
//@spec
    ensures final(self).edges@ == old(self).edges@.push(edge), final(self).nodes == old(self).nodes,
//@subst edge.into_ref() ==> edge
//@end
//@extract src/data_store/mod.rs :: impl DataStore :: add_edges
//@spec
    ensures final(self).edges@ == old(self).edges@ + edges@, final(self).nodes == old(self).nodes,
//@loop 0 pre
        let ghost es = edges@;
        proof { assert(self.edges@ + es.take(0) =~= self.edges@); }
//@loop 0
        invariant vit_0.all() == es, 0 <= vit_0.pos() <= es.len(), self.edges@ == old(self).edges@ + es.take(vit_0.pos()), self.nodes == old(self).nodes,
        ensures vit_0.pos() == es.len(),
        decreases es.len() - vit_0.pos(),
//@loop 0 end
        proof { let k = vit_0.pos(); assert(es.take(k) =~= es.take(k - 1).push(es[k - 1])); assert(old(self).edges@ + es.take(k - 1).push(es[k - 1]) =~= (old(self).edges@ + es.take(k - 1)).push(es[k - 1])); }
//@loop 0 after
        proof { assert(es.take(es.len() as int) =~= es); }
//@end
}
pub struct Training { pub dataset_stats: Option<DatasetStats>, pub data_store: DataStore, pub node_estimation: NodeEstimation }
// the whole chain after the points 0..k: (edges, last node or None)
#[verifier::opaque]
pub open spec fn chain(nodes: Map<usize, Seq<NodeRef>>, foreign: Map<(usize, usize), (usize, IndependentNode)>, k: int) -> (Seq<Edge>, Option<NodeRef>) decreases k {
    if k <= 0 { (seq![], None) } else {
        let (es, prev) = chain(nodes, foreign, k - 1); let id = (k - 1) as usize;
        if nodes.contains_key(id) {
            let p = path(nodes[id]); let last = p.last(); let e2 = es + along(with_prev(prev, p));
            if foreign.contains_key((id, last.segment)) { (e2.push(edge(last, foreign[(id, last.segment)].1)), None) } else { (e2, Some(last)) }
        } else { (es, prev) }
    }
}
#[verifier::opaque]
pub open spec fn untouched(now: Map<(usize, usize), (usize, IndependentNode)>, foreign: Map<(usize, usize), (usize, IndependentNode)>, from: usize) -> bool {
    forall|id: usize, s: usize| id >= from ==> (now.contains_key((id, s)) <==> #[trigger] foreign.contains_key((id, s))) && (foreign.contains_key((id, s)) ==> now[(id, s)] == foreign[(id, s)])
}
pub proof fn untouched_step(now: Map<(usize, usize), (usize, IndependentNode)>, foreign: Map<(usize, usize), (usize, IndependentNode)>, from: usize, s: usize)
    requires untouched(now, foreign, from), from < usize::MAX
    ensures untouched(now, foreign, (from + 1) as usize), untouched(now.remove((from, s)), foreign, (from + 1) as usize)
{ reveal(untouched);
  assert forall|id: usize, t: usize| id >= from + 1 implies (now.remove((from, s)).contains_key((id, t)) <==> #[trigger] foreign.contains_key((id, t))) && (foreign.contains_key((id, t)) ==> now.remove((from, s))[(id, t)] == foreign[(id, t)]) by { assert((id, t) != (from, s)); }
}
pub open spec fn lists_ok(nodes: Map<usize, Seq<NodeRef>>) -> bool {
    forall|id: usize| #[trigger] nodes.contains_key(id) ==> nodes[id].len() > 0 && one_gap(nodes[id]) && (forall|i: int| 0 <= i < nodes[id].len() ==> (#[trigger] nodes[id][i]).segment < usize::MAX)
}
#[verifier::external_body] pub fn expect_stats(o: &Option<DatasetStats>) -> (r: &DatasetStats) requires *o is Some ensures *r == o->0 { unimplemented!() }
impl Training {
//@extract src/training/edge_estimation/mod.rs :: impl EdgeEstimator for Training :: connect_nodes
//@spec
    requires old(self).dataset_stats is Some, old(self).dataset_stats->0.n is Some, lists_ok(old(self).data_store.nodes@),
    ensures final(self).data_store.edges@ == old(self).data_store.edges@ + chain(old(self).data_store.nodes@, old(self).node_estimation.next_foreign_node@, old(self).dataset_stats->0.n->0 as int).0,
        final(self).data_store.nodes == old(self).data_store.nodes, final(self).node_estimation.next_foreign_node@ == Map::<(usize, usize), (usize, IndependentNode)>::empty(),
//@subst self.dataset_stats.as_ref().expect("DatasetStats should've been set by now!") ==> expect_stats(&self.dataset_stats)
//@subst previous_node.clone() ==> clone_on(&previous_node)
//@subst edges.last_node.clone().or(previous_node) ==> or_on(clone_on(&edges.last_node), previous_node)
//@top
    let ghost nodes = self.data_store.nodes@; let ghost foreign = self.node_estimation.next_foreign_node@; let ghost e0 = self.data_store.edges@;
//@loop 0 pre
        proof { reveal(untouched); reveal(chain); assert(e0 + chain(nodes, foreign, 0).0 =~= e0); }
//@loop 0
            invariant 0 <= vit_0 <= vend_0, vend_0 == len_dataset, lists_ok(nodes), self.data_store.nodes@ == nodes, self.data_store.nodes == old(self).data_store.nodes, len_dataset == old(self).dataset_stats->0.n->0,
                previous_node == chain(nodes, foreign, vit_0 as int).1, self.data_store.edges@ == e0 + chain(nodes, foreign, vit_0 as int).0,
                previous_node is Some ==> previous_node->0.segment < usize::MAX,
                // questions answered for points still to come are untouched
                untouched(self.node_estimation.next_foreign_node@, foreign, vit_0),
            decreases vend_0 - vit_0,
//@loop 0 top
            let ghost fm = self.node_estimation.next_foreign_node@; let ghost pv = previous_node; let ghost cs = chain(nodes, foreign, point_id as int).0; let ghost l = nodes[point_id];
            proof { reveal(chain); }
//@loop 1 pre
                proof { assert(inv(edges, pv, l, 0)); }
//@loop 1
                    invariant vit_1.all().len() == l.len(), forall|i: int| 0 <= i < l.len() ==> *(#[trigger] vit_1.all()[i]) == l[i], 0 <= vit_1.pos() <= l.len(), l.len() > 0, one_gap(l), forall|i: int| 0 <= i < l.len() ==> (#[trigger] l[i]).segment < usize::MAX,
                        inv(edges, pv, l, vit_1.pos()), previous_node == (if vit_1.pos() == 0 { pv } else { Some(l[vit_1.pos() - 1]) }), pv is Some ==> pv->0.segment < usize::MAX,
                    ensures vit_1.pos() == l.len(),
                    decreases l.len() - vit_1.pos(),
//@loop 1 top
                    let ghost ed0 = edges; let ghost pn0 = previous_node;
//@loop 1 end
                    proof { add_step(ed0, edges, pn0, l[vit_1.pos() - 1], pv, l, vit_1.pos() - 1); }
//@loop 1 after
                proof { reveal(untouched); assert(foreign.contains_key((point_id, path(l).last().segment)) <==> fm.contains_key((point_id, path(l).last().segment))); finish(edges, pv, l); assert(e0 + (cs + along(with_prev(pv, path(l)))) =~= (e0 + cs) + along(with_prev(pv, path(l)))); path_seg(l); }
//@loop 0 end
            proof { let fn1 = self.node_estimation.next_foreign_node@;
                assert(fn1 == fm || exists|s: usize| fn1 == fm.remove((point_id, s)));
                if fn1 == fm { untouched_step(fm, foreign, point_id, 0); assert(untouched(fn1, foreign, vit_0)); }
                else { let s = choose|s: usize| fn1 == fm.remove((point_id, s)); untouched_step(fm, foreign, point_id, s); assert(untouched(fn1, foreign, vit_0)); }
                if nodes.contains_key(point_id) { let p = path(l); let a = cs + along(with_prev(pv, p)); let x = edge(p.last(), foreign[(point_id, p.last().segment)].1); assert(e0 + a.push(x) =~= (e0 + a).push(x)); } }
//@end
}
pub proof fn path_seg(l: Seq<NodeRef>) requires l.len() > 0, one_gap(l), forall|i: int| 0 <= i < l.len() ==> (#[trigger] l[i]).segment < usize::MAX ensures path(l).len() > 0, path(l).last().segment < usize::MAX {
    if exists|g: int| gap_at(l, g) { let g = choose|g: int| gap_at(l, g); assert(gap_at(l, g)); assert(path(l).last() == l[g - 1]); }
}
} // verus!
fn main() {}
