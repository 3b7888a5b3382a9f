verus! {
// ---- the graph part of the data store: nodes, node index by point, edges --------------------------
// the elements of s whose key is k, in order
pub open spec fn sel<T>(s: Seq<T>, key: spec_fn(T) -> int, k: int) -> Seq<T> decreases s.len() { if s.len() == 0 { Seq::empty() } else { let r = sel(s.drop_last(), key, k); if key(s.last()) == k { r.push(s.last()) } else { r } } }
pub proof fn sel_push<T>(s: Seq<T>, key: spec_fn(T) -> int, k: int, x: T) ensures sel(s.push(x), key, k) == (if key(x) == k { sel(s, key, k).push(x) } else { sel(s, key, k) }) { assert(s.push(x).drop_last() =~= s); }
pub proof fn sel_key<T>(s: Seq<T>, key: spec_fn(T) -> int, k: int) ensures forall|i: int| 0 <= i < sel(s, key, k).len() ==> key(#[trigger] sel(s, key, k)[i]) == k decreases s.len() { if s.len() > 0 { let d = s.drop_last(); sel_key(d, key, k); assert forall|i: int| 0 <= i < sel(s, key, k).len() implies key(#[trigger] sel(s, key, k)[i]) == k by { if i < sel(d, key, k).len() { assert(sel(s, key, k)[i] == sel(d, key, k)[i]); } } } }
pub proof fn sel_add<T>(s: Seq<T>, t: Seq<T>, key: spec_fn(T) -> int, k: int) ensures sel(s + t, key, k) == sel(s, key, k) + sel(t, key, k) decreases t.len() {
    if t.len() == 0 { assert(s + t =~= s); assert(sel(s, key, k) + sel(t, key, k) =~= sel(s, key, k)); }
    else { sel_add(s, t.drop_last(), key, k); assert((s + t).drop_last() =~= s + t.drop_last()); assert((s + t).last() == t.last()); let x = t.last();
        if key(x) == k { assert(sel(s + t, key, k) =~= sel(s, key, k) + sel(t, key, k)); } }
}
// every element is selected under exactly its own key
pub proof fn sel_has<T>(s: Seq<T>, key: spec_fn(T) -> int, i: int) requires 0 <= i < s.len() ensures sel(s, key, key(s[i])).contains(s[i]) decreases s.len() {
    let k = key(s[i]); let d = s.drop_last();
    if i == s.len() - 1 { assert(sel(s, key, k).last() == s[i]); assert(sel(s, key, k)[sel(s, key, k).len() - 1] == s[i]); }
    else { sel_has(d, key, i); assert(d[i] == s[i]); let j = choose|j: int| 0 <= j < sel(d, key, k).len() && sel(d, key, k)[j] == s[i]; assert(sel(s, key, k)[j] == s[i]); }
}
pub open spec fn group<T>(m: Map<usize, Vec<T>>, k: usize) -> Seq<T> { if m.contains_key(k) { m[k]@ } else { Seq::empty() } }
// m is the index of s by key
#[verifier::opaque]
pub open spec fn indexed<T>(m: Map<usize, Vec<T>>, s: Seq<T>, key: spec_fn(T) -> int) -> bool { forall|k: usize| #[trigger] group(m, k) == sel(s, key, k as int) && (m.contains_key(k) ==> m[k]@.len() > 0) }
pub proof fn indexed_push<T>(m: Map<usize, Vec<T>>, m2: Map<usize, Vec<T>>, s: Seq<T>, key: spec_fn(T) -> int, x: T, c: usize)
    requires indexed(m, s, key), key(x) == c as int, m2.contains_key(c), m2 == m.insert(c, m2[c]), m2[c]@ == group(m, c).push(x)
    ensures indexed(m2, s.push(x), key)
{
    reveal(indexed);
    assert forall|k: usize| #[trigger] group(m2, k) == sel(s.push(x), key, k as int) && (m2.contains_key(k) ==> m2[k]@.len() > 0) by {
        sel_push(s, key, k as int, x); assert(group(m, k) == sel(s, key, k as int));
        if k != c { assert(m2.contains_key(k) == m.contains_key(k)); if m.contains_key(k) { assert(m2[k] == m[k]); } assert(group(m2, k) == group(m, k)); }
    }
}
pub open spec fn from_point() -> spec_fn(IndependentNode) -> int { |n: IndependentNode| n.from_point_id as int }
pub open spec fn to_point() -> spec_fn(Edge) -> int { |e: Edge| e.to_node.from_point_id as int }
// the order of edges: by the point they lead to, then by the point they come from
pub open spec fn by_points() -> spec_fn(Edge) -> int { |e: Edge| e.to_node.from_point_id * 0x1_0000_0000_0000_0000 + e.from_node.from_point_id }
pub proof fn by_points_by_to(s: Seq<Edge>) requires ordered(s, by_points()) ensures ordered(s, to_point()) { assert forall|i: int, j: int| 0 <= i <= j < s.len() implies to_point()(#[trigger] s[i]) <= to_point()(#[trigger] s[j]) by { assert(by_points()(s[i]) <= by_points()(s[j])); } }
pub type EdgeRef = Edge;
impl Edge { pub fn into_ref(self) -> (r: Edge) ensures r == self { self }
    pub open spec fn mat(self) -> MaterializedEdge { MaterializedEdge { from_node: self.from_node, to_node: self.to_node } }
//@extract src/data_store/edge/materialized.rs :: impl Materialize<MaterializedEdge> for Edge :: materialize
//@ret r
//@spec
    ensures r == self.mat(),
//@subst .deref().clone() ==> .clone()
//@end
}
//@struct src/data_store/edge/materialized.rs :: MaterializedEdge
impl MaterializedEdge {
    #[verifier::external_body] pub fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
    pub open spec fn edge(self) -> Edge { Edge { from_node: self.from_node, to_node: self.to_node } }
//@extract src/data_store/edge/materialized.rs :: impl MaterializedEdge :: get_from_node
//@ret r
//@spec
    ensures r == self.from_node,
//@end
//@extract src/data_store/edge/materialized.rs :: impl MaterializedEdge :: get_to_node
//@ret r
//@spec
    ensures r == self.to_node,
//@end
//@extract src/data_store/edge/materialized.rs :: impl MaterializedEdge :: get_to_id
//@ret r
//@spec
    ensures r == self.to_node.from_point_id,
//@end
}
pub open spec fn edges_of(s: Seq<MaterializedEdge>) -> Seq<Edge> { Seq::new(s.len(), |i: int| s[i].edge()) }
pub open spec fn mats_of(s: Seq<Edge>) -> Seq<MaterializedEdge> { Seq::new(s.len(), |i: int| s[i].mat()) }
// the nodes an edge brings along: both ends
pub open spec fn ends_of(s: Seq<MaterializedEdge>) -> Seq<IndependentNode> { Seq::new(2 * s.len(), |i: int| if i % 2 == 0 { s[i / 2].from_node } else { s[i / 2].to_node }) }
pub proof fn ends_push(s: Seq<MaterializedEdge>, m: MaterializedEdge) ensures ends_of(s.push(m)) == ends_of(s).push(m.from_node).push(m.to_node), edges_of(s.push(m)) == edges_of(s).push(m.edge()) {
    assert(ends_of(s.push(m)) =~= ends_of(s).push(m.from_node).push(m.to_node)) by { let n = s.len() as int; assert((2 * n) / 2 == n && (2 * n + 1) / 2 == n && (2 * n) % 2 == 0 && (2 * n + 1) % 2 == 1); assert forall|i: int| 0 <= i < 2 * n implies #[trigger] ends_of(s.push(m))[i] == ends_of(s)[i] by { assert(0 <= i / 2 < n); } }
    assert(edges_of(s.push(m)) =~= edges_of(s).push(m.edge()));
}
pub open spec fn ordered<T>(s: Seq<T>, key: spec_fn(T) -> int) -> bool { forall|i: int, j: int| 0 <= i <= j < s.len() ==> key(#[trigger] s[i]) <= key(#[trigger] s[j]) }
// std: slice::sort_by_key is a stable sort; tuples are compared lexicographically
#[verifier::external_body] pub fn vsort_by_key<T, C: Fn(&T) -> (usize, usize)>(v: &mut Vec<T>, key: Ghost<spec_fn(T) -> int>, f: C)
    requires forall|a: &T| call_requires(f, (a,)), forall|a: &T, o: (usize, usize)| #[trigger] call_ensures(f, (a,), o) ==> key@(*a) == o.0 * 0x1_0000_0000_0000_0000 + o.1,
    ensures ordered(final(v)@, key@), forall|k: int| #[trigger] sel(final(v)@, key@, k) == sel(old(v)@, key@, k), final(v)@.len() == old(v)@.len()
{ unimplemented!() }
// coordinates of an intersection: not interpreted here
#[verifier::external_body] pub struct Coords { }
pub struct Intersection { pub from_point_id: usize, pub coordinates: Coords, pub segment_id: usize }
pub type IntersectionRef = Intersection;
impl Intersection { pub fn into_ref(self) -> (r: Self) ensures r == self { self } #[verifier::external_body] pub fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
//@extract src/data_store/intersection.rs :: impl Intersection :: get_segment_id
//@ret r
//@spec
    ensures r == self.segment_id,
//@end
//@extract src/data_store/intersection.rs :: impl Intersection :: get_from_id
//@ret r
//@spec
    ensures r == self.from_point_id,
//@end
}
pub open spec fn in_segment() -> spec_fn(Intersection) -> int { |x: Intersection| x.segment_id as int }
pub struct DataStoreIndex { pub nodes: HashMap<usize, Vec<NodeRef>>, pub intersections: HashMap<usize, Vec<IntersectionRef>> }
impl DataStoreIndex {
//@extract src/data_store/index.rs :: impl DataStoreIndex :: add_intersection
//@spec
    ensures final(self).nodes == old(self).nodes, final(self).intersections@.contains_key(intersection.segment_id), final(self).intersections@ == old(self).intersections@.insert(intersection.segment_id, final(self).intersections@[intersection.segment_id]), final(self).intersections@[intersection.segment_id]@ == group(old(self).intersections@, intersection.segment_id).push(intersection),
//@subst match &mut self.intersections.get_mut(&intersection.get_segment_id()) ==> match self.intersections.get_mut(&intersection.get_segment_id())
//@tail
    proof { let c = intersection.segment_id; let o = old(self).intersections@; assert(self.intersections@[c]@ =~= group(o, c).push(intersection)); assert(self.intersections@ =~= o.insert(c, self.intersections@[c])); }
//@end
//@extract src/data_store/index.rs :: impl DataStoreIndex :: get_intersections
//@ret r
//@spec
    ensures r is None <==> !self.intersections@.contains_key(segment), r is Some ==> *r->0 == self.intersections@[segment],
//@end
//@extract src/data_store/index.rs :: impl DataStoreIndex :: add_node
//@spec
    ensures final(self).intersections == old(self).intersections, final(self).nodes@.contains_key(node_ref.from_point_id), final(self).nodes@ == old(self).nodes@.insert(node_ref.from_point_id, final(self).nodes@[node_ref.from_point_id]), final(self).nodes@[node_ref.from_point_id]@ == group(old(self).nodes@, node_ref.from_point_id).push(node_ref),
//@tail
    proof { let c = node_ref.from_point_id; let o = old(self).nodes@; assert(self.nodes@[c]@ =~= group(o, c).push(node_ref)); assert(self.nodes@ =~= o.insert(c, self.nodes@[c])); }
//@end
//@extract src/data_store/index.rs :: impl DataStoreIndex :: get_nodes
//@ret r
//@spec
    ensures r is None <==> !self.nodes@.contains_key(point_id), r is Some ==> *r->0 == self.nodes@[point_id],
//@end
//@extract src/data_store/index.rs :: impl DataStoreIndex :: clear_nodes
//@spec
    ensures final(self).nodes@ == Map::<usize, Vec<NodeRef>>::empty(), final(self).intersections == old(self).intersections,
//@end
}
pub struct DataStore { pub intersections: Vec<IntersectionRef>, pub nodes: Vec<NodeRef>, pub edges: Vec<EdgeRef>, pub index: DataStoreIndex }
impl DataStore {
    pub open spec fn wf(self) -> bool { indexed(self.index.nodes@, self.nodes@, from_point()) && indexed(self.index.intersections@, self.intersections@, in_segment()) }
    pub open spec fn same_graph(self, o: Self) -> bool { self.nodes == o.nodes && self.edges == o.edges && self.index.nodes == o.index.nodes }
    pub open spec fn same_cuts(self, o: Self) -> bool { self.intersections == o.intersections && self.index.intersections == o.index.intersections }
//@extract src/data_store/mod.rs :: impl DataStore :: add_intersection
//@spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).intersections@ == old(self).intersections@.push(intersection), final(self).same_graph(*old(self)),
//@tail
    proof { indexed_push(old(self).index.intersections@, self.index.intersections@, old(self).intersections@, in_segment(), intersection, intersection.segment_id); }
//@end
//@extract src/data_store/mod.rs :: impl DataStore :: add_intersections
//@spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).intersections@ == old(self).intersections@ + intersections@, final(self).same_graph(*old(self)),
//@top
    let ghost is = intersections@; let ghost i0 = self.intersections@; proof { assert(i0 =~= i0 + is.take(0)); }
//@loop 0
        invariant self.wf(), vit_0.all() == is, 0 <= vit_0.pos() <= is.len(), self.intersections@ == i0 + is.take(vit_0.pos()), self.same_graph(*old(self)),
        ensures vit_0.pos() == is.len(),
        decreases is.len() - vit_0.pos(),
//@loop 0 end
        proof { let k = vit_0.pos(); assert(is.take(k) =~= is.take(k - 1).push(is[k - 1])); assert(self.intersections@ =~= i0 + is.take(k)); }
//@tail
    proof { assert(is.take(is.len() as int) =~= is); }
//@end
//@extract src/data_store/mod.rs :: impl DataStore :: get_intersections_from_segment
//@ret r
//@spec
    requires self.wf(),
    ensures (match r { Some(v) => v@.len() > 0 && v@ == sel(self.intersections@, in_segment(), segment as int), None => sel(self.intersections@, in_segment(), segment as int).len() == 0 }),
//@top
    proof { reveal(indexed); assert(group(self.index.intersections@, segment) == sel(self.intersections@, in_segment(), segment as int)); }
//@end
//@extract src/data_store/mod.rs :: impl DataStore :: add_node_ref
//@spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).nodes@ == old(self).nodes@.push(node_ref), final(self).edges == old(self).edges, final(self).same_cuts(*old(self)),
//@tail
    proof { indexed_push(old(self).index.nodes@, self.index.nodes@, old(self).nodes@, from_point(), node_ref, node_ref.from_point_id); }
//@end
//@extract src/data_store/mod.rs :: impl DataStore :: add_independent_node
//@spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).nodes@ == old(self).nodes@.push(node), final(self).edges == old(self).edges, final(self).same_cuts(*old(self)),
//@end
//@extract src/data_store/mod.rs :: impl DataStore :: get_nodes_by_point_id
//@ret r
//@spec
    requires self.wf(),
    ensures (match r { Some(v) => v@.len() > 0 && v@ == sel(self.nodes@, from_point(), point_id as int), None => sel(self.nodes@, from_point(), point_id as int).len() == 0 }),
//@top
    proof { reveal(indexed); assert(group(self.index.nodes@, point_id) == sel(self.nodes@, from_point(), point_id as int)); }
//@end
//@extract src/data_store/mod.rs :: impl DataStore :: add_edge
//@spec
    ensures final(self).edges@ == old(self).edges@.push(edge), final(self).nodes == old(self).nodes, final(self).index == old(self).index, final(self).intersections == old(self).intersections,
//@end
//@extract src/data_store/mod.rs :: impl DataStore :: add_materialized_edges
//@spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).edges@ == old(self).edges@ + edges_of(edges@), final(self).nodes@ == old(self).nodes@ + ends_of(edges@), final(self).same_cuts(*old(self)),
//@top
    let ghost es = edges@; let ghost e0 = self.edges@; let ghost n0 = self.nodes@; proof { assert(e0 =~= e0 + edges_of(es.take(0))); assert(n0 =~= n0 + ends_of(es.take(0))); }
//@loop 0
        invariant self.wf(), self.same_cuts(*old(self)), vit_0.all() == es, 0 <= vit_0.pos() <= es.len(), self.edges@ == e0 + edges_of(es.take(vit_0.pos())), self.nodes@ == n0 + ends_of(es.take(vit_0.pos())),
        ensures vit_0.pos() == es.len(),
        decreases es.len() - vit_0.pos(),
//@loop 0 top
        let ghost d = es[vit_0.pos() - 1];
//@loop 0 end
        proof { let k = vit_0.pos(); ends_push(es.take(k - 1), d); assert(es.take(k) =~= es.take(k - 1).push(d)); assert(self.edges@ =~= e0 + edges_of(es.take(k))); assert(self.nodes@ =~= n0 + ends_of(es.take(k))); }
//@tail
    proof { assert(es.take(es.len() as int) =~= es); }
//@end
//@extract src/data_store/mod.rs :: impl DataStore :: get_edges
//@ret r
//@spec
    ensures r@ == self.edges@,
//@rename to_vec=vto_vec
//@end
//@extract src/data_store/mod.rs :: impl DataStore :: sort_edges
//@spec
    // sorted by target point, then by the point they come from; otherwise edges keep their order
    ensures ordered(final(self).edges@, by_points()), ordered(final(self).edges@, to_point()), forall|k: int| #[trigger] sel(final(self).edges@, by_points(), k) == sel(old(self).edges@, by_points(), k), final(self).edges@.len() == old(self).edges@.len(), final(self).nodes == old(self).nodes, final(self).index == old(self).index, final(self).intersections == old(self).intersections,
//@subst self.edges .sort_by_key( ==> vsort_by_key(&mut self.edges, Ghost(by_points()),
//@closure 0
    |edge: &Edge| -> (o: (usize, usize)) ensures o == (edge.to_node.from_point_id, edge.from_node.from_point_id)
//@tail
    proof { by_points_by_to(self.edges@); }
//@end
//@extract src/data_store/mod.rs :: impl DataStore :: wipe_graph
//@ret r
//@spec
    requires old(self).wf(),
    ensures final(self).wf(), r@ == mats_of(old(self).edges@), final(self).edges@.len() == 0, final(self).nodes@.len() == 0, final(self).same_cuts(*old(self)),
//@rename iter=viter
//@closure 0
    |e: &Edge| -> (m: MaterializedEdge) ensures m == e.mat()
//@subst self.edges.clear() ==> self.edges.vclear()
//@subst self.nodes.clear() ==> self.nodes.vclear()
//@tail
    proof { reveal(indexed); assert(materialized@ =~= mats_of(old(self).edges@)); assert forall|k: usize| #[trigger] group(self.index.nodes@, k) == sel(self.nodes@, from_point(), k as int) by { } }
//@end
}
} // verus!
