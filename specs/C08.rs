//! HashMap/HashSet with the proved eq/hash of the key types behave as maps/sets over (segment, cluster) keys; Arc and derived PartialEq/Hash (MaterializedEdge) compare and hash their contents field by field.
//! counts stay below 2^63 (fewer than 2^62 edges).
//@include base.rs
//@include coll.rs
//@include nodes.rs
verus! {
pub enum Ev { Degrees { to: Option<usize>, m: NodeDegrees }, Weights { to: Option<usize>, m: EdgeWeights }, InitDone }
} // verus!
//@include net.rs
//@include proto.rs
verus! {
pub struct MaterializedEdge { pub from_node: IndependentNode, pub to_node: IndependentNode }
impl VKey for IndependentNode { type K = (usize, usize); open spec fn k(&self) -> (usize, usize) { (self.segment, self.cluster) } }
impl VKey for Edge { type K = ((usize, usize), (usize, usize)); open spec fn k(&self) -> ((usize, usize), (usize, usize)) { (self.from_node.k(), self.to_node.k()) } }
impl VKey for MaterializedEdge { type K = ((usize, usize), (usize, usize)); open spec fn k(&self) -> ((usize, usize), (usize, usize)) { (self.from_node.k(), self.to_node.k()) } }
impl MaterializedEdge { #[verifier::external_body] pub fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
pub struct HashSet<K> { k: core::marker::PhantomData<K> }
impl<K: VKey> HashSet<K> {
    pub uninterp spec fn view(&self) -> Set<K::K>;
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r@ == Set::<K::K>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, k: K) -> (r: bool) ensures r == !old(self)@.contains(k.k()), final(self)@ == old(self)@.insert(k.k()) { unimplemented!() }
}
// ---- identity of nodes and edges -------------------------------------------------------------
pub struct Hasher { pub fed: Ghost<Seq<usize>> }
pub trait VHash { spec fn stream(&self) -> Seq<usize>; fn vhash(&self, state: &mut Hasher) ensures final(state).fed@ == old(state).fed@ + self.stream(); }
impl VHash for usize { open spec fn stream(&self) -> Seq<usize> { seq![*self] } #[verifier::external_body] fn vhash(&self, state: &mut Hasher) { unimplemented!() } }
impl IndependentNode {
    pub open spec fn stream(&self) -> Seq<usize> { seq![self.segment, self.cluster] }
//@extract src/data_store/node/independent.rs :: impl PartialEq<Self> for IndependentNode :: eq
//@ret r
//@spec
    ensures r == (self.k() == other.k()),
//@rename eq=veqq
//@subst & self.cluster ==> && self.cluster
//@end
//@extract src/data_store/node/independent.rs :: impl Hash for IndependentNode :: hash
//@spec
    ensures final(state).fed@ == old(state).fed@ + self.stream(),
//@subst fn hash<H: Hasher>(&self, state: &mut H) ==> fn hash(&self, state: &mut Hasher)
//@rename hash=vhash
//@tail
    proof { assert(state.fed@ =~= old(state).fed@ + self.stream()); }
//@end
}
impl Edge {
    pub open spec fn mk(self) -> ((usize, usize), (usize, usize)) { (self.from_node.k(), self.to_node.k()) }
//@extract src/data_store/edge/mod.rs :: impl PartialEq<Self> for Edge :: eq
//@ret r
//@spec
    ensures r == (self.k() == other.k()),
//@subst & self.to_node ==> && self.to_node
//@end
//@extract src/data_store/edge/mod.rs :: impl Hash for Edge :: hash
//@spec
    ensures final(state).fed@ == old(state).fed@ + self.from_node.stream() + self.to_node.stream(),
//@subst fn hash<H: Hasher>(&self, state: &mut H) ==> fn hash(&self, state: &mut Hasher)
//@end
//@extract src/data_store/edge/materialized.rs :: impl Materialize<MaterializedEdge> for Edge :: materialize
//@ret r
//@spec
    ensures r.k() == self.mk(), r.from_node == self.from_node, r.to_node == self.to_node,
//@subst .deref().clone() ==> .clone()
//@end
}
// equal nodes hash alike
pub proof fn hash_agrees(a: IndependentNode, b: IndependentNode) requires a.k() == b.k() ensures a.stream() == b.stream() {}

// ---- weights and degrees -----------------------------------------------------------------------
pub type NK = (usize, usize);
pub type EK = ((usize, usize), (usize, usize));
pub open spec fn b2i(b: bool) -> int { if b { 1 } else { 0 } }
// how often the edge k occurs among the first n
pub open spec fn cnt(es: Seq<Edge>, k: EK, n: int) -> int decreases n { if n <= 0 { 0 } else { cnt(es, k, n - 1) + b2i(es[n - 1].mk() == k) } }
pub open spec fn first(es: Seq<Edge>, i: int) -> bool { cnt(es, es[i].mk(), i) == 0 }
// number of distinct edges that start in node k, plus number that end in it, among the first n
pub open spec fn deg(es: Seq<Edge>, k: NK, n: int) -> int decreases n { if n <= 0 { 0 } else { deg(es, k, n - 1) + if first(es, n - 1) { b2i(es[n - 1].from_node.k() == k) + b2i(es[n - 1].to_node.k() == k) } else { 0 } } }
pub proof fn cnt_bound(es: Seq<Edge>, k: EK, n: int) requires n >= 0 ensures 0 <= cnt(es, k, n) <= n decreases n { if n > 0 { cnt_bound(es, k, n - 1) } }
pub proof fn deg_bound(es: Seq<Edge>, k: NK, n: int) requires n >= 0 ensures 0 <= deg(es, k, n) <= 2 * n decreases n { if n > 0 { deg_bound(es, k, n - 1) } }
#[verifier::opaque]
pub open spec fn is_weight(m: Map<EK, usize>, es: Seq<Edge>, n: int) -> bool {
    forall|k: EK| (#[trigger] m.contains_key(k) <==> cnt(es, k, n) > 0) && (m.contains_key(k) ==> m[k] as int == cnt(es, k, n))
}
#[verifier::opaque]
pub open spec fn is_degree(m: Map<NK, usize>, es: Seq<Edge>, n: int) -> bool {
    forall|k: NK| (#[trigger] m.contains_key(k) <==> deg(es, k, n) > 0) && (m.contains_key(k) ==> m[k] as int == deg(es, k, n))
}
pub open spec fn bump<K>(m: Map<K, usize>, k: K) -> Map<K, usize> { m.insert(k, (if m.contains_key(k) { m[k] + 1 } else { 1 }) as usize) }
pub proof fn weight_step(m: Map<EK, usize>, es: Seq<Edge>, n: int) requires is_weight(m, es, n), 0 <= n < es.len() < 0x4000_0000_0000_0000
    ensures is_weight(bump(m, es[n].mk()), es, n + 1), m.contains_key(es[n].mk()) ==> m[es[n].mk()] < 0x7000_0000_0000_0000
{ reveal(is_weight); let c = es[n].mk(); cnt_bound(es, c, n); let b = bump(m, c);
  assert forall|k: EK| (#[trigger] b.contains_key(k) <==> cnt(es, k, n + 1) > 0) && (b.contains_key(k) ==> b[k] as int == cnt(es, k, n + 1)) by {
    assert(m.contains_key(k) <==> cnt(es, k, n) > 0); cnt_bound(es, k, n); assert(cnt(es, k, n + 1) == cnt(es, k, n) + b2i(c == k));
    if k == c { assert(b[k] == (if m.contains_key(c) { m[c] + 1 } else { 1 }) as usize); if m.contains_key(c) { assert(m[c] as int == cnt(es, c, n)); } }
    else { assert(b.contains_key(k) == m.contains_key(k)); if m.contains_key(k) { assert(b[k] == m[k]); } }
  } assert(m.contains_key(c) <==> cnt(es, c, n) > 0); }
pub open spec fn lt(m: Map<NK, usize>, k: NK, x: int) -> bool { m.contains_key(k) ==> m[k] < x }
pub proof fn degree_step(m: Map<NK, usize>, es: Seq<Edge>, n: int) requires is_degree(m, es, n), 0 <= n < es.len() < 0x1000_0000_0000_0000
    ensures !first(es, n) ==> is_degree(m, es, n + 1),
        first(es, n) ==> is_degree(bump(bump(m, es[n].from_node.k()), es[n].to_node.k()), es, n + 1),
        lt(m, es[n].from_node.k(), 0x7000_0000_0000_0000), lt(m, es[n].to_node.k(), 0x7000_0000_0000_0000),
        lt(bump(m, es[n].from_node.k()), es[n].to_node.k(), 0x7000_0000_0000_0001),
{ reveal(is_degree); let f = es[n].from_node.k(); let t = es[n].to_node.k(); deg_bound(es, f, n); deg_bound(es, t, n);
  assert(m.contains_key(f) <==> deg(es, f, n) > 0); assert(m.contains_key(t) <==> deg(es, t, n) > 0);
  let b1 = bump(m, f);
  assert(b1.contains_key(t) ==> b1[t] as int == deg(es, t, n) + b2i(f == t)) by { if f == t { if m.contains_key(f) { assert(m[f] as int == deg(es, f, n)); } } else if m.contains_key(t) { assert(b1[t] == m[t]); } }
  if first(es, n) { let b = bump(b1, t);
    assert forall|k: NK| (#[trigger] b.contains_key(k) <==> deg(es, k, n + 1) > 0) && (b.contains_key(k) ==> b[k] as int == deg(es, k, n + 1)) by {
      assert(m.contains_key(k) <==> deg(es, k, n) > 0); deg_bound(es, k, n); assert(deg(es, k, n + 1) == deg(es, k, n) + b2i(f == k) + b2i(t == k));
      if k == t { assert(b1.contains_key(k) <==> (m.contains_key(k) || f == k)); assert(b[k] as int == (if b1.contains_key(t) { b1[t] + 1 } else { 1 })); }
      else if k == f { assert(b.contains_key(k)); assert(b[k] == b1[k]); if m.contains_key(f) { assert(m[f] as int == deg(es, f, n)); } }
      else { assert(b.contains_key(k) == m.contains_key(k)); if m.contains_key(k) { assert(b[k] == m[k]); } }
    } }
  else { assert forall|k: NK| (#[trigger] m.contains_key(k) <==> deg(es, k, n + 1) > 0) && (m.contains_key(k) ==> m[k] as int == deg(es, k, n + 1)) by { } }
}
#[verifier::opaque]
pub open spec fn is_seen(s: Set<EK>, es: Seq<Edge>, n: int) -> bool { forall|k: EK| #[trigger] s.contains(k) <==> cnt(es, k, n) > 0 }
pub proof fn seen_step(s: Set<EK>, es: Seq<Edge>, n: int) requires is_seen(s, es, n), 0 <= n < es.len() ensures is_seen(s.insert(es[n].mk()), es, n + 1), s.contains(es[n].mk()) == !first(es, n)
{ reveal(is_seen); cnt_bound(es, es[n].mk(), n); let c = es[n].mk();
  assert forall|k: EK| #[trigger] s.insert(c).contains(k) <==> cnt(es, k, n + 1) > 0 by { assert(s.contains(k) == s.contains(k)); cnt_bound(es, k, n); } assert(s.contains(c) == s.contains(c)); }
pub proof fn empties(es: Seq<Edge>) ensures is_weight(Map::empty(), es, 0), is_degree(Map::empty(), es, 0), is_seen(Set::empty(), es, 0) { reveal(is_weight); reveal(is_degree); reveal(is_seen); }

pub struct NodeDegrees { pub degrees: HashMap<IndependentNode, usize> }
pub struct EdgeWeights { pub weights: HashMap<MaterializedEdge, usize> }
pub struct ScoreInitDone;
impl VMsg for NodeDegrees { open spec fn ev(self, to: Option<usize>) -> Ev { Ev::Degrees { to, m: self } } }
impl VMsg for EdgeWeights { open spec fn ev(self, to: Option<usize>) -> Ev { Ev::Weights { to, m: self } } }
impl VMsg for ScoreInitDone { open spec fn ev(self, to: Option<usize>) -> Ev { Ev::InitDone } }
pub struct Scoring { pub node_degrees: HashMap<NodeRef, usize>, pub edge_weight: HashMap<MaterializedEdge, usize>, pub node_degrees_rotation_protocol: RotationProtocol<NodeDegrees>, pub edge_weight_rotation_protocol: RotationProtocol<EdgeWeights> }
pub struct DataStore { pub edges: Vec<Edge> }
impl DataStore { #[verifier::external_body] pub fn get_edges(&self) -> (r: Vec<Edge>) ensures r@ == self.edges@ { unimplemented!() } }
pub struct Training { pub data_store: DataStore, pub scoring: Scoring, pub cluster_nodes: ClusterNodes, pub log: Log, pub inbox_d: Inbox<NodeDegrees>, pub inbox_w: Inbox<EdgeWeights> }
// entrywise sum of two tables
#[verifier::opaque]
pub open spec fn is_sum<K>(m: Map<K, usize>, a: Map<K, usize>, b: Map<K, usize>) -> bool {
    forall|k: K| (#[trigger] m.contains_key(k) <==> a.contains_key(k) || b.contains_key(k)) && (m.contains_key(k) ==> m[k] == (if a.contains_key(k) { a[k] as int } else { 0 }) + (if b.contains_key(k) { b[k] as int } else { 0 }))
}
// the part of b seen so far
#[verifier::opaque]
pub open spec fn is_part<K: VKey>(p: Map<K::K, usize>, b: Map<K::K, usize>, all: Seq<(&K, &usize)>, n: int) -> bool {
    forall|k: K::K| (#[trigger] p.contains_key(k) <==> exists|i: int| 0 <= i < n && (#[trigger] all[i]).0.k() == k) && (p.contains_key(k) ==> b.contains_key(k) && p[k] == b[k])
}
pub open spec fn entries<K: VKey>(b: Map<K::K, usize>, all: Seq<(&K, &usize)>) -> bool {
    &&& forall|i: int| 0 <= i < all.len() ==> b.contains_key((#[trigger] all[i]).0.k()) && b[all[i].0.k()] == *all[i].1
    &&& forall|i: int, j: int| 0 <= i < j < all.len() ==> (#[trigger] all[i]).0.k() != (#[trigger] all[j]).0.k()
    &&& forall|k: K::K| b.contains_key(k) ==> exists|i: int| 0 <= i < all.len() && (#[trigger] all[i]).0.k() == k
}
pub open spec fn small<K>(m: Map<K, usize>) -> bool { forall|k: K| #[trigger] m.contains_key(k) ==> m[k] < 0x4000_0000_0000_0000 }
pub proof fn sum_start<K: VKey>(a: Map<K::K, usize>, b: Map<K::K, usize>, all: Seq<(&K, &usize)>) ensures is_part::<K>(Map::empty(), b, all, 0), is_sum(a, a, Map::empty()) { reveal(is_part); reveal(is_sum); }
pub proof fn sum_step<K: VKey>(m: Map<K::K, usize>, p: Map<K::K, usize>, a: Map<K::K, usize>, b: Map<K::K, usize>, all: Seq<(&K, &usize)>, n: int)
    requires is_part::<K>(p, b, all, n), is_sum(m, a, p), entries::<K>(b, all), 0 <= n < all.len(), small(a), small(b),
    ensures ({ let k = all[n].0.k(); let v = b[k]; let p2 = p.insert(k, v);
        is_part::<K>(p2, b, all, n + 1) && is_sum(m.insert(k, (if m.contains_key(k) { m[k] + v } else { v as int }) as usize), a, p2) && (m.contains_key(k) ==> m[k] + v <= usize::MAX) && *all[n].1 == v })
{
    reveal(is_part); reveal(is_sum);
    let k = all[n].0.k(); let v = b[k]; let p2 = p.insert(k, v);
    assert(!p.contains_key(k)) by { if p.contains_key(k) { let i = choose|i: int| 0 <= i < n && (#[trigger] all[i]).0.k() == k; assert(all[i].0.k() != all[n].0.k()); } }
    assert(m.contains_key(k) == m.contains_key(k)); assert(a.contains_key(k) == a.contains_key(k));
    assert forall|q: K::K| (#[trigger] p2.contains_key(q) <==> exists|i: int| 0 <= i < n + 1 && (#[trigger] all[i]).0.k() == q) && (p2.contains_key(q) ==> b.contains_key(q) && p2[q] == b[q]) by {
        if q == k { assert(all[n].0.k() == q); assert(b.contains_key(all[n].0.k())); }
        else {
            assert(p.contains_key(q) == p2.contains_key(q));
            if exists|i: int| 0 <= i < n + 1 && (#[trigger] all[i]).0.k() == q { let i = choose|i: int| 0 <= i < n + 1 && (#[trigger] all[i]).0.k() == q; assert(i != n); assert(0 <= i < n && all[i].0.k() == q); }
            if p.contains_key(q) { let i = choose|i: int| 0 <= i < n && (#[trigger] all[i]).0.k() == q; assert(all[i].0.k() == q); }
        }
    }
    let m2 = m.insert(k, (if m.contains_key(k) { m[k] + v } else { v as int }) as usize);
    assert forall|q: K::K| (#[trigger] m2.contains_key(q) <==> a.contains_key(q) || p2.contains_key(q)) && (m2.contains_key(q) ==> m2[q] == (if a.contains_key(q) { a[q] as int } else { 0 }) + (if p2.contains_key(q) { p2[q] as int } else { 0 })) by { assert(m.contains_key(q) == m.contains_key(q)); }
}
pub proof fn sum_done<K: VKey>(m: Map<K::K, usize>, p: Map<K::K, usize>, a: Map<K::K, usize>, b: Map<K::K, usize>, all: Seq<(&K, &usize)>)
    requires is_part::<K>(p, b, all, all.len() as int), is_sum(m, a, p), entries::<K>(b, all) ensures is_sum(m, a, b)
{
    reveal(is_part);
    assert forall|q: K::K| p.contains_key(q) == b.contains_key(q) by { if b.contains_key(q) { let i = choose|i: int| 0 <= i < all.len() && (#[trigger] all[i]).0.k() == q; assert(all[i].0.k() == q); assert(p.contains_key(q)); } }
    assert(p =~= b);
}
#[verifier::external_body] pub fn plain_degrees(m: &HashMap<NodeRef, usize>) -> (r: HashMap<IndependentNode, usize>) ensures r@ == m@ { unimplemented!() }
pub open spec fn ready(t: Training) -> bool { t.cluster_nodes.wf() && t.cluster_nodes.n > 1 && t.scoring.node_degrees_rotation_protocol.n_sent < 0x4000_0000 && t.scoring.edge_weight_rotation_protocol.n_sent < 0x4000_0000 && t.scoring.node_degrees_rotation_protocol.n_received < 0x4000_0000 && t.scoring.edge_weight_rotation_protocol.n_received < 0x4000_0000 }
impl Training {
//@extract src/training/scoring/weights.rs :: impl ScoringWeights for Training :: calculate_edge_weight
//@ret r
//@spec
    requires old(self).data_store.edges@.len() < 0x4000_0000_0000_0000,
    ensures *final(self) == *old(self), is_weight(r@, old(self).data_store.edges@, old(self).data_store.edges@.len() as int),
//@subst let mut edge_weight = HashMap::new(); ==> let mut edge_weight: HashMap<MaterializedEdge, usize> = HashMap::new();
//@top
    let ghost es = self.data_store.edges@; proof { empties(es); }
//@loop 0
        invariant *self == *old(self), es == self.data_store.edges@, es.len() < 0x4000_0000_0000_0000, vit_0.all() == es, 0 <= vit_0.pos() <= es.len(), is_weight(edge_weight@, es, vit_0.pos()),
        ensures vit_0.pos() == es.len(),
        decreases es.len() - vit_0.pos(),
//@loop 0 top
        let ghost m0 = edge_weight@; proof { weight_step(m0, es, vit_0.pos() - 1); }
//@loop 0 end
        proof { assert(edge_weight@ =~= bump(m0, es[vit_0.pos() - 1].mk())); }
//@end
//@extract src/training/scoring/weights.rs :: impl ScoringWeights for Training :: calculate_node_degrees
//@ret r
//@spec
    requires old(self).data_store.edges@.len() < 0x1000_0000_0000_0000,
    ensures *final(self) == *old(self), is_degree(r@, old(self).data_store.edges@, old(self).data_store.edges@.len() as int),
//@subst let mut node_degrees = HashMap::new(); ==> let mut node_degrees: HashMap<NodeRef, usize> = HashMap::new();
//@subst let mut seen_edges = HashSet::new(); ==> let mut seen_edges: HashSet<Edge> = HashSet::new();
//@top
    let ghost es = self.data_store.edges@; proof { empties(es); }
//@loop 0
        invariant *self == *old(self), es == self.data_store.edges@, es.len() < 0x1000_0000_0000_0000, vit_0.all() == es, 0 <= vit_0.pos() <= es.len(), is_degree(node_degrees@, es, vit_0.pos()), is_seen(seen_edges@, es, vit_0.pos()),
        ensures vit_0.pos() == es.len(),
        decreases es.len() - vit_0.pos(),
//@loop 0 top
        let ghost m0 = node_degrees@; proof { degree_step(m0, es, vit_0.pos() - 1); seen_step(seen_edges@, es, vit_0.pos() - 1); }
//@loop 0 end
        proof { let e = es[vit_0.pos() - 1]; if first(es, vit_0.pos() - 1) { assert(node_degrees@ =~= bump(bump(m0, e.from_node.k()), e.to_node.k())); } }
//@end
//@extract src/training/scoring/weights.rs :: impl ScoringWeights for Training :: init_done
//@ret r
//@spec
    ensures *final(self) == *old(self), r == !(old(self).scoring.node_degrees_rotation_protocol.running() || old(self).scoring.edge_weight_rotation_protocol.running()),
//@end
//@extract src/training/scoring/weights.rs :: impl ScoringWeights for Training :: start_node_degrees_rotation
//@spec
    requires ready(*old(self)),
    ensures final(self).scoring.node_degrees_rotation_protocol.n_total == old(self).cluster_nodes.n - 1, final(self).scoring.node_degrees_rotation_protocol.n_sent == old(self).scoring.node_degrees_rotation_protocol.n_sent + 1,
        final(self).scoring.node_degrees_rotation_protocol.buffer@.len() == 0, final(self).inbox_d.first@ == old(self).inbox_d.first@ + old(self).scoring.node_degrees_rotation_protocol.buffer@,
        final(self).log.evs@.len() == old(self).log.evs@.len() + 1, final(self).log.evs@.last() is Degrees, final(self).log.evs@.last()->Degrees_to == Some(old(self).cluster_nodes.next()), final(self).log.evs@.last()->Degrees_m.degrees@ == old(self).scoring.node_degrees@,
        final(self).scoring.node_degrees == old(self).scoring.node_degrees, final(self).scoring.edge_weight == old(self).scoring.edge_weight, final(self).data_store == old(self).data_store,
//@subst ctx: &mut Context<Training> ==> ctx: &mut Context
//@subst .resolve_buffer(ctx) ==> .resolve_buffer(&mut self.inbox_d)
//@subst "Training" ==> ()
//@subst .do_send( ==> .vsend(&mut self.log,
//@subst self .scoring .node_degrees .iter() .map(|(node, degree)| (node.deref().clone(), *degree)) .collect() ==> plain_degrees(&self.scoring.node_degrees)
//@end
//@extract src/training/scoring/weights.rs :: impl ScoringWeights for Training :: start_edge_weight_rotation
//@spec
    requires ready(*old(self)),
    ensures final(self).scoring.edge_weight_rotation_protocol.n_total == old(self).cluster_nodes.n - 1, final(self).scoring.edge_weight_rotation_protocol.n_sent == old(self).scoring.edge_weight_rotation_protocol.n_sent + 1,
        final(self).scoring.edge_weight_rotation_protocol.buffer@.len() == 0, final(self).inbox_w.first@ == old(self).inbox_w.first@ + old(self).scoring.edge_weight_rotation_protocol.buffer@,
        final(self).log.evs@.len() == old(self).log.evs@.len() + 1, final(self).log.evs@.last() is Weights, final(self).log.evs@.last()->Weights_to == Some(old(self).cluster_nodes.next()), final(self).log.evs@.last()->Weights_m.weights@ == old(self).scoring.edge_weight@,
        final(self).scoring.edge_weight == old(self).scoring.edge_weight, final(self).scoring.node_degrees == old(self).scoring.node_degrees, final(self).data_store == old(self).data_store,
//@subst ctx: &mut Context<Training> ==> ctx: &mut Context
//@subst .resolve_buffer(ctx) ==> .resolve_buffer(&mut self.inbox_w)
//@subst "Training" ==> ()
//@subst .do_send( ==> .vsend(&mut self.log,
//@end
}
pub open spec fn after_degrees(a: Training, b: Training, msg: NodeDegrees) -> bool {
    let p = a.scoring.node_degrees_rotation_protocol; let q = b.scoring.node_degrees_rotation_protocol;
    if !p.running() { b.scoring.node_degrees == a.scoring.node_degrees && q.buffer@ == p.buffer@.push(msg) && b.log.evs@ == a.log.evs@ } else {
        &&& is_sum(b.scoring.node_degrees@, a.scoring.node_degrees@, msg.degrees@) && b.scoring.edge_weight == a.scoring.edge_weight && q.n_received == p.n_received + 1
        &&& if runs(p.n_total, q.n_received, p.n_sent) { b.log.evs@ == a.log.evs@.push(Ev::Degrees { to: Some(a.cluster_nodes.next()), m: msg }) && q.n_sent == p.n_sent + 1 }
            else { q.n_sent == p.n_sent && b.log.evs@ == (if a.scoring.edge_weight_rotation_protocol.running() { a.log.evs@ } else { a.log.evs@.push(Ev::InitDone) }) }
    }
}
pub open spec fn after_weights(a: Training, b: Training, msg: EdgeWeights) -> bool {
    let p = a.scoring.edge_weight_rotation_protocol; let q = b.scoring.edge_weight_rotation_protocol;
    if !p.running() { b.scoring.edge_weight == a.scoring.edge_weight && q.buffer@ == p.buffer@.push(msg) && b.log.evs@ == a.log.evs@ } else {
        &&& is_sum(b.scoring.edge_weight@, a.scoring.edge_weight@, msg.weights@) && b.scoring.node_degrees == a.scoring.node_degrees && q.n_received == p.n_received + 1
        &&& if runs(p.n_total, q.n_received, p.n_sent) { b.log.evs@ == a.log.evs@.push(Ev::Weights { to: Some(a.cluster_nodes.next()), m: msg }) && q.n_sent == p.n_sent + 1 }
            else { q.n_sent == p.n_sent && b.log.evs@ == (if a.scoring.node_degrees_rotation_protocol.running() { a.log.evs@ } else { a.log.evs@.push(Ev::InitDone) }) }
    }
}
impl Training {
//@extract src/training/scoring/weights.rs :: impl Handler<NodeDegrees> for Training :: handle
//@spec
    requires ready(*old(self)), small(old(self).scoring.node_degrees@), small(msg.degrees@),
    ensures after_degrees(*old(self), *final(self), msg),
//@subst fn handle( ==> fn handle_degrees(
//@subst *old_degree += degree; ==> *old_degree += *degree;
//@subst ctx: &mut Self::Context) -> Self::Result ==> ctx: &mut Context)
//@subst "Training" ==> ()
//@subst .do_send( ==> .vsend(&mut self.log,
//@loop 0 pre
        let ghost a = self.scoring.node_degrees@; let ghost b = msg.degrees@; let ghost mut part = Map::<NK, usize>::empty();
        proof { sum_start::<IndependentNode>(a, b, Seq::empty()); assert forall|all: Seq<(&IndependentNode, &usize)>| #[trigger] is_part::<IndependentNode>(Map::empty(), b, all, 0) by { sum_start::<IndependentNode>(a, b, all); } }
//@loop 0
            invariant entries::<IndependentNode>(b, vit_0.all()), 0 <= vit_0.pos() <= vit_0.all().len(), small(a), small(b), b == msg.degrees@,
                is_part::<IndependentNode>(part, b, vit_0.all(), vit_0.pos()), is_sum(self.scoring.node_degrees@, a, part),
                *self == (Training { scoring: Scoring { node_degrees: self.scoring.node_degrees, node_degrees_rotation_protocol: self.scoring.node_degrees_rotation_protocol, ..old(self).scoring }, ..*old(self) }),
                self.scoring.node_degrees_rotation_protocol == (RotationProtocol { n_received: (old(self).scoring.node_degrees_rotation_protocol.n_received + 1) as usize, ..old(self).scoring.node_degrees_rotation_protocol }),
            ensures vit_0.pos() == vit_0.all().len(),
            decreases vit_0.all().len() - vit_0.pos(),
//@loop 0 top
            let ghost m0 = self.scoring.node_degrees@; let ghost nn = vit_0.pos() - 1;
            proof { sum_step::<IndependentNode>(m0, part, a, b, vit_0.all(), nn); }
//@loop 0 end
            proof { let k = vit_0.all()[nn].0.k(); part = part.insert(k, b[k]); assert(self.scoring.node_degrees@ =~= m0.insert(k, (if m0.contains_key(k) { m0[k] + b[k] } else { b[k] as int }) as usize)); }
//@loop 0 after
        proof { sum_done::<IndependentNode>(self.scoring.node_degrees@, part, a, b, vit_0.all()); }
//@end
//@extract src/training/scoring/weights.rs :: impl Handler<EdgeWeights> for Training :: handle
//@spec
    requires ready(*old(self)), small(old(self).scoring.edge_weight@), small(msg.weights@),
    ensures after_weights(*old(self), *final(self), msg),
//@subst fn handle( ==> fn handle_weights(
//@subst *old_weight += weight; ==> *old_weight += *weight;
//@subst ctx: &mut Self::Context) -> Self::Result ==> ctx: &mut Context)
//@subst "Training" ==> ()
//@subst .do_send( ==> .vsend(&mut self.log,
//@loop 0 pre
        let ghost a = self.scoring.edge_weight@; let ghost b = msg.weights@; let ghost mut part = Map::<EK, usize>::empty();
        proof { sum_start::<MaterializedEdge>(a, b, Seq::empty()); assert forall|all: Seq<(&MaterializedEdge, &usize)>| #[trigger] is_part::<MaterializedEdge>(Map::empty(), b, all, 0) by { sum_start::<MaterializedEdge>(a, b, all); } }
//@loop 0
            invariant entries::<MaterializedEdge>(b, vit_0.all()), 0 <= vit_0.pos() <= vit_0.all().len(), small(a), small(b), b == msg.weights@,
                is_part::<MaterializedEdge>(part, b, vit_0.all(), vit_0.pos()), is_sum(self.scoring.edge_weight@, a, part),
                *self == (Training { scoring: Scoring { edge_weight: self.scoring.edge_weight, edge_weight_rotation_protocol: self.scoring.edge_weight_rotation_protocol, ..old(self).scoring }, ..*old(self) }),
                self.scoring.edge_weight_rotation_protocol == (RotationProtocol { n_received: (old(self).scoring.edge_weight_rotation_protocol.n_received + 1) as usize, ..old(self).scoring.edge_weight_rotation_protocol }),
            ensures vit_0.pos() == vit_0.all().len(),
            decreases vit_0.all().len() - vit_0.pos(),
//@loop 0 top
            let ghost m0 = self.scoring.edge_weight@; let ghost nn = vit_0.pos() - 1;
            proof { sum_step::<MaterializedEdge>(m0, part, a, b, vit_0.all(), nn); }
//@loop 0 end
            proof { let k = vit_0.all()[nn].0.k(); part = part.insert(k, b[k]); assert(self.scoring.edge_weight@ =~= m0.insert(k, (if m0.contains_key(k) { m0[k] + b[k] } else { b[k] as int }) as usize)); }
//@loop 0 after
        proof { sum_done::<MaterializedEdge>(self.scoring.edge_weight@, part, a, b, vit_0.all()); }
//@end
}
} // verus!
fn main() {}
