//! an edge's target point is a valid index (machine integer); the data set has at least as many points as the cluster has nodes.
//! std: slice::sort_by_key is a stable sort; cluster_nodes.iter() yields every other node once (C12).
//@include base.rs
//@include coll.rs
//@include nodes.rs
verus! {
pub enum Ev { Part { to: Option<usize>, m: TranspositionRotationMessage }, Done }
} // verus!
//@include net.rs
//@include proto.rs
//@include proto_direct.rs
//@include store.rs
verus! {
pub struct TranspositionRotationMessage { pub assignments: Vec<MaterializedEdge> }
impl TranspositionRotationMessage { #[verifier::external_body] pub fn default() -> (r: Self) ensures r.assignments@.len() == 0 { unimplemented!() } }
pub struct TranspositionDone;
impl VMsg for TranspositionRotationMessage { open spec fn ev(self, to: Option<usize>) -> Ev { Ev::Part { to, m: self } } }
impl VMsg for TranspositionDone { open spec fn ev(self, to: Option<usize>) -> Ev { Ev::Done } }
pub struct DatasetStats { pub n: Option<usize> }
pub struct Parameters { pub n_cluster_nodes: usize }
pub struct Transposition { pub direct_protocol: DirectProtocol<TranspositionRotationMessage>, pub range_start_point: Option<usize>, pub partition_len: Option<usize> }
pub struct Training { pub parameters: Parameters, pub dataset_stats: Option<DatasetStats>, pub data_store: DataStore, pub transposition: Transposition, pub cluster_nodes: ClusterNodes, pub log: Log, pub inbox_t: Inbox<TranspositionRotationMessage> }
// ---- who gets an edge: the node whose part of the time its target point lies in ---------------------
pub open spec fn dest(pl: int, n: int, to: int) -> int { if to / pl >= n { n - 1 } else { to / pl } }
pub open spec fn mdest(pl: int, n: int) -> spec_fn(MaterializedEdge) -> int { |m: MaterializedEdge| dest(pl, n, m.to_node.from_point_id as int) }
pub open spec fn edest(pl: int, n: int) -> spec_fn(Edge) -> int { |m: Edge| dest(pl, n, m.to_node.from_point_id as int) }
pub proof fn dest_range(pl: int, n: int, to: int) requires pl > 0, n >= 1, to >= 0
    ensures 0 <= dest(pl, n, to) < n, pl * dest(pl, n, to) <= to, dest(pl, n, to) < n - 1 ==> to < pl * (dest(pl, n, to) + 1)
{
    vstd::arithmetic::div_mod::lemma_div_pos_is_pos(to, pl); vstd::arithmetic::div_mod::lemma_fundamental_div_mod(to, pl); let q = to / pl;
    vstd::arithmetic::div_mod::lemma_mod_bound(to, pl);
    assert(pl * (q + 1) == pl * q + pl) by (nonlinear_arith);
    if q >= n { assert(pl * (n - 1) <= pl * q) by (nonlinear_arith) requires pl > 0, q >= n; }
}
// selecting commutes with materialising
pub proof fn sel_mat(s: Seq<Edge>, pl: int, n: int, k: int) ensures sel(mats_of(s), mdest(pl, n), k) == mats_of(sel(s, edest(pl, n), k)), edges_of(sel(mats_of(s), mdest(pl, n), k)) == sel(s, edest(pl, n), k) decreases s.len() {
    if s.len() > 0 { let d = s.drop_last(); sel_mat(d, pl, n, k); assert(mats_of(s).drop_last() =~= mats_of(d)); assert(mats_of(s).last() == s.last().mat()); }
    assert(sel(mats_of(s), mdest(pl, n), k) =~= mats_of(sel(s, edest(pl, n), k)));
    assert(edges_of(mats_of(sel(s, edest(pl, n), k))) =~= sel(s, edest(pl, n), k));
}
#[verifier::opaque]
pub open spec fn empty_upto(m: Map<usize, Vec<MaterializedEdge>>, c: int) -> bool { forall|k: usize| (#[trigger] m.contains_key(k) <==> k < c) && (m.contains_key(k) ==> m[k]@.len() == 0) }
// m has, for each of the n nodes, its edges among s
#[verifier::opaque]
pub open spec fn dealt(m: Map<usize, Vec<MaterializedEdge>>, s: Seq<MaterializedEdge>, pl: int, n: int) -> bool { forall|k: usize| (#[trigger] m.contains_key(k) <==> k < n) && (m.contains_key(k) ==> m[k]@ == sel(s, mdest(pl, n), k as int)) }
pub proof fn dealt_step(m: Map<usize, Vec<MaterializedEdge>>, m2: Map<usize, Vec<MaterializedEdge>>, s: Seq<MaterializedEdge>, x: MaterializedEdge, pl: int, n: int, c: usize)
    requires dealt(m, s, pl, n), c as int == mdest(pl, n)(x), c < n, m2.contains_key(c), m2 == m.insert(c, m2[c]), m2[c]@ == m[c]@.push(x)
    ensures dealt(m2, s.push(x), pl, n)
{
    reveal(dealt); assert(m.contains_key(c));
    assert forall|k: usize| (#[trigger] m2.contains_key(k) <==> k < n) && (m2.contains_key(k) ==> m2[k]@ == sel(s.push(x), mdest(pl, n), k as int)) by { sel_push(s, mdest(pl, n), k as int, x); assert(m.contains_key(k) == (k < n)); if k != c && m2.contains_key(k) { assert(m2[k] == m[k]); } }
}
// what the others are to get
pub open spec fn for_others(m: Map<usize, Vec<MaterializedEdge>>, es: Seq<Edge>, pl: int, n: int, own: int) -> bool { forall|k: usize| (#[trigger] m.contains_key(k) <==> k < n && k != own) && (m.contains_key(k) ==> m[k]@ == mats_of(sel(es, edest(pl, n), k as int))) }
pub open spec fn ok(t: Training) -> bool { t.cluster_nodes.wf() && t.cluster_nodes.n == t.parameters.n_cluster_nodes && t.data_store.wf() && t.transposition.direct_protocol.n_sent < 0x4000_0000 && t.transposition.direct_protocol.n_received < 0x4000_0000 }
// one message to each node id of the list, with its entry of the table (or nothing)
pub open spec fn part_sent(e: Ev, k: usize, m: Map<usize, Vec<MaterializedEdge>>) -> bool { e is Part && e->Part_to == Some(k) && e->Part_m.assignments@ == group(m, k) }
pub open spec fn parts_sent(old: Seq<Ev>, new: Seq<Ev>, ids: Seq<usize>, m: Map<usize, Vec<MaterializedEdge>>) -> bool { new.len() == old.len() + ids.len() && new.take(old.len() as int) == old && forall|i: int| 0 <= i < ids.len() ==> part_sent(#[trigger] new[old.len() + i], ids[i], m) }
impl Training {
//@extract src/training/transposition/mod.rs :: impl Transposer for Training :: assign_edges_to_neighbours
//@ret r
//@spec
    requires ok(*old(self)), old(self).transposition.partition_len is Some, old(self).transposition.partition_len->0 > 0,
    ensures ({ let pl = old(self).transposition.partition_len->0 as int; let n = old(self).cluster_nodes.n as int; let own = old(self).cluster_nodes.own as int; let es = old(self).data_store.edges@;
        &&& for_others(r@, es, pl, n, own)
        &&& final(self).data_store.wf() && final(self).data_store.edges@ == sel(es, edest(pl, n), own) && final(self).data_store.same_cuts(old(self).data_store)
        &&& *final(self) == (Training { data_store: final(self).data_store, ..*old(self) }) }),
//@subst let mut assignments = HashMap::new(); ==> let mut assignments: HashMap<usize, Vec<MaterializedEdge>> = HashMap::new();
//@top
    let ghost es = self.data_store.edges@; let ghost pl = self.transposition.partition_len->0 as int; let ghost n = self.cluster_nodes.n as int; proof { reveal(empty_upto); }
//@loop 0
            invariant *self == *old(self), ok(*self), n == self.cluster_nodes.n, vend_0 == n, 0 <= vit_0 <= vend_0, empty_upto(assignments@, vit_0 as int),
            decreases vend_0 - vit_0,
//@loop 0 top
            let ghost a0 = assignments@; let ghost c0 = (vit_0 - 1) as usize;
//@loop 0 end
            proof { reveal(empty_upto); assert forall|k: usize| (#[trigger] assignments@.contains_key(k) <==> k < vit_0 as int) && (assignments@.contains_key(k) ==> assignments@[k]@.len() == 0) by { assert(a0.contains_key(k) == (k < c0)); if k != c0 && a0.contains_key(k) { assert(assignments@[k] == a0[k]); } } }
//@loop 0 after
        proof { reveal(empty_upto); reveal(dealt); assert forall|k: usize| (#[trigger] assignments@.contains_key(k) <==> k < n) && (assignments@.contains_key(k) ==> assignments@[k]@ == sel(Seq::<MaterializedEdge>::empty(), mdest(pl, n), k as int)) by { if assignments@.contains_key(k) { assert(assignments@[k]@ =~= Seq::<MaterializedEdge>::empty()); } } }
//@loop 1 pre
        let ghost ms = mats_of(es); proof { assert(ms.take(0) =~= Seq::<MaterializedEdge>::empty()); }
//@loop 1
            invariant *self == (Training { data_store: self.data_store, ..*old(self) }), self.data_store.wf(), self.data_store.edges@.len() == 0, self.data_store.same_cuts(old(self).data_store), ok(*old(self)), n == self.cluster_nodes.n, self.transposition.partition_len == Some(pl as usize), 0 < pl <= usize::MAX, ms == mats_of(es), vit_1.all() == ms, 0 <= vit_1.pos() <= ms.len(), dealt(assignments@, ms.take(vit_1.pos()), pl, n),
            ensures vit_1.pos() == ms.len(),
            decreases ms.len() - vit_1.pos(),
//@loop 1 top
            let ghost a0 = assignments@; let ghost x = ms[vit_1.pos() - 1]; proof { dest_range(pl, n, x.to_node.from_point_id as int); reveal(dealt); }
//@loop 1 end
            proof { let k = vit_1.pos(); let c = cluster_node_id; assert(a0.contains_key(c)); assert(ms.take(k) =~= ms.take(k - 1).push(x)); assert(assignments@ =~= a0.insert(c, assignments@[c])); dealt_step(a0, assignments@, ms.take(k - 1), x, pl, n, c); }
//@loop 1 after
        proof { assert(ms.take(ms.len() as int) =~= ms); reveal(dealt); assert(assignments@.contains_key(self.cluster_nodes.own)); }
        let ghost d = assignments@;
//@tail
    proof { let own = self.cluster_nodes.own; sel_mat(es, pl, n, own as int); assert(self.data_store.edges@ =~= sel(es, edest(pl, n), own as int));
        assert forall|k: usize| (#[trigger] assignments@.contains_key(k) <==> k < n && k != own) && (assignments@.contains_key(k) ==> assignments@[k]@ == mats_of(sel(es, edest(pl, n), k as int))) by { sel_mat(es, pl, n, k as int); } }
//@end
//@extract src/training/transposition/mod.rs :: impl Transposer for Training :: transpose_rotation
//@spec
    requires ok(*old(self)),
    ensures exists|ids: Seq<usize>| #[trigger] all_others(ids, old(self).cluster_nodes.n as int, old(self).cluster_nodes.own as int) && parts_sent(old(self).log.evs@, final(self).log.evs@, ids, assignments@),
        final(self).transposition.direct_protocol == (DirectProtocol { n_sent: (old(self).transposition.direct_protocol.n_sent + old(self).cluster_nodes.n - 1) as usize, ..old(self).transposition.direct_protocol }),
        *final(self) == (Training { log: final(self).log, transposition: Transposition { direct_protocol: final(self).transposition.direct_protocol, ..old(self).transposition }, ..*old(self) }),
//@subst mut assignments: HashMap<usize, Vec<MaterializedEdge>>) ==> assignments: HashMap<usize, Vec<MaterializedEdge>>)
//@subst assignments.remove(id) ==> vas.remove(id)
//@subst "Training".to_string() ==> ()
//@subst training_node.do_send(msg) ==> training_node.vsend(&mut self.log, msg)
//@top
    let mut vas = assignments; let ghost e0 = self.log.evs@; let ghost mut keys = Seq::<usize>::empty(); let ghost k0 = e0.len() as int; proof { assert(e0.take(k0) =~= e0); }
//@loop 0 init
        proof { keys = keys_of(vit_0.all()); assert(keys.take(0) =~= Seq::<usize>::empty()); }
//@loop 0
            invariant ok(*old(self)), self.cluster_nodes == old(self).cluster_nodes, self.cluster_nodes.wf(), e0 == old(self).log.evs@, k0 == e0.len(),
                *self == (Training { log: self.log, transposition: Transposition { direct_protocol: self.transposition.direct_protocol, ..old(self).transposition }, ..*old(self) }),
                self.transposition.direct_protocol == (DirectProtocol { n_sent: (old(self).transposition.direct_protocol.n_sent + vit_0.pos()) as usize, ..old(self).transposition.direct_protocol }),
                keys == keys_of(vit_0.all()), all_others(keys, self.cluster_nodes.n as int, self.cluster_nodes.own as int), 0 <= vit_0.pos() <= keys.len(), forall|i: int| 0 <= i < keys.len() ==> (#[trigger] vit_0.all()[i]).1.idx == keys[i],
                parts_sent(e0, self.log.evs@, keys.take(vit_0.pos()), assignments@),
                // entries of the nodes to come are still there
                forall|i: int| vit_0.pos() <= i < keys.len() ==> group(vas@, #[trigger] keys[i]) == group(assignments@, keys[i]),
            ensures vit_0.pos() == vit_0.all().len(),
            decreases vit_0.all().len() - vit_0.pos(),
//@loop 0 top
            let ghost v0 = vas@; let ghost l0 = self.log.evs@; let ghost p = vit_0.pos() - 1; let ghost c = keys[p]; proof { assert(*id == c && node.idx == c); assert(group(v0, c) == group(assignments@, c)); }
//@loop 0 end
            proof {
                let ids = keys.take(p + 1);
                assert forall|i: int| 0 <= i < ids.len() implies part_sent(#[trigger] self.log.evs@[k0 + i], ids[i], assignments@) by { if i < p { assert(self.log.evs@[k0 + i] == l0[k0 + i]); assert(part_sent(l0[k0 + i], keys.take(p)[i], assignments@)); } else { assert(self.log.evs@[k0 + i]->Part_m.assignments@ =~= group(v0, c)); } }
                assert(self.log.evs@.take(k0) =~= l0.take(k0));
                assert forall|i: int| vit_0.pos() <= i < keys.len() implies group(vas@, #[trigger] keys[i]) == group(assignments@, keys[i]) by { assert(keys[i] != c); assert(vas@.contains_key(keys[i]) == v0.contains_key(keys[i])); }
            }
//@loop 0 after
        proof { assert(keys.take(keys.len() as int) =~= keys); }
//@end
//@extract src/training/transposition/mod.rs :: impl Transposer for Training :: transpose_finalize
//@spec
    ensures *final(self) == (Training { data_store: final(self).data_store, log: final(self).log, ..*old(self) }), final(self).log.evs@ == old(self).log.evs@.push(Ev::Done), sorted_from(old(self).data_store, final(self).data_store),
//@subst ctx: &mut Context<Training> ==> ctx: &mut Context
//@subst ctx.address().do_send(TranspositionDone) ==> ctx.address().vsend(&mut self.log, TranspositionDone)
//@end
//@extract src/training/transposition/mod.rs :: impl Transposer for Training :: transpose
//@spec
    requires ok(*old(self)), old(self).dataset_stats is Some, old(self).dataset_stats->0.n is Some, old(self).dataset_stats->0.n->0 >= old(self).cluster_nodes.n,
    ensures ({ let t = *old(self); let n = t.cluster_nodes.n as int; let pl = t.dataset_stats->0.n->0 as int / n; let own = t.cluster_nodes.own as int; let u = *final(self);
        // this node is responsible for the points from own * floor(points / nodes) on
        &&& u.transposition.range_start_point == Some((pl * own) as usize) && u.transposition.partition_len == Some(pl as usize) && pl > 0
        // it keeps the edges that lead to them
        &&& u.data_store.wf() && u.data_store.edges@ == sel(t.data_store.edges@, edest(pl, n), own) && u.data_store.same_cuts(t.data_store)
        // every other node is sent its edges in one message, what came early is taken up again
        &&& exists|ids: Seq<usize>, m: Map<usize, Vec<MaterializedEdge>>| all_others(ids, n, own) && for_others(m, t.data_store.edges@, pl, n, own) && #[trigger] parts_sent(t.log.evs@, u.log.evs@, ids, m)
        &&& u.inbox_t.got@ == t.inbox_t.got@ + t.transposition.direct_protocol.buffer@
        &&& u.transposition.direct_protocol.n_total == n - 1 && u.transposition.direct_protocol.n_sent == t.transposition.direct_protocol.n_sent + n - 1 && u.transposition.direct_protocol.n_received == t.transposition.direct_protocol.n_received && u.transposition.direct_protocol.buffer@.len() == 0
        &&& u.cluster_nodes == t.cluster_nodes && u.parameters == t.parameters && u.dataset_stats == t.dataset_stats }),
//@subst rec: Recipient<TranspositionRotationMessage> ==> 
//@subst let partition_len = len_dataset / ==> let partition_len = *len_dataset /
//@subst resolve_buffer(rec) ==> resolve_buffer(&mut self.inbox_t)
//@top
    proof { let d = self.dataset_stats->0.n->0 as int; let n = self.cluster_nodes.n as int; vstd::arithmetic::div_mod::lemma_div_non_zero(d, n); let pl = d / n; vstd::arithmetic::div_mod::lemma_fundamental_div_mod(d, n); let own = self.cluster_nodes.own as int; assert(0 <= pl * own <= pl * n) by (nonlinear_arith) requires 0 <= own <= n, pl >= 0; assert(pl * n == n * pl) by (nonlinear_arith); }
    let ghost t0 = *self;
//@tail
    proof { let n = t0.cluster_nodes.n as int; let pl = t0.dataset_stats->0.n->0 as int / n; let own = t0.cluster_nodes.own as int;
        let ids = choose|ids: Seq<usize>| #[trigger] all_others(ids, n, own) && parts_sent(t0.log.evs@, self.log.evs@, ids, assignments@);
        assert(all_others(ids, n, own) && for_others(assignments@, t0.data_store.edges@, pl, n, own) && parts_sent(t0.log.evs@, self.log.evs@, ids, assignments@)); }
//@end
//@extract src/training/transposition/mod.rs :: impl Handler<TranspositionRotationMessage> for Training :: handle
//@spec
    requires ok(*old(self)),
    ensures ({ let t = *old(self); let u = *final(self); let p = t.transposition.direct_protocol;
        if !p.running() { u == (Training { transposition: Transposition { direct_protocol: u.transposition.direct_protocol, ..t.transposition }, ..t }) && u.transposition.direct_protocol == (DirectProtocol { buffer: u.transposition.direct_protocol.buffer, ..p }) && u.transposition.direct_protocol.buffer@ == p.buffer@.push(msg) }
        else { let q = DirectProtocol { n_received: (p.n_received + 1) as usize, ..p };
            &&& u.transposition.direct_protocol == q && u.transposition.range_start_point == t.transposition.range_start_point && u.cluster_nodes == t.cluster_nodes && u.data_store.wf()
            &&& q.running() ==> u.data_store.edges@ == t.data_store.edges@ + edges_of(msg.assignments@) && u.log == t.log
            &&& !q.running() ==> u.log.evs@ == t.log.evs@.push(Ev::Done) && ordered(u.data_store.edges@, by_points()) && ordered(u.data_store.edges@, to_point()) && u.data_store.edges@.len() == t.data_store.edges@.len() + msg.assignments@.len() && forall|k: int| #[trigger] sel(u.data_store.edges@, by_points(), k) == sel(t.data_store.edges@ + edges_of(msg.assignments@), by_points(), k) } }),
//@subst ctx: &mut Self::Context ==> ctx: &mut Context
//@subst -> Self::Result ==>
//@end
}
pub open spec fn sorted_from(a: DataStore, b: DataStore) -> bool { ordered(b.edges@, by_points()) && ordered(b.edges@, to_point()) && b.edges@.len() == a.edges@.len() && b.nodes == a.nodes && b.index == a.index && b.intersections == a.intersections && forall|k: int| #[trigger] sel(b.edges@, by_points(), k) == sel(a.edges@, by_points(), k) }
// ---- over the whole cluster -------------------------------------------------------------------------
// an edge is dealt to exactly one node, and that node is responsible for its target point
pub proof fn one_owner(es: Seq<Edge>, pl: int, n: int, i: int) requires pl > 0, n >= 1, 0 <= i < es.len()
    ensures ({ let d = edest(pl, n)(es[i]); 0 <= d < n && sel(es, edest(pl, n), d).contains(es[i]) && forall|k: int| k != d ==> !(#[trigger] sel(es, edest(pl, n), k)).contains(es[i]) })
{
    let key = edest(pl, n); let d = key(es[i]); dest_range(pl, n, es[i].to_node.from_point_id as int); sel_has(es, key, i);
    assert forall|k: int| k != d implies !(#[trigger] sel(es, key, k)).contains(es[i]) by { sel_key(es, key, k); if sel(es, key, k).contains(es[i]) { let j = choose|j: int| 0 <= j < sel(es, key, k).len() && sel(es, key, k)[j] == es[i]; assert(key(sel(es, key, k)[j]) == k); } }
}
// what arrives at a node never precedes its first point (this is what the counting of C06 starts from)
pub proof fn not_before(es: Seq<Edge>, pl: int, n: int, own: int) requires pl > 0, n >= 1
    ensures forall|j: int| 0 <= j < sel(es, edest(pl, n), own).len() ==> pl * own <= (#[trigger] sel(es, edest(pl, n), own)[j]).to_node.from_point_id
{
    sel_key(es, edest(pl, n), own); let s = sel(es, edest(pl, n), own);
    assert forall|j: int| 0 <= j < s.len() implies pl * own <= (#[trigger] s[j]).to_node.from_point_id by { dest_range(pl, n, s[j].to_node.from_point_id as int); assert(edest(pl, n)(s[j]) == own); }
}
// nothing is lost or doubled: over all nodes the parts have as many edges as there were
pub open spec fn total(es: Seq<Edge>, pl: int, n: int, k: int) -> int decreases k { if k <= 0 { 0 } else { total(es, pl, n, k - 1) + sel(es, edest(pl, n), k - 1).len() } }
pub proof fn total_zero(pl: int, n: int, k: int) ensures k >= 0 ==> total(Seq::empty(), pl, n, k) == 0 decreases k { if k > 0 { total_zero(pl, n, k - 1); } }
pub proof fn total_push(es: Seq<Edge>, x: Edge, pl: int, n: int, k: int) requires k >= 0 ensures total(es.push(x), pl, n, k) == total(es, pl, n, k) + (if 0 <= edest(pl, n)(x) < k { 1int } else { 0int }) decreases k { if k > 0 { total_push(es, x, pl, n, k - 1); sel_push(es, edest(pl, n), k - 1, x); } }
pub proof fn conserved(es: Seq<Edge>, pl: int, n: int) requires pl > 0, n >= 1 ensures total(es, pl, n, n) == es.len() decreases es.len() {
    if es.len() == 0 { assert(es =~= Seq::<Edge>::empty()); total_zero(pl, n, n); } else { let d = es.drop_last(); conserved(d, pl, n); assert(es =~= d.push(es.last())); total_push(d, es.last(), pl, n, n); dest_range(pl, n, es.last().to_node.from_point_id as int); }
}
} // verus!
fn main() {}
