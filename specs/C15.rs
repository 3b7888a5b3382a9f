//! the last node has at least query_length - 1 points, so it has that many counts (otherwise no window of its own fits and score() stops: C09).
//! score() itself is C09, the counts are C07, the tables C08; a node's neighbours are C12.
//@include base.rs
//@include coll.rs
//@include nodes.rs
verus! {
pub enum Ev { Overlap { to: Option<usize>, m: OverlapRotation }, Score }
} // verus!
//@include net.rs
//@include proto.rs
//@include store.rs
verus! {
pub struct OverlapRotation { pub edges: Vec<MaterializedEdge>, pub edges_in_time: Vec<usize> }
pub struct ScoreInitDone;
impl VMsg for OverlapRotation { open spec fn ev(self, to: Option<usize>) -> Ev { Ev::Overlap { to, m: self } } }
pub struct Parameters { pub query_length: usize }
pub struct Scoring { pub edges_in_time: Vec<usize>, pub overlap_rotation_protocol: RotationProtocol<OverlapRotation> }
pub struct Training { pub parameters: Parameters, pub data_store: DataStore, pub scoring: Scoring, pub cluster_nodes: ClusterNodes, pub log: Log, pub inbox_o: Inbox<OverlapRotation> }
#[verifier::external_body] pub fn slice_it<T>(v: &Vec<T>, r: core::ops::Range<usize>) -> (q: It<&T>)
    requires r.start <= r.end <= v@.len()
    ensures q.pos() == 0, q.all().len() == r.end - r.start, forall|i: int| 0 <= i < q.all().len() ==> *(#[trigger] q.all()[i]) == v@[r.start + i] { unimplemented!() }
#[verifier::external_body] pub fn slice_vec(v: &Vec<usize>, r: core::ops::Range<usize>) -> (q: Vec<usize>) requires r.start <= r.end <= v@.len() ensures q@ == v@.subrange(r.start as int, r.end as int) { unimplemented!() }
impl DataStore {
//@extract src/data_store/mod.rs :: impl DataStore :: slice_edges
//@ret r
//@spec
    requires range.start <= range.end <= self.edges@.len(),
    ensures r.pos() == 0, r.all().len() == range.end - range.start, forall|i: int| 0 <= i < r.all().len() ==> *(#[trigger] r.all()[i]) == self.edges@[range.start + i],
//@subst Range<usize> ==> core::ops::Range<usize>
//@subst Iter<'_, EdgeRef> ==> It<&EdgeRef>
//@subst self.edges[range].iter() ==> slice_it(&self.edges, range)
//@end
}
// ---- counts: edges up to each point, never decreasing, the last one is the number of own edges ------
pub open spec fn rising(c: Seq<usize>) -> bool { forall|i: int, j: int| 0 <= i <= j < c.len() ==> (#[trigger] c[i]) <= (#[trigger] c[j]) }
pub open spec fn min2(a: int, b: int) -> int { if a <= b { a } else { b } }
// how many edges the windows that begin before the node's first point may use: those of query_length - 1 points and the one that follows
pub open spec fn shared(c: Seq<usize>, q: int, n_edges: int) -> int { min2((if q <= 1 { 0 } else { c[q - 2] as int }) + 1, n_edges) }
pub open spec fn overlap_of(edges: Seq<Edge>, c: Seq<usize>, q: int, m: OverlapRotation) -> bool { m.edges@ == mats_of(edges.take(shared(c, q, edges.len() as int))) && m.edges_in_time@ == c.take(q - 1) }
pub open spec fn shifted(c: Seq<usize>, by: int) -> Seq<usize> { Seq::new(c.len(), |i: int| (c[i] + by) as usize) }
pub open spec fn ok(t: Training) -> bool { t.cluster_nodes.wf() && t.cluster_nodes.n > 1 && t.data_store.wf() && t.parameters.query_length >= 1 && t.scoring.overlap_rotation_protocol.n_sent < 0x4000_0000 && t.scoring.overlap_rotation_protocol.n_received < 0x4000_0000 && forall|i: int| 0 <= i < t.scoring.edges_in_time@.len() ==> #[trigger] t.scoring.edges_in_time@[i] < 0x4000_0000_0000_0000 }
// the node sends its overlap to its predecessor, once, and then scores what it has
pub open spec fn passed(t: Training, u: Training) -> bool {
    &&& u == (Training { log: u.log, scoring: Scoring { overlap_rotation_protocol: RotationProtocol { n_sent: (t.scoring.overlap_rotation_protocol.n_sent + 1) as usize, ..t.scoring.overlap_rotation_protocol }, ..t.scoring }, ..t })
    &&& exists|m: OverlapRotation| #[trigger] overlap_of(t.data_store.edges@, t.scoring.edges_in_time@, t.parameters.query_length as int, m) && u.log.evs@ == t.log.evs@.push(Ev::Overlap { to: Some(t.cluster_nodes.prev()), m }).push(Ev::Score)
}
impl Training {
    #[verifier::external_body] pub fn score(&mut self, ctx: &mut Context) ensures final(self).log.evs@ == old(self).log.evs@.push(Ev::Score), *final(self) == (Training { log: final(self).log, ..*old(self) }) { unimplemented!() }
//@extract src/training/scoring/overlap.rs :: impl ScoringOverlap for Training :: send_overlap_to_neighbor
//@spec
    requires ok(*old(self)), old(self).scoring.edges_in_time@.len() >= old(self).parameters.query_length - 1,
    ensures passed(*old(self), *final(self)),
//@subst ctx: &mut Context<Training> ==> ctx: &mut Context
//@subst self.scoring.edges_in_time[0..(self.parameters.query_length - 1)].to_vec() ==> slice_vec(&self.scoring.edges_in_time, 0..(self.parameters.query_length - 1))
//@rename min=vmin
//@subst "Training" ==> ()
//@subst .do_send( ==> .vsend(&mut self.log, 
//@closure 0
    |edge: &Edge| -> (m: MaterializedEdge) ensures m == edge.mat()
//@subst self.cluster_nodes .get_prev_as ==> proof { assert(overlap@ =~= mats_of(self.data_store.edges@.take(to_edge_idx as int))); assert(edges_in_time@ =~= self.scoring.edges_in_time@.take(self.parameters.query_length - 1)); } self.cluster_nodes .get_prev_as
//@top
    let ghost t0 = *self;
//@tail
    proof { let m = self.log.evs@[t0.log.evs@.len() as int]->Overlap_m; assert(overlap_of(t0.data_store.edges@, t0.scoring.edges_in_time@, t0.parameters.query_length as int, m)); }
//@end
//@extract src/training/scoring/overlap.rs :: impl Handler<OverlapRotation> for Training :: handle
//@subst fn handle( ==> fn handle_overlap(
//@spec
    requires ok(*old(self)), old(self).scoring.edges_in_time@.len() >= 1,
        // the node waits for one overlap and has not sent its own
        old(self).scoring.overlap_rotation_protocol.running() ==> old(self).scoring.overlap_rotation_protocol.n_total == 1 && old(self).scoring.overlap_rotation_protocol.n_received == 0 && old(self).scoring.overlap_rotation_protocol.n_sent == 0,
        msg.edges_in_time@.len() == old(self).parameters.query_length - 1, forall|i: int| 0 <= i < msg.edges_in_time@.len() ==> #[trigger] msg.edges_in_time@[i] < 0x1000_0000_0000_0000, forall|i: int| 0 <= i < old(self).scoring.edges_in_time@.len() ==> #[trigger] old(self).scoring.edges_in_time@[i] < 0x1000_0000_0000_0000,
    ensures ({ let t = *old(self); let u = *final(self); let p = t.scoring.overlap_rotation_protocol;
        // early: kept
        if !p.running() { u == (Training { scoring: Scoring { overlap_rotation_protocol: u.scoring.overlap_rotation_protocol, ..t.scoring }, ..t }) && u.scoring.overlap_rotation_protocol == (RotationProtocol { buffer: u.scoring.overlap_rotation_protocol.buffer, ..p }) && u.scoring.overlap_rotation_protocol.buffer@ == p.buffer@.push(msg) }
        else { exists|m: Training| #[trigger] passed(m, u) && took(t, m, msg) && !u.scoring.overlap_rotation_protocol.running() } }),
//@subst ctx: &mut Self::Context ==> ctx: &mut Context
//@subst -> Self::Result ==>
//@subst panic!("Only one overlap should be received") ==> vpanic()
//@rename last=vlast
//@rename into_iter=vinto_iter
//@rename extend=vextend
//@subst x + last_edge_count ==> x + *last_edge_count
//@closure 0
    |x: usize| -> (y: usize) requires x < 0x1000_0000_0000_0000, *last_edge_count < 0x1000_0000_0000_0000 ensures y == x + *last_edge_count
//@subst self.send_overlap_to_neighbor(ctx); ==> proof { assert(received_edges_in_time@ =~= shifted(msg.edges_in_time@, old(self).scoring.edges_in_time@.last() as int)); assert(self.scoring.edges_in_time@ =~= old(self).scoring.edges_in_time@ + received_edges_in_time@); } let ghost m = *self; self.send_overlap_to_neighbor(ctx); proof { assert(passed(m, *self) && took(*old(self), m, msg)); }
//@end
//@extract src/training/scoring/weights.rs :: impl Handler<ScoreInitDone> for Training :: handle
//@subst fn handle( ==> fn handle_init(
//@spec
    requires ok(*old(self)), old(self).scoring.edges_in_time@.len() >= old(self).parameters.query_length - 1 || old(self).cluster_nodes.own != old(self).cluster_nodes.n - 1,
    ensures ({ let t = *old(self); let u = *final(self); let p = t.scoring.overlap_rotation_protocol;
        // the last node starts; the others wait for one overlap, and one that came early is handled first
        &&& t.cluster_nodes.own == t.cluster_nodes.n - 1 ==> passed(t, u)
        &&& t.cluster_nodes.own != t.cluster_nodes.n - 1 ==> u == (Training { inbox_o: u.inbox_o, scoring: Scoring { overlap_rotation_protocol: u.scoring.overlap_rotation_protocol, ..t.scoring }, ..t }) && u.inbox_o.first@ == t.inbox_o.first@ + p.buffer@ && u.inbox_o.got == t.inbox_o.got
            && u.scoring.overlap_rotation_protocol == (RotationProtocol { n_total: 1, buffer: u.scoring.overlap_rotation_protocol.buffer, ..p }) && u.scoring.overlap_rotation_protocol.buffer@.len() == 0 }),
//@subst ctx: &mut Self::Context ==> ctx: &mut Context
//@subst -> Self::Result ==>
//@rename eq=veqq
//@subst .resolve_buffer(ctx) ==> .resolve_buffer(&mut self.inbox_o)
//@end
}
// the overlap is appended behind the own edges, and its counts continue the own ones
pub open spec fn took(t: Training, m: Training, msg: OverlapRotation) -> bool {
    &&& m.data_store.edges@ == t.data_store.edges@ + edges_of(msg.edges@) && m.data_store.wf()
    &&& m.scoring.edges_in_time@ == t.scoring.edges_in_time@ + shifted(msg.edges_in_time@, t.scoring.edges_in_time@.last() as int)
    &&& m == (Training { data_store: m.data_store, scoring: Scoring { edges_in_time: m.scoring.edges_in_time, overlap_rotation_protocol: RotationProtocol { n_received: (t.scoring.overlap_rotation_protocol.n_received + 1) as usize, ..t.scoring.overlap_rotation_protocol }, ..t.scoring }, ..t })
}
// ---- the chain: what a node has after the overlap is what one node would have from its first point on --
// own[k], cnt[k]: edges and counts of node k; the edges of nodes k.. one after the other
pub open spec fn edges_from(own: Seq<Seq<Edge>>, k: int) -> Seq<Edge> decreases own.len() - k { if k >= own.len() || k < 0 { Seq::empty() } else { own[k] + edges_from(own, k + 1) } }
// the counts of nodes k.. continued one after the other
pub open spec fn counts_from(own: Seq<Seq<Edge>>, cnt: Seq<Seq<usize>>, k: int) -> Seq<int> decreases own.len() - k { if k >= own.len() || k < 0 { Seq::empty() } else { ints(cnt[k], 0) + plus(counts_from(own, cnt, k + 1), own[k].len() as int) } }
pub open spec fn ints(c: Seq<usize>, by: int) -> Seq<int> { Seq::new(c.len(), |i: int| c[i] + by) }
pub open spec fn plus(c: Seq<int>, by: int) -> Seq<int> { Seq::new(c.len(), |i: int| c[i] + by) }
// what node k has after it took its successor's overlap (L, C): edges and counts
pub open spec fn have_edges(own: Seq<Seq<Edge>>, cnt: Seq<Seq<usize>>, q: int, k: int) -> Seq<Edge> decreases own.len() - k {
    if k >= own.len() || k < 0 { Seq::empty() } else if k == own.len() - 1 { own[k] } else { let l = have_edges(own, cnt, q, k + 1); let c = have_counts(own, cnt, q, k + 1); own[k] + l.take(sharedi(c, q, l.len() as int)) } }
pub open spec fn have_counts(own: Seq<Seq<Edge>>, cnt: Seq<Seq<usize>>, q: int, k: int) -> Seq<int> decreases own.len() - k {
    if k >= own.len() || k < 0 { Seq::empty() } else if k == own.len() - 1 { ints(cnt[k], 0) } else { ints(cnt[k], 0) + plus(have_counts(own, cnt, q, k + 1).take(q - 1), own[k].len() as int) } }
pub open spec fn sharedi(c: Seq<int>, q: int, n: int) -> int { min2((if q <= 1 { 0 } else { c[q - 2] }) + 1, n) }
pub open spec fn risingi(c: Seq<int>) -> bool { forall|i: int, j: int| 0 <= i <= j < c.len() ==> (#[trigger] c[i]) <= (#[trigger] c[j]) }
pub open spec fn nodes_ok(own: Seq<Seq<Edge>>, cnt: Seq<Seq<usize>>, q: int) -> bool {
    &&& own.len() == cnt.len() && own.len() >= 1 && q >= 1 && cnt.last().len() >= q - 1
    &&& forall|k: int| 0 <= k < own.len() ==> rising(#[trigger] cnt[k]) && cnt[k].len() >= 1 && cnt[k].last() == own[k].len()
}
pub open spec fn is_prefix<T>(a: Seq<T>, b: Seq<T>) -> bool { a.len() <= b.len() && forall|i: int| 0 <= i < a.len() ==> #[trigger] a[i] == b[i] }
// the node's edges and counts are a prefix of the single node's (from its first point on), with query_length - 1 counts beyond its own points, and no edge a window of these may use is missing
pub open spec fn covers(own: Seq<Seq<Edge>>, cnt: Seq<Seq<usize>>, q: int, k: int) -> bool {
    let l = have_edges(own, cnt, q, k); let c = have_counts(own, cnt, q, k); let g = edges_from(own, k); let gc = counts_from(own, cnt, k);
    &&& is_prefix(l, g) && is_prefix(c, gc) && risingi(c) && c.len() >= 1 && c.len() >= q - 1
    &&& c.len() == cnt[k].len() + (if k == own.len() - 1 { 0 } else { q - 1 })
    &&& 0 <= c[0] && c.last() <= l.len() && (l == g || l.len() >= c.last() + 1)
}
pub proof fn overlap_chain(own: Seq<Seq<Edge>>, cnt: Seq<Seq<usize>>, q: int, k: int)
    requires nodes_ok(own, cnt, q), 0 <= k < own.len(),
    ensures covers(own, cnt, q, k),
    decreases own.len() - k
{
    assert(rising(cnt[k]));
    if k == own.len() - 1 { assert(edges_from(own, k + 1) =~= Seq::<Edge>::empty()); assert(edges_from(own, k) =~= own[k]); assert(have_edges(own, cnt, q, k) == edges_from(own, k)); }
    else {
        overlap_chain(own, cnt, q, k + 1);
        let l1 = have_edges(own, cnt, q, k + 1); let c1 = have_counts(own, cnt, q, k + 1); let s = sharedi(c1, q, l1.len() as int);
        let l = have_edges(own, cnt, q, k); let c = have_counts(own, cnt, q, k);
        assert(rising(cnt[k + 1]) && cnt[k + 1].len() >= 1);
        let o = ints(cnt[k], 0); let x = plus(c1.take(q - 1), own[k].len() as int);
        assert(c == o + x);
        assert(c1.len() > q - 2); assert(0 <= s <= l1.len());
        assert forall|i: int, j: int| 0 <= i <= j < c.len() implies (#[trigger] c[i]) <= (#[trigger] c[j]) by {
            if j < o.len() { } else if i >= o.len() { assert(c[i] == c1[i - o.len()] + own[k].len()); assert(c[j] == c1[j - o.len()] + own[k].len()); }
            else { assert(c[i] == cnt[k][i]); assert(cnt[k][i] <= cnt[k][cnt[k].len() - 1]); assert(c1[0] <= c1[j - o.len()]); }
        }
        if q <= 1 { assert(x.len() == 0); assert(c.last() == own[k].len()); } else { assert(c.last() == c1[q - 2] + own[k].len()); assert(c1[q - 2] <= c1[c1.len() - 1]); }
        assert(l =~= own[k] + l1.take(s));
        if l.len() < c.last() + 1 { assert(s == l1.len()); assert(l1.take(s) =~= l1); assert(l1 == edges_from(own, k + 1)) by { if q <= 1 { assert(l1.len() < 1); assert(c1.last() >= 0); } } assert(l == edges_from(own, k)); }
    }
}
// the contracts above make the chain: a node that takes the overlap its successor passed on has what have_edges and have_counts say
pub proof fn chain_link(own: Seq<Seq<Edge>>, cnt: Seq<Seq<usize>>, q: int, k: int, next: Training, t: Training, m: Training, msg: OverlapRotation)
    requires nodes_ok(own, cnt, q), 0 <= k < own.len() - 1, next.data_store.edges@ == have_edges(own, cnt, q, k + 1), ints(next.scoring.edges_in_time@, 0) == have_counts(own, cnt, q, k + 1), overlap_of(next.data_store.edges@, next.scoring.edges_in_time@, q, msg),
        t.data_store.edges@ == own[k], t.scoring.edges_in_time@ == cnt[k], took(t, m, msg), have_counts(own, cnt, q, k + 1).last() + own[k].len() <= usize::MAX,
    ensures m.data_store.edges@ == have_edges(own, cnt, q, k), ints(m.scoring.edges_in_time@, 0) == have_counts(own, cnt, q, k),
{
    overlap_chain(own, cnt, q, k + 1); let c1 = have_counts(own, cnt, q, k + 1); let nc = next.scoring.edges_in_time@; let l1 = next.data_store.edges@;
    assert forall|i: int| 0 <= i < c1.len() implies c1[i] == nc[i] by { assert(ints(nc, 0)[i] == nc[i]); }
    assert(rising(cnt[k]) && cnt[k].last() == own[k].len()); assert(sharedi(c1, q, l1.len() as int) == shared(nc, q, l1.len() as int));
    let s = shared(nc, q, l1.len() as int); assert(0 <= s <= l1.len()) by { if q > 1 { assert(c1[q - 2] == nc[q - 2]); } }
    assert(edges_of(msg.edges@) =~= l1.take(s));
    assert(m.data_store.edges@ =~= have_edges(own, cnt, q, k));
    assert forall|i: int| 0 <= i < q - 1 implies c1[i] + own[k].len() <= usize::MAX by { assert(c1[i] <= c1[c1.len() - 1]); }
    assert(ints(m.scoring.edges_in_time@, 0) =~= have_counts(own, cnt, q, k)) by {
        let a = ints(m.scoring.edges_in_time@, 0); let b = have_counts(own, cnt, q, k); assert(a.len() == b.len());
        assert forall|i: int| 0 <= i < a.len() implies a[i] == b[i] by { let o = cnt[k].len() as int; if i >= o { assert(msg.edges_in_time@[i - o] == nc[i - o]); assert(c1[i - o] == nc[i - o]); } }
    }
}
// so every window the node scores has the same edges as in a run on one node (C07: the edges of window i are edges c[i] .. c[i + q - 1] and the one that follows, if there is one)
pub open spec fn window(e: Seq<Edge>, c: Seq<int>, q: int, i: int) -> Seq<Edge> { e.subrange(c[i], min2(c[i + q - 1] + 1, e.len() as int)) }
pub proof fn windows_same(own: Seq<Seq<Edge>>, cnt: Seq<Seq<usize>>, q: int, k: int, i: int)
    requires nodes_ok(own, cnt, q), 0 <= k < own.len(), 0 <= i, i + q - 1 < have_counts(own, cnt, q, k).len(),
    ensures window(have_edges(own, cnt, q, k), have_counts(own, cnt, q, k), q, i) =~= window(edges_from(own, k), counts_from(own, cnt, k), q, i), i + q - 1 < counts_from(own, cnt, k).len(),
{
    overlap_chain(own, cnt, q, k); let c = have_counts(own, cnt, q, k); let l = have_edges(own, cnt, q, k); let g = edges_from(own, k);
    assert(c[0] <= c[i] && c[i] <= c[i + q - 1] && c[i + q - 1] <= c[c.len() - 1]);
    assert(counts_from(own, cnt, k)[i] == c[i]); assert(counts_from(own, cnt, k)[i + q - 1] == c[i + q - 1]);
}
// all nodes together score every window of the data once: node k the windows that begin at its points
pub proof fn windows_all(own: Seq<Seq<Edge>>, cnt: Seq<Seq<usize>>, q: int, k: int)
    requires nodes_ok(own, cnt, q), 0 <= k < own.len(),
    ensures have_counts(own, cnt, q, k).len() - (q - 1) == (if k == own.len() - 1 { cnt[k].len() - (q - 1) } else { cnt[k].len() as int }),
{ overlap_chain(own, cnt, q, k); }
} // verus!
fn main() {}
