//! f32 is exact real arithmetic (rounding is not modelled; the native replay runs the real f32).
//! a window of score exactly 0 is never preceded by a window without edges: only the very first edge of the data starts in a node of degree 1, so it precedes every other window content.
//! SyncArbiter runs the helpers it is given and delivers every instruction once; normalisation and output are C10.
//@include base.rs
//@include coll.rs
//@include float.rs
verus! {
pub enum Ev { Instr { start: usize, length: usize }, Response(ScoringHelperResponse), Poison, Sub { to: Option<usize>, m: SubScores }, Final { score: Option<Array1> } }
} // verus!
//@include net.rs
//@include proto.rs
//@include fill.rs
verus! {
//@struct src/utils/helper_protocol.rs :: HelperProtocol
impl HelperProtocol {
//@extract src/utils/helper_protocol.rs :: impl HelperProtocol :: sent
//@spec
    requires old(self).n_sent < usize::MAX,
    ensures *final(self) == (HelperProtocol { n_sent: (old(self).n_sent + 1) as usize, ..*old(self) }),
//@end
//@extract src/utils/helper_protocol.rs :: impl HelperProtocol :: received
//@spec
    requires old(self).n_sent > 0, old(self).n_received < usize::MAX,
    ensures *final(self) == (HelperProtocol { n_sent: (old(self).n_sent - 1) as usize, n_received: (old(self).n_received + 1) as usize, ..*old(self) }),
//@end
//@extract src/utils/helper_protocol.rs :: impl HelperProtocol :: is_running
//@ret r
//@spec
    ensures r == (self.n_received < self.n_total),
//@end
}
pub struct Array1 { pub v: Vec<F> }
impl Array1 { #[verifier::external_body] pub fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
#[verifier::external_body] pub fn arr_from(v: &Vec<F>) -> (r: Array1) ensures r.v@ == v@ { unimplemented!() }
pub struct ScoringHelperInstruction { pub start: usize, pub length: usize }
pub struct ScoringHelperResponse { pub start: usize, pub scores: Vec<F>, pub first_empty: bool }
pub struct SubScores { pub cluster_node_id: usize, pub scores: Array1, pub first_empty: bool }
pub struct PoisonPill;
impl VMsg for ScoringHelperInstruction { open spec fn ev(self, to: Option<usize>) -> Ev { Ev::Instr { start: self.start, length: self.length } } }
impl VMsg for ScoringHelperResponse { open spec fn ev(self, to: Option<usize>) -> Ev { Ev::Response(self) } }
impl VMsg for PoisonPill { open spec fn ev(self, to: Option<usize>) -> Ev { Ev::Poison } }
impl VMsg for SubScores { open spec fn ev(self, to: Option<usize>) -> Ev { Ev::Sub { to, m: self } } }
// ---- the graph the helpers score: opaque here
#[verifier::external_body] pub struct Edges { }
#[verifier::external_body] pub struct Weights { }
#[verifier::external_body] pub struct Degrees { }
impl Edges { #[verifier::external_body] pub fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Weights { #[verifier::external_body] pub fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Degrees { #[verifier::external_body] pub fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
pub struct DataStore { pub edges: Edges }
impl DataStore { #[verifier::external_body] pub fn get_edges(&self) -> (r: Edges) ensures r == self.edges { unimplemented!() } }
pub struct ScoringHelper { pub edges: Edges, pub edges_in_time: Vec<usize>, pub edge_weight: Weights, pub node_degrees: Degrees, pub query_length: usize, pub receiver: Addr }
// the pool of helpers: how many, and what each of them works on
pub struct HAddr { pub n: usize, pub helper: Ghost<ScoringHelper> }
impl HAddr { #[verifier::external_body] pub fn vsend<M: VMsg>(&self, log: &mut Log, m: M) ensures final(log).evs@ == old(log).evs@.push(m.ev(None)) { unimplemented!() } }
#[verifier::external_body] pub fn vstart(n: usize, h: ScoringHelper) -> (r: HAddr) requires n > 0 ensures r.n == n, r.helper@ == h { unimplemented!() }
pub struct Parameters { pub n_threads: usize, pub query_length: usize }
pub struct Scoring { pub score: Option<Array1>, pub single_scores: Vec<F>, pub subscores: HashMap<usize, (Array1, bool)>, pub first_empty: bool, pub node_degrees: Degrees, pub edge_weight: Weights, pub edges_in_time: Vec<usize>,
    pub helpers: Option<HAddr>, pub score_rotation_protocol: RotationProtocol<SubScores>, pub helper_protocol: HelperProtocol, pub helper_buffer: HashMap<usize, ScoringHelperResponse> }
pub struct Training { pub parameters: Parameters, pub data_store: DataStore, pub scoring: Scoring, pub cluster_nodes: ClusterNodes, pub log: Log, pub inbox_s: Inbox<SubScores> }

// ---- splitting the windows -----------------------------------------------------------------------
pub open spec fn min2(a: int, b: int) -> int { if a <= b { a } else { b } }
pub open spec fn chunk_count(threads: int, len: int) -> int { let m = min2(threads, len); if m >= 1 { m } else { 1 } }
// where chunk i begins (and chunk i-1 ends)
#[verifier::opaque]
pub open spec fn bound(n: int, len: int, i: int) -> int { if i >= n { len } else { i * (len / n) } }
pub proof fn bounds(n: int, len: int) requires n >= 1, len >= 0, n <= len || n == 1
    ensures bound(n, len, 0) == 0 || len == 0, bound(n, len, n) == len, forall|i: int| 0 <= i < n ==> (#[trigger] bound(n, len, i)) <= bound(n, len, i + 1) <= len && (len > 0 ==> bound(n, len, i) < bound(n, len, i + 1)), len == (len / n) * n + len % n, 0 <= len % n < n
{
    reveal(bound); let q = len / n;
    assert(len == q * n + len % n && 0 <= len % n < n) by (nonlinear_arith) requires n >= 1, q == len / n, len >= 0;
    assert(q >= 0) by (nonlinear_arith) requires q == len / n, n >= 1, len >= 0;
    if len > 0 { assert(q >= 1) by (nonlinear_arith) requires q == len / n, n >= 1, n <= len; }
    assert forall|i: int| 0 <= i < n implies (#[trigger] bound(n, len, i)) <= bound(n, len, i + 1) <= len && (len > 0 ==> bound(n, len, i) < bound(n, len, i + 1)) by {
        assert((i + 1) * q == i * q + q) by (nonlinear_arith); assert((i + 1) * q <= n * q) by (nonlinear_arith) requires i + 1 <= n, q >= 0; assert(n * q == q * n) by (nonlinear_arith); if i + 1 < n { assert(bound(n, len, i + 1) == (i + 1) * q); }
    }
    assert(0 * q == 0);
}
pub proof fn bound_step(n: int, len: int, i: int) requires n >= 1, len >= 0, n <= len || n == 1, 0 <= i < n
    ensures bound(n, len, i) == i * (len / n), bound(n, len, i + 1) - bound(n, len, i) == len / n + (if i == n - 1 { len % n } else { 0 }), 0 <= i * (len / n) <= len, 0 <= len / n, 0 <= len % n, len / n + len % n <= len
{
    bounds(n, len); reveal(bound); let q = len / n;
    assert((i + 1) * q == i * q + q) by (nonlinear_arith); assert(n * q == q * n) by (nonlinear_arith); if i == n - 1 { assert((i + 1) * q == n * q); }
    assert(q >= 0) by (nonlinear_arith) requires q == len / n, n >= 1, len >= 0; assert(0 <= i * q) by (nonlinear_arith) requires i >= 0, q >= 0; assert(q <= q * n) by (nonlinear_arith) requires q >= 0, n >= 1;
    assert(bound(n, len, i) <= bound(n, len, i + 1));
}
pub open spec fn instructed(a: Training, b: Training, len: int) -> bool {
    let n = chunk_count(a.parameters.n_threads as int, len); let k = a.log.evs@.len() as int;
    &&& b.log.evs@.len() == k + n && b.log.evs@.take(k) == a.log.evs@
    &&& forall|i: int| 0 <= i < n ==> #[trigger] b.log.evs@[k + i] == (Ev::Instr { start: bound(n, len, i) as usize, length: (bound(n, len, i + 1) - bound(n, len, i)) as usize })
    &&& b.scoring.helper_protocol.n_total as int == n && b.scoring.helper_protocol.n_sent == a.scoring.helper_protocol.n_sent + n && b.scoring.helper_protocol.n_received == a.scoring.helper_protocol.n_received
}
// ---- one answer ----------------------------------------------------------------------------------
pub open spec fn is_answer(w: W, m: ScoringHelperResponse, start: int, len: int) -> bool { m.start as int == start && is_run(w, m.scores@, m.first_empty, start, len) }
pub open spec fn extended(a: Training, m: ScoringHelperResponse) -> Seq<F> { continued(a.scoring.single_scores@, m.scores@, m.first_empty) }
pub open spec fn sub_of(a: Training, s: Seq<F>, e: Ev) -> bool { match e { Ev::Sub { to, m } => to == Some(a.cluster_nodes.next()) && m.cluster_node_id == a.cluster_nodes.own && m.scores.v@ == s && m.first_empty == a.scoring.first_empty, _ => false } }
// the assembled scores leave the node: to the ring, or to the result
pub open spec fn handed_on(a: Training, b: Training) -> bool {
    let s = a.scoring.single_scores@; let k = a.log.evs@.len() as int;
    if a.cluster_nodes.n > 1 {
        &&& b.log.evs@.len() == k + 2 && b.log.evs@.take(k) == a.log.evs@ && b.log.evs@[k] == Ev::Poison && sub_of(a, s, b.log.evs@[k + 1])
        &&& b.scoring.subscores@.contains_key(a.cluster_nodes.own) && b.scoring.subscores@[a.cluster_nodes.own].0.v@ == s && b.scoring.subscores@[a.cluster_nodes.own].1 == a.scoring.first_empty
        &&& b.scoring.subscores@.remove(a.cluster_nodes.own) == a.scoring.subscores@.remove(a.cluster_nodes.own)
        &&& b.inbox_s.first@ == a.inbox_s.first@ + a.scoring.score_rotation_protocol.buffer@ && b.scoring.score_rotation_protocol.buffer@.len() == 0
        &&& b.scoring.score_rotation_protocol.n_total == a.cluster_nodes.n - 1 && b.scoring.score_rotation_protocol.n_sent == a.scoring.score_rotation_protocol.n_sent + 1 && b.scoring.score_rotation_protocol.n_received == a.scoring.score_rotation_protocol.n_received
    } else {
        &&& b.log.evs@.len() == k + 2 && b.log.evs@.take(k) == a.log.evs@ && b.log.evs@[k] == Ev::Poison
        &&& exists|x: Array1| b.log.evs@[k + 1] == (Ev::Final { score: Some(x) }) && #[trigger] x.v@ == normalised(s)
    }
}
pub open spec fn after(a: Training, b: Training, m: ScoringHelperResponse) -> bool {
    let p = a.scoring; let q = b.scoring; let len = p.single_scores@.len();
    if m.start as int != len {
        q.helper_buffer@ == p.helper_buffer@.insert(m.start, m) && b == (Training { scoring: Scoring { helper_buffer: q.helper_buffer, ..p }, ..a })
    } else if p.helper_protocol.n_received + 1 < p.helper_protocol.n_total {
        let e = extended(a, m); let k = e.len() as usize;
        &&& q.single_scores@ == e && q.first_empty == (p.first_empty || (m.first_empty && len == 0)) && q.helper_protocol.n_received == p.helper_protocol.n_received + 1 && q.helper_protocol.n_sent == p.helper_protocol.n_sent - 1 && q.helper_protocol.n_total == p.helper_protocol.n_total
        &&& q.helper_buffer@ == p.helper_buffer@.remove(k)
        &&& b.log.evs@ == if p.helper_buffer@.contains_key(k) { a.log.evs@.push(Ev::Response(p.helper_buffer@[k])) } else { a.log.evs@ }
    } else {
        exists|c: Training| #[trigger] handed_on(c, b) && c.scoring.single_scores@ == extended(a, m) && c.scoring.first_empty == (p.first_empty || (m.first_empty && len == 0)) && c.cluster_nodes == a.cluster_nodes && c.log == a.log && c.scoring.subscores == p.subscores && c.scoring.score_rotation_protocol == p.score_rotation_protocol && c.inbox_s == a.inbox_s
    }
}
// ---- all answers, in any order: nothing stalls ---------------------------------------------------
// c chunks of the plan b[0] < b[1] < ... < b[n] are in; waiting ones are later chunks
pub open spec fn plan(b: Seq<int>, n: int) -> bool { b.len() == n + 1 && n >= 1 && b[0] == 0 && forall|i: int, j: int| 0 <= i < j <= n ==> (#[trigger] b[i]) < (#[trigger] b[j]) }
pub open spec fn chunk(w: W, b: Seq<int>, m: ScoringHelperResponse, j: int) -> bool { is_answer(w, m, b[j], b[j + 1] - b[j]) }
pub open spec fn inv(w: W, b: Seq<int>, n: int, t: Training, c: int) -> bool {
    &&& 0 <= c < n && t.scoring.single_scores@.len() == b[c] && t.scoring.helper_protocol.n_received as int == c && t.scoring.helper_protocol.n_total as int == n
    &&& upto(w, t.scoring.single_scores@, b[c])
    &&& forall|k: usize| #[trigger] t.scoring.helper_buffer@.contains_key(k) ==> exists|j: int| c < j < n && b[j] == k && #[trigger] chunk(w, b, t.scoring.helper_buffer@[k], j)
}
pub proof fn answers_any_order(w: W, b: Seq<int>, n: int, x: Training, y: Training, m: ScoringHelperResponse, c: int, j: int)
    requires zeros_first(w), plan(b, n), b[n] <= usize::MAX, inv(w, b, n, x, c), c <= j < n, chunk(w, b, m, j), after(x, y, m)
    ensures
        // a later chunk waits
        j > c ==> inv(w, b, n, y, c) && y.scoring.helper_buffer@.contains_key(m.start),
        // the next chunk is taken; if the one after it waits, it comes back
        j == c && c + 1 < n ==> inv(w, b, n, y, c + 1) && (x.scoring.helper_buffer@.contains_key(b[c + 1] as usize) ==> y.log.evs@ == x.log.evs@.push(Ev::Response(x.scoring.helper_buffer@[b[c + 1] as usize]))),
        // the last one completes the scores
        j == c && c + 1 == n ==> exists|z: Training| #[trigger] handed_on(z, y) && upto(w, z.scoring.single_scores@, b[n]),
{
    assert(b[c] <= b[j]); if j > c { assert(b[c] < b[j]); } assert(b[j] < b[j + 1]);
    assert forall|i: int| 0 <= i <= n implies 0 <= #[trigger] b[i] <= b[n] by { if i > 0 { assert(b[0] < b[i]); } if i < n { assert(b[i] < b[n]); } }
    if j > c {
        assert forall|k: usize| #[trigger] y.scoring.helper_buffer@.contains_key(k) implies exists|i: int| c < i < n && b[i] == k && #[trigger] chunk(w, b, y.scoring.helper_buffer@[k], i) by {
            if k == m.start { assert(chunk(w, b, y.scoring.helper_buffer@[k], j)); } else { assert(x.scoring.helper_buffer@.contains_key(k)); let i = choose|i: int| c < i < n && b[i] == k && #[trigger] chunk(w, b, x.scoring.helper_buffer@[k], i); assert(chunk(w, b, y.scoring.helper_buffer@[k], i)); }
        }
    } else {
        run_extends(w, x.scoring.single_scores@, m.scores@, m.first_empty, b[c + 1] - b[c]);
        if c + 1 < n {
            let nk = b[c + 1] as usize;
            assert(extended(x, m).len() == b[c + 1]);
            assert forall|k: usize| #[trigger] y.scoring.helper_buffer@.contains_key(k) implies exists|i: int| c + 1 < i < n && b[i] == k && #[trigger] chunk(w, b, y.scoring.helper_buffer@[k], i) by {
                assert(x.scoring.helper_buffer@.contains_key(k)); assert(k != nk);
                let i = choose|i: int| c < i < n && b[i] == k && #[trigger] chunk(w, b, x.scoring.helper_buffer@[k], i);
                if i == c + 1 { assert(k == nk); }
                assert(chunk(w, b, y.scoring.helper_buffer@[k], i));
            }
        } else {
            let z = choose|z: Training| #[trigger] handed_on(z, y) && z.scoring.single_scores@ == extended(x, m);
            assert(handed_on(z, y) && upto(w, z.scoring.single_scores@, b[n]));
        }
    }
}
// chunk c itself never waits in the buffer, so as long as chunks are missing one of them is under way
pub proof fn no_stall(w: W, b: Seq<int>, n: int, t: Training, c: int) requires plan(b, n), inv(w, b, n, t, c), 0 <= b[c] <= usize::MAX ensures !t.scoring.helper_buffer@.contains_key(b[c] as usize) {
    let k = b[c] as usize;
    if t.scoring.helper_buffer@.contains_key(k) { let i = choose|i: int| c < i < n && b[i] == k && #[trigger] chunk(w, b, t.scoring.helper_buffer@[k], i); assert(b[c] < b[i]); }
}
pub uninterp spec fn normalised(s: Seq<F>) -> Seq<F>;
impl Training {
    // C10
    #[verifier::external_body] pub fn normalize_score(&mut self, scores: &mut Array1) ensures final(scores).v@ == normalised(old(scores).v@), *final(self) == *old(self) { unimplemented!() }
    #[verifier::external_body] pub fn finalize_scoring(&mut self, ctx: &mut Context) ensures final(self).log.evs@ == old(self).log.evs@.push(Ev::Final { score: old(self).scoring.score }) { unimplemented!() }
//@extract src/training/scoring/mod.rs :: impl Scorer for Training :: score
//@spec
    requires 1 <= old(self).parameters.query_length <= old(self).scoring.edges_in_time@.len() + 1, old(self).parameters.n_threads >= 1, old(self).scoring.helper_protocol.n_sent == 0,
    ensures ({ let len = old(self).scoring.edges_in_time@.len() - (old(self).parameters.query_length - 1); let a = *old(self); let b = *final(self);
        &&& instructed(a, b, len)
        &&& b.scoring.helpers is Some && b.scoring.helpers->0.n == a.parameters.n_threads
        &&& ({ let h = b.scoring.helpers->0.helper@; h.edges == a.data_store.edges && h.edges_in_time@ == a.scoring.edges_in_time@ && h.edge_weight == a.scoring.edge_weight && h.node_degrees == a.scoring.node_degrees && h.query_length == a.parameters.query_length })
        &&& b == (Training { scoring: Scoring { helpers: b.scoring.helpers, helper_protocol: b.scoring.helper_protocol, ..a.scoring }, log: b.log, ..a }) }),
//@subst ctx: &mut Context<Training> ==> ctx: &mut Context
//@subst ctx.address().recipient() ==> ctx.address()
//@subst SyncArbiter::start(self.parameters.n_threads, move || { ScoringHelper { ==> vstart(self.parameters.n_threads, { ScoringHelper {
//@subst edges_in_time: edges_in_time.clone() ==> edges_in_time: edges_in_time.vclone()
//@subst self.scoring.edges_in_time.clone() ==> self.scoring.edges_in_time.vclone()
//@subst receiver: receiver.clone() ==> receiver: receiver
//@top
    assert(self.scoring.edges_in_time.len() == self.scoring.edges_in_time@.len());
//@end
//@extract src/training/scoring/mod.rs :: impl Scorer for Training :: parallel_score
//@spec
    requires old(self).parameters.n_threads >= 1, old(self).scoring.helpers is Some, old(self).scoring.helper_protocol.n_sent == 0,
    ensures instructed(*old(self), *final(self), score_length as int),
        *final(self) == (Training { scoring: Scoring { helper_protocol: final(self).scoring.helper_protocol, ..old(self).scoring }, log: final(self).log, ..*old(self) }),
//@subst .do_send( ==> .vsend(&mut self.log,
//@rename min=vmin max=vmax
//@loop 0 pre
        let ghost n = chunk_count(self.parameters.n_threads as int, score_length as int); let ghost k = old(self).log.evs@.len() as int;
        proof { assert(self.log.evs@ =~= old(self).log.evs@); assert(self.log.evs@.take(k) =~= old(self).log.evs@); }
//@loop 0
            invariant 0 <= vit_0 <= vend_0, vend_0 as int == n, n >= 1, n == chunk_count(self.parameters.n_threads as int, score_length as int), n_per_thread as int == score_length as int / n, n_rest as int == score_length as int % n, n_chunks as int == n,
                k == old(self).log.evs@.len(), self.log.evs@.len() == k + vit_0, self.log.evs@.take(k) == old(self).log.evs@,
                forall|i: int| 0 <= i < vit_0 ==> #[trigger] self.log.evs@[k + i] == (Ev::Instr { start: bound(n, score_length as int, i) as usize, length: (bound(n, score_length as int, i + 1) - bound(n, score_length as int, i)) as usize }),
                *self == (Training { scoring: Scoring { helper_protocol: self.scoring.helper_protocol, ..old(self).scoring }, log: self.log, ..*old(self) }), self.scoring.helpers is Some,
                self.scoring.helper_protocol == (HelperProtocol { n_total: n as usize, n_sent: vit_0, n_received: old(self).scoring.helper_protocol.n_received }),
            decreases vend_0 - vit_0,
//@loop 0 top
            let ghost evs0 = self.log.evs@;
            proof { bound_step(n, score_length as int, i as int); }
//@loop 0 end
            proof { assert(self.log.evs@.take(k) =~= evs0.take(k)); assert forall|i: int| 0 <= i < vit_0 implies #[trigger] self.log.evs@[k + i] == (Ev::Instr { start: bound(n, score_length as int, i) as usize, length: (bound(n, score_length as int, i + 1) - bound(n, score_length as int, i)) as usize }) by { if i < vit_0 - 1 { assert(self.log.evs@[k + i] == evs0[k + i]); } } }
//@end
//@extract src/training/scoring/mod.rs :: impl Scorer for Training :: finalize_parallel_score
//@spec
    requires old(self).scoring.helpers is Some, old(self).cluster_nodes.wf(), old(self).scoring.score_rotation_protocol.n_sent < usize::MAX,
    ensures handed_on(*old(self), *final(self)),
//@floats
//@subst ctx: &mut Context<Training> ==> ctx: &mut Context
//@subst Array1<F> = self.scoring.single_scores.clone().into_iter().collect() ==> Array1 = arr_from(&self.scoring.single_scores)
//@subst .resolve_buffer(ctx) ==> .resolve_buffer(&mut self.inbox_s)
//@subst "Training" ==> ()
//@subst .do_send( ==> .vsend(&mut self.log,
//@rename clear=vclear
//@top
    let ghost e0 = self.log.evs@; let ghost s0 = self.scoring.single_scores@; let ghost sub0 = self.scoring.subscores@; let ghost n0 = self.cluster_nodes.n;
//@tail
    proof { let k = e0.len() as int; assert(self.log.evs@.take(k) =~= e0); if n0 > 1 { assert(self.scoring.subscores@.remove(self.cluster_nodes.own) =~= sub0.remove(self.cluster_nodes.own)); } }
//@end
//@extract src/training/scoring/mod.rs :: impl Handler<ScoringHelperResponse> for Training :: handle
//@spec
    requires old(self).scoring.helpers is Some, old(self).cluster_nodes.wf(), old(self).scoring.score_rotation_protocol.n_sent < usize::MAX, old(self).scoring.helper_protocol.n_sent > 0, old(self).scoring.helper_protocol.n_received < usize::MAX,
    ensures after(*old(self), *final(self), msg),
//@subst fn handle( ==> fn handle_response(
//@subst ctx: &mut Self::Context) -> Self::Result ==> ctx: &mut Context)
//@subst .do_send( ==> .vsend(&mut self.log,
//@rename extend=vextend last=vlast
//@top
    let ghost m0 = msg; assert(self.scoring.single_scores.len() == self.scoring.single_scores@.len());
//@end
}
} // verus!
fn main() {}
