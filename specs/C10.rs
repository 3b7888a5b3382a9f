//! f32 is exact real arithmetic (rounding and NaN are not modelled; the native replay runs the real f32).
//! csv::Writer writes one line per serialized value; ndarray concatenate/max/min have their documented meaning.
//! subscores are non-empty.
//@include base.rs
//@include coll.rs
//@include float.rs
verus! {
pub enum Ev { Sub { to: Option<usize>, m: SubScores }, Line(F), Created(PathS), Contribution, Done }
#[verifier::external_body] pub struct PathS { }
impl PathS { #[verifier::external_body] pub fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
} // verus!
//@include net.rs
//@include proto.rs
//@include fill.rs
verus! {
pub struct Array1 { pub v: Vec<F> }
pub open spec fn is_max(s: Seq<F>, m: F) -> bool { (forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).r() <= m.r()) && exists|i: int| 0 <= i < s.len() && #[trigger] s[i] == m }
pub open spec fn is_min(s: Seq<F>, m: F) -> bool { (forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).r() >= m.r()) && exists|i: int| 0 <= i < s.len() && #[trigger] s[i] == m }
impl Array1 {
    #[verifier::external_body] pub fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
    #[verifier::external_body] pub fn max(&self) -> (r: Result<&F, ()>) ensures self.v@.len() > 0 ==> r is Ok && is_max(self.v@, *r->Ok_0) { unimplemented!() }
    #[verifier::external_body] pub fn min(&self) -> (r: Result<&F, ()>) ensures self.v@.len() > 0 ==> r is Ok && is_min(self.v@, *r->Ok_0) { unimplemented!() }
    #[verifier::external_body] pub fn fill(&mut self, x: F) ensures final(self).v@.len() == old(self).v@.len(), forall|i: int| 0 <= i < final(self).v@.len() ==> #[trigger] final(self).v@[i] == x { unimplemented!() }
    #[verifier::external_body] pub fn into_iter(&self) -> (r: It<&F>) ensures r.pos() == 0, r.all().len() == self.v@.len(), forall|i: int| 0 <= i < self.v@.len() ==> *(#[trigger] r.all()[i]) == self.v@[i] { unimplemented!() }
    #[verifier::external_body] pub fn iter(&self) -> (r: It<&F>) ensures r.pos() == 0, r.all().len() == self.v@.len(), forall|i: int| 0 <= i < self.v@.len() ==> *(#[trigger] r.all()[i]) == self.v@[i] { unimplemented!() }
    #[verifier::external_body] pub fn from_it(i: It<F>) -> (r: Array1) requires i.pos() == 0 ensures r.v@ == i.all() { unimplemented!() }
}
pub open spec fn flat(s: Seq<Array1>) -> Seq<F> decreases s.len() { if s.len() == 0 { Seq::empty() } else { flat(s.drop_last()) + s.last().v@ } }
#[verifier::external_body] pub fn concat(s: &Vec<Array1>) -> (r: Array1) requires s@.len() > 0 ensures r.v@ == flat(s@) { unimplemented!() }
pub proof fn flat_push(s: Seq<Array1>, a: Array1) ensures flat(s.push(a)) == flat(s) + a.v@ { assert(s.push(a).drop_last() =~= s); }
// ---- scaling to [0, 1] ----------------------------------------------------------------------------
// z is x scaled: lo -> 0, hi -> 1, linear between; all 0 if there is no range
pub open spec fn scaled(lo: real, hi: real, x: real) -> real { if lo == hi { 0real } else { (x - lo) / (hi - lo) } }
pub open spec fn lo_hi(s: Seq<F>, lo: real, hi: real) -> bool {
    (forall|i: int| 0 <= i < s.len() ==> lo <= (#[trigger] s[i]).r() <= hi) && (exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).r() == lo) && (exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).r() == hi)
}
pub open spec fn normalised(s: Seq<F>, z: Seq<F>) -> bool {
    z.len() == s.len() && exists|lo: real, hi: real| #[trigger] lo_hi(s, lo, hi) && forall|i: int| 0 <= i < s.len() ==> (#[trigger] z[i]).r() == scaled(lo, hi, s[i].r())
}
// the consequences a user relies on: within [0, 1], never NaN, larger stays larger
pub proof fn in_range_and_order(s: Seq<F>, z: Seq<F>) requires normalised(s, z)
    ensures forall|i: int| 0 <= i < s.len() ==> 0real <= (#[trigger] z[i]).r() <= 1real, forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() && s[i].r() < s[j].r() ==> (#[trigger] z[i]).r() < (#[trigger] z[j]).r(),
        forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() && s[i].r() == s[j].r() ==> (#[trigger] z[i]).r() == (#[trigger] z[j]).r(),
{
    let (lo, hi) = choose|lo: real, hi: real| #[trigger] lo_hi(s, lo, hi) && forall|i: int| 0 <= i < s.len() ==> (#[trigger] z[i]).r() == scaled(lo, hi, s[i].r());
    assert forall|i: int| 0 <= i < s.len() implies 0real <= (#[trigger] z[i]).r() <= 1real by {
        let x = s[i].r(); let q = scaled(lo, hi, x); assert(lo <= x <= hi);
        if lo != hi { let d = hi - lo; let a = x - lo; assert(q * d == a) by (nonlinear_arith) requires q == a / d, d > 0real; assert(q >= 0real && q <= 1real) by (nonlinear_arith) requires q * d == a, d > 0real, a >= 0real, a <= d; }
    }
    assert forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() && s[i].r() < s[j].r() implies (#[trigger] z[i]).r() < (#[trigger] z[j]).r() by {
        let p = scaled(lo, hi, s[i].r()); let q = scaled(lo, hi, s[j].r()); let d = hi - lo; let a = s[i].r() - lo; let b = s[j].r() - lo;
        assert(lo <= s[i].r() && s[j].r() <= hi);
        assert(p * d == a) by (nonlinear_arith) requires p == a / d, d > 0real; assert(q * d == b) by (nonlinear_arith) requires q == b / d, d > 0real;
        assert(p < q) by (nonlinear_arith) requires p * d == a, q * d == b, a < b, d > 0real;
    }
}
pub struct SubScores { pub cluster_node_id: usize, pub scores: Array1, pub first_empty: bool }
pub struct ScoringDone;
impl VMsg for SubScores { open spec fn ev(self, to: Option<usize>) -> Ev { Ev::Sub { to, m: self } } }
impl VMsg for ScoringDone { open spec fn ev(self, to: Option<usize>) -> Ev { Ev::Done } }
// ---- the result file
pub struct Error;
pub struct File { pub path: PathS }
impl File { #[verifier::external_body] pub fn create(log: &mut Log, p: PathS) -> (r: core::result::Result<File, Error>) ensures r is Ok ==> final(log).evs@ == old(log).evs@.push(Ev::Created(p)) { unimplemented!() } }
pub struct WriterBuilder { pub headers: bool }
impl WriterBuilder {
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r.headers { unimplemented!() }
    #[verifier::external_body] pub fn has_headers(self, b: bool) -> (r: Self) ensures r.headers == b { unimplemented!() }
    #[verifier::external_body] pub fn from_writer(self, f: File) -> (r: Writer) requires !self.headers { unimplemented!() }
}
pub struct Writer { }
impl Writer { #[verifier::external_body] pub fn serialize(&mut self, log: &mut Log, x: &F) -> (r: core::result::Result<(), Error>) ensures r is Ok ==> final(log).evs@ == old(log).evs@.push(Ev::Line(*x)) { unimplemented!() } }
pub open spec fn lines(s: Seq<F>, n: int) -> Seq<Ev> { Seq::new(n as nat, |i: int| Ev::Line(s[i])) }
pub struct Parameters { pub n_cluster_nodes: usize, pub score_output_path: Option<PathS>, pub explainability: bool }
pub struct Scoring { pub score: Option<Array1>, pub subscores: HashMap<usize, (Array1, bool)>, pub score_rotation_protocol: RotationProtocol<SubScores> }
pub struct Training { pub parameters: Parameters, pub scoring: Scoring, pub cluster_nodes: ClusterNodes, pub log: Log }

// the scores of nodes 0..n, in node order; leading windows without edges continue the previous node
pub open spec fn joined(m: Map<usize, (Array1, bool)>, n: int) -> Seq<F> decreases n { if n <= 0 { Seq::empty() } else { continued(joined(m, n - 1), m[(n - 1) as usize].0.v@, m[(n - 1) as usize].1) } }
pub open spec fn complete(m: Map<usize, (Array1, bool)>, n: int) -> bool { n >= 1 && n <= usize::MAX && (forall|i: usize| i < n ==> #[trigger] m.contains_key(i) && m[i].0.v@.len() > 0) }
// if every node reports its run of windows, the joined scores are those of one run over all windows
pub proof fn joined_is_one_run(w: W, m: Map<usize, (Array1, bool)>, b: Seq<int>, n: int)
    requires zeros_first(w), complete(m, n), b.len() == n + 1, b[0] == 0, forall|i: int| 0 <= i < n ==> (#[trigger] b[i]) <= b[i + 1], forall|i: int| 0 <= i < n ==> is_run(w, m[i as usize].0.v@, m[i as usize].1, #[trigger] b[i], b[i + 1] - b[i])
    ensures upto(w, joined(m, n), b[n]) decreases n
{ joined_part(w, m, b, n, n); }
pub proof fn joined_part(w: W, m: Map<usize, (Array1, bool)>, b: Seq<int>, n: int, k: int)
    requires zeros_first(w), b.len() == n + 1, b[0] == 0, 0 <= k <= n, forall|i: int| 0 <= i < n ==> (#[trigger] b[i]) <= b[i + 1], forall|i: int| 0 <= i < n ==> is_run(w, m[i as usize].0.v@, m[i as usize].1, #[trigger] b[i], b[i + 1] - b[i])
    ensures upto(w, joined(m, k), b[k]) decreases k
{ if k > 0 { joined_part(w, m, b, n, k - 1); assert(b[k - 1] <= b[k]); let i = (k - 1) as usize; assert(i as int == k - 1 || k - 1 > usize::MAX); assert(is_run(w, m[(k - 1) as usize].0.v@, m[(k - 1) as usize].1, b[k - 1], b[k] - b[k - 1])); run_extends(w, joined(m, k - 1), m[(k - 1) as usize].0.v@, m[(k - 1) as usize].1, b[k] - b[k - 1]); } }
// the result: one line per score if a file is wanted, and the end is announced
pub open spec fn reported(a: Training, b: Training) -> bool {
    &&& b.scoring.score is Some && b.parameters == a.parameters
    &&& if a.scoring.score is Some { b.scoring.score == a.scoring.score } else { normalised(joined(a.scoring.subscores@, a.parameters.n_cluster_nodes as int), b.scoring.score->0.v@) }
    &&& b.log.evs@ == a.log.evs@ + (if a.parameters.score_output_path is Some { seq![Ev::Created(a.parameters.score_output_path->0)] + lines(b.scoring.score->0.v@, b.scoring.score->0.v@.len() as int) } else { Seq::empty() }) + seq![if a.parameters.explainability { Ev::Contribution } else { Ev::Done }]
}
impl Training {
//@extract src/training/scoring/mod.rs :: impl Scorer for Training :: normalize_score
//@spec
    requires old(scores).v@.len() > 0,
    ensures normalised(old(scores).v@, final(scores).v@), *final(self) == *old(self),
//@floats
//@subst Array1<F> ==> Array1
//@subst *scores = scores .into_iter() .map( ==> let vmapped = scores.into_iter().map(
//@subst .collect(); ==> ; *scores = Array1::from_it(vmapped);
//@subst scores.fill(vfl(0, 1)); ==> scores.fill(vfl(0, 1)); proof { assert(lo_hi(s0, all_score_min.r(), all_score_max.r())); assert forall|i: int| 0 <= i < s0.len() implies (#[trigger] scores.v@[i]).r() == scaled(all_score_min.r(), all_score_max.r(), s0[i].r()) by { } }
//@top
    let ghost s0 = scores.v@; proof { rl_one(0); }
//@closure 0
    |x: &F| -> (q: F)
        requires all_score_max.r() != all_score_min.r()
        ensures q.r() == (x.r() - all_score_min.r()) / (all_score_max.r() - all_score_min.r())
//@tail
    proof { assert(lo_hi(s0, all_score_min.r(), all_score_max.r())); assert forall|i: int| 0 <= i < s0.len() implies (#[trigger] scores.v@[i]).r() == scaled(all_score_min.r(), all_score_max.r(), s0[i].r()) by { } }
//@end
//@extract src/training/scoring/mod.rs :: impl Scorer for Training :: output_score
//@ret r
//@spec
    requires old(self).scoring.score is Some,
    ensures final(self).scoring == old(self).scoring, final(self).parameters == old(self).parameters, final(self).cluster_nodes == old(self).cluster_nodes,
        r is Ok ==> final(self).log.evs@ == old(self).log.evs@ + (seq![Ev::Created(output_path)] + lines(old(self).scoring.score->0.v@, old(self).scoring.score->0.v@.len() as int)),
//@subst output_path: String ==> output_path: PathS
//@subst Result<()> ==> core::result::Result<(), Error>
//@subst File::create(output_path) ==> File::create(&mut self.log, output_path)
//@subst writer.serialize( ==> writer.serialize(&mut self.log,
//@top
    let ghost e0 = self.log.evs@; let ghost s0 = self.scoring.score->0.v@;
//@loop 0 pre
        proof { assert(self.log.evs@ =~= e0 + (seq![Ev::Created(output_path)] + lines(s0, 0))); }
//@loop 0
            invariant self.scoring == old(self).scoring, self.parameters == old(self).parameters, self.cluster_nodes == old(self).cluster_nodes, vit_0.all().len() == s0.len(), forall|i: int| 0 <= i < s0.len() ==> *(#[trigger] vit_0.all()[i]) == s0[i], 0 <= vit_0.pos() <= s0.len(),
                self.log.evs@ == e0 + (seq![Ev::Created(output_path)] + lines(s0, vit_0.pos())),
            ensures vit_0.pos() == s0.len(),
            decreases s0.len() - vit_0.pos(),
//@loop 0 end
            proof { assert(self.log.evs@ =~= e0 + (seq![Ev::Created(output_path)] + lines(s0, vit_0.pos()))); }
//@end
    #[verifier::external_body] pub fn build_anomaly_contribution_score(&mut self, ctx: &mut Context) ensures *final(self) == (Training { log: final(self).log, ..*old(self) }), final(self).log.evs@ == old(self).log.evs@.push(Ev::Contribution) { unimplemented!() }
//@extract src/training/scoring/mod.rs :: impl Scorer for Training :: finalize_scoring
//@spec
    requires old(self).scoring.score is None ==> complete(old(self).scoring.subscores@, old(self).parameters.n_cluster_nodes as int),
    // the process ends with an error message if the result file cannot be written
    ensures reported(*old(self), *final(self)),
//@floats
//@subst ctx: &mut Context<Training> ==> ctx: &mut Context
//@subst Vec<Array1<F>> ==> Vec<Array1>
//@subst fill_up_first_missing_points(&mut sub_score, last_score[last_score.len() - 1]) ==> fill_up_first_missing_points(&mut sub_score.v, last_score.v[last_score.v.len() - 1])
//@subst concatenate( Axis(0), scores .iter() .map(|s| s.view()) .collect::<Vec<ArrayView1<F>>>() .as_slice(), ) .expect("Could not concatenate subscores!") ==> concat(&scores)
//@subst .expect("A subscore is missing!") ==> .unwrap()
//@subst self.output_score(output_path).unwrap() ==> let vres = self.output_score(output_path); vmust(vres)
//@subst self.parameters.score_output_path.clone() ==> vclone_path(&self.parameters.score_output_path)
//@subst .do_send( ==> .vsend(&mut self.log,
//@rename last=vlast
//@top
    let ghost e0 = self.log.evs@; let ghost m0 = self.scoring.subscores@; let ghost nn = self.parameters.n_cluster_nodes as int;
//@loop 0
                invariant 0 <= vit_0 <= vend_0, vend_0 as int == nn, complete(m0, nn), self.parameters == old(self).parameters, self.log == old(self).log, self.scoring.score == old(self).scoring.score, self.cluster_nodes == old(self).cluster_nodes,
                    forall|i: usize| vit_0 <= i < nn ==> #[trigger] self.scoring.subscores@.contains_key(i) && self.scoring.subscores@[i] == m0[i],
                    scores@.len() == vit_0, flat(scores@) == joined(m0, vit_0 as int),
                    vit_0 > 0 ==> scores@.last().v@.len() > 0 && joined(m0, vit_0 as int).len() > 0 && joined(m0, vit_0 as int).last() == scores@.last().v@.last(),
                decreases vend_0 - vit_0,
//@loop 0 top
                proof { assert(m0.contains_key(cluster_node_id)); assert(self.scoring.subscores@.contains_key(cluster_node_id)); }
                let ghost sc0 = scores@;
//@loop 0 end
                proof { flat_push(sc0, scores@.last()); assert(scores@ =~= sc0.push(scores@.last())); let m = m0[cluster_node_id]; let j = joined(m0, vit_0 - 1);
                    assert((vit_0 - 1) as usize == cluster_node_id);
                    if vit_0 == 1 { assert(j =~= Seq::<F>::empty()); }
                    if m.1 { filled_len(m.0.v@, j.last()); }
                    assert(joined(m0, vit_0 as int) == continued(j, m.0.v@, m.1));
                    assert(joined(m0, vit_0 as int).last() == scores@.last().v@.last()); }
//@tail
    proof { let s = self.scoring.score->0.v@; assert(self.log.evs@ =~= e0 + (if self.parameters.score_output_path is Some { seq![Ev::Created(self.parameters.score_output_path->0)] + lines(s, s.len() as int) } else { Seq::empty() }) + seq![if self.parameters.explainability { Ev::Contribution } else { Ev::Done }]); }
//@end
//@extract src/training/scoring/mod.rs :: impl Handler<SubScores> for Training :: handle
//@spec
    requires old(self).cluster_nodes.wf(), old(self).cluster_nodes.n > 1, old(self).scoring.score is None, old(self).scoring.score_rotation_protocol.n_sent < usize::MAX, old(self).scoring.score_rotation_protocol.n_received < usize::MAX,
        // when the round is complete, every node's scores are there (ring lemma, C11)
        ({ let p = old(self).scoring.score_rotation_protocol; p.running() && !runs(p.n_total, (p.n_received + 1) as usize, p.n_sent) ==> complete(old(self).scoring.subscores@.insert(msg.cluster_node_id, (msg.scores, msg.first_empty)), old(self).parameters.n_cluster_nodes as int) }),
    ensures ({ let a = *old(self); let b = *final(self); let p = a.scoring.score_rotation_protocol; let q = b.scoring.score_rotation_protocol;
        if !p.running() { b == (Training { scoring: Scoring { score_rotation_protocol: q, ..a.scoring }, ..a }) && q.buffer@ == p.buffer@.push(msg) }
        else {
            let mid = a.scoring.subscores@.insert(msg.cluster_node_id, (msg.scores, msg.first_empty));
            if runs(p.n_total, (p.n_received + 1) as usize, p.n_sent) { b.scoring.subscores@ == mid && b.log.evs@ == a.log.evs@.push(Ev::Sub { to: Some(a.cluster_nodes.next()), m: msg }) && q.n_sent == p.n_sent + 1 && q.n_received == p.n_received + 1 && b.scoring.score is None }
            else { exists|c: Training| #[trigger] reported(c, b) && c.scoring.subscores@ == mid && c.scoring.score is None && c.log == a.log && c.parameters == a.parameters }
        } }),
//@subst fn handle( ==> fn handle_subscores(
//@subst ctx: &mut Self::Context) -> Self::Result ==> ctx: &mut Context)
//@subst "Training" ==> ()
//@subst .do_send( ==> .vsend(&mut self.log,
//@end
}
#[verifier::external_body] pub fn vclone_path(p: &Option<PathS>) -> (r: Option<PathS>) ensures r == *p { unimplemented!() }
// `.unwrap()` on the outcome of writing the file: I/O errors end the process
#[verifier::external_body] pub fn vmust(r: core::result::Result<(), Error>) ensures r is Ok { unimplemented!() }
} // verus!
fn main() {}
