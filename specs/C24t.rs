//! f32 is exact real arithmetic (rounding is not modelled; the native replay runs the real f32); the csv writer writes one line per record.
//! every entry of a contribution lies in [-1, 1] (a mean of values 1 - share, see record_contributions)
//@include base.rs
//@include coll.rs
//@include float.rs
//@include nd.rs
//@include nodes.rs
verus! {
//@struct src/utils/float_approx.rs :: FloatApprox
pub open spec fn trunc80(x: real) -> int { let y = x * 80real; if y >= 0real { y.floor() } else { 0 - (0real - y).floor() } }
pub open spec fn in_order(s: Seq<FloatApprox<F>>) -> bool { forall|i: int, j: int| 0 <= i <= j < s.len() ==> trunc80((#[trigger] s[i]).0.r()) <= trunc80((#[trigger] s[j]).0.r()) }
pub open spec fn base(s: Seq<FloatApprox<F>>) -> Seq<F> { Seq::new(s.len(), |i: int| s[i].0) }
pub trait VSort { spec fn cur(&self) -> Seq<FloatApprox<F>>; fn sort(&mut self) ensures base(final(self).cur()).to_multiset() == base(old(self).cur()).to_multiset(), final(self).cur().len() == old(self).cur().len(), in_order(final(self).cur()); }
// a stable sort by Ord::cmp
impl VSort for Vec<FloatApprox<F>> { open spec fn cur(&self) -> Seq<FloatApprox<F>> { self@ } #[verifier::external_body] fn sort(&mut self) { unimplemented!() } }
impl F {
    #[verifier::external_body] pub fn vmul(self, o: F) -> (q: F) ensures q.r() == self.r() * o.r() { unimplemented!() }
    #[verifier::external_body] pub fn vdiv(self, o: F) -> (q: F) requires o.r() != 0real ensures q.r() == self.r() / o.r() { unimplemented!() }
    #[verifier::external_body] pub fn to_isize(self) -> (q: Option<isize>) ensures -1000000real <= self.r() <= 1000000real ==> q is Some && q->0 as int == (if self.r() >= 0real { self.r().floor() } else { 0 - (0real - self.r()).floor() }) { unimplemented!() }
    #[verifier::external_body] pub fn to_usize(self) -> (q: Option<usize>) ensures 0real <= self.r() <= usize::MAX as real ==> q is Some && q->0 as int == self.r().floor() { unimplemented!() }
}
pub trait VToF { spec fn nat_of(&self) -> int; fn to_f32(&self) -> (r: Option<F>) ensures r is Some, r->0.r() == self.nat_of() as real; }
impl VToF for usize { open spec fn nat_of(&self) -> int { *self as int } #[verifier::external_body] fn to_f32(&self) -> (r: Option<F>) { unimplemented!() } }
#[verifier::external_body] pub fn vfrom(x: usize) -> (r: Option<F>) ensures r is Some, r->0.r() == x as real { unimplemented!() }
impl FloatApprox<F> {
//@extract src/utils/float_approx.rs :: impl FloatApprox :: approximate
//@ret r
//@spec
    requires tolerance == 8, -10000real <= self.0.r() <= 10000real,
    ensures r as int == trunc80(self.0.r()),
//@rename mul=vmul
//@subst A::from( ==> vfrom(
//@top
    proof { let x = self.0.r(); assert(10 * tolerance as int == 80); assert(-1000000real <= x * 80real <= 1000000real) by (nonlinear_arith) requires -10000real <= x <= 10000real; let k = 10 * tolerance as int; assert(k as real == 80real); }
//@end
}
#[derive(Clone, Copy)]
#[verifier::external_body] pub struct V1 { p: () }
impl V1 { pub uninterp spec fn view(&self) -> Seq<F>;
    #[verifier::external_body] pub fn sum(&self) -> (r: F) ensures r.r() == fsum(self@) { unimplemented!() }
    #[verifier::external_body] pub fn to_vec(&self) -> (r: Vec<F>) ensures r@ == self@ { unimplemented!() } }
pub open spec fn fsum(s: Seq<F>) -> real decreases s.len() { if s.len() == 0 { 0real } else { fsum(s.drop_last()) + s.last().r() } }
pub open spec fn col_of(a: Seq<Seq<F>>, c: int) -> Seq<F> { Seq::new(a.len(), |i: int| a[i][c]) }
impl A1 {
    #[verifier::external_body] pub fn vview(&self) -> (r: V1) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body] pub fn viter(&self) -> (r: It<&F>) ensures r.pos() == 0, r.all().len() == self@.len(), forall|i: int| 0 <= i < self@.len() ==> *(#[trigger] r.all()[i]) == self@[i] { unimplemented!() }
    // every entry is mapped
    #[verifier::external_body] pub fn mapv_inplace<G: Fn(F) -> F>(&mut self, f: G) requires forall|x: F| #[trigger] call_requires(f, (x,)) ensures final(self)@.len() == old(self)@.len(), forall|i: int| 0 <= i < old(self)@.len() ==> call_ensures(f, (old(self)@[i],), #[trigger] final(self)@[i]) { unimplemented!() }
}
impl A2 {
    #[verifier::external_body] pub fn vaxis_len(&self, a: Axis) -> (r: usize) ensures a.0 == 1 ==> r == self.cols() { unimplemented!() }
    #[verifier::external_body] pub fn axis_iter(&self, a: Axis) -> (q: It<V1>) requires a.0 == 0 ensures q.pos() == 0, q.all().len() == self@.len(), forall|i: int| 0 <= i < self@.len() ==> (#[trigger] q.all()[i])@ == self@[i] { unimplemented!() }
}
#[verifier::external_body] pub fn axis_mut(m: &mut A2, a: Axis, c: usize) -> (q: &mut A1) requires a.0 == 1, c < old(m).cols() ensures q@ == col_of(old(m)@, c as int), final(m)@.len() == old(m)@.len(), final(m).cols() == old(m).cols(), final(q)@.len() == q@.len() ==> forall|i: int, d: int| 0 <= i < final(m)@.len() && 0 <= d < final(m).cols() ==> #[trigger] final(m)@[i][d] == if d == c { final(q)@[i] } else { old(m)@[i][d] } { unimplemented!() }
#[verifier::external_body] pub fn vec_mut(v: &mut Vec<V1>, i: usize) -> (r: &mut V1) requires i < old(v)@.len() ensures *r == old(v)@[i as int], final(v)@ == old(v)@.update(i as int, *final(r)) { unimplemented!() }
pub open spec fn equal_len(s: Seq<V1>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i])@.len() == s[0]@.len() }
#[verifier::external_body] pub fn stack(a: Axis, s: &Vec<V1>) -> (r: Result<A2, ()>) requires a.0 == 0 ensures s@.len() > 0 && equal_len(s@) ==> r is Ok && r->Ok_0@.len() == s@.len() && r->Ok_0.cols() == s@[0]@.len() && forall|i: int| 0 <= i < s@.len() ==> #[trigger] r->Ok_0@[i] == s@[i]@ { unimplemented!() }
// ---- the rows of the file ----------------------------------------------------------------------------
// a window that contributes nothing takes the last contribution before it, if there is one
pub open spec fn lastnz(c: Seq<Seq<F>>, n: int) -> Option<Seq<F>> decreases n { if n <= 0 { None } else if fsum(c[n - 1]) == 0real { lastnz(c, n - 1) } else { Some(c[n - 1]) } }
pub open spec fn filled(c: Seq<Seq<F>>, i: int) -> Seq<F> { if lastnz(c, i + 1) is Some { lastnz(c, i + 1)->0 } else { c[i] } }
pub open spec fn fills(c: Seq<Seq<F>>) -> Seq<Seq<F>> { Seq::new(c.len(), |i: int| filled(c, i)) }
// the middle one of the values in order (values that agree to 1/80 may stand in any order)
pub open spec fn is_med(m: real, col: Seq<F>) -> bool { exists|q: Seq<FloatApprox<F>>| #[trigger] in_order(q) && q.len() == col.len() && base(q).to_multiset() == col.to_multiset() && m == q[(q.len() / 2) as int].0.r() }
pub open spec fn centered(x: Seq<Seq<F>>, y: Seq<Seq<F>>, d: int) -> bool { exists|m: real| #[trigger] is_med(m, col_of(x, d)) && forall|i: int| 0 <= i < x.len() ==> (#[trigger] y[i][d]).r() == x[i][d].r() - m }
// a row that sums to zero repeats the one before it
pub open spec fn out_row(y: Seq<Seq<F>>, i: int) -> Seq<F> decreases i { if i > 0 && fsum(y[i]) == 0real { out_row(y, i - 1) } else { y[i] } }
pub open spec fn file_of(c: Seq<Seq<F>>, dims: int, y: Seq<Seq<F>>) -> bool { y.len() == c.len() && (forall|i: int| 0 <= i < y.len() ==> (#[trigger] y[i]).len() == dims) && forall|d: int| 0 <= d < dims ==> #[trigger] centered(fills(c), y, d) }
pub open spec fn out_rows(y: Seq<Seq<F>>, n: int) -> Seq<Seq<F>> { Seq::new(n as nat, |i: int| out_row(y, i)) }
pub open spec fn views(s: Seq<A1>) -> Seq<Seq<F>> { Seq::new(s.len(), |i: int| s[i]@) }
pub open spec fn vviews(s: Seq<V1>) -> Seq<Seq<F>> { Seq::new(s.len(), |i: int| s[i]@) }
pub proof fn lastnz_mem(c: Seq<Seq<F>>, n: int) requires 0 <= n <= c.len() ensures lastnz(c, n) is Some ==> exists|i: int| 0 <= i < n && #[trigger] c[i] == lastnz(c, n)->0 decreases n { if n > 0 { if fsum(c[n - 1]) == 0real { lastnz_mem(c, n - 1); } else { assert(c[n - 1] == lastnz(c, n)->0); } } }
pub proof fn half(n: int) requires n >= 0 ensures ((n as real) / 2real).floor() == n / 2, 0real <= (n as real) / 2real <= n as real {
    let h = n / 2; let x = (n as real) / 2real; assert(x * 2real == n as real) by (nonlinear_arith) requires x == (n as real) / 2real; assert(2 * h <= n < 2 * h + 2);
}
pub struct Writer { pub rows: Ghost<Seq<Seq<F>>> }
#[verifier::external_body] pub fn vwriter() -> (r: Writer) ensures r.rows@ == Seq::<Seq<F>>::empty() { unimplemented!() }
impl Writer { #[verifier::external_body] pub fn serialize(&mut self, v: Vec<F>) -> (r: Result<(), ()>) ensures r is Ok, final(self).rows@ == old(self).rows@.push(v@) { unimplemented!() } }
pub enum Ev { Ask(Seq<NodeRef>), AskDone, Done, File(Seq<Seq<F>>) }
pub struct Log { pub evs: Ghost<Seq<Ev>> }
pub struct Context { }
pub struct Addr { }
impl Context { #[verifier::external_body] pub fn address(&self) -> Addr { unimplemented!() } }
pub struct Recipient { }
impl Addr { #[verifier::external_body] pub fn recipient(&self) -> Recipient { unimplemented!() } }
pub struct ScoringDone;
pub trait VMsg: Sized { spec fn ev(self) -> Ev; }
pub struct QueryClusterContribution { pub nodes: Vec<NodeRef> }
pub struct QueryClustercontributionDone { pub receiver: Recipient }
pub struct QueryClusterContributionResponse { pub contributions: Vec<A1> }
impl VMsg for QueryClusterContribution { open spec fn ev(self) -> Ev { Ev::Ask(self.nodes@) } }
impl VMsg for QueryClustercontributionDone { open spec fn ev(self) -> Ev { Ev::AskDone } }
impl VMsg for ScoringDone { open spec fn ev(self) -> Ev { Ev::Done } }
impl Addr { #[verifier::external_body] pub fn vsend<M: VMsg>(&self, log: &mut Log, m: M) ensures final(log).evs@ == old(log).evs@.push(m.ev()) { unimplemented!() } }
impl Log { #[verifier::external_body] pub fn vfile(&mut self, w: Writer) ensures final(self).evs@ == old(self).evs@.push(Ev::File(w.rows@)) { unimplemented!() } }
pub struct Parameters { pub query_length: usize }
pub struct DataStore { pub edges: Vec<Edge> }
impl DataStore { #[verifier::external_body] pub fn get_edges(&self) -> (r: Vec<Edge>) ensures r@ == self.edges@ { unimplemented!() } }
pub struct Scoring { pub edges_in_time: Vec<usize> }
pub struct Training { pub parameters: Parameters, pub data_store: DataStore, pub scoring: Scoring, pub anomaly_contribution: Option<Addr>, pub log: Log }
pub open spec fn froms(es: Seq<Edge>) -> Seq<NodeRef> { Seq::new(es.len(), |i: int| es[i].from_node) }
pub open spec fn up_to(a: int, n: int) -> int { if a < n { a } else { n } }
// the nodes at which the edges of window i start: those after the first point and up to the first edge after the last
pub open spec fn window(es: Seq<Edge>, et: Seq<usize>, q: int, i: int) -> Seq<NodeRef> { froms(es.subrange(et[i] as int, up_to(et[i + q - 1] + 1, es.len() as int))) }
pub open spec fn asked(es: Seq<Edge>, et: Seq<usize>, q: int, n: int) -> Seq<Ev> { Seq::new(n as nat, |i: int| Ev::Ask(window(es, et, q, i))) }
#[verifier::external_body] pub fn vslice(v: &Vec<Edge>, a: usize, b: usize) -> (r: It<&Edge>) requires a <= b <= v@.len() ensures r.pos() == 0, r.all().len() == b - a, forall|i: int| 0 <= i < b - a ==> *(#[trigger] r.all()[i]) == v@[a + i] { unimplemented!() }
impl Training {
//@extract src/training/scoring/mod.rs :: impl Scorer for Training :: build_anomaly_contribution_score
//@spec
    requires old(self).parameters.query_length >= 1, old(self).scoring.edges_in_time@.len() + 1 >= old(self).parameters.query_length, old(self).anomaly_contribution is Some, old(self).data_store.edges@.len() < usize::MAX,
        forall|i: int| 0 <= i < old(self).scoring.edges_in_time@.len() ==> (#[trigger] old(self).scoring.edges_in_time@[i]) <= old(self).data_store.edges@.len(),
        forall|i: int, j: int| 0 <= i <= j < old(self).scoring.edges_in_time@.len() ==> (#[trigger] old(self).scoring.edges_in_time@[i]) <= (#[trigger] old(self).scoring.edges_in_time@[j]),
    ensures final(self).log.evs@ == (old(self).log.evs@ + asked(old(self).data_store.edges@, old(self).scoring.edges_in_time@, old(self).parameters.query_length as int, old(self).scoring.edges_in_time@.len() - (old(self).parameters.query_length - 1))).push(Ev::AskDone),
//@subst &self, ctx: &mut Context<Training> ==> &mut self, ctx: &mut Context
//@drop ConsoleLogger
//@rename min=vmin
//@subst .expect("Should've been set by now") ==> .unwrap()
//@subst edges[from_edge_idx..to_edge_idx.vmin(edges.len())] .iter() ==> vslice(&edges, from_edge_idx, to_edge_idx.vmin(edges.len()))
//@subst .do_send( ==> .vsend(&mut self.log,
//@closure 0
    |e: &Edge| -> (o: NodeRef) ensures o == e.from_node
//@top
    let ghost es = self.data_store.edges@; let ghost et = self.scoring.edges_in_time@; let ghost q = self.parameters.query_length as int; let ghost lg0 = self.log.evs@; let _vlen = self.scoring.edges_in_time.len();
//@loop 0
        invariant es == edges@, et == self.scoring.edges_in_time@, q == self.parameters.query_length, q >= 1, vend_0 == et.len() - (q - 1), 0 <= vit_0 <= vend_0, self.log.evs@ == lg0 + asked(es, et, q, vit_0 as int), es.len() < usize::MAX, et.len() <= usize::MAX,
            self.anomaly_contribution is Some, *anomaly_contribution == self.anomaly_contribution->0,
            forall|i: int| 0 <= i < et.len() ==> (#[trigger] et[i]) <= es.len(), forall|i: int, j: int| 0 <= i <= j < et.len() ==> (#[trigger] et[i]) <= (#[trigger] et[j]),
        decreases vend_0 - vit_0,
//@loop 0 pre
        proof { assert(self.log.evs@ =~= lg0 + asked(es, et, q, 0)); }
//@loop 0 end
        proof { let k = vit_0 - 1; assert(asked(es, et, q, k + 1) =~= asked(es, et, q, k).push(Ev::Ask(window(es, et, q, k)))); assert(self.log.evs@ =~= lg0 + asked(es, et, q, k + 1)); }
//@subst anomaly_contribution.vsend(&mut self.log, QueryClusterContribution ==> proof { assert(nodes@ =~= window(es, et, q, i as int)); } anomaly_contribution.vsend(&mut self.log, QueryClusterContribution
//@end
//@extract src/training/scoring/mod.rs :: impl Handler<QueryClusterContributionResponse> for Training :: handle
//@floats
//@spec
    requires msg.contributions@.len() > 0, forall|i: int| 0 <= i < msg.contributions@.len() ==> (#[trigger] msg.contributions@[i])@.len() == msg.contributions@[0]@.len(),
        forall|i: int, d: int| 0 <= i < msg.contributions@.len() && 0 <= d < msg.contributions@[i]@.len() ==> -1real <= (#[trigger] msg.contributions@[i]@[d]).r() <= 1real,
    ensures exists|y: Seq<Seq<F>>| #[trigger] file_of(views(msg.contributions@), msg.contributions@[0]@.len() as int, y) && final(self).log.evs@ == old(self).log.evs@.push(Ev::File(out_rows(y, y.len() as int))).push(Ev::Done),
//@subst ctx: &mut Self::Context, ) -> Self::Result ==> ctx: &mut Context, )
//@subst let file = File::create(&self.parameters.anomaly_contribution_output_path).unwrap(); ==>  
//@rename iter=viter view=vview div=vdiv get=vget
//@subst WriterBuilder::new().has_headers(false).from_writer(file) ==> vwriter()
//@subst let mut last_contribution = None ==> let mut last_contribution: Option<V1> = None
//@subst let mut last = None ==> let mut last: Option<V1> = None
//@subst Vec<ArrayView1<F>> ==> Vec<V1>
//@subst contributions.as_slice() ==> &contributions
//@subst .collect::<Vec<FloatApprox<F>>>() ==> .collect()
//@subst ctx.address().do_send(ScoringDone) ==> { self.log.vfile(writer); ctx.address().vsend(&mut self.log, ScoringDone) }
//@top
    let ghost c = views(msg.contributions@); let ghost dims = msg.contributions@[0]@.len() as int; let ghost x = fills(c); let ghost mut prev: Seq<Seq<F>> = Seq::empty(); let ghost mut y: Seq<Seq<F>> = Seq::empty(); let ghost lg0 = self.log.evs@;
    proof { rl_one(0); rl_one(2); assert forall|i: int| 0 <= i < c.len() implies (#[trigger] c[i]).len() == dims by { assert(msg.contributions@[i]@.len() == dims); } }
//@loop 0
        invariant vend_0 == c.len(), contributions@.len() == c.len(), 0 <= vit_0 <= c.len(), rl(0, 1) == 0real,
            forall|j: int| 0 <= j < vit_0 ==> (#[trigger] contributions@[j])@ == filled(c, j), forall|j: int| vit_0 <= j < c.len() ==> (#[trigger] contributions@[j])@ == c[j],
            lastnz(c, vit_0 as int) is Some <==> last_contribution is Some, last_contribution is Some ==> last_contribution->0@ == lastnz(c, vit_0 as int)->0,
        decreases vend_0 - vit_0,
//@loop 0 after
        proof {
            assert forall|j: int| 0 <= j < c.len() implies (#[trigger] contributions@[j])@.len() == dims by { lastnz_mem(c, j + 1); assert(c[j].len() == dims); }
            assert forall|j: int| 0 <= j < c.len() implies (#[trigger] contributions@[j])@ == x[j] by { }
        }
//@loop 1 pre
        proof { prev = contributions_matrix@; a2_shape(contributions_matrix); assert forall|j: int| 0 <= j < c.len() implies #[trigger] contributions_matrix@[j] == x[j] by { assert(contributions@[j]@ == x[j]); } }
//@loop 1
        invariant vend_1 == dims, contributions_matrix.cols() == dims, contributions_matrix@.len() == c.len(), x.len() == c.len(), c.len() > 0, 0 <= vit_1 <= vend_1, prev == contributions_matrix@, rl(2, 1) == 2real,
            forall|d: int| 0 <= d < vit_1 ==> #[trigger] centered(x, prev, d), forall|i: int, d: int| 0 <= i < c.len() && vit_1 <= d < dims ==> #[trigger] prev[i][d] == x[i][d],
        decreases vend_1 - vit_1,
//@loop 1 end
        proof {
            let now = contributions_matrix@; let dd = vit_1 - 1; let col = col_of(x, dd); assert(col_of(prev, dd) =~= col); assert(base(s0) =~= col);
            assert(is_med(median.r(), col)) by { assert(in_order(sorted@)); }
            assert forall|i: int| 0 <= i < x.len() implies (#[trigger] now[i][dd]).r() == x[i][dd].r() - median.r() by { assert(prev[i][dd] == x[i][dd]); assert(col[i] == x[i][dd]); }
            assert(centered(x, now, dd));
            assert forall|d: int| 0 <= d < vit_1 implies #[trigger] centered(x, now, d) by { if d < dd { assert(centered(x, prev, d)); let m = choose|m: real| #[trigger] is_med(m, col_of(x, d)) && forall|i: int| 0 <= i < x.len() ==> (#[trigger] prev[i][d]).r() == x[i][d].r() - m; assert forall|i: int| 0 <= i < x.len() implies (#[trigger] now[i][d]).r() == x[i][d].r() - m by { assert(now[i][d] == prev[i][d]); } } }
            assert forall|i: int, d: int| 0 <= i < c.len() && vit_1 <= d < dims implies #[trigger] now[i][d] == x[i][d] by { assert(now[i][d] == prev[i][d]); }
            prev = now;
        }
//@subst sorted.sort(); ==> let ghost s0 = sorted@; sorted.sort();
//@subst let median = ==> proof { half(sorted@.len() as int); } let median =
//@loop 1 after
        proof { y = contributions_matrix@; a2_shape(contributions_matrix); assert(file_of(c, dims, y)); }
//@loop 2
        invariant vit_2.all().len() == y.len(), 0 <= vit_2.pos() <= y.len(), forall|i: int| 0 <= i < y.len() ==> (#[trigger] vit_2.all()[i])@ == y[i], writer.rows@ == out_rows(y, vit_2.pos()), rl(0, 1) == 0real,
            vit_2.pos() > 0 <==> last is Some, last is Some ==> last->0@ == out_row(y, vit_2.pos() - 1), self.log.evs@ == lg0,
        ensures vit_2.pos() == y.len(),
        decreases y.len() - vit_2.pos(),
//@loop 2 pre
        proof { assert(writer.rows@ =~= out_rows(y, 0)); }
//@loop 2 end
        proof { let k = vit_2.pos() - 1; assert(writer.rows@ =~= out_rows(y, k + 1)); }
//@closure 0
    |x: &A1| -> (o: V1) ensures o@ == x@
//@closure 1
    |x: &F| -> (o: FloatApprox<F>) ensures o.0 == *x
//@closure 2
    |x: F| -> (o: F) ensures o.r() == x.r() - median.r()
//@end
}
} // verus!
fn main() {}
