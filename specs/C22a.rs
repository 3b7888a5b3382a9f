//! find_peak_values, assign_closest_peak_values and extract_labels_from_centers as proved in C22; ndarray's stack, slice, min and max are as documented; a message is handled once by the actor it was sent to.
//! an actor clusters one set of rows (it stops after its answer), with at least one row and one column; no NaN among the values.
//@include base.rs
//@include coll.rs
//@include float.rs
verus! {
pub enum Ev { Ask { column: A2 }, Answer { m: ClusteringResponse }, Poison }
} // verus!
//@include net.rs
//@include nd.rs
//@include kde.rs
verus! {
pub struct GaussianKDEMessage { pub column: A2 }
pub struct GaussianKDEResponse { pub kernel_estimate: A1 }
pub struct MultiKDEMessage { pub data: A2 }
pub struct ClusteringResponse { pub cluster_centers: A2, pub labels: Vec<usize> }
pub struct PoisonPill;
impl VMsg for GaussianKDEMessage { open spec fn ev(self, to: Option<usize>) -> Ev { Ev::Ask { column: self.column } } }
impl VMsg for ClusteringResponse { open spec fn ev(self, to: Option<usize>) -> Ev { Ev::Answer { m: self } } }
impl VMsg for PoisonPill { open spec fn ev(self, to: Option<usize>) -> Ev { Ev::Poison } }
impl Addr { pub fn recipient(self) -> (r: Self) ensures r == self { self } }
impl Context { #[verifier::external_body] pub fn stop(&mut self) { unimplemented!() } }
#[verifier::external_body] pub fn vtell<M: VMsg>(a: &Addr, log: &mut Log, m: M) ensures final(log).evs@ == old(log).evs@.push(m.ev(None)) { unimplemented!() }
pub struct KAddr { pub threads: usize, pub resolution: usize }
#[verifier::external_body] pub fn vktell<M: VMsg>(a: &Option<KAddr>, log: &mut Log, m: M) requires a is Some ensures final(log).evs@ == old(log).evs@.push(m.ev(None)) { unimplemented!() }
#[verifier::external_body] pub fn vstart(threads: usize, resolution: usize, to: Addr) -> (r: KAddr) ensures r.threads == threads, r.resolution == resolution { unimplemented!() }
// ---- the parts (C22)
pub struct MultiKDEBase { pub resolution: usize, pub peak_order: usize }
impl MultiKDEBase {
    #[verifier::external_body] pub fn find_peak_values(&self, kernel_estimate: A1, grid_min: F, grid_max: F) -> (r: Vec<F>) requires self.resolution > 1, kernel_estimate@.len() == self.resolution, self.peak_order <= self.resolution, self.peak_order < usize::MAX ensures peak_values(kernel_estimate@, self.peak_order as int, grid_min.r(), grid_max.r(), r@) { unimplemented!() }
    #[verifier::external_body] pub fn assign_closest_peak_values(&self, points: A2, peaks: Vec<F>) -> (r: A1) requires points.cols() == 1, peaks@.len() > 0 ensures assigned(points@, peaks@, r@) { unimplemented!() }
    #[verifier::external_body] pub fn extract_labels_from_centers(&self, cluster_centers: A2) -> (r: (Vec<usize>, A2)) requires 1 <= cluster_centers@.len() <= usize::MAX ensures labelled(cluster_centers@, r.0@, r.1@), r.1.cols() == cluster_centers.cols() { unimplemented!() }
//@extract src/training/node_estimation/multi_kde/mod.rs :: impl Default for MultiKDEBase :: default
//@ret r
//@spec
    ensures r.resolution == 250, r.peak_order == 1,
//@end
}
// column d
pub open spec fn col(a: Seq<Seq<F>>, d: int) -> Seq<Seq<F>> { Seq::new(a.len(), |i: int| seq![a[i][d]]) }
// the least and the greatest value of a column
pub open spec fn low(a: Seq<Seq<F>>) -> real decreases a.len() { if a.len() <= 1 { a[0][0].r() } else { let m = low(a.drop_last()); if a.last()[0].r() < m { a.last()[0].r() } else { m } } }
pub open spec fn high(a: Seq<Seq<F>>) -> real decreases a.len() { if a.len() <= 1 { a[0][0].r() } else { let m = high(a.drop_last()); if a.last()[0].r() > m { a.last()[0].r() } else { m } } }
impl A2 {
    #[verifier::external_body] pub fn min(&self) -> (r: Option<&F>) requires self@.len() >= 1, self.cols() == 1 ensures r is Some, (*r->0).r() == low(self@) { unimplemented!() }
    #[verifier::external_body] pub fn max(&self) -> (r: Option<&F>) requires self@.len() >= 1, self.cols() == 1 ensures r is Some, (*r->0).r() == high(self@) { unimplemented!() }
    #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self@.len() * self.cols() { unimplemented!() }
    #[verifier::external_body] pub fn vcol(&self, a: usize, b: usize) -> (r: A2) requires a + 1 == b, b <= self.cols() ensures r@ == col(self@, a as int), r.cols() == 1 { unimplemented!() }
    #[verifier::external_body] pub fn vown(&self) -> (r: A2) ensures r == *self { unimplemented!() }
}
impl A1 {
    #[verifier::external_body] pub fn vfrom(p: Vec<F>) -> (r: A1) ensures r@ == p@ { unimplemented!() }
    #[verifier::external_body] pub fn vown(&self) -> (r: A1) ensures r == *self { unimplemented!() }
}
#[verifier::external_body] pub fn vrepf(x: F, n: usize) -> (r: Vec<F>) ensures r@.len() == n, forall|i: int| 0 <= i < n ==> #[trigger] r@[i] == x { unimplemented!() }
// side by side: row i has the i-th value of each
pub open spec fn beside(cs: Seq<A1>, n: int) -> Seq<Seq<F>> { Seq::new(n as nat, |i: int| Seq::new(cs.len(), |d: int| cs[d]@[i])) }
pub trait VStack { fn vstack(self, a: Axis) -> (r: Option<A2>); }
#[verifier::external_body] pub fn vstack_cols(v: Vec<A1>, a: Axis) -> (r: Option<A2>) requires a.0 == 1, v@.len() >= 1, forall|i: int| 0 <= i < v@.len() ==> (#[trigger] v@[i])@.len() == v@[0]@.len() ensures r is Some, r->0@ == beside(v@, v@[0]@.len() as int), r->0.cols() == v@.len() { unimplemented!() }
pub trait PopClear<A> { spec fn pv(&self) -> Seq<A>; fn pop_clear(&mut self) -> (r: Vec<A>) ensures r@ == old(self).pv(), final(self).pv() == Seq::<A>::empty(); }
//@extract src/utils/pop_clear.rs :: impl PopClear<A> for Vec :: pop_clear
//@ret r
//@spec
    ensures r@ == old(me)@, final(me)@ == Seq::<A>::empty(),
//@subst fn pop_clear(&mut self) ==> fn pop_all<A>(me: &mut Vec<A>)
//@subst self.is_empty() ==> me.vis_empty()
//@subst self.pop() ==> me.pop()
//@loop 0
        invariant me@ + result@ =~= old(me)@,
        ensures me@.len() == 0,
        decreases me@.len(),
//@tail
        proof { assert(me@ =~= Seq::<A>::empty()); assert(result@ =~= old(me)@); }
//@end
impl<A> PopClear<A> for Vec<A> { open spec fn pv(&self) -> Seq<A> { self@ } fn pop_clear(&mut self) -> (r: Vec<A>) { pop_all(self) } }
pub struct MultiKDEActor { pub receiver: Addr, pub n_threads: usize, pub multi_kde_base: MultiKDEBase, pub data: Option<A2>, pub next_dim: usize, pub current_column: Option<A2>, pub cluster_centers: Vec<A1>, pub gaussian_kde: Option<KAddr>, pub log: Log }
// what the values of one column become: the closest peak of its estimate each, 0 where there is none
pub open spec fn dim_centers(column: Seq<Seq<F>>, e: Seq<F>, order: int, c: Seq<F>) -> bool { c.len() == column.len() && exists|p: Seq<F>| #[trigger] peak_values(e, order, low(column), high(column), p) && if p.len() > 0 { assigned(column, p, c) } else { forall|i: int| 0 <= i < c.len() ==> (#[trigger] c[i]).r() == 0real } }
// the centers found so far are those of the first columns, for the estimates received (in this order)
pub open spec fn found(a: Seq<Seq<F>>, es: Seq<Seq<F>>, order: int, cs: Seq<A1>) -> bool { cs.len() == es.len() && forall|d: int| 0 <= d < cs.len() ==> #[trigger] found_dim(a, es, order, cs, d) }
pub open spec fn found_dim(a: Seq<Seq<F>>, es: Seq<Seq<F>>, order: int, cs: Seq<A1>, d: int) -> bool { dim_centers(col(a, d), es[d], order, cs[d]@) }
impl MultiKDEActor {
    pub open spec fn rows(self) -> Seq<Seq<F>> { self.data->0@ }
    pub open spec fn wf(self) -> bool { self.data is Some && self.gaussian_kde is Some && 1 <= self.rows().len() <= usize::MAX && 1 <= self.data->0.cols() && self.next_dim <= self.data->0.cols() <= usize::MAX && self.multi_kde_base.resolution == 250 && self.multi_kde_base.peak_order == 1 && self.gaussian_kde->0.resolution == 250 && self.gaussian_kde->0.threads == self.n_threads }
    // waiting for the estimate of column next_dim - 1
    pub open spec fn waits(self, es: Seq<Seq<F>>) -> bool { self.wf() && 1 <= self.next_dim && self.current_column is Some && self.current_column->0@ == col(self.rows(), self.next_dim - 1) && self.current_column->0.cols() == 1 && es.len() == self.next_dim - 1 && found(self.rows(), es, 1, self.cluster_centers@) }
    // the next column is asked for, or, after the last one, everything is answered once
    pub open spec fn goes_on(self, f: Self, es: Seq<Seq<F>>) -> bool { f.data == self.data && if es.len() < self.data->0.cols() { f.waits(es) && f.log.evs@ == self.log.evs@.push(Ev::Ask { column: f.current_column->0 }) } else { exists|cs: Seq<A1>, m: ClusteringResponse| #[trigger] answered(self.rows(), es, cs, m) && f.log.evs@ == self.log.evs@.push(Ev::Answer { m }).push(Ev::Poison) } }
//@extract src/training/node_estimation/multi_kde/actors/mod.rs :: impl MultiKDEActor :: new
//@ret r
//@spec
    ensures r.n_threads == n_threads, r.data is None, r.next_dim == 0, r.cluster_centers@.len() == 0, r.multi_kde_base.resolution == 250, r.multi_kde_base.peak_order == 1,
//@subst receiver: Recipient<ClusteringResponse<f32>> ==> receiver: Addr
//@subst gaussian_kde: None, ==> gaussian_kde: None, log: Log { evs: Ghost(Seq::empty()) },
//@end
//@extract src/training/node_estimation/multi_kde/actors/mod.rs :: impl MultiKDEActor :: cluster_next_dim
//@spec
    requires old(self).wf(), old(self).cluster_centers@.len() == old(self).next_dim, forall|d: int| 0 <= d < old(self).next_dim ==> (#[trigger] old(self).cluster_centers@[d])@.len() == old(self).rows().len(),
    ensures forall|es: Seq<Seq<F>>| #[trigger] found(old(self).rows(), es, 1, old(self).cluster_centers@) ==> old(self).goes_on(*final(self), es),
//@subst ctx: &mut Context<Self> ==> ctx: &mut Context
//@subst let gkde = self.gaussian_kde.as_ref().unwrap(); ==>
//@subst gkde.do_send( ==> vktell(&self.gaussian_kde, &mut self.log,
//@subst self.gaussian_kde.as_ref().unwrap().do_send( ==> vktell(&self.gaussian_kde, &mut self.log,
//@subst self.receiver.do_send(ClusteringResponse { cluster_centers, labels, }); ==> let vm = ClusteringResponse { cluster_centers, labels, }; let ghost g = vm; vtell(&self.receiver, &mut self.log, vm);
//@subst self.receiver.do_send( ==> vtell(&self.receiver, &mut self.log,
//@subst ctx.stop(); ==> ctx.stop(); proof { assert forall|es: Seq<Seq<F>>| #[trigger] found(a0, es, 1, cs0) implies old(self).goes_on(*self, es) by { assert(answered(a0, es, cs0, g)); } }
//@top
    let ghost a0 = self.rows(); let ghost cs0 = self.cluster_centers@;
    proof { a2_shape(self.data->0); if cs0.len() > 0 { assert(cs0[0]@.len() == a0.len()); } }
//@subst .slice(s![.., self.next_dim..self.next_dim + 1]) ==> .vcol(self.next_dim, self.next_dim + 1)
//@subst cluster_centers_vec.stack(Axis(1)) ==> vstack_cols(cluster_centers_vec, Axis(1))
//@end
//@extract src/training/node_estimation/multi_kde/actors/mod.rs :: impl MultiKDEActor :: find_cluster_centers
//@spec
    requires old(self).wf(), kernel_estimate@.len() == 250, exists|es: Seq<Seq<F>>| #[trigger] old(self).waits(es),
    ensures forall|es: Seq<Seq<F>>| #[trigger] old(self).waits(es) ==> old(self).goes_on(*final(self), es.push(kernel_estimate@)),
//@floats
//@rename view=vown
//@subst kernel_estimate: Array1<F> ==> kernel_estimate: A1
//@subst ctx: &mut Context<Self> ==> ctx: &mut Context
//@subst self.cluster_centers.push(assigned_peak_values); ==> let ghost c = assigned_peak_values@; self.cluster_centers.push(assigned_peak_values); proof { assert(dim_centers(col(a0, d0), e0, 1, c)) by { assert(peak_values(e0, 1, low(col(a0, d0)), high(col(a0, d0)), pk)); } assert forall|es: Seq<Seq<F>>| #[trigger] old(self).waits(es) implies found(a0, es.push(e0), 1, self.cluster_centers@) by { assert forall|d: int| 0 <= d < self.cluster_centers@.len() implies #[trigger] found_dim(a0, es.push(e0), 1, self.cluster_centers@, d) by { if d < d0 { assert(found_dim(a0, es, 1, cs0, d)); } } } let es = choose|es: Seq<Seq<F>>| #[trigger] old(self).waits(es); assert forall|d: int| 0 <= d < self.next_dim implies (#[trigger] self.cluster_centers@[d])@.len() == a0.len() by { assert(found_dim(a0, es.push(e0), 1, self.cluster_centers@, d)); } } let ghost cs1 = self.cluster_centers@;
//@subst let assigned_peak_values = ==> let ghost pk = peaks@; let assigned_peak_values =
//@top
    let ghost a0 = self.rows(); let ghost cs0 = self.cluster_centers@; let ghost d0 = self.next_dim - 1; let ghost e0 = kernel_estimate@; proof { rl_one(0); }
//@subst Array1::from(vec![0.0; column.len()]) ==> A1::vfrom(vrepf(vfl(0, 1), column.len()))
//@last
        proof { assert forall|es: Seq<Seq<F>>| #[trigger] old(self).waits(es) implies old(self).goes_on(*self, es.push(e0)) by { assert(found(a0, es.push(e0), 1, cs1)); } }
//@end
//@extract src/training/node_estimation/multi_kde/actors/mod.rs :: impl Handler<MultiKDEMessage> for MultiKDEActor :: handle
//@spec
    requires old(self).data is None, old(self).next_dim == 0, old(self).cluster_centers@.len() == 0, old(self).multi_kde_base.resolution == 250, old(self).multi_kde_base.peak_order == 1, 1 <= msg.data@.len() <= usize::MAX, 1 <= msg.data.cols() <= usize::MAX,
    ensures final(self).data == Some(msg.data), final(self).waits(Seq::empty()), final(self).log.evs@ == old(self).log.evs@.push(Ev::Ask { column: final(self).current_column->0 }),
//@subst fn handle( ==> fn handle_rows(
//@subst ctx: &mut Self::Context) -> Self::Result ==> ctx: &mut Context)
//@subst GaussianKDEActor::new(self.n_threads, 250, ctx.address().recipient()).start() ==> vstart(self.n_threads, 250, ctx.address().recipient())
//@subst self.cluster_next_dim(ctx); ==> proof { assert(found(self.rows(), Seq::empty(), 1, self.cluster_centers@)); } self.cluster_next_dim(ctx);
//@end
//@extract src/training/node_estimation/multi_kde/actors/mod.rs :: impl Handler<GaussianKDEResponse> for MultiKDEActor :: handle
//@spec
    requires msg.kernel_estimate@.len() == 250, exists|es: Seq<Seq<F>>| #[trigger] old(self).waits(es),
    ensures forall|es: Seq<Seq<F>>| #[trigger] old(self).waits(es) ==> old(self).goes_on(*final(self), es.push(msg.kernel_estimate@)),
//@subst fn handle( ==> fn handle_estimate(
//@subst ctx: &mut Self::Context) -> Self::Result ==> ctx: &mut Context)
//@end
}
pub open spec fn answered(a: Seq<Seq<F>>, es: Seq<Seq<F>>, cs: Seq<A1>, m: ClusteringResponse) -> bool { found(a, es, 1, cs) && labelled(beside(cs, a.len() as int), m.labels@, m.cluster_centers@) && m.cluster_centers.cols() == es.len() }
} // verus!
fn main() {}
