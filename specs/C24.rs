//! f32 is exact real arithmetic (rounding is not modelled; there is no NaN over the reals; the native replay runs the real f32).
//! every cluster of a segment has at least one intersection and one center (C22), and all centers have the same number of dimensions.
//@include base.rs
//@include coll.rs
//@include float.rs
//@include nd.rs
//@include nodes.rs
verus! {
//@struct src/utils/float_approx.rs :: FloatApprox
impl VKey for FloatApprox<F> { type K = real; open spec fn k(&self) -> real { self.0.r() } }
impl VKey for IndependentNode { type K = (usize, usize); open spec fn k(&self) -> (usize, usize) { (self.segment, self.cluster) } }
impl FloatApprox<F> { #[verifier::external_body] pub fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
pub trait VToF { spec fn nat_of(&self) -> int; fn to_f32(&self) -> (r: Option<F>) ensures r is Some, r->0.r() == self.nat_of() as real; }
impl VToF for usize { open spec fn nat_of(&self) -> int { *self as int } #[verifier::external_body] fn to_f32(&self) -> (r: Option<F>) { unimplemented!() } }
pub open spec fn fsum(s: Seq<F>) -> real decreases s.len() { if s.len() == 0 { 0real } else { fsum(s.drop_last()) + s.last().r() } }
impl It<F> { #[verifier::external_body] pub fn sum(self) -> (r: F) requires self.pos() == 0 ensures r.r() == fsum(self.all()) { unimplemented!() } }
pub open spec fn col_of(a: Seq<Seq<F>>, c: int) -> Seq<F> { Seq::new(a.len(), |i: int| a[i][c]) }
impl A1 {
    #[verifier::external_body] pub fn vget(&self, i: usize) -> (r: Option<&F>) ensures i < self@.len() ==> r is Some && *r->0 == self@[i as int], i >= self@.len() ==> r is None { unimplemented!() }
    #[verifier::external_body] pub fn viter(&self) -> (r: It<&F>) ensures r.pos() == 0, r.all().len() == self@.len(), forall|i: int| 0 <= i < self@.len() ==> *(#[trigger] r.all()[i]) == self@[i] { unimplemented!() }
    #[verifier::external_body] pub fn vown(&self) -> (r: A1) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body] pub fn vview(&self) -> (r: A1) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body] pub fn sum(&self) -> (r: F) ensures r.r() == fsum(self@) { unimplemented!() }
}
impl F { #[verifier::external_body] pub fn is_nan(&self) -> (r: bool) ensures !r { unimplemented!() } }
impl A2 {
    #[verifier::external_body] pub fn column(&self, c: usize) -> (r: A1) requires c < self.cols() ensures r@ == col_of(self@, c as int) { unimplemented!() }
    #[verifier::external_body] pub fn row(&self, i: usize) -> (r: A1) requires i < self@.len() ensures r@ == self@[i as int], r@.len() == self.cols() { unimplemented!() }
    #[verifier::external_body] pub fn vset_col(&mut self, c: usize, v: Vec<F>) requires c < old(self).cols(), v@.len() == old(self)@.len() ensures final(self)@.len() == old(self)@.len(), final(self).cols() == old(self).cols(), forall|i: int, d: int| 0 <= i < final(self)@.len() && 0 <= d < final(self).cols() ==> #[trigger] final(self)@[i][d] == if d == c { v@[i] } else { old(self)@[i][d] } { unimplemented!() }
}
// ---- how unusual a cluster is in a dimension ----------------------------------------------------------
pub open spec fn total(lc: Seq<usize>) -> int decreases lc.len() { if lc.len() == 0 { 0 } else { total(lc.drop_last()) + lc.last() } }
// intersections in the first n clusters whose center has coordinate v
pub open spec fn hits(col: Seq<F>, lc: Seq<usize>, v: real, n: int) -> int decreases n { if n <= 0 { 0 } else { hits(col, lc, v, n - 1) + if col[n - 1].r() == v { lc[n - 1] as int } else { 0 } } }
pub proof fn hits_bound(col: Seq<F>, lc: Seq<usize>, v: real, n: int) requires 0 <= n <= lc.len() ensures 0 <= hits(col, lc, v, n) <= total(lc.take(n)) <= total(lc) decreases n {
    if n > 0 { hits_bound(col, lc, v, n - 1); assert(lc.take(n).drop_last() =~= lc.take(n - 1)); } total_up(lc, n);
}
pub proof fn total_up(lc: Seq<usize>, n: int) requires 0 <= n <= lc.len() ensures 0 <= total(lc.take(n)) <= total(lc) decreases lc.len() - n {
    if n < lc.len() { total_up(lc, n + 1); assert(lc.take(n + 1).drop_last() =~= lc.take(n)); pos(lc.take(n)); } else { assert(lc.take(n) =~= lc); pos(lc); }
}
pub proof fn pos(lc: Seq<usize>) ensures total(lc) >= 0 decreases lc.len() { if lc.len() > 0 { pos(lc.drop_last()); } }
pub proof fn fsum_total(s: Seq<F>, lc: Seq<usize>) requires s.len() == lc.len(), forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).r() == lc[i] as real ensures fsum(s) == total(lc) as real decreases s.len() {
    if s.len() > 0 { let a = s.drop_last(); let b = lc.drop_last(); assert forall|i: int| 0 <= i < a.len() implies (#[trigger] a[i]).r() == b[i] as real by { assert(s[i].r() == lc[i] as real); } fsum_total(a, b); assert(s[s.len() - 1].r() == lc[s.len() - 1] as real); }
}
pub open spec fn uniq(r: Seq<Seq<F>>, cc: Seq<Seq<F>>, lc: Seq<usize>, dims: int) -> bool { r.len() == cc.len() && (forall|i: int| 0 <= i < r.len() ==> (#[trigger] r[i]).len() == dims) && forall|i: int, d: int| 0 <= i < r.len() && 0 <= d < dims ==> share(#[trigger] r[i][d], cc, lc, i, d) }
pub open spec fn share(x: F, cc: Seq<Seq<F>>, lc: Seq<usize>, i: int, d: int) -> bool { x.r() == 1real - (hits(col_of(cc, d), lc, cc[i][d].r(), cc.len() as int) as real) / (total(lc) as real) }
pub open spec fn counted(m: Map<real, usize>, col: Seq<F>, lc: Seq<usize>, n: int) -> bool { (forall|j: int| 0 <= j < n ==> #[trigger] m.contains_key(col[j].r())) && (forall|v: real| #[trigger] m.contains_key(v) ==> m[v] as int == hits(col, lc, v, n)) && (forall|v: real| !#[trigger] m.contains_key(v) ==> hits(col, lc, v, n) == 0) }
pub proof fn counted_step(m: Map<real, usize>, m2: Map<real, usize>, col: Seq<F>, lc: Seq<usize>, n: int)
    requires counted(m, col, lc, n), 0 <= n < lc.len(), n < col.len(), m2.contains_key(col[n].r()), m2 == m.insert(col[n].r(), m2[col[n].r()]), m2[col[n].r()] as int == lc[n] + if m.contains_key(col[n].r()) { m[col[n].r()] as int } else { 0 }
    ensures counted(m2, col, lc, n + 1)
{
    let w = col[n].r(); assert(hits(col, lc, w, n + 1) == hits(col, lc, w, n) + lc[n]);
    assert forall|v: real| #[trigger] m2.contains_key(v) implies m2[v] as int == hits(col, lc, v, n + 1) by { if v != w { assert(m.contains_key(v)); assert(hits(col, lc, v, n + 1) == hits(col, lc, v, n)); } }
    assert forall|v: real| !#[trigger] m2.contains_key(v) implies hits(col, lc, v, n + 1) == 0 by { assert(!m.contains_key(v)); assert(v != w); assert(hits(col, lc, v, n + 1) == hits(col, lc, v, n)); }
    assert forall|j: int| 0 <= j < n + 1 implies #[trigger] m2.contains_key(col[j].r()) by { if j < n { assert(m.contains_key(col[j].r())); } }
}
pub enum Ev { Answer(Seq<Seq<F>>) }
pub struct Log { pub evs: Ghost<Seq<Ev>> }
pub struct Context { }
pub struct Recipient { }
pub open spec fn views(s: Seq<A1>) -> Seq<Seq<F>> { Seq::new(s.len(), |i: int| s[i]@) }
impl Recipient { #[verifier::external_body] pub fn vsend(self, log: &mut Log, m: QueryClusterContributionResponse) ensures final(log).evs@ == old(log).evs@.push(Ev::Answer(views(m.contributions@))) { unimplemented!() } }
pub struct ClusterCenterMessage { pub cluster_centers: A2, pub nodes: Vec<NodeRef>, pub label_counts: Vec<usize> }
pub struct QueryClusterContribution { pub nodes: Vec<NodeRef> }
pub struct QueryClustercontributionDone { pub receiver: Recipient }
pub struct QueryClusterContributionResponse { pub contributions: Vec<A1> }
pub struct AnomalyContribution { pub node_contribution: HashMap<NodeRef, A1>, pub query_response: Option<Vec<A1>>, pub n_dims: Option<usize>, pub log: Log }
type NK = (usize, usize);
impl AnomalyContribution {
    pub open spec fn wf(self) -> bool { (self.n_dims is None ==> forall|k: NK| !#[trigger] self.node_contribution@.contains_key(k)) && (self.n_dims is Some ==> forall|k: NK| #[trigger] self.node_contribution@.contains_key(k) ==> self.node_contribution@[k]@.len() == self.n_dims->0) }
    pub open spec fn answers(self) -> Seq<Seq<F>> { if self.query_response is Some { views(self.query_response->0@) } else { Seq::empty() } }
}
// every node of the segment has the uniqueness of its cluster; the others keep theirs
pub open spec fn recorded(m: Map<NK, A1>, m0: Map<NK, A1>, nodes: Seq<NodeRef>, n: int, rows: Seq<Seq<F>>) -> bool {
    (forall|i: int| 0 <= i < n ==> m.contains_key((#[trigger] nodes[i]).k()) && m[nodes[i].k()]@ == rows[nodes[i].cluster as int])
    && (forall|k: NK| #[trigger] m0.contains_key(k) ==> m.contains_key(k)) && (forall|k: NK| #[trigger] m.contains_key(k) ==> (m0.contains_key(k) && m[k] == m0[k]) || exists|i: int| 0 <= i < n && #[trigger] nodes[i].k() == k) }
// the mean of the nodes' contributions, dimension by dimension
pub open spec fn dimsum(m: Map<NK, A1>, nodes: Seq<NodeRef>, d: int) -> real decreases nodes.len() { if nodes.len() == 0 { 0real } else { dimsum(m, nodes.drop_last(), d) + m[nodes.last().k()]@[d].r() } }
pub open spec fn is_mean(r: Seq<F>, m: Map<NK, A1>, nodes: Seq<NodeRef>, dims: int) -> bool { r.len() == dims && forall|d: int| 0 <= d < dims ==> (#[trigger] r[d]).r() == if nodes.len() == 0 { 0real } else { dimsum(m, nodes, d) / (nodes.len() as real) } }
// columns next to each other
pub struct Cols { pub v: Vec<A1> }
pub open spec fn equal_len(s: Seq<A1>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i])@.len() == s[0]@.len() }
pub open spec fn colsums(s: Seq<A1>, d: int) -> real decreases s.len() { if s.len() == 0 { 0real } else { colsums(s.drop_last(), d) + s.last()@[d].r() } }
#[verifier::external_body] pub fn stack(a: Axis, s: &Vec<A1>) -> (r: Result<Cols, ()>) requires a.0 == 1 ensures s@.len() > 0 && equal_len(s@) ==> r is Ok && r->Ok_0.v@ == s@ { unimplemented!() }
impl Cols { #[verifier::external_body] pub fn mean_axis(&self, a: Axis) -> (r: Option<A1>) requires a.0 == 1 ensures self.v@.len() > 0 ==> r is Some && r->0@.len() == self.v@[0]@.len() && forall|d: int| 0 <= d < r->0@.len() ==> (#[trigger] r->0@[d]).r() == colsums(self.v@, d) / (self.v@.len() as real) { unimplemented!() } }
impl It<A1> { #[verifier::external_body] pub fn filter<P: Fn(&A1) -> bool>(self, p: P) -> (r: It<A1>) requires self.pos() == 0, forall|i: int| 0 <= i < self.all().len() ==> call_requires(p, (&#[trigger] self.all()[i],)) ensures r.pos() == 0, (forall|i: int, b: bool| 0 <= i < self.all().len() && #[trigger] call_ensures(p, (&self.all()[i],), b) ==> b) ==> r.all() == self.all() { unimplemented!() } }
impl Zeros for A1 { type S = [usize; 1]; open spec fn zero(r: A1, s: [usize; 1]) -> bool { r@.len() == s@[0] && forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]).r() == 0real } #[verifier::external_body] fn vzeros(s: [usize; 1]) -> (r: A1) { unimplemented!() } }
pub fn vone(a: A1) -> (r: Vec<A1>) ensures r@ == seq![a] { let mut v = Vec::new(); v.push(a); proof { assert(v@ =~= seq![a]); } v }
pub proof fn sums_alike(m: Map<NK, A1>, nodes: Seq<NodeRef>, s: Seq<A1>, d: int) requires s.len() == nodes.len(), forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i])@ == m[nodes[i].k()]@ ensures colsums(s, d) == dimsum(m, nodes, d) decreases s.len() {
    if s.len() > 0 { let a = s.drop_last(); let b = nodes.drop_last(); assert forall|i: int| 0 <= i < a.len() implies (#[trigger] a[i])@ == m[b[i].k()]@ by { assert(s[i]@ == m[nodes[i].k()]@); } sums_alike(m, b, a, d); assert(s[s.len() - 1]@ == m[nodes[s.len() - 1].k()]@); }
}
impl AnomalyContribution {
//@extract src/training/anomaly_contribution/mod.rs :: impl AnomalyContribution :: calculate_dimension_uniqueness
//@floats
//@ret r
//@spec
    requires label_counts@.len() == cluster_centers@.len(), 0 < total(label_counts@) <= usize::MAX,
    ensures uniq(r@, cluster_centers@, label_counts@, cluster_centers.cols() as int), r.cols() == cluster_centers.cols(),
//@rename iter=viter get=vget
//@subst Array2<F> ==> A2
//@subst Array2::zeros([result_shape[0], result_shape[1]]) ==> A2::vzeros((result_shape[0], result_shape[1]))
//@subst if let Entry::Vacant(e) = counter.entry(dim_v.clone()) ==> if !counter.contains_key(&dim_v)
//@subst e.insert(*label_count) ==> counter.insert(dim_v.clone(), *label_count)
//@subst counter.vget ==> counter.get
//@subst result.slice_mut(s![.., d]).assign(&Array1::from(vector)) ==> { proof { vv = vector@; } result.vset_col(d, vector) }
//@subst HashMap::new() ==> HashMap::<FloatApprox<F>, usize>::new()
//@closure 0
    |x: &usize| -> (o: F) ensures o.r() == *x as real
//@closure 1
    |row: &F| -> (o: F) requires counter@.contains_key(row.r()), n_intersections.r() != 0real ensures o.r() == 1real - (counter@[row.r()] as real) / n_intersections.r()
//@top
    let ghost mut vv: Seq<F> = Seq::empty(); let ghost lc = label_counts@; let ghost cc = cluster_centers@; proof { rl_one(1); a2_shape(cluster_centers); assert forall|s: Seq<F>| s.len() == lc.len() && (forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).r() == lc[i] as real) implies #[trigger] fsum(s) == total(lc) as real by { fsum_total(s, lc); } }
//@loop 0
        invariant lc == label_counts@, cc == cluster_centers@, lc.len() == cc.len(), 0 < total(lc) <= usize::MAX, n_intersections.r() == total(lc) as real, rl(1, 1) == 1real,
            vend_0 == cluster_centers.cols(), 0 <= vit_0 <= vend_0, result@.len() == cc.len(), result.cols() == vend_0,
            forall|i: int, e: int| 0 <= i < cc.len() && 0 <= e < vit_0 ==> share(#[trigger] result@[i][e], cc, lc, i, e),
        decreases vend_0 - vit_0,
//@loop 0 top
        let ghost col = col_of(cc, d as int); let ghost r0 = result@;
//@loop 0 end
        proof {
            let dd = vit_0 - 1;
            assert forall|i: int, e: int| 0 <= i < cc.len() && 0 <= e < vit_0 implies share(#[trigger] result@[i][e], cc, lc, i, e) by { if e == dd { assert(col[i] == cc[i][dd]); assert(result@[i][e] == vv[i]); assert(counter@.contains_key(col[i].r())); assert(hits(col, lc, col[i].r(), cc.len() as int) == counter@[col[i].r()]); } else { assert(result@[i][e] == r0[i][e]); } }
        }
//@loop 1
            invariant lc == label_counts@, lc.len() == cc.len(), col == dim@, col.len() == cc.len(), total(lc) <= usize::MAX, vit_1.all().len() == lc.len(), 0 <= vit_1.pos() <= lc.len(),
                forall|j: int| 0 <= j < lc.len() ==> (#[trigger] vit_1.all()[j]).0 == j && *vit_1.all()[j].1 == lc[j], counted(counter@, col, lc, vit_1.pos()),
            ensures vit_1.pos() == lc.len(),
            decreases lc.len() - vit_1.pos(),
//@loop 1 top
            let ghost m0 = counter@; let ghost n = vit_1.pos() - 1; proof { hits_bound(col, lc, col[n].r(), n + 1); }
//@loop 1 end
            proof { counted_step(m0, counter@, col, lc, n); }
//@loop 1 after
            proof { assert(counted(counter@, col, lc, lc.len() as int)); }
//@tail
    proof { a2_shape(result); }
//@end
//@extract src/training/anomaly_contribution/mod.rs :: impl AnomalyContribution :: record_contributions
//@floats
//@spec
    requires old(self).wf(), label_counts@.len() == cluster_centers@.len(), 0 < total(label_counts@) <= usize::MAX, old(self).n_dims is Some ==> old(self).n_dims->0 == cluster_centers.cols(),
        forall|i: int| 0 <= i < nodes@.len() ==> (#[trigger] nodes@[i]).cluster < cluster_centers@.len(),
    ensures final(self).wf(), final(self).n_dims == Some(cluster_centers.cols() as usize), final(self).query_response == old(self).query_response, final(self).log == old(self).log,
        exists|rows: Seq<Seq<F>>| uniq(rows, cluster_centers@, label_counts@, cluster_centers.cols() as int) && #[trigger] recorded(final(self).node_contribution@, old(self).node_contribution@, nodes@, nodes@.len() as int, rows),
//@rename to_owned=vown
//@subst Array2<F> ==> A2
//@subst &self.n_dims ==> self.n_dims
//@top
    let ghost m0 = self.node_contribution@; let ghost ns = nodes@;
//@loop 0
        invariant vit_0.all() == ns, 0 <= vit_0.pos() <= ns.len(), recorded(self.node_contribution@, m0, ns, vit_0.pos(), dim_scores@), forall|i: int| 0 <= i < ns.len() ==> (#[trigger] ns[i]).cluster < dim_scores@.len(),
            self.wf(), self.n_dims == Some(dim_scores.cols() as usize), dim_scores.cols() <= usize::MAX, self.query_response == old(self).query_response, self.log == old(self).log,
        ensures vit_0.pos() == ns.len(),
        decreases ns.len() - vit_0.pos(),
//@loop 0 top
        let ghost m1 = self.node_contribution@; let ghost n = vit_0.pos() - 1;
//@loop 0 end
        proof {
            let m = self.node_contribution@; let kk = ns[n].k();
            assert forall|i: int| 0 <= i < n + 1 implies m.contains_key((#[trigger] ns[i]).k()) && m[ns[i].k()]@ == dim_scores@[ns[i].cluster as int] by { if ns[i].k() == kk { assert(ns[i].cluster == ns[n].cluster); } }
            assert forall|k: NK| #[trigger] m.contains_key(k) implies (m0.contains_key(k) && m[k] == m0[k]) || exists|i: int| 0 <= i < n + 1 && #[trigger] ns[i].k() == k by { if k == kk { assert(ns[n].k() == k); } else { assert(m1.contains_key(k)); } }
            assert(recorded(m, m0, ns, n + 1, dim_scores@));
        }
//@end
//@extract src/training/anomaly_contribution/mod.rs :: impl AnomalyContribution :: query_node_score
//@floats
//@spec
    requires old(self).wf(), forall|i: int| 0 <= i < nodes@.len() ==> old(self).node_contribution@.contains_key((#[trigger] nodes@[i]).k()),
    ensures final(self).node_contribution == old(self).node_contribution, final(self).n_dims == old(self).n_dims, final(self).log == old(self).log, final(self).wf(), final(self).query_response is Some,
        final(self).answers().len() == old(self).answers().len() + 1, final(self).answers().drop_last() == old(self).answers(),
        is_mean(final(self).answers().last(), old(self).node_contribution@, nodes@, if old(self).n_dims is Some { old(self).n_dims->0 as int } else { 0 }),
//@rename iter=viter view=vview is_empty=vis_empty into_iter=vinto_iter
//@subst Vec<ArrayView1<F>> ==> Vec<A1>
//@subst .expect("Node is not registered") ==> .unwrap()
//@subst Array1::zeros ==> A1::vzeros
//@subst contributions.as_slice() ==> &contributions
//@subst vec![contribution] ==> vone(contribution)
//@subst match &mut self.query_response ==> proof { if ns.len() > 0 { assert forall|d: int| 0 <= d < contribution@.len() implies (#[trigger] contribution@[d]).r() == dimsum(m, ns, d) / (ns.len() as real) by { sums_alike(m, ns, contributions@, d); } assert(m.contains_key(ns[0].k())); } assert(is_mean(contribution@, m, ns, if self.n_dims is Some { self.n_dims->0 as int } else { 0 })); } match &mut self.query_response
//@closure 0
    |node: &NodeRef| -> (o: A1) requires self.node_contribution@.contains_key(node.k()) ensures o@ == self.node_contribution@[node.k()]@
//@closure 1
    |x: &A1| -> (b: bool) ensures b
//@top
    let ghost ns = nodes@; let ghost m = self.node_contribution@; let ghost a0 = self.answers();
//@end
//@extract src/training/anomaly_contribution/mod.rs :: impl Handler<ClusterCenterMessage> for AnomalyContribution :: handle
//@subst _ctx: &mut Self::Context) -> Self::Result ==> _ctx: &mut Context)
//@subst fn handle( ==> fn handle_centers(
//@spec
    requires old(self).wf(), msg.label_counts@.len() == msg.cluster_centers@.len(), 0 < total(msg.label_counts@) <= usize::MAX, old(self).n_dims is Some ==> old(self).n_dims->0 == msg.cluster_centers.cols(),
        forall|i: int| 0 <= i < msg.nodes@.len() ==> (#[trigger] msg.nodes@[i]).cluster < msg.cluster_centers@.len(),
    ensures final(self).wf(), final(self).query_response == old(self).query_response, final(self).log == old(self).log,
        exists|rows: Seq<Seq<F>>| uniq(rows, msg.cluster_centers@, msg.label_counts@, msg.cluster_centers.cols() as int) && #[trigger] recorded(final(self).node_contribution@, old(self).node_contribution@, msg.nodes@, msg.nodes@.len() as int, rows),
//@end
//@extract src/training/anomaly_contribution/mod.rs :: impl Handler<QueryClusterContribution> for AnomalyContribution :: handle
//@subst _ctx: &mut Self::Context) -> Self::Result ==> _ctx: &mut Context)
//@subst fn handle( ==> fn handle_query(
//@spec
    requires old(self).wf(), forall|i: int| 0 <= i < msg.nodes@.len() ==> old(self).node_contribution@.contains_key((#[trigger] msg.nodes@[i]).k()),
    ensures final(self).node_contribution == old(self).node_contribution, final(self).log == old(self).log, final(self).wf(), final(self).query_response is Some,
        final(self).answers().len() == old(self).answers().len() + 1, final(self).answers().drop_last() == old(self).answers(),
        is_mean(final(self).answers().last(), old(self).node_contribution@, msg.nodes@, if old(self).n_dims is Some { old(self).n_dims->0 as int } else { 0 }),
//@end
//@extract src/training/anomaly_contribution/mod.rs :: impl Handler<QueryClustercontributionDone> for AnomalyContribution :: handle
//@subst _ctx: &mut Self::Context, ) -> Self::Result ==> _ctx: &mut Context, )
//@subst fn handle( ==> fn handle_done(
//@subst .do_send( ==> .vsend(&mut self.log,
//@spec
    requires old(self).query_response is Some,
    ensures final(self).query_response is None, final(self).log.evs@ == old(self).log.evs@.push(Ev::Answer(old(self).answers())), final(self).node_contribution == old(self).node_contribution,
//@end
}
} // verus!
fn main() {}
