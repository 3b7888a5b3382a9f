//! Minimum and maximum of every column. f32 values are finite reals.
//! A message from another node carries the interface it came by, one from the node itself none (actix-telepathy).
//@include base.rs
//@include coll.rs
//@include float.rs
//@include nd.rs
verus! {
pub enum Ev { MinMaxNode { to: Option<usize>, min: A1, max: A1 }, MinMaxDone { to: Option<usize>, min: A1, max: A1 } }
} // verus!
//@include net.rs
verus! {
// ---- minima and maxima of the columns ----
impl F {
    // the largest and the smallest finite number
    #[verifier::external_body] pub fn max_value() -> (r: F) ensures forall|x: F| #[trigger] x.r() <= r.r() { unimplemented!() }
    #[verifier::external_body] pub fn min_value() -> (r: F) ensures forall|x: F| #[trigger] x.r() >= r.r() { unimplemented!() }
}
#[verifier::external_body] pub fn vec_mut(v: &mut A1, i: usize) -> (r: &mut F) requires i < old(v)@.len() ensures *r == old(v)@[i as int], final(v)@ == old(v)@.update(i as int, *final(r)) { unimplemented!() }
impl Axis { pub fn index(&self) -> (r: usize) ensures r == self.0 { self.0 } }
impl A1 {
    #[verifier::external_body] pub fn zeros(n: usize) -> (r: A1) ensures r@.len() == n { unimplemented!() }
    #[verifier::external_body] pub fn viter(&self) -> (r: It<&F>) ensures r.pos() == 0, r.all().len() == self@.len(), forall|i: int| 0 <= i < self@.len() ==> *(#[trigger] r.all()[i]) == self@[i] { unimplemented!() }
    #[verifier::external_body] pub fn from_vec(v: Vec<F>) -> (r: A1) ensures r@ == v@ { unimplemented!() }
}
impl A2 {
    #[verifier::external_body] pub fn ndim(&self) -> (r: usize) ensures r == 2 { unimplemented!() }
    #[verifier::external_body] pub fn nrows(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body] pub fn ncols(&self) -> (r: usize) ensures r == self.cols() { unimplemented!() }
    #[verifier::external_body] pub fn len_of(&self, a: Axis) -> (r: usize) { unimplemented!() }
    #[verifier::external_body] pub fn index_axis(&self, a: Axis, i: usize) -> (q: &A1) requires a.0 == 1, i < self.cols() ensures q@.len() == self@.len(), forall|k: int| 0 <= k < self@.len() ==> #[trigger] q@[k] == self@[k][i as int] { unimplemented!() }
}
pub open spec fn column_min(d: Seq<Seq<F>>, c: int, m: real) -> bool { (forall|i: int| 0 <= i < d.len() ==> m <= (#[trigger] d[i])[c].r()) && exists|i: int| 0 <= i < d.len() && m == (#[trigger] d[i])[c].r() }
pub open spec fn column_max(d: Seq<Seq<F>>, c: int, m: real) -> bool { (forall|i: int| 0 <= i < d.len() ==> m >= (#[trigger] d[i])[c].r()) && exists|i: int| 0 <= i < d.len() && m == (#[trigger] d[i])[c].r() }
pub open spec fn min_of(m: Seq<F>, d: A2) -> bool { m.len() == d.cols() && forall|c: int| 0 <= c < m.len() ==> column_min(d@, c, (#[trigger] m[c]).r()) }
pub open spec fn max_of(m: Seq<F>, d: A2) -> bool { m.len() == d.cols() && forall|c: int| 0 <= c < m.len() ==> column_max(d@, c, (#[trigger] m[c]).r()) }
impl A2 {
//@extract src/utils/ndarray_extensions/mod.rs :: impl Stats<A> for ArcArray2 :: min_axis
//@ret r
//@spec
    requires axis.0 == 0, self@.len() > 0,
    ensures min_of(r@, *self),
//@subst Array1<A> ==> A1
//@subst let _n = self.len_of(axis); ==> 
//@subst Array::zeros(self.raw_dim().remove_axis(axis)) ==> A1::zeros(self.ncols())
//@subst A::max_value() ==> F::max_value()
//@rename iter=viter
//@loop 0
            invariant axis.0 == 0, ax == 0, self@.len() > 0, 0 <= vit_0 <= vend_0, vend_0 == res@.len(), res@.len() == self.cols(), forall|c: int| 0 <= c < vit_0 ==> column_min(self@, c, (#[trigger] res@[c]).r()),
            decreases vend_0 - vit_0,
//@loop 0 top

//@loop 1
                    invariant 0 <= vit_1.pos() <= vit_1.all().len(), vit_1.all().len() == self@.len(), forall|k: int| 0 <= k < vit_1.all().len() ==> *(#[trigger] vit_1.all()[k]) == self@[k][i as int],
                        forall|k: int| 0 <= k < vit_1.pos() ==> smallest.r() <= (#[trigger] self@[k])[i as int].r(), vit_1.pos() == 0 ==> forall|x: F| #[trigger] x.r() <= smallest.r(), vit_1.pos() > 0 ==> exists|k: int| 0 <= k < vit_1.pos() && smallest.r() == (#[trigger] self@[k])[i as int].r(),
                    ensures vit_1.pos() == vit_1.all().len(),
                    decreases vit_1.all().len() - vit_1.pos(),
//@loop 1 top
                    let ghost s0 = smallest; let ghost p = vit_1.pos() - 1; proof { assert(*v == self@[p][i as int]); }
//@loop 1 end
                    proof { if smallest.r() == self@[p][i as int].r() { } else if p > 0 { let k = choose|k: int| 0 <= k < p && s0.r() == (#[trigger] self@[k])[i as int].r(); assert(smallest.r() == self@[k][i as int].r()); } else { assert(v.r() <= s0.r()); } assert forall|k: int| 0 <= k < p + 1 implies smallest.r() <= (#[trigger] self@[k])[i as int].r() by { if k == p { assert(v.r() == self@[p][i as int].r()); } } }
//@end
//@extract src/utils/ndarray_extensions/mod.rs :: impl Stats<A> for ArcArray2 :: max_axis
//@ret r
//@spec
    requires axis.0 == 0, self@.len() > 0,
    ensures max_of(r@, *self),
//@subst Array1<A> ==> A1
//@subst Array::zeros(self.raw_dim().remove_axis(axis)) ==> A1::zeros(self.ncols())
//@subst A::min_value() ==> F::min_value()
//@rename iter=viter
//@loop 0
            invariant axis.0 == 0, ax == 0, self@.len() > 0, 0 <= vit_0 <= vend_0, vend_0 == res@.len(), res@.len() == self.cols(), forall|c: int| 0 <= c < vit_0 ==> column_max(self@, c, (#[trigger] res@[c]).r()),
            decreases vend_0 - vit_0,
//@loop 1
                    invariant 0 <= vit_1.pos() <= vit_1.all().len(), vit_1.all().len() == self@.len(), forall|k: int| 0 <= k < vit_1.all().len() ==> *(#[trigger] vit_1.all()[k]) == self@[k][i as int],
                        forall|k: int| 0 <= k < vit_1.pos() ==> largest.r() >= (#[trigger] self@[k])[i as int].r(), vit_1.pos() == 0 ==> forall|x: F| #[trigger] x.r() >= largest.r(), vit_1.pos() > 0 ==> exists|k: int| 0 <= k < vit_1.pos() && largest.r() == (#[trigger] self@[k])[i as int].r(),
                    ensures vit_1.pos() == vit_1.all().len(),
                    decreases vit_1.all().len() - vit_1.pos(),
//@loop 1 top
                    let ghost s0 = largest; let ghost p = vit_1.pos() - 1; proof { assert(*v == self@[p][i as int]); }
//@loop 1 end
                    proof { if largest.r() == self@[p][i as int].r() { } else if p > 0 { let k = choose|k: int| 0 <= k < p && s0.r() == (#[trigger] self@[k])[i as int].r(); assert(largest.r() == self@[k][i as int].r()); } else { assert(v.r() >= s0.r()); } assert forall|k: int| 0 <= k < p + 1 implies largest.r() >= (#[trigger] self@[k])[i as int].r() by { if k == p { assert(v.r() == self@[p][i as int].r()); } } }
//@end
}
} // verus!
//@include stats.rs
verus! {
pub struct Parameters { pub n_cluster_nodes: usize, pub pattern_length: usize, pub local_host: usize }
pub struct MinMaxCalculation { pub nodes: Vec<Source>, pub min: Option<A1>, pub max: Option<A1> }
pub struct MinMaxNodeMessage { pub min: A1, pub max: A1, pub source: Source }
pub struct MinMaxDoneMessage { pub min: A1, pub max: A1 }
impl VMsg for MinMaxNodeMessage { open spec fn ev(self, to: Option<usize>) -> Ev { Ev::MinMaxNode { to, min: self.min, max: self.max } } }
impl VMsg for MinMaxDoneMessage { open spec fn ev(self, to: Option<usize>) -> Ev { Ev::MinMaxDone { to, min: self.min, max: self.max } } }
pub struct DataManager { pub data: Option<A2>, pub cluster_nodes: ClusterNodes, pub parameters: Parameters, pub minmax_calculation: Option<MinMaxCalculation>, pub log: Log }
pub open spec fn ok(d: DataManager) -> bool { d.cluster_nodes.wf() && d.cluster_nodes.n == d.parameters.n_cluster_nodes && 1 <= d.parameters.pattern_length <= 0x1000_0000 }
pub open spec fn to_main(c: ClusterNodes) -> Option<usize> { if c.own == 0 { None } else { Some(0usize) } }
// ---- what the main node knows after the messages h, in any order ----
pub open spec fn least(m: Seq<F>, h: Seq<MinMaxNodeMessage>, k: int) -> bool { (forall|i: int| 0 <= i < h.len() ==> m[k].r() <= (#[trigger] h[i]).min@[k].r()) && exists|i: int| 0 <= i < h.len() && m[k].r() == (#[trigger] h[i]).min@[k].r() }
pub open spec fn most(m: Seq<F>, h: Seq<MinMaxNodeMessage>, k: int) -> bool { (forall|i: int| 0 <= i < h.len() ==> m[k].r() >= (#[trigger] h[i]).max@[k].r()) && exists|i: int| 0 <= i < h.len() && m[k].r() == (#[trigger] h[i]).max@[k].r() }
pub open spec fn same_sources(v: Seq<Source>, h: Seq<MinMaxNodeMessage>) -> bool { v.len() == h.len() && forall|i: int| 0 <= i < v.len() ==> #[trigger] v[i] == h[i].source }
pub open spec fn minv(c: MinMaxCalculation, h: Seq<MinMaxNodeMessage>, d: int) -> bool {
    &&& same_sources(c.nodes@, h) && forall|i: int| 0 <= i < h.len() ==> (#[trigger] h[i]).min@.len() == d && h[i].max@.len() == d
    &&& h.len() == 0 ==> c.min is None && c.max is None
    &&& h.len() > 0 ==> c.min is Some && c.max is Some && c.min->0@.len() == d && c.max->0@.len() == d && (forall|k: int| 0 <= k < d ==> #[trigger] least(c.min->0@, h, k)) && (forall|k: int| 0 <= k < d ==> #[trigger] most(c.max->0@, h, k))
}
pub proof fn minv_step(c0: MinMaxCalculation, c1: MinMaxCalculation, h: Seq<MinMaxNodeMessage>, m: MinMaxNodeMessage, d: int)
    requires minv(c0, h, d), m.min@.len() == d, m.max@.len() == d, c1.nodes@ == c0.nodes@.push(m.source), c1.min is Some, c1.max is Some, c1.min->0@.len() == d, c1.max->0@.len() == d,
        c0.min is None ==> c1.min == Some(m.min) && c1.max == Some(m.max),
        c0.min is Some ==> forall|k: int| 0 <= k < d ==> (#[trigger] c1.min->0@[k]).r() == (if m.min@[k].r() < c0.min->0@[k].r() { m.min@[k].r() } else { c0.min->0@[k].r() }),
        c0.min is Some ==> forall|k: int| 0 <= k < d ==> (#[trigger] c1.max->0@[k]).r() == (if m.max@[k].r() < c0.max->0@[k].r() { c0.max->0@[k].r() } else { m.max@[k].r() }),
    ensures minv(c1, h.push(m), d)
{
    let g = h.push(m); let n = h.len() as int; assert(g[n] == m); assert forall|i: int| 0 <= i < n implies #[trigger] g[i] == h[i] by { }
    assert forall|k: int| 0 <= k < d implies #[trigger] least(c1.min->0@, g, k) by {
        let v = c1.min->0@;
        if n == 0 { assert(v[k].r() == g[0].min@[k].r()); } else {
            assert(least(c0.min->0@, h, k)); let w = choose|i: int| 0 <= i < h.len() && c0.min->0@[k].r() == (#[trigger] h[i]).min@[k].r();
            assert(g[w] == h[w]); if v[k].r() == m.min@[k].r() { assert(v[k].r() == g[n].min@[k].r()); } else { assert(v[k].r() == g[w].min@[k].r()); }
            assert forall|i: int| 0 <= i < g.len() implies v[k].r() <= (#[trigger] g[i]).min@[k].r() by { if i < n { assert(g[i] == h[i]); } }
        }
    }
    assert forall|k: int| 0 <= k < d implies #[trigger] most(c1.max->0@, g, k) by {
        let v = c1.max->0@;
        if n == 0 { assert(v[k].r() == g[0].max@[k].r()); } else {
            assert(most(c0.max->0@, h, k)); let w = choose|i: int| 0 <= i < h.len() && c0.max->0@[k].r() == (#[trigger] h[i]).max@[k].r();
            assert(g[w] == h[w]); if v[k].r() == m.max@[k].r() { assert(v[k].r() == g[n].max@[k].r()); } else { assert(v[k].r() == g[w].max@[k].r()); }
            assert forall|i: int| 0 <= i < g.len() implies v[k].r() >= (#[trigger] g[i]).max@[k].r() by { if i < n { assert(g[i] == h[i]); } }
        }
    }
}
// the least of the nodes' minima is the minimum of all their rows, likewise the maximum
pub open spec fn all_rows(p: Seq<A2>) -> Seq<Seq<F>> decreases p.len() { if p.len() == 0 { Seq::empty() } else { all_rows(p.drop_last()) + p.last()@ } }
pub proof fn extremes_of_all(m: Seq<F>, x: Seq<F>, h: Seq<MinMaxNodeMessage>, p: Seq<A2>, k: int)
    requires h.len() == p.len(), h.len() > 0, forall|i: int| 0 <= i < h.len() ==> min_of((#[trigger] h[i]).min@, p[i]) && max_of(h[i].max@, p[i]) && k < p[i].cols(), 0 <= k, least(m, h, k), most(x, h, k),
    ensures column_min(all_rows(p), k, m[k].r()), column_max(all_rows(p), k, x[k].r())
{
    let a = all_rows(p);
    assert forall|i: int| 0 <= i < a.len() implies m[k].r() <= (#[trigger] a[i])[k].r() && a[i][k].r() <= x[k].r() by { let (q, j) = in_all(p, i); assert(column_min(p[q]@, k, h[q].min@[k].r())); assert(column_max(p[q]@, k, h[q].max@[k].r())); assert(p[q]@[j] == a[i]); }
    let w = choose|i: int| 0 <= i < h.len() && m[k].r() == (#[trigger] h[i]).min@[k].r(); assert(column_min(p[w]@, k, h[w].min@[k].r())); let y = choose|i: int| 0 <= i < p[w]@.len() && h[w].min@[k].r() == (#[trigger] p[w]@[i])[k].r(); let g = of_all(p, w, y); assert(a[g] == p[w]@[y]); assert(m[k].r() == a[g][k].r());
    let w = choose|i: int| 0 <= i < h.len() && x[k].r() == (#[trigger] h[i]).max@[k].r(); assert(column_max(p[w]@, k, h[w].max@[k].r())); let y = choose|i: int| 0 <= i < p[w]@.len() && h[w].max@[k].r() == (#[trigger] p[w]@[i])[k].r(); let g = of_all(p, w, y); assert(a[g] == p[w]@[y]); assert(x[k].r() == a[g][k].r());
}
proof fn in_all(p: Seq<A2>, i: int) -> (r: (int, int)) requires 0 <= i < all_rows(p).len() ensures 0 <= r.0 < p.len(), 0 <= r.1 < p[r.0]@.len(), all_rows(p)[i] == p[r.0]@[r.1] decreases p.len()
{ let l = all_rows(p.drop_last()); if i < l.len() { in_all(p.drop_last(), i) } else { (p.len() - 1, i - l.len()) } }
proof fn of_all(p: Seq<A2>, q: int, j: int) -> (r: int) requires 0 <= q < p.len(), 0 <= j < p[q]@.len() ensures 0 <= r < all_rows(p).len(), all_rows(p)[r] == p[q]@[j] decreases p.len()
{ let l = all_rows(p.drop_last()); if q == p.len() - 1 { l.len() + j } else { of_all(p.drop_last(), q, j) } }
// one result to each node that sent something
pub open spec fn mm_dones(v: Seq<Source>, min: A1, max: A1, k: int) -> Seq<Ev> { Seq::new(k as nat, |i: int| Ev::MinMaxDone { to: from(v[i]), min, max }) }
impl DataManager {
//@extract src/data_manager/stats_collector/minmax.rs :: impl MinMaxCalculator for DataManager :: set_intermediate_minmax
//@spec
    requires old(self).minmax_calculation is Some,
    ensures *final(self) == (DataManager { minmax_calculation: Some(MinMaxCalculation { nodes: old(self).minmax_calculation->0.nodes, min: Some(min), max: Some(max) }), ..*old(self) }),
//@subst Array1<f32> ==> A1
//@end
//@extract src/data_manager/stats_collector/minmax.rs :: impl MinMaxCalculator for DataManager :: calculate_minmax
//@spec
    requires ok(*old(self)), old(self).data is Some, old(self).data->0@.len() > 0,
    // the columns' extremes of the node's rows go to the main node once
    ensures *final(self) == (DataManager { log: final(self).log, ..*old(self) }), final(self).log.evs@.len() == old(self).log.evs@.len() + 1, final(self).log.evs@.drop_last() == old(self).log.evs@,
        ({ let e = final(self).log.evs@.last(); e is MinMaxNode && e->MinMaxNode_to == to_main(old(self).cluster_nodes) && min_of(e->MinMaxNode_min@, old(self).data->0) && max_of(e->MinMaxNode_max@, old(self).data->0) }),
//@subst addr: Addr<Self> ==> addr: Addr
//@subst "DataManager".to_string() ==> ()
//@subst "DataManager" ==> ()
//@subst RemoteAddr::new_from_id ==> Source::new_from_id
//@subst main.do_send( ==> main.vsend(&mut self.log, 
//@tail
    proof { assert(self.log.evs@.drop_last() =~= old(self).log.evs@); }
//@end
//@extract src/data_manager/stats_collector/minmax.rs :: impl Handler<MinMaxNodeMessage> for DataManager :: handle
//@spec
    requires ok(*old(self)), old(self).minmax_calculation is Some, exists|h: Seq<MinMaxNodeMessage>| minv(old(self).minmax_calculation->0, h, msg.min@.len() as int) && h.len() < old(self).parameters.n_cluster_nodes, msg.min@.len() == msg.max@.len(),
    ensures final(self).minmax_calculation is Some, *final(self) == (DataManager { log: final(self).log, minmax_calculation: final(self).minmax_calculation, ..*old(self) }),
        forall|h: Seq<MinMaxNodeMessage>| #[trigger] minv(old(self).minmax_calculation->0, h, msg.min@.len() as int) ==> minv(final(self).minmax_calculation->0, h.push(msg), msg.min@.len() as int),
        // with the last node's message, and only then, every node is told the extremes of all
        final(self).log.evs@ == old(self).log.evs@ + (if old(self).minmax_calculation->0.nodes@.len() + 1 == old(self).parameters.n_cluster_nodes { let c = final(self).minmax_calculation->0; mm_dones(c.nodes@, c.min->0, c.max->0, c.nodes@.len() as int) } else { Seq::empty() }),
//@subst ctx: &mut Self::Context) -> Self::Result ==> ctx: &mut Context)
//@floats
//@subst Array1<F> ==> A1
//@rename iter=viter
//@subst let new_min: A1 = msg.min ==> let vmin: Vec<F> = msg.min
//@subst let new_max: A1 = msg.max ==> let vmax: Vec<F> = msg.max
//@subst minmax_calculation.min = Some(new_min) ==> minmax_calculation.min = Some(A1::from_vec(vmin))
//@subst minmax_calculation.max = Some(new_max) ==> minmax_calculation.max = Some(A1::from_vec(vmax))
//@subst sent.min(*local) ==> x.0.min(*x.1)
//@subst sent.max(*local) ==> x.0.max(*x.1)
//@closure 0
|x: (&F, &F)| -> (q: F) ensures q.r() == if x.0.r() < x.1.r() { x.0.r() } else { x.1.r() }
//@closure 1
|x: (&F, &F)| -> (q: F) ensures q.r() == if x.0.r() < x.1.r() { x.1.r() } else { x.0.r() }
//@subst AnyAddr::Remote( ==> Back::Remote(
//@subst AnyAddr::Local( ==> Back::Local(
//@subst receiving_node.do_send( ==> receiving_node.vsend(&mut self.log, 
//@top
    let ghost d = msg.min@.len() as int; let ghost gm = msg; let ghost c0 = self.minmax_calculation->0; let ghost e0 = self.log.evs@;
//@loop 0 pre
            let ghost c1 = self.minmax_calculation->0;
//@loop 0
                invariant 0 <= vit_0.pos() <= vit_0.all().len(), vit_0.all().len() == c1.nodes@.len(), forall|i: int| 0 <= i < c1.nodes@.len() ==> *(#[trigger] vit_0.all()[i]) == c1.nodes@[i], self.minmax_calculation == Some(c1), c1.min is Some, c1.max is Some,
                    *self == (DataManager { log: self.log, minmax_calculation: Some(c1), ..*old(self) }), self.log.evs@ == e0 + mm_dones(c1.nodes@, c1.min->0, c1.max->0, vit_0.pos()),
                ensures vit_0.pos() == vit_0.all().len(),
                decreases vit_0.all().len() - vit_0.pos(),
//@loop 0 end
                proof { let k = vit_0.pos() - 1; assert(*node == c1.nodes@[k]); assert((e0 + mm_dones(c1.nodes@, c1.min->0, c1.max->0, k)).push(Ev::MinMaxDone { to: from(c1.nodes@[k]), min: c1.min->0, max: c1.max->0 }) =~= e0 + mm_dones(c1.nodes@, c1.min->0, c1.max->0, k + 1)); }
//@tail
    proof { assert(e0 + Seq::<Ev>::empty() =~= e0); let c1 = self.minmax_calculation->0; assert forall|h: Seq<MinMaxNodeMessage>| #[trigger] minv(c0, h, d) implies minv(c1, h.push(gm), d) by { minv_step(c0, c1, h, gm, d); } }
//@end
}
fn main() {}
} // verus!
