//! f32 is exact real arithmetic, atan2 gives the angle in [-pi, pi] (native replay compares the real f32 with f64 away from segment borders).
//! a PointRef (Arc<Mutex<Point>>) is treated as the point it refers to; every point has at least two coordinates.
//@include base.rs
//@include coll.rs
//@include float.rs
//@include arr.rs
verus! {
pub uninterp spec fn pi() -> real;
pub uninterp spec fn atan2(y: real, x: real) -> real;
pub uninterp spec fn sqrt(x: real) -> real;
pub axiom fn pi_ax() ensures 3real < pi() < 4real;
pub axiom fn atan2_ax(y: real, x: real) ensures 0real - pi() <= atan2(y, x) <= pi();
#[verifier::external_body] pub fn vpi() -> (r: F) ensures r.r() == pi() { unimplemented!() }
impl F {
    #[verifier::external_body] pub fn atan2(self, x: F) -> (r: F) ensures r.r() == atan2(self.r(), x.r()) { unimplemented!() }
    #[verifier::external_body] pub fn sqrt(self) -> (r: F) ensures r.r() == sqrt(self.r()) { unimplemented!() }
    #[verifier::external_body] pub fn powi(self, k: i32) -> (r: F) ensures k == 2 ==> r.r() == self.r() * self.r() { unimplemented!() }
}
// the segment k of n: the angles from k/n of a full turn up to (k+1)/n, whatever the number of turns
pub open spec fn width(n: int) -> real { (2real * pi()) / (n as real) }
pub open spec fn in_segment(a: real, n: int, k: int, t: int) -> bool { width(n) * (k as real) <= a + (t as real) * (2real * pi()) < width(n) * ((k + 1) as real) }
pub open spec fn segment(a: real, n: int, k: int) -> bool { 0 <= k < n && exists|t: int| in_segment(a, n, k, t) }
pub open spec fn seg_of(a: real, n: int) -> int { choose|k: int| segment(a, n, k) }
// all segments together are a full turn
pub proof fn width_all(n: int) requires n >= 1 ensures width(n) * (n as real) == 2real * pi(), width(n) > 0real {
    pi_ax(); let w = width(n); let m = n as real; let p = 2real * pi(); assert(w * m == p) by (nonlinear_arith) requires w == p / m, m >= 1real; assert(w > 0real) by (nonlinear_arith) requires w * m == p, m >= 1real, p > 0real;
}
pub proof fn seg_step(a: real, n: int, q: int) requires n >= 1, width(n) * (q as real) <= a + 2real * pi() < width(n) * ((q + 1) as real) ensures in_segment(a, n, q % n, 1 - q / n), segment(a, n, q % n) {
    width_all(n); vstd::arithmetic::div_mod::lemma_fundamental_div_mod(q, n); vstd::arithmetic::div_mod::lemma_mod_bound(q, n); let d = q / n; let k = q % n; let w = width(n); let p = 2real * pi();
    let (dr, kr, nr) = (d as real, k as real, n as real); assert(q as real == nr * dr + kr) by { assert((n * d) as real == nr * dr) by (nonlinear_arith) requires nr == n as real, dr == d as real; }
    assert(w * (q as real) == p * dr + w * kr) by (nonlinear_arith) requires q as real == nr * dr + kr, w * nr == p;
    assert(w * ((q + 1) as real) == w * (q as real) + w) by (nonlinear_arith); assert(w * ((k + 1) as real) == w * kr + w) by (nonlinear_arith) requires kr == k as real;
    assert(((1 - d) as real) * p == p - p * dr) by (nonlinear_arith) requires dr == d as real;
    assert(in_segment(a, n, k, 1 - d));
}
// the segment of an angle is unique: two segments (and turns) that hold the same angle are the same
pub proof fn seg_unique(a: real, n: int, k: int, t: int, k2: int, t2: int) requires n >= 1, 0 <= k < n, 0 <= k2 < n, in_segment(a, n, k, t), in_segment(a, n, k2, t2) ensures k == k2 {
    width_all(n); let w = width(n); let p = 2real * pi(); let (u, u2) = (k - n * t, k2 - n * t2); // a lies in segment u and in segment u2 of the unrolled circle
    lift(n, w, p, k, t); lift(n, w, p, k2, t2); lift(n, w, p, k + 1, t); lift(n, w, p, k2 + 1, t2);
    let m = |x: int| w * (x as real); 
    assert(w * (u as real) <= a < w * ((u + 1) as real)); assert(w * (u2 as real) <= a < w * ((u2 + 1) as real));
    let (ur, ur2) = (u as real, u2 as real);
    assert(ur < ur2 + 1real) by (nonlinear_arith) requires w * ur <= a, a < w * ((u2 + 1) as real), (u2 + 1) as real == ur2 + 1real, w > 0real;
    assert(ur2 < ur + 1real) by (nonlinear_arith) requires w * ur2 <= a, a < w * ((u + 1) as real), (u + 1) as real == ur + 1real, w > 0real;
    assert(u == u2);
    assert(k - k2 == n * (t - t2)) by (nonlinear_arith) requires k - n * t == k2 - n * t2;
    assert(t == t2) by (nonlinear_arith) requires k - k2 == n * (t - t2), 0 <= k < n, 0 <= k2 < n, n >= 1;
    assert(n * (t - t2) == 0) by (nonlinear_arith) requires t == t2;
}
proof fn lift(n: int, w: real, p: real, k: int, t: int) requires w * (n as real) == p ensures w * ((k - n * t) as real) == w * (k as real) - (t as real) * p {
    let (kr, tr, nr) = (k as real, t as real, n as real); assert((k - n * t) as real == kr - nr * tr) by { assert((n * t) as real == nr * tr) by (nonlinear_arith) requires nr == n as real, tr == t as real; }
    assert(w * (kr - nr * tr) == w * kr - tr * p) by (nonlinear_arith) requires w * nr == p;
}
pub proof fn seg_is(a: real, n: int, k: int) requires n >= 1, segment(a, n, k) ensures seg_of(a, n) == k {
    let j = seg_of(a, n); assert(segment(a, n, j)); let t = choose|t: int| in_segment(a, n, k, t); let t2 = choose|t: int| in_segment(a, n, j, t); seg_unique(a, n, k, t, j, t2);
}
// counting the segments in a full turn plus the angle, and leaving out whole turns, gives its segment
pub proof fn seg_calc(a: real, n: int) requires n >= 1, 0real - 2real * pi() <= a <= 2real * pi() ensures ({ let x = (2real * pi() + a) / width(n); 0real <= x <= 2real * (n as real) && 0 <= x.floor() <= 2 * n && segment(a, n, x.floor() % n) && seg_of(a, n) == x.floor() % n }) {
    width_all(n); pi_ax();
    let w = width(n); let p = 2real * pi(); let x = (p + a) / w; let q = x.floor();
    assert(w * x == p + a) by (nonlinear_arith) requires x == (p + a) / w, w > 0real;
    assert(x >= 0real) by (nonlinear_arith) requires w * x == p + a, p + a >= 0real, w > 0real;
    let nr = n as real; assert(x <= 2real * nr) by (nonlinear_arith) requires w * x <= 2real * p, w * nr == p, w > 0real;
    let qr = q as real; assert(w * qr <= p + a) by (nonlinear_arith) requires qr <= x, w * x == p + a, w > 0real;
    assert(p + a < w * ((q + 1) as real)) by (nonlinear_arith) requires x < (q + 1) as real, w * x == p + a, w > 0real;
    seg_step(a, n, q); seg_is(a, n, q % n);
}
//@extract src/data_store/utils.rs :: fn get_segment_id
//@ret r
//@spec
    requires n_segments >= 1, 0real - 2real * pi() <= angle.r() <= 2real * pi(), n_segments < 0x1000_0000,
    ensures segment(angle.r(), n_segments as int, r as int), r < n_segments, seg_of(angle.r(), n_segments as int) == r,
//@floats
//@fcast
//@subst PI ==> vpi()
//@top
    proof { width_all(n_segments as int); pi_ax(); rl_one(2); seg_calc(angle.r(), n_segments as int); }
//@end
// ---- a point -----------------------------------------------------------------------------------
impl Array1<F> {
    pub open spec fn angle(&self) -> real { atan2(self@[1].r(), self@[0].r()) }
//@extract src/utils/ndarray_extensions/mod.rs :: impl PolarCoords<A> for ArrayBase :: to_polar
//@ret r
//@spec
    requires self@.len() >= 2,
    ensures r@.len() == 2, r@[1].r() == self.angle(), r@[0].r() == sqrt(self@[0].r() * self@[0].r() + self@[1].r() * self@[1].r()),
//@subst Array1<A> ==> Array1<F>
//@end
}
pub struct Point { pub id: usize, pub coordinates: Array1<F>, pub segment: usize }
// a point of a rotated series: segment fits the angle
pub open spec fn seg_ok(p: Point, n: int) -> bool { p.coordinates@.len() >= 2 && p.segment == seg_of(p.coordinates.angle(), n) && p.segment < n }
// b is a mirrored at the second axis
pub open spec fn mirror_of(b: Point, a: Point, n: int) -> bool { b.id == a.id && seg_ok(b, n) && b.coordinates@.len() == a.coordinates@.len() && b.coordinates@[0].r() == 0real - a.coordinates@[0].r() && forall|i: int| 1 <= i < a.coordinates@.len() ==> b.coordinates@[i] == a.coordinates@[i] }
pub open spec fn n_ok(n: int) -> bool { 1 <= n < 0x1000_0000 }
impl Point {
//@extract src/data_store/point.rs :: impl Point :: new
//@ret r
//@spec
    ensures r == (Point { id, coordinates, segment }),
//@subst Array1<f32> ==> Array1<F>
//@end
//@extract src/data_store/point.rs :: impl Point :: new_calculate_segment
//@ret r
//@spec
    requires n_ok(n_segments as int), coordinates@.len() >= 2,
    ensures r.id == id, r.coordinates == coordinates, seg_ok(r, n_segments as int),
//@subst Array1<f32> ==> Array1<F>
//@top
    proof { pi_ax(); atan2_ax(coordinates@[1].r(), coordinates@[0].r()); }
//@end
//@extract src/data_store/point.rs :: impl Point :: calculate_segment_id
//@ret r
//@spec
    requires n_ok(n_segments as int), self.coordinates@.len() >= 2,
    ensures r == seg_of(self.coordinates.angle(), n_segments as int), r < n_segments,
//@top
    proof { pi_ax(); atan2_ax(self.coordinates@[1].r(), self.coordinates@[0].r()); }
//@end
//@extract src/data_store/point.rs :: impl Point :: get_id
//@ret r
//@spec
    ensures r == self.id,
//@end
//@extract src/data_store/point.rs :: impl Point :: get_segment
//@ret r
//@spec
    ensures r == self.segment,
//@end
//@extract src/data_store/point.rs :: impl Point :: mirror
//@spec
    requires n_ok(n_segments as int), old(self).coordinates@.len() >= 2,
    ensures mirror_of(*final(self), *old(self), n_segments as int),
//@floats
//@top
    proof { rl_one(1); }
//@end
    #[verifier::external_body] pub fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
pub struct PointRef(pub Point);
impl PointRef {
    #[verifier::external_body] pub fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
//@extract src/data_store/point.rs :: impl PointRef :: new
//@ret r
//@spec
    ensures r.0 == point,
//@subst Arc::new(Mutex::new(point)) ==> point
//@end
//@extract src/data_store/point.rs :: impl PointRef :: get_id
//@ret r
//@spec
    ensures r == self.0.id,
//@subst .lock().unwrap() ==> 
//@end
//@extract src/data_store/point.rs :: impl PointRef :: get_segment
//@ret r
//@spec
    ensures r == self.0.segment,
//@subst .lock().unwrap() ==> 
//@end
//@extract src/data_store/point.rs :: impl PointRef :: deref_clone
//@ret r
//@spec
    ensures r == self.0,
//@subst .lock().unwrap() ==> 
//@end
//@extract src/data_store/point.rs :: impl PointRef :: mirror
//@spec
    requires n_ok(n_segments as int), old(self).0.coordinates@.len() >= 2,
    ensures mirror_of(final(self).0, old(self).0, n_segments as int),
//@subst .lock().unwrap() ==> 
//@end
}
// ---- the points of the data store ------------------------------------------------------------------
pub struct DataStoreIndex { pub points: HashMap<usize, PointRef> }
impl DataStoreIndex {
//@extract src/data_store/index.rs :: impl DataStoreIndex :: add_point
//@spec
    ensures final(self).points@ == old(self).points@.insert(point.0.id, point),
//@end
//@extract src/data_store/index.rs :: impl DataStoreIndex :: get_point_by_id
//@ret r
//@spec
    ensures r is None <==> !self.points@.contains_key(id), r is Some ==> *r->0 == self.points@[id],
//@end
//@extract src/data_store/index.rs :: impl DataStoreIndex :: add_point_return
//@ret r
//@spec
    ensures final(self).points@ == old(self).points@.insert(point.0.id, point), r == point,
//@end
}
pub struct Transition { pub from_point: PointRef, pub to_point: PointRef }
impl Transition { pub fn new(from_point: PointRef, to_point: PointRef) -> (r: Self) ensures r.from_point == from_point, r.to_point == to_point { Transition { from_point, to_point } } }
pub type TransitionRef = Transition;
pub struct MaterializedTransition { pub from_point: Point, pub to_point: Point }
pub open spec fn tr_of(m: MaterializedTransition) -> Transition { Transition { from_point: PointRef(m.from_point), to_point: PointRef(m.to_point) } }
impl MaterializedTransition {
//@extract src/data_store/transition/materialized.rs :: impl TransitionMixin for MaterializedTransition :: get_from_point
//@ret r
//@spec
    ensures r.0 == self.from_point,
//@end
//@extract src/data_store/transition/materialized.rs :: impl TransitionMixin for MaterializedTransition :: get_to_point
//@ret r
//@spec
    ensures r.0 == self.to_point,
//@end
//@extract src/data_store/transition/mod.rs :: trait TransitionMixin :: get_points
//@ret r
//@spec
    ensures r.0.0 == self.from_point, r.1.0 == self.to_point,
//@end
//@extract src/data_store/transition/materialized.rs :: impl MaterializedTransition :: into_transition
//@ret r
//@spec
    ensures r == tr_of(self),
//@subst self.from_point.into_ref() ==> PointRef::new(self.from_point)
//@subst self.to_point.into_ref() ==> PointRef::new(self.to_point)
//@end
}
impl Transition {
//@extract src/data_store/transition/materialized.rs :: impl Materialize<MaterializedTransition> for Transition :: materialize
//@ret r
//@spec
    ensures tr_of(r) == *self,
//@end
}
pub struct DataStore { pub points: Vec<PointRef>, pub transitions: Vec<TransitionRef>, pub index: DataStoreIndex }
// new = old followed by cs, numbered from o, each in the segment of its angle
pub open spec fn numbered(new: Seq<PointRef>, old: Seq<PointRef>, cs: Seq<Array1<F>>, o: int, n: int) -> bool { new.len() == old.len() + cs.len() && new.take(old.len() as int) == old && forall|i: int| 0 <= i < cs.len() ==> (#[trigger] new[old.len() + i]).0.id == o + i && new[old.len() + i].0.coordinates == cs[i] && seg_ok(new[old.len() + i].0, n) }
impl DataStore {
//@extract src/data_store/mod.rs :: impl DataStore :: add_point
//@spec
    ensures final(self).points@ == old(self).points@.push(PointRef(point)), final(self).transitions == old(self).transitions,
//@end
//@extract src/data_store/mod.rs :: impl DataStore :: add_point_return
//@ret r
//@spec
    ensures final(self).points@ == old(self).points@.push(PointRef(point)), final(self).transitions == old(self).transitions, r == PointRef(point),
//@end
//@extract src/data_store/mod.rs :: impl DataStore :: add_points_with_offset
//@spec
    requires n_ok(n_segments as int), offset + points@.len() <= usize::MAX, forall|i: int| 0 <= i < points@.len() ==> (#[trigger] points@[i])@.len() >= 2,
    ensures numbered(final(self).points@, old(self).points@, points@, offset as int, n_segments as int), final(self).transitions == old(self).transitions,
//@subst Vec<Array1<f32>> ==> Vec<Array1<F>>
//@rename into_iter=vinto_iter
//@top
    let ghost cs = points@; let ghost p0 = self.points@; proof { assert(p0.take(p0.len() as int) =~= p0); }
//@loop 0
        invariant n_ok(n_segments as int), cs == vit_0.all(), 0 <= vit_0.pos() <= cs.len(), offset + cs.len() <= usize::MAX, next_id == offset + vit_0.pos(), numbered(self.points@, p0, cs.take(vit_0.pos()), offset as int, n_segments as int), self.transitions == old(self).transitions, forall|i: int| 0 <= i < cs.len() ==> (#[trigger] cs[i])@.len() >= 2,
        ensures vit_0.pos() == cs.len(),
        decreases cs.len() - vit_0.pos(),
//@loop 0 top
        let ghost q0 = self.points@; let ghost k = vit_0.pos(); proof { assert(cs[k - 1]@.len() >= 2); }
//@loop 0 end
        proof { assert(self.points@.take(p0.len() as int) =~= q0.take(p0.len() as int));
            assert forall|i: int| 0 <= i < k implies (#[trigger] self.points@[p0.len() + i]).0.id == offset + i && self.points@[p0.len() + i].0.coordinates == cs.take(k)[i] && seg_ok(self.points@[p0.len() + i].0, n_segments as int) by { if i < k - 1 { assert(self.points@[p0.len() + i] == q0[p0.len() + i]); assert(cs.take(k - 1)[i] == cs.take(k)[i]); } } }
//@tail
    proof { assert(cs.take(cs.len() as int) =~= cs); }
//@end
//@extract src/data_store/mod.rs :: impl DataStore :: get_points
//@ret r
//@spec
    ensures r@ == self.points@,
//@subst self.points.clone() ==> self.points.vto_vec()
//@end
//@extract src/data_store/mod.rs :: impl DataStore :: mirror_points
//@spec
    requires n_ok(n_segments as int), forall|i: int| 0 <= i < old(self).points@.len() ==> (#[trigger] old(self).points@[i]).0.coordinates@.len() >= 2,
    // every point once
    ensures final(self).points@.len() == old(self).points@.len(), forall|i: int| 0 <= i < old(self).points@.len() ==> mirror_of((#[trigger] final(self).points@[i]).0, old(self).points@[i].0, n_segments as int), final(self).transitions == old(self).transitions,
//@loop 0
        invariant n_ok(n_segments as int), vend_0 == old(self).points@.len(), self.points@.len() == vend_0, 0 <= vit_0 <= vend_0, self.transitions == old(self).transitions, forall|i: int| 0 <= i < old(self).points@.len() ==> (#[trigger] old(self).points@[i]).0.coordinates@.len() >= 2,
            forall|i: int| 0 <= i < vit_0 ==> mirror_of((#[trigger] self.points@[i]).0, old(self).points@[i].0, n_segments as int), forall|i: int| vit_0 <= i < vend_0 ==> #[trigger] self.points@[i] == old(self).points@[i],
        decreases vend_0 - vit_0,
//@end
//@extract src/data_store/mod.rs :: impl DataStore :: add_transition
//@spec
    ensures final(self).transitions@ == old(self).transitions@.push(transition), final(self).points == old(self).points,
//@subst TransitionRef::new(transition) ==> transition
//@end
//@extract src/data_store/mod.rs :: impl DataStore :: add_materialized_transition
//@spec
    ensures final(self).transitions@ == old(self).transitions@.push(tr_of(transition)), final(self).points@ == old(self).points@.push(PointRef(transition.from_point)).push(PointRef(transition.to_point)),
//@end
//@extract src/data_store/mod.rs :: impl DataStore :: add_materialized_transitions
//@spec
    ensures final(self).transitions@ == old(self).transitions@ + Seq::new(transitions@.len(), |i: int| tr_of(transitions@[i])),
//@top
    let ghost ts = transitions@; let ghost t0 = self.transitions@; let ghost all = Seq::new(ts.len(), |i: int| tr_of(ts[i])); proof { assert(t0 =~= t0 + all.take(0)); }
//@loop 0
        invariant ts == vit_0.all(), 0 <= vit_0.pos() <= ts.len(), all == Seq::new(ts.len(), |i: int| tr_of(ts[i])), self.transitions@ == t0 + all.take(vit_0.pos()),
        ensures vit_0.pos() == ts.len(),
        decreases ts.len() - vit_0.pos(),
//@loop 0 end
        proof { let k = vit_0.pos(); assert(self.transitions@ =~= t0 + all.take(k)); }
//@tail
    proof { assert(all.take(all.len() as int) =~= all); }
//@end
//@extract src/data_store/mod.rs :: impl DataStore :: get_transitions
//@ret r
//@spec
    ensures r@ == self.transitions@,
//@rename to_vec=vto_vec
//@end
//@extract src/data_store/mod.rs :: impl DataStore :: count_transitions
//@ret r
//@spec
    ensures r == self.transitions@.len(),
//@end
//@extract src/data_store/mod.rs :: impl DataStore :: clear_transitions
//@spec
    ensures final(self).transitions@.len() == 0, final(self).points == old(self).points,
//@subst self.transitions.clear() ==> self.transitions.vclear()
//@end
}
// ---- the rotated points of a node: numbered from its first point of time on ----------------------
pub struct Array3<T> { pub p: core::marker::PhantomData<T> }
pub struct Parameters { pub rate: usize }
pub struct DatasetStats { pub n: Option<usize> }
pub struct ClusterNodes { pub n: usize, pub own: usize }
impl ClusterNodes {
    #[verifier::external_body] pub fn len_incl_own(&self) -> (r: usize) ensures r == self.n { unimplemented!() }
    #[verifier::external_body] pub fn get_own_idx(&self) -> (r: usize) ensures r == self.own { unimplemented!() }
}
pub struct Training { pub parameters: Parameters, pub dataset_stats: Option<DatasetStats>, pub data_store: DataStore, pub cluster_nodes: ClusterNodes, pub num_rotated: Option<usize> }
// the coordinates after rotation (not modelled): one row per point, at least two coordinates each
#[verifier::external_body] pub fn vrotated() -> (r: Vec<Array1<F>>) ensures r@.len() < 0x8000_0000, forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@.len() >= 2 { unimplemented!() }
impl Training {
//@extract src/training/rotation/mod.rs :: impl Rotator for Training :: apply_rotation_matrix
//@spec
    requires n_ok(old(self).parameters.rate as int), old(self).cluster_nodes.own < old(self).cluster_nodes.n, old(self).dataset_stats is Some, old(self).dataset_stats->0.n is Some, old(self).dataset_stats->0.n->0 < 0x8000_0000,
    ensures exists|cs: Seq<Array1<F>>| #[trigger] numbered(final(self).data_store.points@, old(self).data_store.points@, cs, (old(self).dataset_stats->0.n->0 as int / old(self).cluster_nodes.n as int) * old(self).cluster_nodes.own, old(self).parameters.rate as int) && final(self).num_rotated == Some(cs.len() as usize),
        final(self).data_store.transitions == old(self).data_store.transitions, final(self).parameters == old(self).parameters, final(self).dataset_stats == old(self).dataset_stats, final(self).cluster_nodes == old(self).cluster_nodes,
//@havoc rotations ()
//@havoc rotated_3 ()
//@havoc rotated ()
//@havoc shape ()
//@havoc points Vec<Array1<F>>
//@subst let points: Vec<Array1<F>> = vany() ==> let points: Vec<Array1<F>> = vrotated(); let ghost cs = points@
//@subst Array3<f32> ==> Array3<F>
//@top
    proof { let a = self.dataset_stats->0.n->0 as int; let n = self.cluster_nodes.n as int; let o = self.cluster_nodes.own as int; vstd::arithmetic::div_mod::lemma_fundamental_div_mod(a, n); vstd::arithmetic::div_mod::lemma_div_pos_is_pos(a, n); let q = a / n; assert(0 <= q * o <= q * n) by (nonlinear_arith) requires 0 <= o < n, q >= 0; assert(q * n == n * q) by (nonlinear_arith); }
//@tail
    proof { let o = (self.dataset_stats->0.n->0 as int / self.cluster_nodes.n as int) * self.cluster_nodes.own; assert(numbered(self.data_store.points@, old(self).data_store.points@, cs, o, self.parameters.rate as int)); }
//@end
}
} // verus!
fn main() {}
