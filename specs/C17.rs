//! one analysis (pca) is C16; the matrix itself is C17m; applying it to the points is C02. f32 values are reals.
//! ndarray's slices along the last axis, broadcast and matrix product are as documented.
//@include base.rs
//@include coll.rs
//@include float.rs
//@include nd.rs
verus! {
pub enum Ev { Matrix { to: Option<usize>, m: RotationMatrixMessage }, Done }
} // verus!
//@include net.rs
verus! {
pub struct RotationMatrixMessage { pub rotation_matrix: A3 }
pub struct RotationDoneMessage;
pub struct PCADoneMessage;
impl VMsg for RotationMatrixMessage { open spec fn ev(self, to: Option<usize>) -> Ev { Ev::Matrix { to, m: self } } }
impl VMsg for RotationDoneMessage { open spec fn ev(self, to: Option<usize>) -> Ev { Ev::Done } }
impl Addr { #[verifier::external_body] pub fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
pub struct AnyAddr { pub to: Option<usize> }
impl AnyAddr { #[verifier::external_body] pub fn vsend<M: VMsg>(self, log: &mut Log, m: M) ensures final(log).evs@ == old(log).evs@.push(m.ev(self.to)) { unimplemented!() } }
pub open spec fn whom(c: ClusterNodes, i: int) -> Option<usize> { if i == c.own { None } else { Some(i as usize) } }
// C12: every node once, this one by its local address
impl ClusterNodes { #[verifier::external_body] pub fn to_any_as(&self, a: Addr, s: ()) -> (r: It<AnyAddr>) requires self.wf() ensures r.pos() == 0, r.all().len() == self.n, forall|i: int| 0 <= i < self.n ==> (#[trigger] r.all()[i]).to == whom(*self, i) { unimplemented!() } }
pub struct Path { }
pub enum Role { Main { data_path: Option<Path> }, Sub { mainhost: usize } }
pub struct Parameters { pub role: Role }

// ---- planes of a three-dimensional array: everything of one dimension ----
pub open spec fn plane(a: Seq<Seq<Seq<F>>>, i: int) -> Seq<Seq<F>> { Seq::new(a.len(), |j: int| Seq::new(a[j].len(), |l: int| a[j][l][i])) }
pub open spec fn put_plane(a: Seq<Seq<Seq<F>>>, i: int, o: Seq<Seq<F>>) -> Seq<Seq<Seq<F>>> { Seq::new(a.len(), |j: int| Seq::new(a[j].len(), |l: int| a[j][l].update(i, o[j][l]))) }
pub open spec fn rdot(a: Seq<real>, b: Seq<real>) -> real decreases a.len() { if a.len() == 0 { 0real } else { rdot(a.drop_last(), b.drop_last()) + a.last() * b.last() } }
pub open spec fn reals(a: Seq<F>) -> Seq<real> { Seq::new(a.len(), |i: int| a[i].r()) }
pub open spec fn col(a: Seq<Seq<F>>, k: int) -> Seq<real> { Seq::new(a.len(), |i: int| a[i][k].r()) }
#[verifier::external_body] pub fn Dim(x: [usize; 3]) -> (r: Dims) ensures r.v@ == seq![x[0], x[1], x[2]] { unimplemented!() }
pub struct Dims { pub v: Ghost<Seq<usize>> }
pub struct ArrayBase;
impl ArrayBase { #[verifier::external_body] pub fn zeros(d: Dims) -> (r: A3) ensures r@.len() == d.v@[0], r.rows() == d.v@[1], r.cols() == d.v@[2] { unimplemented!() } }
impl A1 { #[verifier::external_body] pub fn broadcast(&self, s: [usize; 2]) -> (r: Option<A2>) ensures r is Some <==> s[1] == self@.len(), r is Some ==> r->0@.len() == s[0] && r->0.cols() == s[1] && forall|i: int, k: int| 0 <= i < s[0] && 0 <= k < s[1] ==> #[trigger] r->0@[i][k] == self@[k] { unimplemented!() } }
impl A2 {
    #[verifier::external_body] pub fn sub(&self, r: &A2) -> (q: A2) requires self@.len() == r@.len(), self.cols() == r.cols() ensures q@.len() == self@.len(), q.cols() == self.cols(), forall|i: int, k: int| 0 <= i < q@.len() && 0 <= k < q.cols() ==> (#[trigger] q@[i][k]).r() == self@[i][k].r() - r@[i][k].r() { unimplemented!() }
    #[verifier::external_body] pub fn reversed_axes(self) -> (q: A2) ensures q@.len() == self.cols(), q.cols() == self@.len(), forall|i: int, k: int| 0 <= i < q@.len() && 0 <= k < q.cols() ==> #[trigger] q@[i][k] == self@[k][i] { unimplemented!() }
    #[verifier::external_body] pub fn dot(&self, o: &A2) -> (q: A2) requires self.cols() == o@.len() ensures q@.len() == self@.len(), q.cols() == o.cols(), forall|i: int, k: int| 0 <= i < q@.len() && 0 <= k < q.cols() ==> (#[trigger] q@[i][k]).r() == rdot(reals(self@[i]), col(o@, k)) { unimplemented!() }
}
impl A3 {
    #[verifier::external_body] pub fn vplane(&self, i: usize) -> (q: A2) requires i < self.cols() ensures q@ == plane(self@, i as int), q.cols() == self.rows() { unimplemented!() }
    #[verifier::external_body] pub fn vplane_mut(&mut self, i: usize) -> (q: &mut A2) requires i < old(self).cols() ensures q@ == plane(old(self)@, i as int), q.cols() == old(self).rows(), final(self)@ == put_plane(old(self)@, i as int, final(q)@), final(self).rows() == old(self).rows(), final(self).cols() == old(self).cols() { unimplemented!() }
}

pub proof fn projects(x0: A2, x: A2, means: A1, ct: A2, c: A2)
    requires x@.len() == x0@.len(), x.cols() == x0.cols(), means@.len() == x.cols(), c.cols() == x.cols(), ct@.len() == c.cols(), ct.cols() == c@.len(), forall|i: int, k: int| 0 <= i < x@.len() && 0 <= k < x.cols() ==> (#[trigger] x@[i][k]).r() == x0@[i][k].r() - means@[k].r(), forall|i: int, k: int| 0 <= i < ct@.len() && 0 <= k < ct.cols() ==> #[trigger] ct@[i][k] == c@[k][i]
    ensures forall|j: int, k: int| 0 <= j < x@.len() && 0 <= k < c@.len() ==> #[trigger] rdot(reals(x@[j]), col(ct@, k)) == rdot(centred(x0@[j], means@), reals(c@[k]))
{
    broadcast use a2_shape; assert(shaped2(x@, x.cols() as int) && shaped2(x0@, x0.cols() as int) && shaped2(c@, c.cols() as int));
    assert forall|j: int, k: int| 0 <= j < x@.len() && 0 <= k < c@.len() implies #[trigger] rdot(reals(x@[j]), col(ct@, k)) == rdot(centred(x0@[j], means@), reals(c@[k])) by {
        assert(reals(x@[j]) =~= centred(x0@[j], means@)); assert forall|i: int| 0 <= i < ct@.len() implies #[trigger] col(ct@, k)[i] == reals(c@[k])[i] by { assert(ct@[i][k] == c@[k][i]); } assert(col(ct@, k) =~= reals(c@[k]));
    }
}
// a changed plane is the new one, the others stay
pub proof fn planes(a: A3, b: A3, i: int)
    requires 0 <= i < a.cols(), exists|o: A2| o@.len() == a@.len() && o.cols() == a.rows() && #[trigger] put_plane(a@, i, o@) == b@
    ensures forall|o: A2| o@.len() == a@.len() && o.cols() == a.rows() && #[trigger] put_plane(a@, i, o@) == b@ ==> plane(b@, i) == o@, only_plane(a@, b@, i), b@.len() == a@.len()
{
    broadcast use a3_shape, a2_shape; assert(shaped3(a@, a.rows() as int, a.cols() as int));
    assert forall|o: A2| o@.len() == a@.len() && o.cols() == a.rows() && #[trigger] put_plane(a@, i, o@) == b@ implies plane(b@, i) == o@ by {
        assert(shaped2(o@, o.cols() as int)); assert forall|j: int| 0 <= j < a@.len() implies #[trigger] plane(b@, i)[j] == o@[j] by { assert(shaped2(a@[j], a.cols() as int)); assert(b@[j].len() == a@[j].len()); assert forall|l: int| 0 <= l < a@[j].len() implies #[trigger] plane(b@, i)[j][l] == o@[j][l] by { assert(a@[j][l].len() == a.cols()); assert(b@[j][l] == a@[j][l].update(i, o@[j][l])); } assert(plane(b@, i)[j] =~= o@[j]); } assert(plane(b@, i) =~= o@);
    }
    let o = choose|o: A2| o@.len() == a@.len() && o.cols() == a.rows() && #[trigger] put_plane(a@, i, o@) == b@;
    assert forall|k: int| k != i implies #[trigger] plane(b@, k) == plane(a@, k) by {
        assert forall|j: int| 0 <= j < a@.len() implies #[trigger] plane(b@, k)[j] == plane(a@, k)[j] by { assert forall|l: int| 0 <= l < a@[j].len() implies #[trigger] plane(b@, k)[j][l] == plane(a@, k)[j][l] by { assert(b@[j][l] == a@[j][l].update(i, o@[j][l])); assert(shaped2(a@[j], a.cols() as int)); assert(a@[j][l].len() == a.cols()); assert(b@[j][l][k] == a@[j][l][k]); } assert(plane(b@, k)[j] =~= plane(a@, k)[j]); } assert(plane(b@, k) =~= plane(a@, k));
    }
}

// ---- the stage ----
pub struct PCA { pub components: Option<A2>, pub global_means: Option<A1>, pub rest: Ghost<int>, pub id: Ghost<int>, pub k: Ghost<int> }
impl PCA {
    // C16
    #[verifier::external_body] pub fn restart(&mut self, id: usize, k: usize) ensures final(self).components is None, final(self).global_means is None, final(self).id@ == id, final(self).k@ == k { unimplemented!() }
    #[verifier::external_body] pub fn clear(&mut self) ensures final(self).components is None, final(self).global_means is None, final(self).id == old(self).id, final(self).k == old(self).k { unimplemented!() }
}
pub struct Rotation { pub phase_space: Option<A3>, pub data_ref: Option<A3>, pub reduced: Option<A3>, pub reduced_ref: Option<A3>, pub n_reduced: usize, pub broadcasted: bool, pub rotation_matrix_buffer: Option<RotationMatrixMessage>, pub pca: PCA }
// analysed: the data of the analyses begun so far; applied: the matrices applied so far
pub struct Training { pub parameters: Parameters, pub cluster_nodes: ClusterNodes, pub rotation: Rotation, pub analysed: Ghost<Seq<Seq<Seq<F>>>>, pub applied: Ghost<Seq<A3>>, pub log: Log }
// phase space and reference have the same dimensions, and there is at least one
pub open spec fn wf(t: Training) -> bool { let r = t.rotation; t.cluster_nodes.wf() && r.phase_space is Some && r.data_ref is Some && r.reduced is Some && r.reduced_ref is Some && r.phase_space->0.cols() >= 1 && r.phase_space->0.cols() == r.data_ref->0.cols() && r.phase_space->0.rows() == r.data_ref->0.rows()
    && r.reduced->0.cols() == r.phase_space->0.cols() && r.reduced_ref->0.cols() == r.phase_space->0.cols() && r.reduced->0.rows() == 3 && r.reduced_ref->0.rows() == 3 && r.reduced->0@.len() == r.phase_space->0@.len() && r.reduced_ref->0@.len() == r.data_ref->0@.len() && r.phase_space->0.cols() <= 0x1000_0000 && r.phase_space->0@.len() <= usize::MAX && r.phase_space->0.rows() <= usize::MAX && r.data_ref->0@.len() <= usize::MAX && r.n_reduced <= r.phase_space->0.cols() }
// analysis number n_reduced - 1 is the one under way or just done
pub open spec fn has_result(t: Training) -> bool { let p = t.rotation.pca; wf(t) && t.rotation.n_reduced >= 1 && p.components is Some && p.global_means is Some && p.components->0@.len() == 3 && p.components->0.cols() == t.rotation.phase_space->0.rows() && p.global_means->0@.len() == t.rotation.phase_space->0.rows() }
// the analyses are those of dimensions 0, 1, ..., each once
pub open spec fn in_turn(t: Training) -> bool { let a = t.analysed@; a.len() == t.rotation.n_reduced && forall|i: int| 0 <= i < a.len() ==> #[trigger] a[i] == plane(t.rotation.phase_space->0@, i) }
pub open spec fn centred(a: Seq<F>, m: Seq<F>) -> Seq<real> { Seq::new(a.len(), |l: int| a[l].r() - m[l].r()) }
// dimension i of r: the rows of a, centred and projected on the directions
pub open spec fn projected(r: Seq<Seq<F>>, a: Seq<Seq<F>>, means: Seq<F>, dirs: Seq<Seq<F>>) -> bool { r.len() == a.len() && forall|j: int, k: int| 0 <= j < r.len() && 0 <= k < 3 ==> (#[trigger] r[j][k]).r() == rdot(centred(a[j], means), reals(dirs[k])) }
pub open spec fn only_plane(a: Seq<Seq<Seq<F>>>, b: Seq<Seq<Seq<F>>>, i: int) -> bool { forall|k: int| k != i ==> #[trigger] plane(b, k) == plane(a, k) }
pub open spec fn reduced_by(t: Training, u: Training) -> bool { let r = t.rotation; let s = u.rotation; let i = r.n_reduced - 1;
    &&& u == (Training { rotation: Rotation { reduced: s.reduced, reduced_ref: s.reduced_ref, ..r }, ..t }) && wf(u)
    &&& projected(plane(s.reduced->0@, i), plane(r.phase_space->0@, i), r.pca.global_means->0@, r.pca.components->0@) && only_plane(r.reduced->0@, s.reduced->0@, i)
    &&& projected(plane(s.reduced_ref->0@, i), plane(r.data_ref->0@, i), r.pca.global_means->0@, r.pca.components->0@) && only_plane(r.reduced_ref->0@, s.reduced_ref->0@, i)
}
pub open spec fn next_analysis(t: Training, u: Training) -> bool { u == (Training { rotation: Rotation { n_reduced: (t.rotation.n_reduced + 1) as usize, pca: u.rotation.pca, ..t.rotation }, analysed: u.analysed, log: u.log, ..t }) && u.log == t.log && u.rotation.pca.id == t.rotation.pca.id && u.rotation.pca.k == t.rotation.pca.k && u.analysed@ == t.analysed@.push(plane(t.rotation.phase_space->0@, t.rotation.n_reduced as int)) }
pub open spec fn matrix_to(e: Ev, to: Option<usize>, m: A3) -> bool { e is Matrix && e->Matrix_to == to && e->Matrix_m.rotation_matrix == m }
// the main node sends the matrix to every node once, the others nothing; a matrix that came too early comes back
pub open spec fn matrix_sent(old: Seq<Ev>, new: Seq<Ev>, c: ClusterNodes, m: A3) -> bool { new.len() == old.len() + c.n && new.take(old.len() as int) == old && forall|i: int| 0 <= i < c.n ==> matrix_to(#[trigger] new[old.len() + i], whom(c, i), m) }
pub uninterp spec fn matrix_of(refs: Seq<Seq<Seq<F>>>, m: A3) -> bool;
pub open spec fn spread(t: Training, mid: Seq<Ev>) -> bool { if t.parameters.role is Main { exists|m: A3| #[trigger] matrix_of(t.rotation.reduced_ref->0@, m) && matrix_sent(t.log.evs@, mid, t.cluster_nodes, m) } else { mid == t.log.evs@ } }
pub open spec fn broadcast_by(t: Training, u: Training) -> bool {
    &&& u == (Training { rotation: Rotation { rotation_matrix_buffer: None, ..t.rotation }, log: u.log, ..t })
    &&& exists|mid: Seq<Ev>| #[trigger] spread(t, mid) && u.log.evs@ == (if t.rotation.rotation_matrix_buffer is Some { mid.push(Ev::Matrix { to: None, m: t.rotation.rotation_matrix_buffer->0 }) } else { mid })
}
impl Training {
    // C16: an analysis of this data; its result comes later
    #[verifier::external_body] pub fn pca(&mut self, data: A2) requires old(self).rotation.pca.components is None ensures *final(self) == (Training { rotation: Rotation { pca: final(self).rotation.pca, ..old(self).rotation }, analysed: final(self).analysed, ..*old(self) }), final(self).analysed@ == old(self).analysed@.push(data@), final(self).rotation.pca.id == old(self).rotation.pca.id, final(self).rotation.pca.k == old(self).rotation.pca.k { unimplemented!() }
    // C17m
    #[verifier::external_body] pub fn get_rotation_matrix(&mut self) -> (r: A3) requires wf(*old(self)) ensures *final(self) == *old(self), matrix_of(old(self).rotation.reduced_ref->0@, r) { unimplemented!() }
    // C02
    #[verifier::external_body] pub fn apply_rotation_matrix(&mut self, m: A3) ensures final(self).applied@ == old(self).applied@.push(m), final(self).rotation == old(self).rotation, final(self).log == old(self).log, final(self).cluster_nodes == old(self).cluster_nodes, final(self).parameters == old(self).parameters, final(self).analysed == old(self).analysed { unimplemented!() }
//@extract src/training/rotation/mod.rs :: impl Rotator for Training :: run_pca
//@spec
    requires wf(*old(self)), old(self).rotation.n_reduced < old(self).rotation.phase_space->0.cols(),
    ensures next_analysis(*old(self), *final(self)), wf(*final(self)), in_turn(*old(self)) ==> in_turn(*final(self)),
//@subst slice(s![.., .., self.rotation.n_reduced]) ==> vplane(self.rotation.n_reduced)
//@end
//@extract src/training/rotation/mod.rs :: impl Rotator for Training :: rotate
//@spec
    requires old(self).cluster_nodes.wf(), old(self).analysed@.len() == 0, old(self).rotation.n_reduced == 0, phase_space.cols() >= 1, phase_space.cols() == data_ref.cols(), phase_space.rows() == data_ref.rows(), phase_space.cols() <= 0x1000_0000, phase_space@.len() <= usize::MAX, phase_space.rows() <= usize::MAX, data_ref@.len() <= usize::MAX,
    ensures ({ let r = final(self).rotation; wf(*final(self)) && in_turn(*final(self)) && r.n_reduced == 1 && r.phase_space == Some(phase_space) && r.data_ref == Some(data_ref) && r.pca.id@ == old(self).cluster_nodes.own && r.pca.k@ == 3 && r.broadcasted == old(self).rotation.broadcasted && r.rotation_matrix_buffer == old(self).rotation.rotation_matrix_buffer && final(self).log == old(self).log && final(self).applied == old(self).applied && final(self).cluster_nodes == old(self).cluster_nodes && final(self).parameters == old(self).parameters }),
//@subst phase_space: ArcArray<f32, Ix3> ==> phase_space: A3
//@subst data_ref: ArcArray<f32, Ix3> ==> data_ref: A3
//@end
//@extract src/training/rotation/mod.rs :: impl Rotator for Training :: reduce
//@spec
    requires has_result(*old(self)),
    ensures reduced_by(*old(self), *final(self)),
//@top
    let ghost t0 = *self; let ghost i0 = self.rotation.n_reduced - 1;
    let ghost cs = self.rotation.pca.components->0; let ghost ms = self.rotation.pca.global_means->0;
//@subst let x = x.sub( ==> let ghost x0 = *x; let x = x.sub(
//@subst &x.dot(&components) ==> proof { projects(x0, x, ms, components, cs); } &x.dot(&components)
//@last
    proof { planes(t0.rotation.reduced->0, self.rotation.reduced->0, i0); planes(t0.rotation.reduced_ref->0, self.rotation.reduced_ref->0, i0); }
//@subst index_axis_mut(Axis(2), i) ==> vplane_mut(i)
//@subst slice(s![.., .., i]) ==> vplane(i)
//@end
//@extract src/training/rotation/mod.rs :: impl Rotator for Training :: broadcast_rotation_matrix
//@spec
    requires wf(*old(self)),
    ensures broadcast_by(*old(self), *final(self)),
//@subst addr: Addr<Self> ==> addr: Addr
//@top
    let ghost e0 = self.log.evs@; let ghost k0 = e0.len() as int; let ghost t0 = *self; proof { assert(e0.take(k0) =~= e0); }
//@loop 0
            invariant *self == (Training { log: self.log, ..t0 }), t0 == *old(self), e0 == t0.log.evs@, k0 == e0.len(), wf(t0), matrix_of(t0.rotation.reduced_ref->0@, rotation_matrix), vit_0.all().len() == t0.cluster_nodes.n, forall|i: int| 0 <= i < t0.cluster_nodes.n ==> (#[trigger] vit_0.all()[i]).to == whom(t0.cluster_nodes, i),
                0 <= vit_0.pos() <= t0.cluster_nodes.n, self.log.evs@.len() == k0 + vit_0.pos(), self.log.evs@.take(k0) == e0, forall|i: int| 0 <= i < vit_0.pos() ==> matrix_to(#[trigger] self.log.evs@[k0 + i], whom(t0.cluster_nodes, i), rotation_matrix),
            ensures vit_0.pos() == vit_0.all().len(),
            decreases vit_0.all().len() - vit_0.pos(),
//@loop 0 top
            let ghost l0 = self.log.evs@;
//@loop 0 end
            proof { assert(self.log.evs@.take(k0) =~= l0.take(k0)); assert forall|i: int| 0 <= i < vit_0.pos() implies matrix_to(#[trigger] self.log.evs@[k0 + i], whom(t0.cluster_nodes, i), rotation_matrix) by { if i < vit_0.pos() - 1 { assert(self.log.evs@[k0 + i] == l0[k0 + i]); } } }
//@loop 0 after
        proof { assert(matrix_sent(e0, self.log.evs@, t0.cluster_nodes, rotation_matrix)); }
//@subst if let Some(rotation_matrix_msg) = ==> let ghost mid = self.log.evs@; proof { assert(spread(t0, mid)); } if let Some(rotation_matrix_msg) =
//@subst nodes.do_send( ==> nodes.vsend(&mut self.log, 
//@subst addr.do_send( ==> addr.vsend(&mut self.log, 
//@subst "Training" ==> ()
//@end
//@extract src/training/rotation/mod.rs :: impl Handler<PCADoneMessage> for Training :: handle
//@subst fn handle( ==> fn handle_done(
//@subst ctx: &mut Self::Context) -> Self::Result ==> ctx: &mut Context)
//@subst self.reduce(); ==> self.reduce(); let ghost m = *self; proof { assert(reduced_by(*old(self), m)); }
//@subst self.rotation.broadcasted = true; ==> proof { assert(broadcast_by(m, *self)); } self.rotation.broadcasted = true;
//@spec
    requires has_result(*old(self)), in_turn(*old(self)),
    ensures exists|m: Training| #[trigger] reduced_by(*old(self), m) && (if old(self).rotation.n_reduced < old(self).rotation.phase_space->0.cols() { next_analysis(m, *final(self)) && in_turn(*final(self)) && wf(*final(self)) }
        // all dimensions are reduced
        else { exists|b: Training| #[trigger] broadcast_by(m, b) && *final(self) == (Training { rotation: Rotation { broadcasted: true, ..b.rotation }, ..b }) }),
//@end
//@extract src/training/rotation/mod.rs :: impl Handler<RotationMatrixMessage> for Training :: handle
//@subst fn handle( ==> fn handle_matrix(
//@subst ctx: &mut Self::Context) -> Self::Result ==> ctx: &mut Context)
//@spec
    ensures ({ let t = *old(self); let u = *final(self);
        // not all dimensions are reduced yet: it is kept
        if !t.rotation.broadcasted { u == (Training { rotation: Rotation { rotation_matrix_buffer: Some(msg), ..t.rotation }, ..t }) }
        // applied once, and the stage is done
        else { u.applied@ == t.applied@.push(msg.rotation_matrix) && u.log.evs@ == t.log.evs@.push(Ev::Done) && u.rotation == t.rotation && u.cluster_nodes == t.cluster_nodes && u.parameters == t.parameters } }),
//@subst ctx.address().do_send( ==> ctx.address().vsend(&mut self.log, 
//@end
}
} // verus!
fn main() {}
