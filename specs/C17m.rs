//! f32 values are reals; division by zero is excluded: the reference vector is not zero and not on the z axis.
//! ndarray's stacking, reshaping (row-major), broadcasting and matrix product are as documented; ndarray-linalg's norm is the Euclidean one.
//@include base.rs
//@include coll.rs
//@include float.rs
//@include nd.rs
verus! {
pub open spec fn d3(a: Seq<Seq<F>>, k: int, b: Seq<Seq<F>>, l: int) -> real { a[0][k].r() * b[0][l].r() + a[1][k].r() * b[1][l].r() + a[2][k].r() * b[2][l].r() }
// sum of the squares of three numbers
pub open spec fn sq3(a: Seq<F>) -> real { a[0].r() * a[0].r() + a[1].r() * a[1].r() + a[2].r() * a[2].r() }
// element k of block q of length n
pub closed spec fn blk(a: Seq<F>, n: int, q: int, k: int) -> F { a[q * n + k] }
pub open spec fn shapes(a: Seq<F>, n: int, m: int) -> bool { a.len() == n * m }
pub fn use_ops() { }
impl vstd::std_specs::core::IndexSpecImpl<usize> for A1 { open spec fn index_req(&self, i: &usize) -> bool { *i < self@.len() } }
impl core::ops::Index<usize> for A1 { type Output = F; #[verifier::external_body] fn index(&self, i: usize) -> (r: &F) ensures i < self@.len() ==> *r == self@[i as int] { unimplemented!() } }
#[verifier::external_body] pub fn arr1(v: &[F; 3]) -> (r: A1) ensures r@.len() == 3, r@[0] == v[0], r@[1] == v[1], r@[2] == v[2] { unimplemented!() }
pub struct Three(pub usize, pub usize, pub usize);
impl A1 {
    #[verifier::external_body] pub fn vview(&self) -> (r: A1) ensures r == *self { unimplemented!() }
    // the norm of a vector of three
    #[verifier::external_body] pub fn norm(&self) -> (q: F) ensures q.r() >= 0real, self@.len() == 3 ==> q.r() * q.r() == sq3(self@) && (sq3(self@) > 0real ==> q.r() > 0real) { unimplemented!() }
    #[verifier::external_body] pub fn vrows(&self, s: (usize, usize)) -> (r: Option<A2>) requires self@.len() == s.0 * s.1 || s.1 == 1 && self@.len() == s.0 || s.0 == 1 && self@.len() == s.1 ensures r is Some, r->0@.len() == s.0, r->0.cols() == s.1, forall|i: int, k: int| 0 <= i < s.0 && 0 <= k < s.1 ==> #[trigger] r->0@[i][k] == blk(self@, s.1 as int, i, k), s.0 == 1 ==> r->0@[0] == self@, s.1 == 1 ==> forall|i: int| 0 <= i < s.0 ==> #[trigger] r->0@[i][0] == self@[i] { unimplemented!() }
    #[verifier::external_body] pub fn vcube(&self, s: (usize, usize, usize)) -> (r: Option<A3>) requires s.0 == 3, s.1 == 3, self@.len() == 9 * s.2 ensures r is Some, r->0@.len() == 3, r->0.rows() == 3, r->0.cols() == s.2, forall|i: int, j: int, k: int| 0 <= i < 3 && 0 <= j < 3 && 0 <= k < s.2 ==> #[trigger] r->0@[i][j][k] == blk(self@, s.2 as int, 3 * i + j, k) { unimplemented!() }
    #[verifier::external_body] pub fn zeros(n: usize) -> (r: A1) ensures r@.len() == n, forall|k: int| 0 <= k < n ==> (#[trigger] r@[k]).r() == 0real { unimplemented!() }
}
impl It<F> { #[verifier::external_body] pub fn collect_a1(self) -> (r: A1) requires self.pos() == 0 ensures r@ == self.all() { unimplemented!() } }
pub open spec fn column(a: Seq<Seq<F>>, k: int) -> Seq<F> { Seq::new(a.len(), |i: int| a[i][k]) }
impl A2 {
    #[verifier::external_body] pub fn eye(n: usize) -> (r: A2) ensures r@.len() == n, r.cols() == n, forall|i: int, k: int| 0 <= i < n && 0 <= k < n ==> (#[trigger] r@[i][k]).r() == (if i == k { 1real } else { 0real }) { unimplemented!() }
    #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self@.len() * self.cols() { unimplemented!() }
    #[verifier::external_body] pub fn vview(&self) -> (r: &A2) ensures *r == *self { unimplemented!() }
    #[verifier::external_body] pub fn vflat(&self, n: usize) -> (r: Option<A1>) requires n == self@.len() * self.cols() ensures r is Some, r->0@.len() == n, forall|i: int, k: int| 0 <= i < self@.len() && 0 <= k < self.cols() ==> blk(r->0@, self.cols() as int, i, k) == #[trigger] self@[i][k] { unimplemented!() }
    #[verifier::external_body] pub fn t(&self) -> (q: &A2) ensures q@.len() == self.cols(), q.cols() == self@.len(), forall|i: int, k: int| 0 <= i < q@.len() && 0 <= k < q.cols() ==> #[trigger] q@[i][k] == self@[k][i] { unimplemented!() }
    #[verifier::external_body] pub fn row(&self, i: usize) -> (r: A1) requires i < self@.len() ensures r@ == self@[i as int], r@.len() == self.cols() { unimplemented!() }
    #[verifier::external_body] pub fn index_axis(&self, a: Axis, i: usize) -> (r: A1) requires a.0 <= 1, a.0 == 0 ==> i < self@.len(), a.0 == 1 ==> i < self.cols() ensures a.0 == 0 ==> r@ == self@[i as int] && r@.len() == self.cols(), a.0 == 1 ==> r@ == column(self@, i as int) { unimplemented!() }
    #[verifier::external_body] pub fn axis_iter(&self, a: Axis) -> (r: It<A1>) requires a.0 <= 1 ensures r.pos() == 0, a.0 == 0 ==> r.all().len() == self@.len() && forall|i: int| 0 <= i < self@.len() ==> (#[trigger] r.all()[i])@ == self@[i], a.0 == 1 ==> r.all().len() == self.cols() && forall|k: int| 0 <= k < self.cols() ==> (#[trigger] r.all()[k])@ == column(self@, k) { unimplemented!() }
    // product with a matrix of three rows
    #[verifier::external_body] pub fn dot(&self, o: &A2) -> (q: A2) requires self.cols() == o@.len(), o@.len() == 3 ensures q@.len() == self@.len(), q.cols() == o.cols(), forall|i: int, k: int| 0 <= i < q@.len() && 0 <= k < q.cols() ==> (#[trigger] q@[i][k]).r() == self@[i][0].r() * o@[0][k].r() + self@[i][1].r() * o@[1][k].r() + self@[i][2].r() * o@[2][k].r() { unimplemented!() }
}
impl A3 {
    #[verifier::external_body] pub fn vfirst(&self) -> (r: A2) requires self@.len() >= 1 ensures r@ == self@[0], r.cols() == self.cols() { unimplemented!() }
    #[verifier::external_body] pub fn axis_iter(&self, a: Axis) -> (r: It<A2>) requires a.0 == 2 ensures r.pos() == 0, r.all().len() == self.cols(), forall|k: int| 0 <= k < self.cols() ==> plane_of(#[trigger] r.all()[k], *self, k) { unimplemented!() }
}
pub open spec fn plane_of(p: A2, a: A3, k: int) -> bool { p@.len() == a@.len() && p.cols() == a.rows() && forall|i: int, j: int| 0 <= i < a@.len() && 0 <= j < a.rows() ==> #[trigger] p@[i][j] == a@[i][j][k] }
#[verifier::external_body] pub fn vconcat(a: Axis, v: &[A1; 9], Ghost(n): Ghost<int>) -> (r: Option<A1>) requires a.0 == 0, forall|q: int| 0 <= q < 9 ==> (#[trigger] v[q])@.len() == n ensures r is Some, r->0@.len() == 9 * n, forall|q: int, k: int| 0 <= q < 9 && 0 <= k < n ==> #[trigger] blk(r->0@, n, q, k) == v[q]@[k] { unimplemented!() }
#[verifier::external_body] pub fn vcopies(a: Axis, f: A1, n: usize) -> (r: Option<A1>) requires a.0 == 0 ensures r is Some, r->0@.len() == f@.len() * n, forall|q: int, k: int| 0 <= q < n && 0 <= k < f@.len() ==> #[trigger] blk(r->0@, f@.len() as int, q, k) == f@[k] { unimplemented!() }
#[verifier::external_body] pub fn vall(c: &A2) -> (r: A1) ensures r@.len() == c@.len() * c.cols(), forall|q: int, k: int| 0 <= q < c@.len() && 0 <= k < c.cols() ==> #[trigger] blk(r@, c.cols() as int, q, k) == c@[q][k] { unimplemented!() }
// vectors of length w as rows
#[verifier::external_body] pub fn vstack_rows(a: Axis, v: &Vec<A1>) -> (r: A2) requires a.0 == 0, v@.len() >= 1, forall|i: int| 0 <= i < v@.len() ==> (#[trigger] v@[i])@.len() == 3 ensures r@.len() == v@.len(), r.cols() == 3, forall|i: int| 0 <= i < v@.len() ==> #[trigger] r@[i] == v@[i]@ { unimplemented!() }
// matrices as planes along the last axis
#[verifier::external_body] pub fn vstack_planes(a: Axis, v: &Vec<A2>) -> (r: A3) requires a.0 == 2, v@.len() >= 1, forall|i: int| 0 <= i < v@.len() ==> (#[trigger] v@[i])@.len() == 3 && v@[i].cols() == 3 ensures r@.len() == 3, r.rows() == 3, r.cols() == v@.len(), forall|k: int| 0 <= k < v@.len() ==> plane_of(#[trigger] v@[k], r, k) { unimplemented!() }
// ---- operators ----
pub open spec fn bc(r: A2, i: int, k: int) -> real { if r@.len() == 1 { r@[0][k].r() } else { r@[i][k].r() } }
} // verus!
use core::ops::Mul;
macro_rules! aom { ($nz:expr, $tr:ident, $sp:ident, $obeys:ident, $req:ident, $spec:ident, $m:ident, $o:tt) => { verus! {
impl vstd::std_specs::ops::$sp<A2> for A2 {
  open spec fn $obeys() -> bool { false }
  open spec fn $req(self, r: A2) -> bool { (self@.len() == r@.len() || r@.len() == 1) && self.cols() == r.cols() && ($nz || forall|i: int, k: int| 0 <= i < r@.len() && 0 <= k < r.cols() ==> (#[trigger] r@[i][k]).r() != 0real) }
  open spec fn $spec(self, r: A2) -> A2 { arbitrary() }
}
impl core::ops::$tr<A2> for A2 { type Output = A2; #[verifier::external_body] fn $m(self, r: A2) -> (q: A2) ensures q@.len() == self@.len(), q.cols() == self.cols(), forall|i: int, k: int| 0 <= i < q@.len() && 0 <= k < q.cols() ==> (#[trigger] q@[i][k]).r() == self@[i][k].r() $o bc(r, i, k) { unimplemented!() } }
} } }
aom!(true, Mul, MulSpecImpl, obeys_mul_spec, mul_req, mul_spec, mul, *);
aom!(false, Div, DivSpecImpl, obeys_div_spec, div_req, div_spec, div, /);
verus! {
impl vstd::std_specs::ops::MulSpecImpl<F> for &A2 { open spec fn obeys_mul_spec() -> bool { false } open spec fn mul_req(self, r: F) -> bool { true } open spec fn mul_spec(self, r: F) -> A2 { arbitrary() } }
impl core::ops::Mul<F> for &A2 { type Output = A2; #[verifier::external_body] fn mul(self, r: F) -> (q: A2) ensures q@.len() == self@.len(), q.cols() == self.cols(), forall|i: int, k: int| 0 <= i < q@.len() && 0 <= k < q.cols() ==> (#[trigger] q@[i][k]).r() == self@[i][k].r() * r.r() { unimplemented!() } }
impl vstd::std_specs::ops::SubSpecImpl<A2> for F { open spec fn obeys_sub_spec() -> bool { false } open spec fn sub_req(self, r: A2) -> bool { true } open spec fn sub_spec(self, r: A2) -> A2 { arbitrary() } }
impl core::ops::Sub<A2> for F { type Output = A2; #[verifier::external_body] fn sub(self, r: A2) -> (q: A2) ensures q@.len() == r@.len(), q.cols() == r.cols(), forall|i: int, k: int| 0 <= i < q@.len() && 0 <= k < q.cols() ==> (#[trigger] q@[i][k]).r() == self.r() - r@[i][k].r() { unimplemented!() } }
impl vstd::std_specs::ops::AddSpecImpl<A3> for A3 { open spec fn obeys_add_spec() -> bool { false } open spec fn add_req(self, r: A3) -> bool { self@.len() == r@.len() && self.rows() == r.rows() && self.cols() == r.cols() } open spec fn add_spec(self, r: A3) -> A3 { arbitrary() } }
impl core::ops::Add<A3> for A3 { type Output = A3; #[verifier::external_body] fn add(self, r: A3) -> (q: A3) ensures q@.len() == self@.len(), q.rows() == self.rows(), q.cols() == self.cols(), forall|i: int, j: int, k: int| 0 <= i < q@.len() && 0 <= j < q.rows() && 0 <= k < q.cols() ==> (#[trigger] q@[i][j][k]).r() == self@[i][j][k].r() + r@[i][j][k].r() { unimplemented!() } }
impl vstd::std_specs::ops::MulSpecImpl<A2> for A3 { open spec fn obeys_mul_spec() -> bool { false } open spec fn mul_req(self, r: A2) -> bool { r@.len() == 1 && self.cols() == r.cols() } open spec fn mul_spec(self, r: A2) -> A3 { arbitrary() } }
impl core::ops::Mul<A2> for A3 { type Output = A3; #[verifier::external_body] fn mul(self, r: A2) -> (q: A3) ensures q@.len() == self@.len(), q.rows() == self.rows(), q.cols() == self.cols(), forall|i: int, j: int, k: int| 0 <= i < q@.len() && 0 <= j < q.rows() && 0 <= k < q.cols() ==> (#[trigger] q@[i][j][k]).r() == self@[i][j][k].r() * r@[0][k].r() { unimplemented!() } }

// ---- helpers of /repo ----
//@extract src/utils/ndarray_extensions/mod.rs :: fn norm
//@ret r
//@rename view=vview
//@spec
    requires axis.0 == 0, a@.len() == 3,
    ensures r@.len() == a.cols(), forall|k: int| 0 <= k < a.cols() ==> (#[trigger] r@[k]).r() >= 0real && r@[k].r() * r@[k].r() == sq3(column(a@, k)) && (sq3(column(a@, k)) > 0real ==> r@[k].r() > 0real),
//@subst ArrayView2<f32> ==> &A2
//@subst Array1<f32> ==> A1
//@rename collect=collect_a1
//@closure 0
|x: A1| -> (q: F) ensures q.r() >= 0real, x@.len() == 3 ==> q.r() * q.r() == sq3(x@) && (sq3(x@) > 0real ==> q.r() > 0real)
//@end
pub open spec fn crossed(q: Seq<F>, a: Seq<F>, b: Seq<F>) -> bool { q.len() == 3 && q[0].r() == a[1].r() * b[2].r() - a[2].r() * b[1].r() && q[1].r() == a[2].r() * b[0].r() - a[0].r() * b[2].r() && q[2].r() == a[0].r() * b[1].r() - a[1].r() * b[0].r() }
//@extract src/utils/ndarray_extensions/mod.rs :: fn cross1d
//@ret r
//@rename view=vview
//@spec
    requires a@.len() == 3, b@.len() == 3,
    ensures crossed(r@, a@, b@),
//@subst cross1d<A: Float>(a: ArrayView1<A>, b: ArrayView1<A>) ==> cross1d(a: A1, b: A1)
//@subst -> (r: Array1<A>) ==> -> (r: A1)
//@end
//@extract src/utils/ndarray_extensions/mod.rs :: fn cross2d
//@ret r
//@rename view=vview
//@spec
    requires axisa.0 == 0, axisb.0 == 0, a@.len() == 3, a.cols() >= 1, b@.len() == 3, b.cols() == 1,
    ensures r@.len() == a.cols(), r.cols() == 3, forall|k: int| 0 <= k < a.cols() ==> crossed(#[trigger] r@[k], column(a@, k), column(b@, 0)),
//@subst <A: Float> ==>
//@subst ArrayView2<A> ==> &A2
//@subst Vec<Array1<A>> ==> Vec<A1>
//@subst Array2<A> ==> A2
//@subst stack(axisa, crosses.iter().map(|x| x.vview()).collect::<Vec<ArrayView1<A>>>().as_slice(),).unwrap() ==> vstack_rows(axisa, &crosses)
//@closure 0
|a_: A1| -> (q: A1) requires a_@.len() == 3 ensures crossed(q@, a_@, column(b@, 0))
//@end
//@extract src/utils/ndarray_extensions/mod.rs :: fn repeat
//@ret r
//@rename view=vview
//@spec
    requires 1 <= n <= 0x1000_0000, a@.len() == 3, a.cols() == 3,
    // every element n times in a row
    ensures r@.len() == 9 * n, forall|i: int, j: int, k: int| 0 <= i < 3 && 0 <= j < 3 && 0 <= k < n ==> blk(r@, n as int, 3 * i + j, k) == #[trigger] third(a@[i][j], k),
//@subst repeat<A: Copy + Debug>(a: ArrayView2<A>, n: usize) ==> repeat(a: &A2, n: usize)
//@subst Array1<A> ==> A1
//@subst a.into_shape(a.len()) ==> a.vflat(a.len())
//@top
    proof { assert(a@.len() * a.cols() == 9) by (nonlinear_arith) requires a@.len() == 3, a.cols() == 3; }
//@tail
    proof { assert forall|i: int, j: int, k: int| 0 <= i < 3 && 0 <= j < 3 && 0 <= k < n implies c@[k][3 * i + j] == #[trigger] third(a@[i][j], k) by { assert(blk(flat@, 3, i, j) == a@[i][j]); } nine(9, n as int); }
//@subst let c = ==> proof { nine(flat@.len() as int, n as int); } let c =
//@subst concatenate(Axis(0), vec![flat.view(); n].as_slice()) ==> vcopies(Axis(0), flat.vview(), n)
//@subst .into_shape((n, a.len())) ==> .vrows((n, a.len()))
//@subst Array::from_iter(c.t().iter().cloned()) ==> vall(c.t())
//@end
pub proof fn nine(m: int, n: int) requires m == 9 ensures m * n == 9 * n, n * m == 9 * n { assert(m * n == 9 * n) by (nonlinear_arith) requires m == 9; assert(n * m == 9 * n) by (nonlinear_arith) requires m == 9; }
pub open spec fn third(x: F, k: int) -> F { x }

// ---- the rotation ----
pub struct Rotation { pub reduced_ref: Option<A3> }
pub struct Training { pub rotation: Rotation }
pub open spec fn len2(p: Seq<Seq<F>>, k: int) -> real { sq3(column(p, k)) }
// a rotation: the columns are orthonormal, and it takes the reference of dimension k to the z axis
pub open spec fn orthonormal(m: Seq<Seq<Seq<F>>>, k: int) -> bool { forall|i: int, j: int| 0 <= i < 3 && 0 <= j < 3 ==> #[trigger] colprod(m, i, j, k) == (if i == j { 1real } else { 0real }) }
pub open spec fn colprod(m: Seq<Seq<Seq<F>>>, i: int, j: int, k: int) -> real { m[0][i][k].r() * m[0][j][k].r() + m[1][i][k].r() * m[1][j][k].r() + m[2][i][k].r() * m[2][j][k].r() }
pub open spec fn image(m: Seq<Seq<Seq<F>>>, p: Seq<Seq<F>>, i: int, k: int) -> real { m[i][0][k].r() * p[0][k].r() + m[i][1][k].r() * p[1][k].r() + m[i][2][k].r() * p[2][k].r() }
pub open spec fn turns(m: Seq<Seq<Seq<F>>>, p: Seq<Seq<F>>, k: int) -> bool { image(m, p, 0, k) == 0real && image(m, p, 1, k) == 0real && image(m, p, 2, k) > 0real && image(m, p, 2, k) * image(m, p, 2, k) == len2(p, k) }
#[verifier::opaque] pub open spec fn rotation(m: Seq<Seq<Seq<F>>>, p: Seq<Seq<F>>, k: int) -> bool { orthonormal(m, k) && turns(m, p, k) }
impl Training {
//@extract src/training/rotation/mod.rs :: impl Rotator for Training :: get_rotation_matrix
//@ret r
//@rename view=vview
//@spec
    requires ({ let a = old(self).rotation.reduced_ref->0; old(self).rotation.reduced_ref is Some && a@.len() >= 1 && a.rows() == 3 && 1 <= a.cols() <= 0x1000_0000
        && forall|k: int| 0 <= k < a.cols() ==> #[trigger] off_axis(a@[0], k) }),
    ensures ({ let p = old(self).rotation.reduced_ref->0; r@.len() == 3 && r.rows() == 3 && r.cols() == p.cols() && forall|k: int| 0 <= k < p.cols() ==> #[trigger] rotation(r@, p@[0], k) }), *final(self) == *old(self),
//@floats
//@subst Array3<F> ==> A3
//@subst Array2<F> ==> A2
//@subst Array1<F> ==> A1
//@subst slice(s![0, .., ..]).to_owned() ==> vfirst()
//@subst .into_shape((1, curve_vec1.shape()[1])) ==> .vrows((1, curve_vec1.shape()[1]))
//@subst curve_vec2.into_shape((3, 1)) ==> curve_vec2.vrows((3, 1))
//@subst .into_shape((1, v.shape()[0])) ==> .vrows((1, v.shape()[0]))
//@subst identity: A2 = ArrayBase::eye(3) ==> identity: A2 = A2::eye(3)
//@subst zeros: A1 = ArrayBase::zeros( ==> zeros: A1 = A1::zeros(
//@subst .into_shape((3, 3, v.shape()[0])) ==> .vcube((3, 3, v.shape()[0]))
//@subst concatenate(Axis(0), ==> vconcat(Axis(0),
//@subst zeros.vview(), ], ) ==> zeros.vview(), ], Ghost(n) )
//@subst stack(Axis(2), k_.iter().map(|x| x.vview()).collect::<Vec<ArrayView2<F>>>().as_slice(),).unwrap() ==> vstack_planes(Axis(2), &k_)
//@closure 0
|x: A2| -> (q: A2) requires x@.len() == 3, x.cols() == 3 ensures q@.len() == 3, q.cols() == 3, squares(x, q)
//@top
    let ghost n = self.rotation.reduced_ref->0.cols() as int; let ghost p = self.rotation.reduced_ref->0@[0]; let ghost mut nvg: A2 = arbitrary();
    proof { broadcast use a3_shape; rl_one(0); rl_one(1); assert(shaped3(self.rotation.reduced_ref->0@, 3, n)); assert(p.len() == 3);
        assert forall|k: int| 0 <= k < n implies #[trigger] sq3(column(p, k)) > 0real by { assert(off_axis(p, k)); let z = p[2][k].r(); assert(z * z >= 0real) by (nonlinear_arith); } }
//@subst curve_vec1.clone() / norm(curve_vec1.vview(), Axis(0)).vrows((1, curve_vec1.shape()[1])).unwrap(); ==> { let nv = norm(curve_vec1.vview(), Axis(0)).vrows((1, curve_vec1.shape()[1])).unwrap(); proof { nvg = nv; } curve_vec1.clone() / nv };
//@subst let v = cross2d( ==> proof { assert forall|k: int| 0 <= k < n implies #[trigger] unit(a@, k) by { assert(off_axis(p, k)); assert(nvg@[0][k].r() >= 0real); assert(sq3(column(p, k)) > 0real); assert(over(p, a@, k, nvg@[0][k].r())); scaled(p, a@, k, nvg@[0][k].r()); } } let v = cross2d(
//@subst let c = b.t() ==> proof { assert forall|k: int| 0 <= k < n implies #[trigger] axis_of(v@[k], a@, k) by { cross_z(v@[k], column(a@, k), column(b@, 0)); } } let c = b.t()
//@subst let s_ = norm(v.t() ==> proof { assert forall|k: int| 0 <= k < n implies (#[trigger] c@[0][k]).r() == a@[2][k].r() by { times01(a@[0][k].r(), a@[1][k].r(), a@[2][k].r(), b@[0][0].r(), b@[1][0].r(), b@[2][0].r()); }             assert forall|k: int, vt: A2| 0 <= k < n && vt@.len() == 3 && vt.cols() == n && (forall|i: int, k: int| 0 <= i < vt@.len() && 0 <= k < vt.cols() ==> #[trigger] vt@[i][k] == v@[k][i]) implies #[trigger] sq3(column(vt@, k)) == sq2(a@, k) by { assert(axis_of(v@[k], a@, k)); flip(a@[0][k].r(), v@[k][1].r()); assert(unit(a@, k)); } } let s_ = norm(v.t()
//@subst i + k + vstack_planes(Axis(2), &k_) * ((vfl(1, 1) - c) / s_.clone().mul(s_)) ==> let ghost (ig, kg, cg, sg, ag) = (i, k, c, s_, a); let pl = vstack_planes(Axis(2), &k_); proof { assert forall|k: int| 0 <= k < n implies sg@[0][k].r() * sg@[0][k].r() == sq2(ag@, k) && sq2(ag@, k) > 0real by { assert(unit(ag@, k)); } } let ws = (vfl(1, 1) - c) / s_.clone().mul(s_); let ghost wsg = ws; let vr = i + k + pl * ws; proof { assert forall|i: int, j: int, k: int| 0 <= i < 3 && 0 <= j < 3 && 0 <= k < n implies (#[trigger] ig@[i][j][k]).r() == (if i == j { 1real } else { 0real }) by { assert(ig@[i][j][k] == third(identity@[i][j], k)); } assert forall|k: int| 0 <= k < n implies crossing(kg@, k, (#[trigger] ag@[0][k]).r(), ag@[1][k].r()) by { assert(axis_of(v@[k], ag@, k)); } assert forall|k: int| 0 <= k < n implies #[trigger] over(p, ag@, k, nvg@[0][k].r()) && nvg@[0][k].r() > 0real && nvg@[0][k].r() * nvg@[0][k].r() == len2(p, k) by { assert(sq3(column(p, k)) > 0real); } assert forall|k: int| 0 <= k < n implies #[trigger] is_plane(pl, kg, k) by { assert(plane_of(k_@[k], pl, k)); } finish(vr, ig, kg, pl, wsg, cg, sg, ag@, v, p, nvg, n); } vr
//@end
}
pub open spec fn squares(x: A2, q: A2) -> bool { forall|i: int, k: int| 0 <= i < 3 && 0 <= k < 3 ==> (#[trigger] q@[i][k]).r() == x@[i][0].r() * x@[0][k].r() + x@[i][1].r() * x@[1][k].r() + x@[i][2].r() * x@[2][k].r() }
pub open spec fn is_plane(pl: A3, kg: A3, k: int) -> bool { exists|x: A2, q: A2| #[trigger] squares(x, q) && plane_of(x, kg, k) && plane_of(q, pl, k) }
pub proof fn finish(vr: A3, ig: A3, kg: A3, pl: A3, ws: A2, c: A2, s: A2, a: Seq<Seq<F>>, v: A2, p: Seq<Seq<F>>, nv: A2, n: int)
    requires vr@.len() == 3, vr.rows() == 3, vr.cols() == n, ig@.len() == 3, ig.rows() == 3, ig.cols() == n, kg@.len() == 3, kg.rows() == 3, kg.cols() == n, pl@.len() == 3, pl.rows() == 3, pl.cols() == n, p.len() == 3,
        forall|i: int, j: int, k: int| 0 <= i < 3 && 0 <= j < 3 && 0 <= k < n ==> (#[trigger] ig@[i][j][k]).r() == (if i == j { 1real } else { 0real }),
        forall|k: int| 0 <= k < n ==> #[trigger] axis_of(v@[k], a, k),
        forall|k: int| 0 <= k < n ==> crossing(kg@, k, (#[trigger] a[0][k]).r(), a[1][k].r()),
        forall|k: int| 0 <= k < n ==> #[trigger] is_plane(pl, kg, k),
        forall|i: int, j: int, k: int| 0 <= i < 3 && 0 <= j < 3 && 0 <= k < n ==> (#[trigger] vr@[i][j][k]).r() == ig@[i][j][k].r() + kg@[i][j][k].r() + pl@[i][j][k].r() * ws@[0][k].r(),
        forall|k: int| 0 <= k < n ==> (#[trigger] ws@[0][k]).r() == (1real - c@[0][k].r()) / (s@[0][k].r() * s@[0][k].r()),
        forall|k: int| 0 <= k < n ==> (#[trigger] c@[0][k]).r() == a[2][k].r(),
        forall|k: int| 0 <= k < n ==> (#[trigger] s@[0][k]).r() * s@[0][k].r() == sq2(a, k) && sq2(a, k) > 0real,
        forall|k: int| 0 <= k < n ==> #[trigger] unit(a, k),
        forall|k: int| 0 <= k < n ==> #[trigger] over(p, a, k, nv@[0][k].r()) && nv@[0][k].r() > 0real && nv@[0][k].r() * nv@[0][k].r() == len2(p, k),
    ensures forall|k: int| 0 <= k < n ==> #[trigger] rotation(vr@, p, k)
{
    assert forall|k: int| 0 <= k < n implies #[trigger] rotation(vr@, p, k) by {
        reveal(rotation); let nn = nv@[0][k].r(); assert(over(p, a, k, nn)); assert(unit(a, k)); let x = a[0][k].r(); let y = a[1][k].r();
        assert(crossing(kg@, k, x, y)); assert(is_plane(pl, kg, k)); assert(ws@[0][k].r() == (1real - c@[0][k].r()) / (s@[0][k].r() * s@[0][k].r())); assert(s@[0][k].r() * s@[0][k].r() == sq2(a, k));
        let w = ws@[0][k].r(); let s2 = sq2(a, k); let num = 1real - a[2][k].r(); quot(num, s2, w);
        let (q, sq) = choose|x: A2, q: A2| #[trigger] squares(x, q) && plane_of(x, kg, k) && plane_of(q, pl, k);
        assert forall|i: int, j: int| 0 <= i < 3 && 0 <= j < 3 implies (#[trigger] vr@[i][j][k]).r() == (if i == j { 1real } else { 0real }) + kg@[i][j][k].r() + (kg@[i][0][k].r() * kg@[0][j][k].r() + kg@[i][1][k].r() * kg@[1][j][k].r() + kg@[i][2][k].r() * kg@[2][j][k].r()) * w by {
            assert(sq@[i][j] == pl@[i][j][k]); assert(ig@[i][j][k].r() == (if i == j { 1real } else { 0real }));
            assert(q@[i][0] == kg@[i][0][k]); assert(q@[i][1] == kg@[i][1][k]); assert(q@[i][2] == kg@[i][2][k]); assert(q@[0][j] == kg@[0][j][k]); assert(q@[1][j] == kg@[1][j][k]); assert(q@[2][j] == kg@[2][j][k]);
        }
        entries(vr@, kg@, a, k, w); turned(vr@, p, a, k, nn);
    }
}
pub open spec fn sq2(a: Seq<Seq<F>>, k: int) -> real { a[0][k].r() * a[0][k].r() + a[1][k].r() * a[1][k].r() }
// a unit vector that is not on the z axis
pub open spec fn unit(a: Seq<Seq<F>>, k: int) -> bool { sq2(a, k) > 0real && sq2(a, k) + a[2][k].r() * a[2][k].r() == 1real }
pub open spec fn axis_of(v: Seq<F>, a: Seq<Seq<F>>, k: int) -> bool { v.len() == 3 && v[0].r() == a[1][k].r() && v[1].r() == 0real - a[0][k].r() && v[2].r() == 0real }
pub proof fn flip(x: real, y: real) requires y == 0real - x ensures y * y == x * x { assert((0real - x) * (0real - x) == x * x) by (nonlinear_arith); }
pub proof fn times01(x: real, y: real, z: real, a: real, b: real, c: real) requires a == 0real, b == 0real, c == 1real ensures a * x + b * y + c * z == z, x * a == 0real, x * b == 0real, x * c == x, y * a == 0real, y * b == 0real, y * c == y, z * a == 0real, z * b == 0real, z * c == z { }
pub proof fn cross_z(q: Seq<F>, a: Seq<F>, b: Seq<F>) requires crossed(q, a, b), b[0].r() == 0real, b[1].r() == 0real, b[2].r() == 1real ensures q[0].r() == a[1].r(), q[1].r() == 0real - a[0].r(), q[2].r() == 0real { times01(a[0].r(), a[1].r(), a[2].r(), b[0].r(), b[1].r(), b[2].r()); }
pub proof fn scaled(p: Seq<Seq<F>>, a: Seq<Seq<F>>, k: int, n: real)
    requires off_axis(p, k), n > 0real, n * n == len2(p, k), over(p, a, k, n), p.len() == 3
    ensures unit(a, k)
{
    quot(p[0][k].r(), n, a[0][k].r()); quot(p[1][k].r(), n, a[1][k].r()); quot(p[2][k].r(), n, a[2][k].r());
    let x = a[0][k].r(); let y = a[1][k].r(); let z = a[2][k].r(); let nn = n * n;
    assert(p[0][k].r() * p[0][k].r() == nn * (x * x)) by (nonlinear_arith) requires p[0][k].r() == x * n, nn == n * n;
    assert(p[1][k].r() * p[1][k].r() == nn * (y * y)) by (nonlinear_arith) requires p[1][k].r() == y * n, nn == n * n;
    assert(p[2][k].r() * p[2][k].r() == nn * (z * z)) by (nonlinear_arith) requires p[2][k].r() == z * n, nn == n * n;
    let s = x * x + y * y; let t = s + z * z; let c = x * x; let d = y * y; let e = z * z; assert(nn > 0real) by (nonlinear_arith) requires n > 0real, nn == n * n;
    assert(nn * (c + d) == nn * c + nn * d) by (nonlinear_arith); assert(nn * (c + d + e) == nn * c + nn * d + nn * e) by (nonlinear_arith);
    assert(s > 0real) by (nonlinear_arith) requires nn > 0real, nn * s > 0real; assert(t == 1real) by (nonlinear_arith) requires nn > 0real, nn * t == nn;
}
pub open spec fn over(p: Seq<Seq<F>>, a: Seq<Seq<F>>, k: int, n: real) -> bool { a[0][k].r() == p[0][k].r() / n && a[1][k].r() == p[1][k].r() / n && a[2][k].r() == p[2][k].r() / n }
pub proof fn quot(a: real, n: real, q: real) requires n > 0real, q == a / n ensures a == q * n { assert(q * n == a) by (nonlinear_arith) requires n > 0real, q == a / n; }
// the entries of the rotation that takes the unit vector (x, y, z) to the z axis
pub open spec fn rodrigues(m: Seq<Seq<Seq<F>>>, a: Seq<Seq<F>>, k: int, w: real) -> bool {
    let x = a[0][k].r(); let y = a[1][k].r(); let z = a[2][k].r();
    &&& w * (x * x + y * y) == 1real - z
    &&& m[0][0][k].r() == 1real - (x * x) * w &&& m[0][1][k].r() == 0real - (x * y) * w &&& m[0][2][k].r() == 0real - x
    &&& m[1][0][k].r() == 0real - (x * y) * w &&& m[1][1][k].r() == 1real - (y * y) * w &&& m[1][2][k].r() == 0real - y
    &&& m[2][0][k].r() == x &&& m[2][1][k].r() == y &&& m[2][2][k].r() == z
}
pub proof fn ids(x: real, y: real, z: real, w: real, u: real, t: real, q: real)
    requires x * x + y * y > 0real, x * x + y * y + z * z == 1real, w * (x * x + y * y) == 1real - z, u == (x * x) * w, t == (x * y) * w, q == (y * y) * w
    ensures u + q == 1real - z, w * (1real + z) == 1real, t * y == x * q, t * x == y * u, t * t == u * q, x * x == u * (1real + z), y * y == q * (1real + z), x * y == t * (1real + z)
{
    let s = x * x + y * y; let c = x * x; let d = y * y; let e = x * y;
    assert(w * (c + d) == c * w + d * w) by (nonlinear_arith);
    assert(s == (1real - z) * (1real + z)) by (nonlinear_arith) requires s + z * z == 1real;
    assert((w * (1real + z)) * s == s) by (nonlinear_arith) requires w * s == 1real - z, s == (1real - z) * (1real + z);
    let g = w * (1real + z); assert(g == 1real) by (nonlinear_arith) requires g * s == s, s > 0real;
    assert(t * y == x * q) by (nonlinear_arith) requires t == (x * y) * w, q == (y * y) * w;
    assert(t * x == y * u) by (nonlinear_arith) requires t == (x * y) * w, u == (x * x) * w;
    assert(t * t == u * q) by (nonlinear_arith) requires t == (x * y) * w, u == (x * x) * w, q == (y * y) * w;
    let h = 1real + z;
    assert(c == u * h) by (nonlinear_arith) requires u == c * w, w * h == 1real;
    assert(d == q * h) by (nonlinear_arith) requires q == d * w, w * h == 1real;
    assert(e == t * h) by (nonlinear_arith) requires t == e * w, w * h == 1real;
}
pub proof fn ortho(x: real, y: real, z: real, u: real, t: real, q: real)
    requires u + q == 1real - z, x * x + y * y + z * z == 1real, t * y == x * q, t * x == y * u, t * t == u * q, x * x == u * (1real + z), y * y == q * (1real + z), x * y == t * (1real + z)
    ensures (1real - u) * (1real - u) + (0real - t) * (0real - t) + x * x == 1real, (0real - t) * (0real - t) + (1real - q) * (1real - q) + y * y == 1real, (0real - x) * (0real - x) + (0real - y) * (0real - y) + z * z == 1real,
        (1real - u) * (0real - t) + (0real - t) * (1real - q) + x * y == 0real, (1real - u) * (0real - x) + (0real - t) * (0real - y) + x * z == 0real, (0real - t) * (0real - x) + (1real - q) * (0real - y) + y * z == 0real,
        (1real - u) * x + (0real - t) * y + (0real - x) * z == 0real, (0real - t) * x + (1real - q) * y + (0real - y) * z == 0real
{
    let h = 1real + z; assert(u + q == 2real - h);
    assert(u * u + u * q == u * (2real - h)) by (nonlinear_arith) requires u + q == 2real - h;
    assert(u * (2real - h) == 2real * u - u * h) by (nonlinear_arith);
    assert((1real - u) * (1real - u) == 1real - 2real * u + u * u) by (nonlinear_arith);
    flip(t, 0real - t);
    assert(q * q + u * q == q * (2real - h)) by (nonlinear_arith) requires u + q == 2real - h;
    assert(q * (2real - h) == 2real * q - q * h) by (nonlinear_arith);
    assert((1real - q) * (1real - q) == 1real - 2real * q + q * q) by (nonlinear_arith);
    flip(x, 0real - x); flip(y, 0real - y);
    assert((1real - u) * (0real - t) == u * t - t) by (nonlinear_arith); assert((0real - t) * (1real - q) == t * q - t) by (nonlinear_arith);
    assert(u * t + t * q == t * (2real - h)) by (nonlinear_arith) requires u + q == 2real - h;
    assert(t * (2real - h) == 2real * t - t * h) by (nonlinear_arith);
    assert((1real - u) * (0real - x) == u * x - x) by (nonlinear_arith); assert((0real - t) * (0real - y) == t * y) by (nonlinear_arith);
    assert(u * x + x * q == x * (1real - z)) by (nonlinear_arith) requires u + q == 1real - z; assert(x * (1real - z) == x - x * z) by (nonlinear_arith);
    assert((1real - q) * (0real - y) == q * y - y) by (nonlinear_arith); assert((0real - t) * (0real - x) == t * x) by (nonlinear_arith);
    assert(u * y + y * q == y * (1real - z)) by (nonlinear_arith) requires u + q == 1real - z; assert(y * (1real - z) == y - y * z) by (nonlinear_arith);
    assert((1real - u) * x == x - u * x) by (nonlinear_arith); assert((0real - t) * y == 0real - t * y) by (nonlinear_arith); assert((0real - x) * z == 0real - x * z) by (nonlinear_arith);
    assert((1real - q) * y == y - q * y) by (nonlinear_arith); assert((0real - t) * x == 0real - t * x) by (nonlinear_arith); assert((0real - y) * z == 0real - y * z) by (nonlinear_arith);
    assert(u * x == x * u) by (nonlinear_arith); assert(u * y == y * u) by (nonlinear_arith); assert(q * y == y * q) by (nonlinear_arith);
}
pub proof fn swap(a: real, b: real) ensures a * b == b * a { assert(a * b == b * a) by (nonlinear_arith); }
pub proof fn turned(m: Seq<Seq<Seq<F>>>, p: Seq<Seq<F>>, a: Seq<Seq<F>>, k: int, n: real)
    requires exists|w: real| rodrigues(m, a, k, w), unit(a, k), n > 0real, n * n == len2(p, k), over(p, a, k, n), p.len() == 3
    ensures orthonormal(m, k), turns(m, p, k)
{
    let w = choose|w: real| rodrigues(m, a, k, w);
    let x = a[0][k].r(); let y = a[1][k].r(); let z = a[2][k].r(); let u = (x * x) * w; let t = (x * y) * w; let q = (y * y) * w;
    ids(x, y, z, w, u, t, q); ortho(x, y, z, u, t, q);
    assert forall|i: int, j: int| 0 <= i < 3 && 0 <= j < 3 implies #[trigger] colprod(m, i, j, k) == (if i == j { 1real } else { 0real }) by {
        swap(1real - u, 0real - t); swap(0real - t, 1real - q); swap(x, y); swap(1real - u, 0real - x); swap(0real - t, 0real - y); swap(x, z); swap(0real - t, 0real - x); swap(1real - q, 0real - y); swap(y, z);
    }
    quot(p[0][k].r(), n, x); quot(p[1][k].r(), n, y); quot(p[2][k].r(), n, z);
    lin(1real - u, 0real - t, 0real - x, x, y, z, n); lin(0real - t, 1real - q, 0real - y, x, y, z, n); lin(x, y, z, x, y, z, n);
}
pub proof fn lin(a: real, b: real, c: real, x: real, y: real, z: real, n: real) ensures a * (x * n) + b * (y * n) + c * (z * n) == (a * x + b * y + c * z) * n
{ assert(a * (x * n) == (a * x) * n) by (nonlinear_arith); assert(b * (y * n) == (b * y) * n) by (nonlinear_arith); assert(c * (z * n) == (c * z) * n) by (nonlinear_arith); let d = a * x; let e = b * y; let f = c * z; assert((d + e + f) * n == d * n + e * n + f * n) by (nonlinear_arith); }
// identity + K + K squared times (1 - c) / s^2
pub open spec fn summed(m: Seq<Seq<Seq<F>>>, kk: Seq<Seq<Seq<F>>>, k: int, w: real) -> bool { forall|i: int, j: int| 0 <= i < 3 && 0 <= j < 3 ==> (#[trigger] m[i][j][k]).r() == (if i == j { 1real } else { 0real }) + kk[i][j][k].r() + (kk[i][0][k].r() * kk[0][j][k].r() + kk[i][1][k].r() * kk[1][j][k].r() + kk[i][2][k].r() * kk[2][j][k].r()) * w }
pub open spec fn crossing(kk: Seq<Seq<Seq<F>>>, k: int, x: real, y: real) -> bool {
    &&& kk[0][0][k].r() == 0real &&& kk[0][1][k].r() == 0real &&& kk[0][2][k].r() == 0real - x
    &&& kk[1][0][k].r() == 0real &&& kk[1][1][k].r() == 0real &&& kk[1][2][k].r() == 0real - y
    &&& kk[2][0][k].r() == x &&& kk[2][1][k].r() == y &&& kk[2][2][k].r() == 0real
}
pub proof fn entries(m: Seq<Seq<Seq<F>>>, kk: Seq<Seq<Seq<F>>>, a: Seq<Seq<F>>, k: int, w: real)
    requires summed(m, kk, k, w), crossing(kk, k, a[0][k].r(), a[1][k].r()), unit(a, k), w * sq2(a, k) == 1real - a[2][k].r()
    ensures rodrigues(m, a, k, w)
{
    let x = a[0][k].r(); let y = a[1][k].r(); let z = a[2][k].r();
    assert(m[0][0][k].r() == 1real + 0real + (0real * 0real + 0real * 0real + (0real - x) * x) * w);
    neg(x, x, w); neg(x, y, w); neg(y, x, w); neg(y, y, w); swap(x, y);
    assert(m[0][1][k].r() == 0real + 0real + (0real * 0real + 0real * 0real + (0real - x) * y) * w);
    assert(m[1][0][k].r() == 0real + 0real + (0real * 0real + 0real * 0real + (0real - y) * x) * w);
    assert(m[1][1][k].r() == 1real + 0real + (0real * 0real + 0real * 0real + (0real - y) * y) * w);
    let e = 0real - x; let f = 0real - y; let zz = 0real;
    assert(zz * e == 0real && zz * f == 0real && x * zz == 0real && y * zz == 0real && e * zz == 0real && f * zz == 0real && zz * x == 0real && zz * y == 0real) by (nonlinear_arith) requires zz == 0real;
    swap(x, e); swap(y, f); neg(x, x, w); neg(y, y, w);
    let d = e * x + f * y; assert(d * w == z - 1real) by { neg(x, x, w); neg(y, y, w); let g = e * x; let h = f * y; assert((g + h) * w == g * w + h * w) by (nonlinear_arith); let i = x * x; let j = y * y; assert(w * (i + j) == i * w + j * w) by (nonlinear_arith); }
    assert(m[2][2][k].r() == 1real + 0real + (x * e + y * f + 0real * 0real) * w);
    assert(m[0][2][k].r() == 0real + e + (0real * e + 0real * f + e * 0real) * w);
    assert(m[1][2][k].r() == 0real + f + (0real * e + 0real * f + f * 0real) * w);
    assert(m[2][0][k].r() == 0real + x + (x * 0real + y * 0real + 0real * x) * w);
    assert(m[2][1][k].r() == 0real + y + (x * 0real + y * 0real + 0real * y) * w);
}
pub proof fn neg(x: real, y: real, w: real) ensures ((0real - x) * y) * w == 0real - (x * y) * w { let e = x * y; assert((0real - x) * y == 0real - e) by (nonlinear_arith) requires e == x * y; assert((0real - e) * w == 0real - e * w) by (nonlinear_arith); }
// not zero, not on the z axis
pub open spec fn off_axis(p: Seq<Seq<F>>, k: int) -> bool { p[0][k].r() * p[0][k].r() + p[1][k].r() * p[1][k].r() > 0real }
} // verus!
fn main() {}
