//! f32 is exact real arithmetic (rounding is not modelled; the native replay runs the real f32): ndarray-linalg's inv, if it succeeds, is the inverse; cos, sin and pi are uninterpreted.
//! a shared point is not changed while the function runs.
//@include base.rs
//@include coll.rs
//@include float.rs
//@include nd.rs
//@include points.rs
macro_rules! aop { ($a:ty, $b:ty, $tr:ident, $sp:ident, $obeys:ident, $req:ident, $spec:ident, $m:ident, $same:ident, $o:tt) => { verus! {
impl vstd::std_specs::ops::$sp<$b> for $a {
  open spec fn $obeys() -> bool { false }
  open spec fn $req(self, r: $b) -> bool { self@.len() == r@.len() }
  open spec fn $spec(self, r: $b) -> A1 { arbitrary() }
}
impl core::ops::$tr<$b> for $a { type Output = A1; #[verifier::external_body] fn $m(self, r: $b) -> (q: A1) ensures q@.len() == self@.len(), forall|k: int| 0 <= k < q@.len() ==> (#[trigger] q@[k]).r() == self@[k].r() $o r@[k].r() { unimplemented!() } }
} } }
aop!(A1, A1, Sub, SubSpecImpl, obeys_sub_spec, sub_req, sub_spec, sub, same, -);
aop!(A1, &A1, Sub, SubSpecImpl, obeys_sub_spec, sub_req, sub_spec, sub, same, -);
aop!(A1, A1, Add, AddSpecImpl, obeys_add_spec, add_req, add_spec, add, same, +);
aop!(A1, &A1, Add, AddSpecImpl, obeys_add_spec, add_req, add_spec, add, same, +);
macro_rules! aof { ($nz:expr, $a:ty, $tr:ident, $sp:ident, $obeys:ident, $req:ident, $spec:ident, $m:ident, $o:tt) => { verus! {
impl vstd::std_specs::ops::$sp<F> for $a {
  open spec fn $obeys() -> bool { false }
  open spec fn $req(self, r: F) -> bool { r.r() != 0real || $nz }
  open spec fn $spec(self, r: F) -> A1 { arbitrary() }
}
impl core::ops::$tr<F> for $a { type Output = A1; #[verifier::external_body] fn $m(self, r: F) -> (q: A1) ensures q@.len() == self@.len(), forall|k: int| 0 <= k < q@.len() ==> (#[trigger] q@[k]).r() == self@[k].r() $o r.r() { unimplemented!() } }
} } }
aof!(true, A1, Mul, MulSpecImpl, obeys_mul_spec, mul_req, mul_spec, mul, *);
aof!(true, &A1, Mul, MulSpecImpl, obeys_mul_spec, mul_req, mul_spec, mul, *);
macro_rules! aom { ($tr:ident, $sp:ident, $obeys:ident, $req:ident, $spec:ident, $m:ident, $o:tt) => { verus! {
impl vstd::std_specs::ops::$sp<A2> for A2 {
  open spec fn $obeys() -> bool { false }
  open spec fn $req(self, r: A2) -> bool { self@.len() == r@.len() && self.cols() == r.cols() }
  open spec fn $spec(self, r: A2) -> A2 { arbitrary() }
}
impl core::ops::$tr<A2> for A2 { type Output = A2; #[verifier::external_body] fn $m(self, r: A2) -> (q: A2) ensures q@.len() == self@.len(), q.cols() == self.cols(), forall|i: int, k: int| 0 <= i < q@.len() && 0 <= k < q.cols() ==> (#[trigger] q@[i][k]).r() == self@[i][k].r() $o r@[i][k].r() { unimplemented!() } }
} } }
aom!(Sub, SubSpecImpl, obeys_sub_spec, sub_req, sub_spec, sub, -);
verus! {
// ---- sums over indices -----------------------------------------------------------------------------
pub type Fun = spec_fn(int) -> real;
pub open spec fn sum(f: Fun, n: int) -> real decreases n { if n <= 0 { 0real } else { sum(f, n - 1) + f(n - 1) } }
pub proof fn sum_eq(f: Fun, g: Fun, n: int) requires forall|i: int| 0 <= i < n ==> #[trigger] f(i) == g(i) ensures sum(f, n) == sum(g, n) decreases n { if n > 0 { sum_eq(f, g, n - 1); assert(f(n - 1) == g(n - 1)); } }
pub proof fn sum_add(f: Fun, g: Fun, h: Fun, n: int) requires forall|i: int| 0 <= i < n ==> #[trigger] h(i) == f(i) + g(i) ensures sum(h, n) == sum(f, n) + sum(g, n) decreases n { if n > 0 { sum_add(f, g, h, n - 1); assert(h(n - 1) == f(n - 1) + g(n - 1)); } }
pub proof fn sum_scale(f: Fun, g: Fun, k: real, n: int) requires forall|i: int| 0 <= i < n ==> #[trigger] g(i) == k * f(i) ensures sum(g, n) == k * sum(f, n) decreases n {
    if n > 0 { sum_scale(f, g, k, n - 1); assert(g(n - 1) == k * f(n - 1)); let a = sum(f, n - 1); let b = f(n - 1); assert(k * (a + b) == k * a + k * b) by (nonlinear_arith); } else { assert(k * 0real == 0real) by (nonlinear_arith); }
}
pub open spec fn rowf(a: spec_fn(int, int) -> real, m: int) -> Fun { |i: int| sum(|j: int| a(i, j), m) }
pub open spec fn colf(a: spec_fn(int, int) -> real, n: int) -> Fun { |j: int| sum(|i: int| a(i, j), n) }
// a double sum may be taken in either order
pub proof fn sum_swap(a: spec_fn(int, int) -> real, n: int, m: int) requires n >= 0, m >= 0 ensures sum(rowf(a, m), n) == sum(colf(a, n), m) decreases n {
    if n == 0 { assert forall|j: int| 0 <= j < m implies #[trigger] colf(a, 0)(j) == (|j: int| 0real)(j) by { } sum_eq(colf(a, 0), |j: int| 0real, m); sum_zero(|j: int| 0real, m); }
    else {
        sum_swap(a, n - 1, m); let last: Fun = |j: int| a(n - 1, j);
        assert forall|j: int| 0 <= j < m implies #[trigger] colf(a, n)(j) == colf(a, n - 1)(j) + last(j) by { let f: Fun = |i: int| a(i, j); assert(sum(f, n) == sum(f, n - 1) + f(n - 1)); }
        sum_add(colf(a, n - 1), last, colf(a, n), m);
        assert(rowf(a, m)(n - 1) == sum(last, m)) by { sum_eq(|j: int| a(n - 1, j), last, m); }
    }
}
pub proof fn sum_zero(f: Fun, n: int) requires forall|i: int| 0 <= i < n ==> #[trigger] f(i) == 0real ensures sum(f, n) == 0real decreases n { if n > 0 { sum_zero(f, n - 1); assert(f(n - 1) == 0real); } }
pub proof fn sum_one(f: Fun, c: int, n: int) requires 0 <= c < n, forall|i: int| 0 <= i < n && i != c ==> #[trigger] f(i) == 0real ensures sum(f, n) == f(c) decreases n {
    if c == n - 1 { sum_zero(f, n - 1); } else { sum_one(f, c, n - 1); assert(f(n - 1) == 0real); }
}
pub proof fn sum_first(f: Fun, g: Fun, n: int) requires n >= 1, forall|i: int| 0 <= i < n - 1 ==> #[trigger] g(i) == f(i + 1) ensures sum(f, n) == f(0) + sum(g, n - 1) decreases n { if n == 1 { assert(sum(f, 1) == sum(f, 0) + f(0)); } else { sum_first(f, g, n - 1); assert(g(n - 2) == f(n - 1)); } }
// ---- matrices ----------------------------------------------------------------------------------------
pub open spec fn el(a: Seq<Seq<F>>, i: int, j: int) -> real { a[i][j].r() }
pub open spec fn unit(i: int, j: int) -> real { if i == j { 1real } else { 0real } }
pub open spec fn prod(a: Seq<Seq<F>>, b: Seq<Seq<F>>, i: int, j: int, n: int) -> real { sum(|k: int| el(a, i, k) * el(b, k, j), n) }
pub open spec fn inverse(a: Seq<Seq<F>>, b: Seq<Seq<F>>, n: int) -> bool { forall|i: int, j: int| 0 <= i < n && 0 <= j < n ==> #[trigger] prod(a, b, i, j, n) == unit(i, j) && prod(b, a, i, j, n) == unit(i, j) }
pub open spec fn dots(a: Seq<F>, b: Seq<F>, n: int) -> real { sum(|k: int| a[k].r() * b[k].r(), n) }
impl A2 {
    #[verifier::external_body] pub fn inv(&self) -> (q: Result<A2, IntersectionError>) ensures q is Ok ==> self@.len() == self.cols() && q->Ok_0@.len() == self@.len() && q->Ok_0.cols() == self.cols() && inverse(q->Ok_0@, self@, self@.len() as int) { unimplemented!() }
    #[verifier::external_body] pub fn t(&self) -> (q: A2) ensures q@.len() == self.cols(), q.cols() == self@.len(), forall|i: int, j: int| 0 <= i < q@.len() && 0 <= j < q.cols() ==> #[trigger] q@[i][j] == self@[j][i] { unimplemented!() }
    #[verifier::external_body] pub fn dot(&self, v: &A1) -> (q: A1) requires self.cols() == v@.len() ensures q@.len() == self@.len(), forall|i: int| 0 <= i < q@.len() ==> (#[trigger] q@[i]).r() == dots(self@[i], v@, v@.len() as int) { unimplemented!() }
    #[verifier::external_body] pub fn vown(&self) -> (q: A2) ensures q == *self { unimplemented!() }
    #[verifier::external_body] pub fn vview(&self) -> (q: A2) ensures q == *self { unimplemented!() }
}
impl A1 {
    #[verifier::external_body] pub fn shape(&self) -> (r: Shape) ensures r.v@ == seq![self@.len()] { unimplemented!() }
    #[verifier::external_body] pub fn vown(&self) -> (q: A1) ensures q == *self { unimplemented!() }
    #[verifier::external_body] pub fn vview(&self) -> (q: A1) ensures q == *self { unimplemented!() }
    #[verifier::external_body] pub fn vat(&self, i: usize) -> (q: F) requires i < self@.len() ensures q == self@[i as int] { unimplemented!() }
    // every row is self, if the shapes fit
    #[verifier::external_body] pub fn broadcast(&self, d: Dim) -> (q: Option<A2>) ensures d.0.1 == self@.len() ==> q is Some, q is Some ==> q->0@.len() == d.0.0 && q->0.cols() == d.0.1 && (d.0.1 == self@.len() ==> forall|i: int| 0 <= i < d.0.0 ==> #[trigger] q->0@[i] == self@) { unimplemented!() }
}
pub struct Dim(pub (usize, usize));
pub struct IntersectionError;
// ndarray: one after the other, if they have the same columns
#[verifier::external_body] pub fn vconcat(a: A2, b: A2) -> (q: Result<A2, IntersectionError>) ensures a.cols() == b.cols() ==> q is Ok, q is Ok ==> q->Ok_0@ == a@ + b@ && q->Ok_0.cols() == a.cols() && a.cols() == b.cols() { unimplemented!() }
// x lies on the line through rows 0 and 1 of l
pub open spec fn on_line(x: Seq<F>, l: Seq<Seq<F>>, t: real) -> bool { x.len() == l[0].len() && forall|c: int| 0 <= c < x.len() ==> (#[trigger] x[c]).r() == el(l, 0, c) + t * (el(l, 1, c) - el(l, 0, c)) }
// x lies in the plane through the rows of p: p[0] + sum of w[k] (p[k + 1] - p[0])
pub open spec fn spread(p: Seq<Seq<F>>, w: Fun, c: int) -> Fun { |k: int| w(k) * (el(p, k + 1, c) - el(p, 0, c)) }
pub open spec fn in_plane(x: Seq<F>, p: Seq<Seq<F>>, w: Fun) -> bool { x.len() == p[0].len() && forall|c: int| 0 <= c < x.len() ==> (#[trigger] x[c]).r() == el(p, 0, c) + sum(spread(p, w, c), p.len() - 1) }
pub open spec fn meets(x: Seq<F>, l: Seq<Seq<F>>, p: Seq<Seq<F>>) -> bool { (exists|t: real| #[trigger] on_line(x, l, t)) && (exists|w: Fun| #[trigger] in_plane(x, p, w)) }
// the transposed inverse solves: sum over i of m[i][c] x[i] = v[c]
pub open spec fn term(m: Seq<Seq<F>>, x: Seq<F>, c: int) -> Fun { |i: int| el(m, i, c) * x[i].r() }
pub proof fn solves(m: Seq<Seq<F>>, iv: Seq<Seq<F>>, it: Seq<Seq<F>>, v: Seq<F>, x: Seq<F>, n: int, c: int)
    requires n >= 1, m.len() == n, iv.len() == n, it.len() == n, v.len() == n, x.len() == n, 0 <= c < n, inverse(iv, m, n), forall|i: int, j: int| 0 <= i < n && 0 <= j < n ==> #[trigger] it[i][j] == iv[j][i], forall|i: int| 0 <= i < n ==> (#[trigger] x[i]).r() == dots(it[i], v, n)
    ensures sum(term(m, x, c), n) == v[c].r()
{
    // a(i, r) = m[i][c] iv[r][i] v[r]
    let a = |i: int, r: int| el(m, i, c) * (el(iv, r, i) * v[r].r());
    assert forall|i: int| 0 <= i < n implies #[trigger] term(m, x, c)(i) == rowf(a, n)(i) by {
        let f: Fun = |k: int| it[i][k].r() * v[k].r(); let g: Fun = |j: int| a(i, j); let k = el(m, i, c);
        assert forall|j: int| 0 <= j < n implies #[trigger] g(j) == k * f(j) by { assert(it[i][j] == iv[j][i]); }
        sum_scale(f, g, k, n); assert(x[i].r() == dots(it[i], v, n)); assert(dots(it[i], v, n) == sum(f, n)); assert(rowf(a, n)(i) == sum(g, n));
    }
    sum_eq(term(m, x, c), rowf(a, n), n);
    sum_swap(a, n, n);
    assert forall|r: int| 0 <= r < n && r != c implies #[trigger] colf(a, n)(r) == 0real by { cols(m, iv, v, a, n, c, r); assert(unit(r, c) * v[r].r() == 0real) by (nonlinear_arith) requires unit(r, c) == 0real; }
    sum_one(colf(a, n), c, n); cols(m, iv, v, a, n, c, c); assert(unit(c, c) * v[c].r() == v[c].r()) by (nonlinear_arith) requires unit(c, c) == 1real;
}
proof fn cols(m: Seq<Seq<F>>, iv: Seq<Seq<F>>, v: Seq<F>, a: spec_fn(int, int) -> real, n: int, c: int, r: int)
    requires 0 <= c < n, 0 <= r < n, inverse(iv, m, n), a == (|i: int, r: int| el(m, i, c) * (el(iv, r, i) * v[r].r()))
    ensures colf(a, n)(r) == unit(r, c) * v[r].r()
{
    let f: Fun = |k: int| el(iv, r, k) * el(m, k, c); let g: Fun = |i: int| a(i, r); let k = v[r].r();
    assert forall|i: int| 0 <= i < n implies #[trigger] g(i) == k * f(i) by { let x = el(m, i, c); let y = el(iv, r, i); assert(x * (y * k) == k * (y * x)) by (nonlinear_arith); }
    sum_scale(f, g, k, n); assert(prod(iv, m, r, c, n) == unit(r, c)); assert(prod(iv, m, r, c, n) == sum(f, n)); assert(colf(a, n)(r) == sum(g, n)); let u = unit(r, c); assert(k * u == u * k) by (nonlinear_arith);
}
//@extract src/utils/geometry.rs :: fn line_plane_intersection
//@floats
//@ret r
//@spec
    requires line_points@.len() == 2, plane_points@.len() >= 2, plane_points@.len() == plane_points.cols(), line_points.cols() == plane_points.cols(),
    ensures r is Ok ==> meets(r->Ok_0@, line_points@, plane_points@),
//@rename to_owned=vown view=vview
//@subst s![1, ..] ==> s![1i32, ..]
//@subst s![0, ..] ==> s![0i32, ..]
//@subst s![1.., ..] ==> s![1i32.., ..]
//@subst Array1<F> ==> A1
//@subst Array2<F> ==> A2
//@subst .broadcast(Dim(new_dim)) ==> .broadcast(new_dim)
//@subst vec_to_intersection.slice(s![0]) ==> vec_to_intersection.vat(0)
//@subst concatenate( Axis(0), &[ ==> vconcat(
//@subst plane_vector.vview(), ], )? ==> plane_vector.vview(), )?
//@top
    let ghost mut it: A2 = arbitrary(); proof { a2_shape(line_points); a2_shape(plane_points); rl_one(1); }
//@tail
    proof {
        let n = plane_points@.len() as int; let l = line_points@; let p = plane_points@; let m = vectors@; let x = vec_to_intersection@;
        let t = x[0].r(); let w: Fun = |k: int| x[k + 1].r();
        assert(m.len() == n); a2_shape(vectors); a2_shape(plane_vector);
        assert forall|c: int| 0 <= c < n implies el(m, 0, c) == #[trigger] el(l, 0, c) - el(l, 1, c) by { assert(m[0].len() == n); }
        assert forall|i: int, c: int| 1 <= i < n && 0 <= c < n implies #[trigger] el(m, i, c) == el(p, i, c) - el(p, 0, c) by { assert(m[i] == plane_vector@[i - 1]); assert(plane_vector@[i - 1][c].r() == p[i][c].r() - p[0][c].r()); }
        assert(intersection@.len() == n);
        assert forall|c: int| 0 <= c < n implies (#[trigger] intersection@[c]).r() == el(l, 0, c) + t * (el(l, 1, c) - el(l, 0, c)) by { let d = el(l, 1, c) - el(l, 0, c); assert(d * t == t * d) by (nonlinear_arith); }
        assert(on_line(intersection@, l, t));
        assert forall|c: int| 0 <= c < n implies (#[trigger] intersection@[c]).r() == el(p, 0, c) + sum(spread(p, w, c), n - 1) by {
            solves(m, inv@, it@, vec_start@, x, n, c); assert(vec_start@[c].r() == el(l, 0, c) - el(p, 0, c));
            assert forall|i: int| 0 <= i < n - 1 implies #[trigger] spread(p, w, c)(i) == term(m, x, c)(i + 1) by { let a = el(p, i + 1, c) - el(p, 0, c); let b = x[i + 1].r(); assert(el(m, i + 1, c) == a); assert(b * a == a * b) by (nonlinear_arith); }
            sum_first(term(m, x, c), spread(p, w, c), n);
            let d = el(l, 1, c) - el(l, 0, c); assert(el(l, 0, c) == el(l, 0, c)); assert((0real - d) * t == 0real - t * d) by (nonlinear_arith);
        }
        assert(in_plane(intersection@, p, w));
    }
//@subst inv.t().dot(&vec_start) ==> { let it0 = inv.t(); proof { it = it0; } it0.dot(&vec_start) }
//@end
// ---- the distance coordinates of an intersection ------------------------------------------------------
pub open spec fn col_of(a: Seq<Seq<F>>, c: int) -> Seq<F> { Seq::new(a.len(), |i: int| a[i][c]) }
impl A1 {
    #[verifier::external_body] pub fn norm(&self) -> (q: F) ensures q.r() >= 0real, q.r() * q.r() == dots(self@, self@, self@.len() as int) { unimplemented!() }
    // row by row
    #[verifier::external_body] pub fn to_shape(&self, d: [usize; 2]) -> (q: Result<A2, ()>) requires d@[0] == 2 ensures self@.len() == 2 * d@[1] ==> q is Ok, q is Ok ==> q->Ok_0@.len() == 2 && q->Ok_0.cols() == d@[1] && forall|j: int| 0 <= j < d@[1] ==> (#[trigger] q->Ok_0@[0][j]) == self@[j] && q->Ok_0@[1][j] == self@[d@[1] + j] { unimplemented!() }
}
impl A2 {
    // the columns
    #[verifier::external_body] pub fn axis_iter(&self, a: Axis) -> (q: It<A1>) requires a.0 == 1 ensures q.pos() == 0, q.all().len() == self.cols(), forall|c: int| 0 <= c < self.cols() ==> (#[trigger] q.all()[c])@ == col_of(self@, c) { unimplemented!() }
}
pub trait Arr1Src { spec fn sv(&self) -> Seq<F>; }
impl Arr1Src for Vec<F> { open spec fn sv(&self) -> Seq<F> { self@ } }
impl Arr1Src for [F; 2] { open spec fn sv(&self) -> Seq<F> { self@ } }
#[verifier::external_body] pub fn arr1<S: Arr1Src>(s: &S) -> (r: A1) ensures r@ == s.sv() { unimplemented!() }
#[verifier::external_body] pub fn div_floor(a: usize, b: usize) -> (r: usize) requires b > 0 ensures r as int == a as int / b as int { unimplemented!() }
pub struct IntersectionTask { pub transition: Transition, pub segment_id: usize, pub line_points: A2, pub plane_points: A2 }
pub struct IntersectionResult { pub transition: Transition, pub segment_id: usize, pub intersection: A1 }
// coordinates j and j + half are taken together: their distance from the origin
pub open spec fn distances(d: Seq<F>, x: Seq<F>) -> bool { let h = x.len() / 2; d.len() == h && forall|j: int| 0 <= j < h ==> (#[trigger] d[j]).r() >= 0real && d[j].r() * d[j].r() == x[j].r() * x[j].r() + x[j + h].r() * x[j + h].r() }
pub open spec fn result_of(t: IntersectionTask, r: IntersectionResult) -> bool { r.transition == t.transition && r.segment_id == t.segment_id && exists|x: Seq<F>| #[trigger] meets(x, t.line_points@, t.plane_points@) && distances(r.intersection@, x) }
// the line is not parallel to the plane (and the plane is one)
#[verifier::external_body] pub proof fn regular(r: Result<A1, IntersectionError>) ensures r is Ok { }
pub fn vline_plane(l: A2, p: A2) -> (r: Result<A1, IntersectionError>) requires l@.len() == 2, p@.len() >= 2, p@.len() == p.cols(), l.cols() == p.cols() ensures r is Ok, meets(r->Ok_0@, l@, p@) { let r = line_plane_intersection(l, p); proof { regular(r); } r }
pub struct IntersectionCalculationHelper { }
impl IntersectionCalculationHelper {
//@extract src/training/intersection_calculation/helper.rs :: impl IntersectionCalculationHelper :: work
//@floats
//@ret r
//@spec
    requires task.line_points@.len() == 2, task.plane_points@.len() >= 2, task.plane_points@.len() == task.plane_points.cols(), task.line_points.cols() == task.plane_points.cols(), task.plane_points.cols() % 2 == 0,
    ensures result_of(task, r),
//@subst line_plane_intersection( ==> vline_plane(
//@top
    proof { a2_shape(task.line_points); a2_shape(task.plane_points); }
//@subst collect::<Vec<F>>() ==> collect()
//@closure 0
    |coords: A1| -> (o: F) ensures o.r() >= 0real, o.r() * o.r() == dots(coords@, coords@, coords@.len() as int)
//@subst IntersectionResult { transition ==> proof { a2_shape(task.line_points); let x = intersection@; let h = x.len() / 2; assert(x.len() == 2 * h); let d = distance@; let rs = reshaped@; assert forall|j: int| 0 <= j < h implies (#[trigger] d[j]).r() >= 0real && d[j].r() * d[j].r() == x[j].r() * x[j].r() + x[j + h].r() * x[j + h].r() by { assert(rs[0][j] == x[j]); assert(rs[1][j] == x[h + j]); two(col_of(rs, j)); } assert(meets(x, task.line_points@, task.plane_points@) && distances(d, x)); } IntersectionResult { transition
//@end
}
pub proof fn two(c: Seq<F>) requires c.len() == 2 ensures dots(c, c, 2) == c[0].r() * c[0].r() + c[1].r() * c[1].r() { let f: Fun = |k: int| c[k].r() * c[k].r(); assert(sum(f, 2) == sum(f, 1) + f(1)); assert(sum(f, 1) == sum(f, 0) + f(0)); assert(dots(c, c, 2) == sum(f, 2)); }
// ---- the plane of a segment --------------------------------------------------------------------------
pub uninterp spec fn pi() -> real;
pub uninterp spec fn cosr(a: real) -> real;
pub uninterp spec fn sinr(a: real) -> real;
#[verifier::external_body] pub fn vpi() -> (r: F) ensures r.r() == pi() { unimplemented!() }
impl F { #[verifier::external_body] pub fn vmul(self, o: F) -> (q: F) ensures q.r() == self.r() * o.r() { unimplemented!() } #[verifier::external_body] pub fn cos(self) -> (q: F) ensures q.r() == cosr(self.r()) { unimplemented!() } #[verifier::external_body] pub fn sin(self) -> (q: F) ensures q.r() == sinr(self.r()) { unimplemented!() } }
pub open spec fn angle(s: int, rate: int) -> real { (2real * pi() * (s as real)) / (rate as real) }
// row k of the plane lies at the segment's angle
pub open spec fn at_angle(p: Seq<F>, s: int, rate: int, radius: real) -> bool { p[0].r() == radius * cosr(angle(s, rate)) && p[1].r() == radius * sinr(angle(s, rate)) }
pub open spec fn plane_at(p: Seq<Seq<F>>, s: int, rate: int, dims: int, radius: real) -> bool { p.len() == dims && (forall|k: int| 0 <= k < dims ==> (#[trigger] p[k]).len() == dims) && (forall|c: int| 0 <= c < dims ==> (#[trigger] p[0][c]).r() == 0real) && forall|k: int| 1 <= k < dims ==> at_angle(#[trigger] p[k], s, rate, radius) }
// the point of intersection lies in the plane at the segment's angle
pub proof fn at_its_segment(x: Seq<F>, l: Seq<Seq<F>>, p: Seq<Seq<F>>, s: int, rate: int, dims: int, radius: real)
    requires dims >= 2, meets(x, l, p), plane_at(p, s, rate, dims, radius)
    ensures x[0].r() * sinr(angle(s, rate)) == x[1].r() * cosr(angle(s, rate))
{
    let w = choose|w: Fun| #[trigger] in_plane(x, p, w); let a = radius * cosr(angle(s, rate)); let b = radius * sinr(angle(s, rate)); let n = dims - 1; let t = sum(w, n);
    assert(p[0].len() == dims); assert(p[0][0].r() == 0real && p[0][1].r() == 0real);
    assert forall|k: int| 0 <= k < n implies #[trigger] spread(p, w, 0)(k) == a * w(k) by { assert(at_angle(p[k + 1], s, rate, radius)); let z = w(k); assert(z * (a - 0real) == a * z) by (nonlinear_arith); }
    assert forall|k: int| 0 <= k < n implies #[trigger] spread(p, w, 1)(k) == b * w(k) by { assert(at_angle(p[k + 1], s, rate, radius)); let z = w(k); assert(z * (b - 0real) == b * z) by (nonlinear_arith); }
    sum_scale(w, spread(p, w, 0), a, n); sum_scale(w, spread(p, w, 1), b, n);
    assert(x[0].r() == a * t && x[1].r() == b * t); let c = cosr(angle(s, rate)); let d = sinr(angle(s, rate));
    assert((a * t) * d == (b * t) * c) by (nonlinear_arith) requires a == radius * c, b == radius * d;
}
impl A1 {
    #[verifier::external_body] pub fn vset(&mut self, i: usize, x: F) requires i < old(self)@.len() ensures final(self)@ == old(self)@.update(i as int, x) { unimplemented!() }
//@extract src/utils/ndarray_extensions/mod.rs :: impl PolarCoords<A> for ArrayBase :: to_cartesian
//@ret r
//@spec
    requires self@.len() >= 2,
    ensures r@.len() == 2, r@[0].r() == self@[0].r() * cosr(self@[1].r()), r@[1].r() == self@[0].r() * sinr(self@[1].r()),
//@subst Array1<A> ==> A1
//@subst &self[0] ==> self.vat(0)
//@subst &self[1] ==> self.vat(1)
//@rename mul=vmul
//@end
}
#[verifier::external_body] pub fn vorigin(n: usize) -> (r: A1) ensures r@.len() == n, forall|c: int| 0 <= c < n ==> (#[trigger] r@[c]).r() == 0real { unimplemented!() }
#[verifier::external_body] pub fn vrange(a: usize, b: usize) -> (r: It<usize>) ensures r.pos() == 0, r.all().len() == (if a <= b { b - a } else { 0 }), forall|i: int| 0 <= i < r.all().len() ==> #[trigger] r.all()[i] == a + i { unimplemented!() }
#[verifier::external_body] pub fn vcat1(a: A1, b: A1) -> (r: A1) ensures r@ == a@ + b@ { unimplemented!() }
pub fn vone(a: A1) -> (r: Vec<A1>) ensures r@ == seq![a] { let mut v = Vec::new(); v.push(a); proof { assert(v@ =~= seq![a]); } v }
pub trait VExtIt { spec fn cur(&self) -> Seq<A1>; fn vextit(&mut self, o: It<A1>) requires o.pos() == 0 ensures final(self).cur() == old(self).cur() + o.all(); }
impl VExtIt for Vec<A1> { open spec fn cur(&self) -> Seq<A1> { self@ } #[verifier::external_body] fn vextit(&mut self, o: It<A1>) { unimplemented!() } }
pub open spec fn equal_len(s: Seq<A1>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i])@.len() == s[0]@.len() }
pub trait Arr2Src { spec fn rows(&self) -> Seq<A1>; }
impl Arr2Src for Vec<A1> { open spec fn rows(&self) -> Seq<A1> { self@ } }
impl Arr2Src for [A1; 2] { open spec fn rows(&self) -> Seq<A1> { self@ } }
#[verifier::external_body] pub fn stack<S: Arr2Src>(a: Axis, s: &S) -> (r: Result<A2, ()>) ensures a.0 == 0 && s.rows().len() > 0 && equal_len(s.rows()) ==> r is Ok && r->Ok_0@.len() == s.rows().len() && r->Ok_0.cols() == s.rows()[0]@.len() && forall|i: int| 0 <= i < s.rows().len() ==> #[trigger] r->Ok_0@[i] == s.rows()[i]@ { unimplemented!() }
impl PointRef { pub uninterp spec fn co(&self) -> Seq<F>;
    #[verifier::external_body] pub fn get_dims(&self) -> (r: usize) ensures r == self.co().len() { unimplemented!() }
    #[verifier::external_body] pub fn clone_coordinates(&self) -> (r: A1) ensures r@ == self.co() { unimplemented!() } }
pub struct Parameters { pub rate: usize }
pub struct DataStore { pub transitions: Vec<Transition> }
impl DataStore {
    pub fn count_transitions(&self) -> (r: usize) ensures r == self.transitions@.len() { self.transitions.len() }
    #[verifier::external_body] pub fn get_transitions(&self) -> (r: Vec<Transition>) ensures r@ == self.transitions@ { unimplemented!() }
}
pub struct HelperProtocol { pub n_total: usize }
pub type Pair = (Transition, usize, A2, A2);
pub struct IntersectionCalculation { pub pairs: Vec<Pair>, pub helper_protocol: HelperProtocol, pub helpers: Option<usize> }
pub struct Training { pub parameters: Parameters, pub data_store: DataStore, pub intersection_calculation: IntersectionCalculation, pub tasks: Ghost<Seq<Pair>> }
pub struct Recipient { }
// the line goes through the transition's two points, the plane is the segment's
pub open spec fn geo(x: Pair, rate: int, dims: int, radius: real) -> bool { x.2@.len() == 2 && x.2.cols() == dims && x.2@[0] == x.0.from_point.co() && x.2@[1] == x.0.to_point.co() && x.3.cols() == dims && plane_at(x.3@, x.1 as int, rate, dims, radius) }
pub open spec fn geos(s: Seq<Pair>, rate: int, dims: int, radius: real) -> bool { forall|i: int| 0 <= i < s.len() ==> geo(#[trigger] s[i], rate, dims, radius) }
pub open spec fn dim_ok(t: Transition, dims: int) -> bool { t.from_point.co().len() == dims && t.to_point.co().len() == dims }
impl Training {
    #[verifier::external_body] pub fn start_distribution_protocol(&mut self) { unimplemented!() }
    #[verifier::external_body] pub fn parallel_intersection_tasks(&mut self, rec: Recipient) ensures final(self).tasks@ == old(self).intersection_calculation.pairs@ { unimplemented!() }
//@extract src/training/intersection_calculation/mod.rs :: impl IntersectionCalculator for Training :: calculate_intersections
//@floats
//@spec
    requires rate_ok(old(self).parameters.rate as int), old(self).intersection_calculation.pairs@.len() == 0, old(self).data_store.transitions@.len() > 0, old(self).data_store.transitions@[0].from_point.co().len() >= 2,
        forall|i: int| 0 <= i < old(self).data_store.transitions@.len() ==> in_rate(#[trigger] old(self).data_store.transitions@[i], old(self).parameters.rate as int) && valid(old(self).data_store.transitions@[i], old(self).parameters.rate as int) && dim_ok(old(self).data_store.transitions@[i], old(self).data_store.transitions@[0].from_point.co().len() as int),
    ensures exists|radius: real| #[trigger] geos(final(self).tasks@, old(self).parameters.rate as int, old(self).data_store.transitions@[0].from_point.co().len() as int, radius),
//@havoc max_value F
//@havoc radius F
//@havoc segment_ids Vec<usize>
//@drop segment_ids.push
//@drop self.intersection_calculation.helpers = Some
//@rename abs=vabs min=vmin view=vview
//@subst Recipient<IntersectionResultMessage> ==> Recipient
//@subst .first() .expect("Could not generate Segments") ==> .vfirst().unwrap()
//@subst arr1(vec![0_f32; dims].as_slice()) ==> vorigin(dims)
//@subst Array1<F> ==> A1
//@subst (0..self.parameters.rate) .into_iter() ==> vrange(0, vrate)
//@subst vfc(self.parameters.rate) ==> vfc(vrate)
//@subst PI ==> vpi()
//@subst (2..dims) .into_iter() ==> vrange(2, dims)
//@subst .collect::<Vec<F>>() .as_slice(), ==> .collect(),
//@subst arr1( vrange ==> arr1( &vrange
//@subst concatenate(Axis(0), &[polar.to_cartesian().vview(), other_dims.vview()]).unwrap() ==> vcat1(polar.to_cartesian().vview(), other_dims.vview())
//@subst vec![origin.view()] ==> vone(origin.vview())
//@subst arrays.as_slice() ==> &arrays
//@subst corner_point[d] = vfl(0, 1) ==> corner_point.vset(d, vfl(0, 1))
//@subst arrays.extend(corner_points.iter().map ==> arrays.vextit(corner_points.viter().map
//@closure 0
    |segment_id: usize| -> (o: A1) ensures o@.len() == dims, at_angle(o@, segment_id as int, vrate as int, radius.r())
//@closure 1
    |_ig: usize| -> (o: F) ensures true
//@closure 2
    |d: usize| -> (o: A1) requires 2 <= d < dims ensures o@.len() == dims, at_angle(o@, segment_id as int, vrate as int, radius.r())
//@closure 3
    |x: &A1| -> (o: A1) ensures o@ == x@
//@top
    let ghost ts = self.data_store.transitions@; let ghost rate = self.parameters.rate as int; let vrate = self.parameters.rate; proof { rl_one(2); rl_one(0); }
//@loop 0
        invariant rate_ok(rate), rate == self.parameters.rate, vit_0.all() == ts, 0 <= vit_0.pos() <= ts.len(), vrate == rate, dims >= 2, ts.len() > 0, dims == ts[0].from_point.co().len(),
            origin@.len() == dims, forall|c: int| 0 <= c < dims ==> (#[trigger] origin@[c]).r() == 0real,
            planes_end_points@.len() == rate, forall|s: int| 0 <= s < rate ==> (#[trigger] planes_end_points@[s])@.len() == dims && at_angle(planes_end_points@[s]@, s, rate, radius.r()),
            self.data_store.transitions@ == ts,
            forall|i: int| 0 <= i < ts.len() ==> in_rate(#[trigger] ts[i], rate) && valid(ts[i], rate) && dim_ok(ts[i], dims as int),
            geos(self.intersection_calculation.pairs@, rate, dims as int, radius.r()),
        ensures vit_0.pos() == ts.len(),
        decreases ts.len() - vit_0.pos(),
//@loop 0 top
        let ghost k = vit_0.pos() - 1;
        proof { advance_cases(ts[k], rate); }
//@loop 1
            invariant rate_ok(rate), rate == self.parameters.rate, in_rate(transition, rate), transition == ts[k], self.data_store.transitions@ == ts, vrate == rate, dims >= 2,
                vend_1 as int == advance(transition, rate) + 1, vend_1 <= rate, 1 <= vit_1 <= vend_1,
                origin@.len() == dims, forall|c: int| 0 <= c < dims ==> (#[trigger] origin@[c]).r() == 0real,
                planes_end_points@.len() == rate, forall|s: int| 0 <= s < rate ==> (#[trigger] planes_end_points@[s])@.len() == dims && at_angle(planes_end_points@[s]@, s, rate, radius.r()),
                line_points@.len() == 2, line_points.cols() == dims, line_points@[0] == transition.from_point.co(), line_points@[1] == transition.to_point.co(),
                geos(self.intersection_calculation.pairs@, rate, dims as int, radius.r()),
            decreases vend_1 - vit_1,
//@loop 1 top
            let ghost before = self.intersection_calculation.pairs@;
//@end
}
} // verus!
fn main() {}
