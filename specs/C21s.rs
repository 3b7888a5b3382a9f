//! Mean, deviation and number of rows, and when loading goes on. f32 values are reals.
//! A message from another node carries the interface it came by, one from the node itself none (actix-telepathy).
//@include base.rs
//@include coll.rs
//@include float.rs
//@include nd.rs
verus! {
pub enum Ev { MinMaxNode, StdNode { to: Option<usize>, n: usize, mean: A1, m2: A1 }, StdDone { to: Option<usize>, n: usize, std: A1 }, Preprocess }
} // verus!
//@include net.rs
//@include stats.rs
// ---- elementwise operations of ndarray ----
macro_rules! aop { ($a:ty, $b:ty, $tr:ident, $sp:ident, $obeys:ident, $req:ident, $spec:ident, $m:ident, $same:ident, $o:tt) => { verus! {
impl vstd::std_specs::ops::$sp<$b> for $a {
  open spec fn $obeys() -> bool { false }
  open spec fn $req(self, r: $b) -> bool { self@.len() == r@.len() }
  open spec fn $spec(self, r: $b) -> A1 { arbitrary() }
}
impl core::ops::$tr<$b> for $a { type Output = A1; #[verifier::external_body] fn $m(self, r: $b) -> (q: A1) ensures q@.len() == self@.len(), forall|k: int| 0 <= k < q@.len() ==> (#[trigger] q@[k]).r() == self@[k].r() $o r@[k].r() { unimplemented!() } }
} } }
aop!(A1, A1, Sub, SubSpecImpl, obeys_sub_spec, sub_req, sub_spec, sub, same, -);
aop!(A1, &A1, Sub, SubSpecImpl, obeys_sub_spec, sub_req, sub_spec, sub, same, -);
aop!(A1, A1, Add, AddSpecImpl, obeys_add_spec, add_req, add_spec, add, same, +);
aop!(A1, &A1, Add, AddSpecImpl, obeys_add_spec, add_req, add_spec, add, same, +);
aop!(A1, A1, Mul, MulSpecImpl, obeys_mul_spec, mul_req, mul_spec, mul, same, *);
macro_rules! aof { ($nz:expr, $a:ty, $tr:ident, $sp:ident, $obeys:ident, $req:ident, $spec:ident, $m:ident, $o:tt) => { verus! {
impl vstd::std_specs::ops::$sp<F> for $a {
  open spec fn $obeys() -> bool { false }
  open spec fn $req(self, r: F) -> bool { r.r() != 0real || $nz }
  open spec fn $spec(self, r: F) -> A1 { arbitrary() }
}
impl core::ops::$tr<F> for $a { type Output = A1; #[verifier::external_body] fn $m(self, r: F) -> (q: A1) ensures q@.len() == self@.len(), forall|k: int| 0 <= k < q@.len() ==> (#[trigger] q@[k]).r() == self@[k].r() $o r.r() { unimplemented!() } }
} } }
aof!(true, A1, Mul, MulSpecImpl, obeys_mul_spec, mul_req, mul_spec, mul, *);
aof!(true, &A1, Mul, MulSpecImpl, obeys_mul_spec, mul_req, mul_spec, mul, *);
aof!(false, A1, Div, DivSpecImpl, obeys_div_spec, div_req, div_spec, div, /);
macro_rules! aom { ($tr:ident, $sp:ident, $obeys:ident, $req:ident, $spec:ident, $m:ident, $o:tt) => { verus! {
impl vstd::std_specs::ops::$sp<A2> for A2 {
  open spec fn $obeys() -> bool { false }
  open spec fn $req(self, r: A2) -> bool { self@.len() == r@.len() && self.cols() == r.cols() }
  open spec fn $spec(self, r: A2) -> A2 { arbitrary() }
}
impl core::ops::$tr<A2> for A2 { type Output = A2; #[verifier::external_body] fn $m(self, r: A2) -> (q: A2) ensures q@.len() == self@.len(), q.cols() == self.cols(), forall|i: int, k: int| 0 <= i < q@.len() && 0 <= k < q.cols() ==> (#[trigger] q@[i][k]).r() == self@[i][k].r() $o r@[i][k].r() { unimplemented!() } }
} } }
aom!(Sub, SubSpecImpl, obeys_sub_spec, sub_req, sub_spec, sub, -);
aom!(Mul, MulSpecImpl, obeys_mul_spec, mul_req, mul_spec, mul, *);
macro_rules! aomf { ($nz:expr, $tr:ident, $sp:ident, $obeys:ident, $req:ident, $spec:ident, $m:ident, $o:tt) => { verus! {
impl vstd::std_specs::ops::$sp<F> for A2 {
  open spec fn $obeys() -> bool { false }
  open spec fn $req(self, r: F) -> bool { r.r() != 0real || $nz }
  open spec fn $spec(self, r: F) -> A2 { arbitrary() }
}
impl core::ops::$tr<F> for A2 { type Output = A2; #[verifier::external_body] fn $m(self, r: F) -> (q: A2) ensures q@.len() == self@.len(), q.cols() == self.cols(), forall|i: int, k: int| 0 <= i < q@.len() && 0 <= k < q.cols() ==> (#[trigger] q@[i][k]).r() == self@[i][k].r() $o r.r() { unimplemented!() } }
} } }
aomf!(true, Mul, MulSpecImpl, obeys_mul_spec, mul_req, mul_spec, mul, *);
aomf!(false, Div, DivSpecImpl, obeys_div_spec, div_req, div_spec, div, /);
verus! {
impl F { #[verifier::external_body] pub fn sqrt(self) -> (q: F) ensures self.r() >= 0real ==> q.r() >= 0real && q.r() * q.r() == self.r() { unimplemented!() } }
impl A1 {
    #[verifier::external_body] pub fn viter(&self) -> (r: It<&F>) ensures r.pos() == 0, r.all().len() == self@.len(), forall|i: int| 0 <= i < self@.len() ==> *(#[trigger] r.all()[i]) == self@[i] { unimplemented!() }
    #[verifier::external_body] pub fn from_vec(v: Vec<F>) -> (r: A1) ensures r@ == v@ { unimplemented!() }
    // every row the same
    #[verifier::external_body] pub fn broadcast(&self, s: (usize, usize)) -> (r: Option<A2>) ensures r is Some <==> s.1 == self@.len(), r is Some ==> r->0@.len() == s.0 && r->0.cols() == s.1 && forall|i: int, k: int| 0 <= i < s.0 && 0 <= k < s.1 ==> #[trigger] r->0@[i][k] == self@[k] { unimplemented!() }
}
impl It<F> { #[verifier::external_body] pub fn collect_a1(self) -> (r: A1) requires self.pos() == 0 ensures r@ == self.all() { unimplemented!() } }
impl A2 {
    #[verifier::external_body] pub fn nrows(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body] pub fn to_owned(&self) -> (r: Self) ensures r == *self { unimplemented!() }
    #[verifier::external_body] pub fn mean_axis(&self, a: Axis) -> (r: Option<A1>) requires a.0 == 0 ensures r is Some <==> self@.len() > 0, r is Some ==> r->0@.len() == self.cols() && forall|c: int| 0 <= c < self.cols() ==> (#[trigger] r->0@[c]).r() * (self@.len() as int as real) == colsum(self@, c) { unimplemented!() }
}
// ---- number, sum and sum of squares describe a column; they add up ----
pub open spec fn sq(x: real) -> real { x * x }
pub open spec fn colsq(a: Seq<Seq<F>>, c: int) -> real decreases a.len() { if a.len() == 0 { 0real } else { colsq(a.drop_last(), c) + sq(a.last()[c].r()) } }
#[verifier::opaque] pub open spec fn rep(n: int, mean: real, m2: real, s1: real, s2: real) -> bool { n > 0 && m2 >= 0real && mean * (n as real) == s1 && m2 * (n as real) == (n as real) * s2 - s1 * s1 }
pub proof fn merged(n: int, a: real, p: real, s1: real, s2: real, m: int, b: real, q: real, t1: real, t2: real, mean: real, m2: real)
    requires rep(n, a, p, s1, s2), rep(m, b, q, t1, t2), mean * ((n + m) as real) == a * (n as real) + b * (m as real), (m2 - p - q) * ((n + m) as real) == (b - a) * (b - a) * ((n * m) as real),
    ensures rep(n + m, mean, m2, s1 + t1, s2 + t2)
{
    reveal(rep);
    let x = n as real; let y = m as real; let g = m2 - p - q; let z = (n + m) as real; assert(z == x + y); assert((n * m) as real == x * y) by (nonlinear_arith) requires x == n as real, y == m as real;
    let w = (b - a) * (b - a); assert(w >= 0real) by (nonlinear_arith) requires w == (b - a) * (b - a);
    assert(w * (x * y) >= 0real) by (nonlinear_arith) requires w >= 0real, x > 0real, y > 0real;
    assert(g * z == w * (x * y));
    assert(g >= 0real) by (nonlinear_arith) requires g * z == w * (x * y), z > 0real, w * (x * y) >= 0real;
    let p1 = s2 - a * s1; let q1 = t2 - b * t1;
    assert(p1 * x == x * s2 - (a * x) * s1) by (nonlinear_arith) requires p1 == s2 - a * s1; cancel(p, p1, x);
    assert(q1 * y == y * t2 - (b * y) * t1) by (nonlinear_arith) requires q1 == t2 - b * t1; cancel(q, q1, y);
    assert(m2 * z == g * z + p * z + q * z) by (nonlinear_arith) requires m2 == p + q + g;
    identity(a, b, x, y, s2, t2);
}
pub proof fn cancel(u: real, v: real, x: real) requires x > 0real, u * x == v * x ensures u == v { assert((u - v) * x == 0real) by (nonlinear_arith) requires u * x == v * x; assert(u - v == 0real) by (nonlinear_arith) requires (u - v) * x == 0real, x > 0real; }
pub proof fn identity(a: real, b: real, x: real, y: real, s: real, t: real)
    ensures ((b - a) * (b - a)) * (x * y) + (s - a * (a * x)) * (x + y) + (t - b * (b * y)) * (x + y) == (x + y) * (s + t) - (a * x + b * y) * (a * x + b * y)
{
    let k = x * y; let aa = a * a; let bb = b * b; let ab = a * b; let xx = x * x; let yy = y * y;
    assert((b - a) * (b - a) == bb - 2real * ab + aa) by (nonlinear_arith) requires aa == a * a, bb == b * b, ab == a * b;
    assert((bb - 2real * ab + aa) * k == bb * k - 2real * (ab * k) + aa * k) by (nonlinear_arith);
    let u = a * (a * x); let v = b * (b * y);
    assert((s - u) * (x + y) == s * x + s * y - u * x - u * y) by (nonlinear_arith);
    assert((t - v) * (x + y) == t * x + t * y - v * x - v * y) by (nonlinear_arith);
    assert(u * x == aa * xx) by (nonlinear_arith) requires u == a * (a * x), aa == a * a, xx == x * x;
    assert(u * y == aa * k) by (nonlinear_arith) requires u == a * (a * x), aa == a * a, k == x * y;
    assert(v * x == bb * k) by (nonlinear_arith) requires v == b * (b * y), bb == b * b, k == x * y;
    assert(v * y == bb * yy) by (nonlinear_arith) requires v == b * (b * y), bb == b * b, yy == y * y;
    assert((x + y) * (s + t) == s * x + s * y + t * x + t * y) by (nonlinear_arith);
    let f = a * x; let g = b * y;
    assert((f + g) * (f + g) == f * f + 2real * (f * g) + g * g) by (nonlinear_arith);
    assert(f * f == aa * xx) by (nonlinear_arith) requires f == a * x, aa == a * a, xx == x * x;
    assert(g * g == bb * yy) by (nonlinear_arith) requires g == b * y, bb == b * b, yy == y * y;
    assert(f * g == ab * k) by (nonlinear_arith) requires f == a * x, g == b * y, ab == a * b, k == x * y;
}
pub proof fn sums_add(a: Seq<Seq<F>>, b: Seq<Seq<F>>, c: int) ensures colsum(a + b, c) == colsum(a, c) + colsum(b, c), colsq(a + b, c) == colsq(a, c) + colsq(b, c) decreases b.len()
{ if b.len() == 0 { assert(a + b =~= a); } else { sums_add(a, b.drop_last(), c); assert((a + b).drop_last() =~= a + b.drop_last()); assert((a + b).last() == b.last()); } }
// the squared distances to u
pub proof fn spread(d: Seq<Seq<F>>, e: Seq<Seq<F>>, c: int, u: real)
    requires d.len() == e.len(), forall|i: int| 0 <= i < d.len() ==> (#[trigger] e[i])[c].r() == sq(d[i][c].r() - u),
    ensures colsum(e, c) == colsq(d, c) - 2real * u * colsum(d, c) + (d.len() as int as real) * (u * u), colsum(e, c) >= 0real
    decreases d.len()
{
    if d.len() == 0 { assert(2real * u * 0real == 0real) by (nonlinear_arith); assert(0real * (u * u) == 0real) by (nonlinear_arith); } else {
        let k = d.len() - 1; spread(d.drop_last(), e.drop_last(), c, u);
        let x = d[k][c].r(); assert(e.last()[c].r() == sq(x - u)); assert(d.last() == d[k]); let s = colsum(d.drop_last(), c); let n = k as real; let m = d.len() as int as real; assert(m == n + 1real); let v = u * u; let y = sq(x - u);
        assert(y >= 0real) by (nonlinear_arith) requires y == (x - u) * (x - u);
        assert(y == x * x - 2real * u * x + v) by (nonlinear_arith) requires y == (x - u) * (x - u), v == u * u;
        assert(2real * u * (s + x) == 2real * u * s + 2real * u * x) by (nonlinear_arith);
        assert(m * v == n * v + v) by (nonlinear_arith) requires m == n + 1real;
    }
}
pub open spec fn describes(n: int, mean: A1, m2: A1, rows: Seq<Seq<F>>) -> bool { n == rows.len() && n > 0 && mean@.len() == m2@.len() && forall|c: int| 0 <= c < mean@.len() ==> rep(n, (#[trigger] mean@[c]).r(), m2@[c].r(), colsum(rows, c), colsq(rows, c)) }
// the sample standard deviation of every column: (N - 1) N std^2 = N sum x^2 - (sum x)^2
pub open spec fn std_of(std: A1, rows: Seq<Seq<F>>) -> bool { forall|c: int| 0 <= c < std@.len() ==> dev((#[trigger] std@[c]).r(), rows.len() as int, colsum(rows, c), colsq(rows, c)) }
#[verifier::opaque] pub open spec fn dev(s: real, n: int, s1: real, s2: real) -> bool { s >= 0real && (s * s) * ((n - 1) as real) * (n as real) == (n as real) * s2 - s1 * s1 }
pub proof fn rooted(n: int, mean: real, m2: real, s1: real, s2: real, v: real, s: real) requires rep(n, mean, m2, s1, s2), n > 1, v == m2 / ((n - 1) as real), v >= 0real ==> s >= 0real && s * s == v ensures dev(s, n, s1, s2)
{ reveal(rep); reveal(dev); let d = (n - 1) as real; assert(v >= 0real) by (nonlinear_arith) requires v == m2 / d, m2 >= 0real, d > 0real; assert(v * d == m2) by (nonlinear_arith) requires v == m2 / d, d > 0real; }
pub struct Parameters { pub n_cluster_nodes: usize, pub pattern_length: usize, pub local_host: usize }
pub struct MinMaxCalculation { pub nodes: Vec<Source>, pub min: Option<A1>, pub max: Option<A1> }
pub struct StdCalculation { pub nodes: Vec<Source>, pub n: Option<usize>, pub mean: Option<A1>, pub m2: Option<A1> }
pub struct DatasetStats { pub min_col: Option<A1>, pub max_col: Option<A1>, pub std_col: Option<A1>, pub n: Option<usize> }
pub struct MinMaxDoneMessage { pub min: A1, pub max: A1 }
pub struct StdNodeMessage { pub n: usize, pub mean: A1, pub m2: A1, pub source: Source }
pub struct StdDoneMessage { pub std: A1, pub n: usize }
impl VMsg for StdNodeMessage { open spec fn ev(self, to: Option<usize>) -> Ev { Ev::StdNode { to, n: self.n, mean: self.mean, m2: self.m2 } } }
impl VMsg for StdDoneMessage { open spec fn ev(self, to: Option<usize>) -> Ev { Ev::StdDone { to, n: self.n, std: self.std } } }
pub struct DataManager { pub data: Option<A2>, pub cluster_nodes: ClusterNodes, pub parameters: Parameters, pub minmax_calculation: Option<MinMaxCalculation>, pub std_calculation: Option<StdCalculation>, pub dataset_stats: DatasetStats, pub log: Log }
pub open spec fn ok(d: DataManager) -> bool { d.cluster_nodes.wf() && d.cluster_nodes.n == d.parameters.n_cluster_nodes && 1 <= d.parameters.pattern_length <= 0x1000_0000 }
pub open spec fn to_main(c: ClusterNodes) -> Option<usize> { if c.own == 0 { None } else { Some(0usize) } }
// the rows that are this node's alone: without those shared with the next node
pub open spec fn own_rows(d: DataManager) -> int { d.data->0@.len() - (if d.cluster_nodes.own + 1 == d.cluster_nodes.n { 0 } else { d.parameters.pattern_length - 1 }) }
pub open spec fn std_dones(v: Seq<Source>, n: usize, std: A1, k: int) -> Seq<Ev> { Seq::new(k as nat, |i: int| Ev::StdDone { to: from(v[i]), n, std }) }
// the state after messages that describe `rows`
pub open spec fn sinv(c: StdCalculation, rows: Seq<Seq<F>>, d: int) -> bool { if c.nodes@.len() == 0 { rows.len() == 0 && c.n is None && c.mean is None && c.m2 is None } else { c.n is Some && c.mean is Some && c.m2 is Some && c.mean->0@.len() == d && c.m2->0@.len() == d && describes(c.n->0 as int, c.mean->0, c.m2->0, rows) } }
pub proof fn empty_sums(c: int) ensures colsum(Seq::<Seq<F>>::empty(), c) == 0real, colsq(Seq::<Seq<F>>::empty(), c) == 0real { }
pub proof fn describes_both(n: int, mean: A1, m2: A1, rows: Seq<Seq<F>>, m: int, b: A1, q: A1, more: Seq<Seq<F>>, u: A1, v: A1)
    requires describes(n, mean, m2, rows), describes(m, b, q, more), mean@.len() == b@.len(), u@.len() == b@.len(), v@.len() == b@.len(),
        forall|c: int| 0 <= c < b@.len() ==> (#[trigger] u@[c]).r() * ((n + m) as real) == mean@[c].r() * (n as real) + b@[c].r() * (m as real),
        forall|c: int| 0 <= c < b@.len() ==> ((#[trigger] v@[c]).r() - m2@[c].r() - q@[c].r()) * ((n + m) as real) == (b@[c].r() - mean@[c].r()) * (b@[c].r() - mean@[c].r()) * ((n * m) as real),
    ensures describes(n + m, u, v, rows + more)
{
    assert forall|c: int| 0 <= c < u@.len() implies rep(n + m, (#[trigger] u@[c]).r(), v@[c].r(), colsum(rows + more, c), colsq(rows + more, c)) by {
        sums_add(rows, more, c); assert(rep(n, mean@[c].r(), m2@[c].r(), colsum(rows, c), colsq(rows, c))); assert(rep(m, b@[c].r(), q@[c].r(), colsum(more, c), colsq(more, c)));
        assert(v@[c].r() - m2@[c].r() - q@[c].r() == v@[c].r() - (m2@[c].r()) - q@[c].r());
        merged(n, mean@[c].r(), m2@[c].r(), colsum(rows, c), colsq(rows, c), m, b@[c].r(), q@[c].r(), colsum(more, c), colsq(more, c), u@[c].r(), v@[c].r());
    }
}
pub proof fn scaled(x: real, n: real) requires n > 0real ensures x * (x / n) * n == sq(x) { let q = x / n; assert(q * n == x) by (nonlinear_arith) requires q == x / n, n > 0real; assert(x * q * n == x * (q * n)) by (nonlinear_arith); }
pub proof fn quot(x: real, z: real) requires z > 0real ensures (x / z) * z == x { let q = x / z; assert(q * z == x) by (nonlinear_arith) requires q == x / z, z > 0real; }
pub proof fn quot3(v: real, q: real, p: real, d: real, k: real, z: real) requires z > 0real, v == q + p + d * d * (k / z) ensures (v - p - q) * z == d * d * k
{ quot(k, z); let g = k / z; let e = d * d; assert(v - p - q == e * g); assert((e * g) * z == e * (g * z)) by (nonlinear_arith); }
pub proof fn described(rows: Seq<Seq<F>>, e: Seq<Seq<F>>, mean: A1, m2: A1)
    requires rows.len() > 0, e.len() == rows.len(), mean@.len() == m2@.len(), forall|c: int| 0 <= c < mean@.len() ==> (#[trigger] mean@[c]).r() * (rows.len() as int as real) == colsum(rows, c), forall|c: int| 0 <= c < mean@.len() ==> (#[trigger] m2@[c]).r() == colsum(e, c),
        forall|i: int, c: int| 0 <= i < rows.len() && 0 <= c < mean@.len() ==> (#[trigger] e[i][c]).r() == sq(rows[i][c].r() - mean@[c].r()),
    ensures describes(rows.len() as int, mean, m2, rows)
{
    assert forall|c: int| 0 <= c < mean@.len() implies rep(rows.len() as int, (#[trigger] mean@[c]).r(), m2@[c].r(), colsum(rows, c), colsq(rows, c)) by {
        let u = mean@[c].r(); assert forall|i: int| 0 <= i < rows.len() implies (#[trigger] e[i])[c].r() == sq(rows[i][c].r() - u) by { assert(e[i][c].r() == sq(rows[i][c].r() - mean@[c].r())); } spread(rows, e, c, u); reveal(rep);
        let n = rows.len() as int as real; let s1 = colsum(rows, c); let s2 = colsq(rows, c); let m = m2@[c].r();
        assert(m == colsum(e, c)); assert(n * (u * u) == s1 * u) by (nonlinear_arith) requires u * n == s1; assert(2real * u * s1 == s1 * u + s1 * u) by (nonlinear_arith); assert(m == s2 - s1 * u); assert(m * n == n * s2 - s1 * s1) by (nonlinear_arith) requires m == s2 - s1 * u, u * n == s1;
    }
}
pub open spec fn told(a: DataManager, b: DataManager, n: usize, std: A1) -> bool { let v = b.std_calculation->0.nodes@; b.log.evs@ == a.log.evs@ + std_dones(v, n, std, v.len() as int) }
pub open spec fn known(s: DatasetStats) -> bool { s.std_col is Some && s.min_col is Some && s.max_col is Some }
impl DatasetStats {
//@extract src/data_manager/stats_collector/mod.rs :: impl DatasetStats :: is_done
//@ret r
//@spec
    ensures r == known(*self),
//@end
}
impl DataManager {
//@extract src/data_manager/stats_collector/std.rs :: impl StdCalculator for DataManager :: set_intermediate_std
//@spec
    requires old(self).std_calculation is Some,
    ensures *final(self) == (DataManager { std_calculation: Some(StdCalculation { nodes: old(self).std_calculation->0.nodes, n: Some(n), mean: Some(mean), m2: Some(m2) }), ..*old(self) }),
//@subst Array1<f32> ==> A1
//@end
//@extract src/data_manager/stats_collector/std.rs :: impl StdCalculator for DataManager :: calculate_std
//@spec
    requires ok(*old(self)), old(self).data is Some, own_rows(*old(self)) > 0,
    // what describes the node's own rows goes to the main node once
    ensures *final(self) == (DataManager { log: final(self).log, ..*old(self) }), final(self).log.evs@.len() == old(self).log.evs@.len() + 1, final(self).log.evs@.drop_last() == old(self).log.evs@,
        ({ let e = final(self).log.evs@.last(); e is StdNode && e->StdNode_to == to_main(old(self).cluster_nodes) && e->StdNode_mean@.len() == old(self).data->0.cols() && describes(e->StdNode_n as int, e->StdNode_mean, e->StdNode_m2, old(self).data->0@.subrange(0, own_rows(*old(self)))) }),
//@floats
//@subst addr: Addr<Self> ==> addr: Addr
//@subst "DataManager".to_string() ==> ()
//@subst "DataManager" ==> ()
//@subst RemoteAddr::new_from_id ==> Source::new_from_id
//@subst main.do_send( ==> main.vsend(&mut self.log, 
//@subst (delta * delta_n * (vfc(n))).sum_axis(Axis(0)) ==> { let ghost g1 = delta_n; let e = delta * delta_n * vfc(n); let r = e.sum_axis(Axis(0)); proof { gd = data@; ge = e; gr = r; gu = mean; assert forall|i: int, c: int| 0 <= i < gd.len() && 0 <= c < gu@.len() implies (#[trigger] e@[i][c]).r() == sq(gd[i][c].r() - gu@[c].r()) by { let x = g0@[i][c].r(); assert(x == gd[i][c].r() - gu@[c].r()); assert(g1@[i][c].r() == x / (n as int as real)); scaled(x, n as int as real); } } r }
//@subst let delta_n = ==> let ghost g0 = delta; let delta_n =
//@top
    let ghost mut gd: Seq<Seq<F>> = Seq::empty(); let ghost mut ge: A2 = arbitrary(); let ghost mut gr: A1 = arbitrary(); let ghost mut gu: A1 = arbitrary();
//@tail
    proof { assert(self.log.evs@.drop_last() =~= old(self).log.evs@); let rows = old(self).data->0@.subrange(0, own_rows(*old(self))); assert(gd =~= rows); described(rows, ge@, gu, gr); }
//@end
//@extract src/data_manager/stats_collector/std.rs :: impl Handler<StdNodeMessage> for DataManager :: handle
//@spec
    requires ok(*old(self)), old(self).std_calculation is Some, old(self).std_calculation->0.nodes@.len() < old(self).parameters.n_cluster_nodes, msg.mean@.len() == msg.m2@.len(), 0 < msg.n < 0x4000_0000, old(self).std_calculation->0.nodes@.len() + 1 == old(self).parameters.n_cluster_nodes && old(self).parameters.n_cluster_nodes == 1 ==> msg.n > 1,
        exists|rows: Seq<Seq<F>>| #[trigger] sinv(old(self).std_calculation->0, rows, msg.mean@.len() as int) && rows.len() < 0x4000_0000,
    ensures final(self).std_calculation is Some, *final(self) == (DataManager { log: final(self).log, std_calculation: final(self).std_calculation, ..*old(self) }), final(self).std_calculation->0.nodes@ == old(self).std_calculation->0.nodes@.push(msg.source),
        // until the last message the state describes all rows so far; then every node that sent is told the deviation and number of all rows, once
        old(self).std_calculation->0.nodes@.len() + 1 < old(self).parameters.n_cluster_nodes ==> final(self).log == old(self).log && (forall|rows: Seq<Seq<F>>, more: Seq<Seq<F>>| #[trigger] sinv(old(self).std_calculation->0, rows, msg.mean@.len() as int) && #[trigger] describes(msg.n as int, msg.mean, msg.m2, more) ==> sinv(final(self).std_calculation->0, rows + more, msg.mean@.len() as int)),
        old(self).std_calculation->0.nodes@.len() + 1 == old(self).parameters.n_cluster_nodes ==> exists|n: usize, std: A1| #[trigger] told(*old(self), *final(self), n, std) && std@.len() == msg.mean@.len() && (forall|rows: Seq<Seq<F>>, more: Seq<Seq<F>>| #[trigger] sinv(old(self).std_calculation->0, rows, msg.mean@.len() as int) && #[trigger] describes(msg.n as int, msg.mean, msg.m2, more) ==> n == (rows + more).len() && std_of(std, rows + more)),
//@floats
//@subst ctx: &mut Self::Context) -> Self::Result ==> ctx: &mut Context)
//@subst Array1<F> ==> A1
//@rename iter=viter
//@subst AnyAddr::Remote( ==> Back::Remote(
//@subst AnyAddr::Local( ==> Back::Local(
//@rename collect=collect_a1
//@subst n + msg.n ==> *n + msg.n
//@subst (n * msg.n) ==> (*n * msg.n)
//@subst (m2 / vfc((global_n - 1))) ==> ({ proof { gv = m2; } m2 } / vfc((global_n - 1)))
//@closure 0
|x: &F| -> (q: F) ensures x.r() >= 0real ==> q.r() >= 0real && q.r() * q.r() == x.r()
//@closure 1
|x: &F| -> (q: F) ensures x.r() >= 0real ==> q.r() >= 0real && q.r() * q.r() == x.r()
//@subst receiving_node.do_send( ==> receiving_node.vsend(&mut self.log, 
//@top
    let ghost d = msg.mean@.len() as int; let ghost gm = msg; let ghost c0 = self.std_calculation->0; let ghost e0 = self.log.evs@; let ghost mut gv: A1 = msg.m2; let ghost mut gs: A1 = arbitrary(); let ghost rs = choose|rows: Seq<Seq<F>>| #[trigger] sinv(c0, rows, d) && rows.len() < 0x4000_0000;
    proof { if c0.nodes@.len() > 0 { assert(c0.n->0 == rs.len()); assert(c0.n->0 * gm.n <= 0x4000_0000 * 0x4000_0000) by (nonlinear_arith) requires 0 <= c0.n->0 < 0x4000_0000, 0 < gm.n < 0x4000_0000; } }
//@loop 0 pre
            let ghost c1 = self.std_calculation->0; proof { gs = std; }
//@loop 0
                invariant 0 <= vit_0.pos() <= vit_0.all().len(), vit_0.all().len() == c1.nodes@.len(), forall|i: int| 0 <= i < c1.nodes@.len() ==> *(#[trigger] vit_0.all()[i]) == c1.nodes@[i], c1.n is Some, gs == std,
                    *self == (DataManager { log: self.log, std_calculation: Some(c1), ..*old(self) }), self.log.evs@ == e0 + std_dones(c1.nodes@, c1.n->0, std, vit_0.pos()),
                ensures vit_0.pos() == vit_0.all().len(),
                decreases vit_0.all().len() - vit_0.pos(),
//@loop 0 end
                proof { let k = vit_0.pos() - 1; assert(*node == c1.nodes@[k]); assert((e0 + std_dones(c1.nodes@, c1.n->0, std, k)).push(Ev::StdDone { to: from(c1.nodes@[k]), n: c1.n->0, std }) =~= e0 + std_dones(c1.nodes@, c1.n->0, std, k + 1)); }
//@last
    proof {
        let c1 = self.std_calculation->0; let n = c0.n->0 as int; let m = gm.n as int; let z = (n + m) as real; let nm = (n * m) as real;
        if c0.nodes@.len() + 1 < old(self).parameters.n_cluster_nodes {
            assert forall|rows: Seq<Seq<F>>, more: Seq<Seq<F>>| #[trigger] sinv(c0, rows, d) && #[trigger] describes(m, gm.mean, gm.m2, more) implies sinv(c1, rows + more, d) by {
                if c0.nodes@.len() == 0 { assert(rows + more =~= more); } else {
                    let u = c1.mean->0; let v = c1.m2->0;
                    assert forall|c: int| 0 <= c < d implies (#[trigger] u@[c]).r() * z == c0.mean->0@[c].r() * (n as real) + gm.mean@[c].r() * (m as real) by { quot(c0.mean->0@[c].r() * (n as real) + gm.mean@[c].r() * (m as real), z); }
                    assert forall|c: int| 0 <= c < d implies ((#[trigger] v@[c]).r() - c0.m2->0@[c].r() - gm.m2@[c].r()) * z == (gm.mean@[c].r() - c0.mean->0@[c].r()) * (gm.mean@[c].r() - c0.mean->0@[c].r()) * nm by { quot3(v@[c].r(), gm.m2@[c].r(), c0.m2->0@[c].r(), gm.mean@[c].r() - c0.mean->0@[c].r(), nm, z); }
                    describes_both(n, c0.mean->0, c0.m2->0, rows, m, gm.mean, gm.m2, more, u, v);
                }
            }
        } else {
            assert(told(*old(self), *self, c1.n->0, gs));
            assert forall|rows: Seq<Seq<F>>, more: Seq<Seq<F>>| #[trigger] sinv(c0, rows, d) && #[trigger] describes(m, gm.mean, gm.m2, more) implies c1.n->0 == (rows + more).len() && std_of(gs, rows + more) by {
                assert forall|c: int| 0 <= c < gs@.len() implies dev((#[trigger] gs@[c]).r(), (rows + more).len() as int, colsum(rows + more, c), colsq(rows + more, c)) by {
                    let b = gm.mean@[c].r(); let q = gm.m2@[c].r(); assert(rep(m, b, q, colsum(more, c), colsq(more, c)));
                    if c0.nodes@.len() == 0 { assert(rows + more =~= more); rooted(m, b, q, colsum(more, c), colsq(more, c), q / ((m - 1) as real), gs@[c].r()); } else {
                        let a = c0.mean->0@[c].r(); let p = c0.m2->0@[c].r(); assert(rep(n, a, p, colsum(rows, c), colsq(rows, c))); let w = a * (n as real) + b * (m as real); let u = w / z; quot(w, z); let v = gv@[c].r();
                        quot3(v, q, p, b - a, nm, z); merged(n, a, p, colsum(rows, c), colsq(rows, c), m, b, q, colsum(more, c), colsq(more, c), u, v); sums_add(rows, more, c);
                        rooted(n + m, u, v, colsum(rows + more, c), colsq(rows + more, c), v / ((n + m - 1) as real), gs@[c].r());
                    }
                }
            }
        }
    }
//@end
// C21: the extremes of the node's rows go to the main node
    #[verifier::external_body] pub fn calculate_minmax(&mut self, addr: Addr) requires ok(*old(self)), old(self).data is Some, old(self).data->0@.len() > 0 ensures *final(self) == (DataManager { log: final(self).log, ..*old(self) }), final(self).log.evs@ == old(self).log.evs@.push(Ev::MinMaxNode) { unimplemented!() }
// C18
    #[verifier::external_body] pub fn preprocess(&mut self, addr: Addr) ensures *final(self) == (DataManager { log: final(self).log, ..*old(self) }), final(self).log.evs@ == old(self).log.evs@.push(Ev::Preprocess) { unimplemented!() }
//@extract src/data_manager/mod.rs :: impl DataManager :: calculate_datastats
//@spec
    requires ok(*old(self)), old(self).data is Some, own_rows(*old(self)) > 0,
    // both exchanges start from nothing, then this node's parts are sent
    ensures *final(self) == (DataManager { log: final(self).log, minmax_calculation: final(self).minmax_calculation, std_calculation: final(self).std_calculation, ..*old(self) }), final(self).std_calculation is Some, final(self).minmax_calculation is Some, final(self).minmax_calculation->0.nodes@.len() == 0, final(self).minmax_calculation->0.min is None, final(self).minmax_calculation->0.max is None, sinv(final(self).std_calculation->0, Seq::empty(), old(self).data->0.cols() as int), final(self).std_calculation->0.nodes@.len() == 0,
        final(self).log.evs@.len() == old(self).log.evs@.len() + 2, final(self).log.evs@.subrange(0, old(self).log.evs@.len() as int) == old(self).log.evs@, final(self).log.evs@[old(self).log.evs@.len() as int] is MinMaxNode, ({ let e = final(self).log.evs@.last(); e is StdNode && e->StdNode_to == to_main(old(self).cluster_nodes) && describes(e->StdNode_n as int, e->StdNode_mean, e->StdNode_m2, old(self).data->0@.subrange(0, own_rows(*old(self)))) }),
//@subst addr: Addr<Self> ==> addr: Addr
//@last
    proof { let e = self.log.evs@; let n = old(self).log.evs@.len() as int; assert(e.drop_last()[n] == e[n]); assert(e.subrange(0, n) =~= e.drop_last().drop_last()); assert(e.drop_last().drop_last() =~= old(self).log.evs@); }
//@end
//@extract src/data_manager/mod.rs :: impl DataManager :: datastats_finished
//@spec
    ensures *final(self) == (DataManager { log: final(self).log, ..*old(self) }), final(self).log.evs@ == (if known(old(self).dataset_stats) { old(self).log.evs@.push(Ev::Preprocess) } else { old(self).log.evs@ }),
//@subst addr: Addr<Self> ==> addr: Addr
//@end
//@extract src/data_manager/mod.rs :: impl Handler<MinMaxDoneMessage> for DataManager :: handle
//@spec
    // loading goes on when the deviation is known too
    ensures *final(self) == (DataManager { log: final(self).log, dataset_stats: DatasetStats { min_col: Some(msg.min), max_col: Some(msg.max), ..old(self).dataset_stats }, ..*old(self) }), final(self).log.evs@ == (if old(self).dataset_stats.std_col is Some { old(self).log.evs@.push(Ev::Preprocess) } else { old(self).log.evs@ }),
//@subst ctx: &mut Self::Context) -> Self::Result ==> ctx: &mut Context)
//@subst fn handle( ==> fn handle_mm(
//@end
//@extract src/data_manager/mod.rs :: impl Handler<StdDoneMessage> for DataManager :: handle
//@spec
    // loading goes on when the extremes are known too
    ensures *final(self) == (DataManager { log: final(self).log, dataset_stats: DatasetStats { std_col: Some(msg.std), n: Some(msg.n), ..old(self).dataset_stats }, ..*old(self) }), final(self).log.evs@ == (if old(self).dataset_stats.min_col is Some && old(self).dataset_stats.max_col is Some { old(self).log.evs@.push(Ev::Preprocess) } else { old(self).log.evs@ }),
//@subst ctx: &mut Self::Context) -> Self::Result ==> ctx: &mut Context)
//@subst fn handle( ==> fn handle_std(
//@end
}
fn main() {}
} // verus!
