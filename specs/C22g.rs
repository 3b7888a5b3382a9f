//! exp, powf and pi are uninterpreted (native); ndarray's matrix product and ndarray-linalg's covariance, inverse and Cholesky decomposition compute what their names say (native); the inverse of a covariance that can be inverted is positive definite.
//! SyncArbiter runs the helpers it is given and delivers every task once; at least one thread; f32 as real numbers, so that sums do not depend on the order of the answers (natively compared within a tolerance); no NaN.
//@include base.rs
//@include coll.rs
//@include float.rs
verus! {
pub enum Ev { Task { from: usize, to: usize }, Part { m: EstimatorResponse }, Answer { m: GaussianKDEResponse }, Poison }
} // verus!
//@include net.rs
//@include nd.rs
//@include kde.rs
use core::ops::{Mul, Div};
verus! {
pub struct EstimatorTask { pub data_range: core::ops::Range<usize> }
pub struct EstimatorResponse { pub estimate: A1 }
pub struct GaussianKDEMessage { pub column: A2 }
pub struct GaussianKDEResponse { pub kernel_estimate: A1 }
pub struct PoisonPill;
impl VMsg for EstimatorTask { open spec fn ev(self, to: Option<usize>) -> Ev { Ev::Task { from: self.data_range.start, to: self.data_range.end } } }
impl VMsg for EstimatorResponse { open spec fn ev(self, to: Option<usize>) -> Ev { Ev::Part { m: self } } }
impl VMsg for GaussianKDEResponse { open spec fn ev(self, to: Option<usize>) -> Ev { Ev::Answer { m: self } } }
impl VMsg for PoisonPill { open spec fn ev(self, to: Option<usize>) -> Ev { Ev::Poison } }
impl Addr { pub fn recipient(self) -> (r: Self) ensures r == self { self } #[verifier::external_body] pub fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
#[verifier::external_body] pub fn vtell<M: VMsg>(a: &Addr, log: &mut Log, m: M) ensures final(log).evs@ == old(log).evs@.push(m.ev(None)) { unimplemented!() }
#[verifier::external_body] pub fn votell<M: VMsg>(a: &Option<Addr>, log: &mut Log, m: M) requires a is Some ensures final(log).evs@ == old(log).evs@.push(m.ev(None)) { unimplemented!() }
// ---- numbers
pub uninterp spec fn rexp(x: real) -> real;
pub uninterp spec fn rpow(x: real, e: real) -> real;
pub uninterp spec fn pi() -> real;
#[verifier::external_body] pub fn vpi() -> (r: F) ensures r.r() == pi() { unimplemented!() }
impl F {
    #[verifier::external_body] pub fn exp(self) -> (q: F) ensures q.r() == rexp(self.r()) { unimplemented!() }
    #[verifier::external_body] pub fn powf(self, e: F) -> (q: F) ensures q.r() == rpow(self.r(), e.r()), self.r() > 0real ==> q.r() > 0real { unimplemented!() }
    #[verifier::external_body] pub fn powi(self, e: i32) -> (q: F) ensures e == 2 ==> q.r() == self.r() * self.r() { unimplemented!() }
}
pub open spec fn sum(s: Seq<F>) -> real decreases s.len() { if s.len() == 0 { 0real } else { sum(s.drop_last()) + s.last().r() } }
impl It<F> { #[verifier::external_body] pub fn sum(self) -> (r: F) requires self.pos() == 0 ensures r.r() == sum(self.all()) { unimplemented!() } }
// ---- matrices
pub uninterp spec fn chol(m: Seq<Seq<F>>) -> Seq<Seq<F>>;
pub uninterp spec fn cov_of(m: Seq<Seq<F>>, ddof: real) -> Seq<Seq<F>>;
pub uninterp spec fn inv_of(m: Seq<Seq<F>>) -> Option<Seq<Seq<F>>>;
pub open spec fn dotp(a: Seq<F>, b: Seq<Seq<F>>, k: int, n: int) -> real decreases n { if n <= 0 { 0real } else { dotp(a, b, k, n - 1) + a[n - 1].r() * b[n - 1][k].r() } }
pub open spec fn least(a: Seq<Seq<F>>, x: real) -> bool { (exists|i: int| 0 <= i < a.len() && (#[trigger] a[i])[0].r() == x) && forall|i: int| 0 <= i < a.len() ==> x <= (#[trigger] a[i])[0].r() }
pub open spec fn greatest(a: Seq<Seq<F>>, x: real) -> bool { (exists|i: int| 0 <= i < a.len() && (#[trigger] a[i])[0].r() == x) && forall|i: int| 0 <= i < a.len() ==> x >= (#[trigger] a[i])[0].r() }
pub struct Uplo; 
pub struct A2t { pub a: Ghost<A2> }
impl A2t { #[verifier::external_body] pub fn cov(&self, ddof: F) -> (r: Option<A2>) requires self.a@@.len() >= 1 ensures r is Some, r->0@ == cov_of(self.a@@, ddof.r()), r->0@.len() == self.a@.cols(), r->0.cols() == self.a@.cols() { unimplemented!() } }
impl A2 {
    #[verifier::external_body] pub fn t(&self) -> (r: A2t) ensures r.a@ == *self { unimplemented!() }
    #[verifier::external_body] pub fn inv(&self) -> (r: Result<A2, ()>) requires self@.len() == self.cols() ensures r is Ok <==> inv_of(self@) is Some, r is Ok ==> r->Ok_0@ == inv_of(self@)->0 && r->Ok_0@.len() == self.cols() && r->Ok_0.cols() == self.cols() { unimplemented!() }
    #[verifier::external_body] pub fn vdiv(self, x: F) -> (r: A2) requires x.r() != 0real ensures r@.len() == self@.len(), r.cols() == self.cols(), forall|i: int, k: int| 0 <= i < r@.len() && 0 <= k < r.cols() ==> (#[trigger] r@[i][k]).r() == self@[i][k].r() / x.r() { unimplemented!() }
    #[verifier::external_body] pub fn cholesky(&self, u: Uplo) -> (r: Option<A2>) requires self@.len() == self.cols() ensures r is Some, r->0@ == chol(self@), r->0@.len() == self@.len(), r->0.cols() == self.cols() { unimplemented!() }
    #[verifier::external_body] pub fn dot(&self, b: &A2) -> (r: A2) requires self.cols() == b@.len() ensures r@.len() == self@.len(), r.cols() == b.cols(), forall|i: int, k: int| 0 <= i < r@.len() && 0 <= k < r.cols() ==> (#[trigger] r@[i][k]).r() == dotp(self@[i], b@, k, b@.len() as int) { unimplemented!() }
    #[verifier::external_body] pub fn at(&self, i: usize, k: usize) -> (r: F) requires i < self@.len(), k < self.cols() ensures r == self@[i as int][k as int] { unimplemented!() }
    #[verifier::external_body] pub fn at_mut(&mut self, i: usize, k: usize) -> (x: &mut F) requires i < old(self)@.len(), k < old(self).cols() ensures *x == old(self)@[i as int][k as int], final(self)@ == old(self)@.update(i as int, old(self)@[i as int].update(k as int, *final(x))), final(self).cols() == old(self).cols() { unimplemented!() }
    #[verifier::external_body] pub fn vcol0(&self) -> (r: A1) requires self.cols() >= 1 ensures r@.len() == self@.len(), forall|i: int| 0 <= i < self@.len() ==> #[trigger] r@[i] == self@[i][0] { unimplemented!() }
    #[verifier::external_body] pub fn vown(&self) -> (r: A2) ensures r == *self { unimplemented!() }
    #[verifier::external_body] pub fn vflat(&self) -> (r: It<&F>) requires self.cols() == 1 ensures r.pos() == 0, r.all().len() == self@.len(), forall|i: int| 0 <= i < self@.len() ==> *(#[trigger] r.all()[i]) == self@[i][0] { unimplemented!() }
    #[verifier::external_body] pub fn min(&self) -> (r: Option<&F>) requires self@.len() >= 1, self.cols() == 1 ensures r is Some, least(self@, (*r->0).r()) { unimplemented!() }
    #[verifier::external_body] pub fn max(&self) -> (r: Option<&F>) requires self@.len() >= 1, self.cols() == 1 ensures r is Some, greatest(self@, (*r->0).r()) { unimplemented!() }
}
#[verifier::external_body] pub fn vzeros2(s: [usize; 2]) -> (r: A2) ensures r@.len() == s@[0], r.cols() == s@[1], forall|i: int, k: int| 0 <= i < s@[0] && 0 <= k < s@[1] ==> (#[trigger] r@[i][k]).r() == 0real { unimplemented!() }
#[verifier::external_body] pub fn vones2(s: [usize; 2]) -> (r: A2) ensures r@.len() == s@[0], r.cols() == s@[1], forall|i: int, k: int| 0 <= i < s@[0] && 0 <= k < s@[1] ==> (#[trigger] r@[i][k]).r() == 1real { unimplemented!() }
#[verifier::external_body] pub fn vzeros1(n: usize) -> (r: A1) ensures r@.len() == n, forall|i: int| 0 <= i < n ==> (#[trigger] r@[i]).r() == 0real { unimplemented!() }
#[verifier::external_body] pub fn vlinspace(a: F, b: F, n: usize) -> (r: A1) requires n > 1 ensures r@.len() == n, forall|i: int| 0 <= i < n ==> (#[trigger] r@[i]).r() == spaced(a.r(), b.r(), n as int, i) { unimplemented!() }
impl A1 {
    #[verifier::external_body] pub fn insert_axis(self, a: Axis) -> (r: A2) requires a.0 == 1 ensures r@.len() == self@.len(), r.cols() == 1, forall|i: int| 0 <= i < self@.len() ==> #[trigger] r@[i][0] == self@[i] { unimplemented!() }
    #[verifier::external_body] pub fn add_assign(&mut self, o: &A1) requires old(self)@.len() == o@.len() ensures final(self)@.len() == o@.len(), forall|i: int| 0 <= i < o@.len() ==> (#[trigger] final(self)@[i]).r() == old(self)@[i].r() + o@[i].r() { unimplemented!() }
}
// ---- the helpers: their share of the estimate at grid point j is the sum over their rows
pub struct EstimatorHelper { pub data: A2, pub grid: A2, pub whitening_factors: A2, pub weights: A2, pub norm: F, pub receiver: Addr, pub log: Log }
pub open spec fn white(h: EstimatorHelper, i: int, k: int) -> real { dotp(h.data@[i], h.whitening_factors@, k, h.whitening_factors@.len() as int) }
pub open spec fn sqd(h: EstimatorHelper, i: int, j: int, n: int) -> real decreases n { if n <= 0 { 0real } else { let x = white(h, i, n - 1) - h.grid@[j][n - 1].r(); sqd(h, i, j, n - 1) + x * x } }
pub open spec fn kernel(h: EstimatorHelper, i: int, j: int) -> real { rexp((0real - sqd(h, i, j, h.data.cols() as int)) / 2real) * h.norm.r() }
#[verifier::opaque] pub open spec fn part(h: EstimatorHelper, a: int, b: int, j: int, k: int) -> real decreases b - a { if b <= a { 0real } else { part(h, a, b - 1, j, k) + h.weights@[b - 1][k].r() * kernel(h, b - 1, j) } }
pub proof fn part_step(h: EstimatorHelper, a: int, b: int) requires b >= a ensures forall|j: int, k: int| #[trigger] part(h, a, b + 1, j, k) == part(h, a, b, j, k) + h.weights@[b][k].r() * kernel(h, b, j) { reveal(part); }
pub proof fn part_none(h: EstimatorHelper, a: int) ensures forall|j: int, k: int| #[trigger] part(h, a, a, j, k) == 0real { reveal(part); }
pub proof fn part_join(h: EstimatorHelper, a: int, b: int, c: int, j: int, k: int) requires a <= b <= c ensures part(h, a, c, j, k) == part(h, a, b, j, k) + part(h, b, c, j, k) decreases c - b { reveal(part); if b < c { part_join(h, a, b, c - 1, j, k); } }
impl EstimatorHelper {
    pub open spec fn wf(self) -> bool { self.whitening_factors@.len() == self.data.cols() && self.whitening_factors.cols() == self.data.cols() && self.grid.cols() == self.data.cols() && self.weights@.len() == self.data@.len() && self.weights.cols() == 1 }
//@extract src/training/node_estimation/multi_kde/actors/helper.rs :: impl EstimatorHelper :: new
//@ret r
//@spec
    requires grid.cols() == data.cols(), precision@.len() == data.cols(), precision.cols() == data.cols(), weights@.len() == data@.len(), weights.cols() == 1,
    ensures r.wf(), made(data, weights, grid, precision, r),
//@floats
//@subst data: ArcArray2<F> ==> data: A2
//@subst Array2<F> ==> A2
//@subst Recipient<EstimatorResponse> ==> Addr
//@subst (Lower) ==> (Uplo)
//@subst PI) ==> vpi())
//@subst whitening[[i, i]] ==> whitening.at(i, i)
//@subst receiver, } ==> receiver, log: Log { evs: Ghost(Seq::empty()) }, }
//@loop 0
            invariant vend_0 == d, d == whitening@.len(), d == whitening.cols(), 0 <= vit_0 <= vend_0, norm.r() == norm_of(d as int, whitening@, vit_0 as int),
            decreases vend_0 - vit_0,
//@top
    proof { rl_one(1); rl_one(2); }
//@end
//@extract src/training/node_estimation/multi_kde/actors/helper.rs :: impl EstimatorHelper :: evaluate
//@ret r
//@spec
    requires self.wf(), range.start <= range.end <= self.data@.len(),
    ensures share(*self, range.start as int, range.end as int, r@),
//@floats
//@subst Array1<F> ==> A1
//@subst Range<usize> ==> core::ops::Range<usize>
//@subst Array2::zeros(Dim([g, w])) ==> vzeros2([g, w])
//@subst white_data[[i, k]] ==> white_data.at(i, k)
//@subst self.grid[[j, k]] ==> self.grid.at(j, k)
//@subst self.weights[[o, k]] ==> self.weights.at(o, k)
//@subst estimate[[j, k]] += ==> *estimate.at_mut(j, k) +=
//@subst estimate.slice(s![.., 0]).into_owned() ==> estimate.vcol0()
//@subst let white_data = ==> let ghost rd = ranged_data@; let white_data =
//@subst let mut estimate = ==> proof { assert forall|i: int, k: int| 0 <= i < n && 0 <= k < d implies (#[trigger] white_data@[i][k]).r() == white(h, a + i, k) by { assert(rd[i] == h.data@[a + i]); } part_none(h, a); } let mut estimate =
//@subst arg = ((-arg) ==> proof { assert(arg.r() == sqd(h, o as int, j as int, d as int)); } arg = ((-arg)
//@top
    let ghost h = *self; let ghost a = range.start as int; let ghost b = range.end as int;
    proof { rl_one(0); rl_one(2); }
//@loop 0
            invariant self.wf(), h == *self, offset == a, 0 <= a <= b <= h.data@.len(), b <= usize::MAX, rl(0, 1) == 0real, rl(2, 1) == 2real, n == b - a, d == h.data.cols(), g == h.grid@.len(), w == 1, white_data@.len() == n, white_data.cols() == d, forall|i: int, k: int| 0 <= i < n && 0 <= k < d ==> (#[trigger] white_data@[i][k]).r() == white(h, a + i, k), estimate@.len() == g, estimate.cols() == w, vend_0 == n, 0 <= vit_0 <= n,
                forall|j: int, k: int| 0 <= j < g && 0 <= k < w ==> (#[trigger] estimate@[j][k]).r() == part(h, a, a + vit_0, j, k),
            decreases vend_0 - vit_0,
//@loop 0 top
            let ghost ii = i as int; proof { part_step(h, a, a + ii); }
//@loop 1
                invariant self.wf(), h == *self, offset == a, 0 <= a <= b <= h.data@.len(), b <= usize::MAX, rl(0, 1) == 0real, rl(2, 1) == 2real, n == b - a, d == h.data.cols(), g == h.grid@.len(), w == 1, white_data@.len() == n, white_data.cols() == d, forall|i: int, k: int| 0 <= i < n && 0 <= k < d ==> (#[trigger] white_data@[i][k]).r() == white(h, a + i, k), estimate@.len() == g, estimate.cols() == w, vend_1 == g, 0 <= vit_1 <= g, 0 <= ii < n, i == ii, o == a + ii,
                    forall|j: int, k: int| 0 <= j < vit_1 && 0 <= k < w ==> (#[trigger] estimate@[j][k]).r() == part(h, a, a + ii + 1, j, k),
                    forall|j: int, k: int| vit_1 <= j < g && 0 <= k < w ==> (#[trigger] estimate@[j][k]).r() == part(h, a, a + ii, j, k),
                    forall|j: int, k: int| #[trigger] part(h, a, a + ii + 1, j, k) == part(h, a, a + ii, j, k) + h.weights@[a + ii][k].r() * kernel(h, a + ii, j),
                decreases vend_1 - vit_1,
//@loop 2
                    invariant self.wf(), h == *self, offset == a, 0 <= a <= b <= h.data@.len(), b <= usize::MAX, rl(0, 1) == 0real, rl(2, 1) == 2real, n == b - a, d == h.data.cols(), g == h.grid@.len(), w == 1, white_data@.len() == n, white_data.cols() == d, forall|i: int, k: int| 0 <= i < n && 0 <= k < d ==> (#[trigger] white_data@[i][k]).r() == white(h, a + i, k), estimate@.len() == g, estimate.cols() == w, vend_2 == d, 0 <= vit_2 <= d, 0 <= ii < n, i == ii, o == a + ii, 0 <= j < g, arg.r() == sqd(h, o as int, j as int, vit_2 as int),
                    decreases vend_2 - vit_2,
//@loop 3 top
                        proof { a2_shape(estimate); }
//@loop 3 pre
                    let ghost e0 = estimate@; let ghost jj = j as int; 
//@loop 3
                    invariant self.wf(), h == *self, offset == a, 0 <= a <= b <= h.data@.len(), b <= usize::MAX, rl(0, 1) == 0real, rl(2, 1) == 2real, n == b - a, d == h.data.cols(), g == h.grid@.len(), w == 1, white_data@.len() == n, white_data.cols() == d, forall|i: int, k: int| 0 <= i < n && 0 <= k < d ==> (#[trigger] white_data@[i][k]).r() == white(h, a + i, k), estimate@.len() == g, estimate.cols() == w, vend_3 == w, 0 <= vit_3 <= w, 0 <= ii < n, i == ii, o == a + ii, 0 <= jj < g, j == jj, arg.r() == kernel(h, a + ii, jj), e0.len() == g,
                        e0[jj][0].r() == part(h, a, a + ii, jj, 0), part(h, a, a + ii + 1, jj, 0) == part(h, a, a + ii, jj, 0) + h.weights@[a + ii][0].r() * kernel(h, a + ii, jj),
                        forall|q: int, k: int| 0 <= q < g && 0 <= k < w && q != jj ==> (#[trigger] estimate@[q][k]) == e0[q][k],
                        estimate@[jj][0].r() == (if vit_3 == 0 { e0[jj][0].r() } else { part(h, a, a + ii + 1, jj, 0) }),
                    decreases vend_3 - vit_3,
//@end
//@extract src/training/node_estimation/multi_kde/actors/helper.rs :: impl Handler<EstimatorTask> for EstimatorHelper :: handle
//@spec
    requires old(self).wf(), msg.data_range.start <= msg.data_range.end <= old(self).data@.len(),
    ensures exists|m: EstimatorResponse| share(*old(self), msg.data_range.start as int, msg.data_range.end as int, #[trigger] m.estimate@) && final(self).log.evs@ == old(self).log.evs@.push(Ev::Part { m }),
//@subst fn handle( ==> fn handle_task(
//@subst _ctx: &mut Self::Context) -> Self::Result ==> _ctx: &mut Context)
//@subst let estimate = self.evaluate(msg.data_range); ==> let ghost (a, b) = (msg.data_range.start as int, msg.data_range.end as int); let estimate = self.evaluate(msg.data_range);
//@subst self.receiver.do_send(EstimatorResponse { estimate }); ==> let vm = EstimatorResponse { estimate }; let ghost g = vm; vtell(&self.receiver, &mut self.log, vm); proof { assert(share(*old(self), a, b, g.estimate@)); }
//@end
}
//@struct src/utils/helper_protocol.rs :: HelperProtocol
impl HelperProtocol {
//@extract src/utils/helper_protocol.rs :: impl HelperProtocol :: sent
//@spec
    requires old(self).n_sent < usize::MAX,
    ensures *final(self) == (HelperProtocol { n_sent: (old(self).n_sent + 1) as usize, ..*old(self) }),
//@end
//@extract src/utils/helper_protocol.rs :: impl HelperProtocol :: received
//@spec
    requires old(self).n_sent > 0, old(self).n_received < usize::MAX,
    ensures *final(self) == (HelperProtocol { n_sent: (old(self).n_sent - 1) as usize, n_received: (old(self).n_received + 1) as usize, ..*old(self) }),
//@end
//@extract src/utils/helper_protocol.rs :: impl HelperProtocol :: is_running
//@ret r
//@spec
    ensures r == (self.n_received < self.n_total),
//@end
}
// #[derive(Default)]
#[verifier::external_body] pub fn vprotocol() -> (r: HelperProtocol) ensures r.n_total == 0, r.n_sent == 0, r.n_received == 0 { unimplemented!() }
// the pool of helpers: how many, and what each of them works on
pub struct HAddr { pub n: usize, pub helper: Ghost<EstimatorHelper> }
#[verifier::external_body] pub fn vstart(n: usize, h: EstimatorHelper) -> (r: HAddr) requires n > 0 ensures r.n == n, r.helper@ == h { unimplemented!() }
#[verifier::external_body] pub fn vhtell<M: VMsg>(a: &Option<HAddr>, log: &mut Log, m: M) requires a is Some ensures final(log).evs@ == old(log).evs@.push(m.ev(None)) { unimplemented!() }
#[verifier::external_body] pub fn vdiv_floor(n: usize, d: usize) -> (r: usize) requires d > 0 ensures r == n / d { unimplemented!() }
// ---- who gets which rows
pub open spec fn from(n: int, t: int, k: int) -> int { t * (n / k) }
pub open spec fn to(n: int, t: int, k: int) -> int { if t + 1 < k { (t + 1) * (n / k) } else { n } }
pub open spec fn tasks(n: int, k: int, m: int) -> Seq<Ev> { Seq::new(m as nat, |t: int| Ev::Task { from: from(n, t, k) as usize, to: to(n, t, k) as usize }) }
proof fn fits(n: int, t: int, k: int) requires 0 <= t <= k, 0 < k, 0 <= n ensures 0 <= t * (n / k) <= n, t < k ==> t * (n / k) <= (t + 1) * (n / k) { let c = n / k; assert(c >= 0 && c * k <= n) by (nonlinear_arith) requires c == n / k, n >= 0, k > 0; assert(0 <= t * c <= k * c) by (nonlinear_arith) requires 0 <= t <= k, c >= 0; assert(k * c == c * k) by (nonlinear_arith); assert(t * c <= (t + 1) * c) by (nonlinear_arith) requires c >= 0; }
// the tasks' shares add up to the sum over all rows, each counted once
pub open spec fn shares(h: EstimatorHelper, n: int, k: int, m: int, j: int) -> real decreases m { if m <= 0 { 0real } else { shares(h, n, k, m - 1, j) + part(h, from(n, m - 1, k), to(n, m - 1, k), j, 0) } }
proof fn shares_upto(h: EstimatorHelper, n: int, k: int, m: int, j: int) requires 0 <= m < k, 0 <= n ensures shares(h, n, k, m, j) == part(h, 0, from(n, m, k), j, 0) decreases m { if m > 0 { shares_upto(h, n, k, m - 1, j); fits(n, m - 1, k); fits(n, m, k); part_join(h, 0, from(n, m - 1, k), from(n, m, k), j, 0); } else { reveal(part); assert(from(n, 0, k) == 0) by (nonlinear_arith); } }
pub proof fn every_row_once(h: EstimatorHelper, n: int, k: int, j: int) requires 0 < k, 0 <= n ensures shares(h, n, k, k, j) == part(h, 0, n, j, 0) { shares_upto(h, n, k, k - 1, j); fits(n, k - 1, k); part_join(h, 0, from(n, k - 1, k), n, j, 0); }
// ---- the sum of the answers, whatever their order
pub open spec fn total(rec: Seq<Seq<F>>, j: int) -> real decreases rec.len() { if rec.len() == 0 { 0real } else { total(rec.drop_last(), j) + rec.last()[j].r() } }
proof fn total_remove(rec: Seq<Seq<F>>, i: int, j: int) requires 0 <= i < rec.len() ensures total(rec, j) == total(rec.remove(i), j) + rec[i][j].r() decreases rec.len() {
    if i == rec.len() - 1 { assert(rec.remove(i) =~= rec.drop_last()); } else { total_remove(rec.drop_last(), i, j); assert(rec.drop_last().remove(i) =~= rec.remove(i).drop_last()); assert(rec.remove(i).last() == rec.last()); }
}
pub open spec fn reordered(a: Seq<Seq<F>>, b: Seq<Seq<F>>) -> bool { a.to_multiset() =~= b.to_multiset() }
pub proof fn any_order(a: Seq<Seq<F>>, b: Seq<Seq<F>>, j: int) requires reordered(a, b) ensures total(a, j) == total(b, j) decreases a.len() {
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    assert(a.len() == a.to_multiset().len() && b.len() == b.to_multiset().len());
    if a.len() > 0 {
        let x = a.last(); assert(a.contains(x)); assert(b.to_multiset().count(x) > 0); assert(b.contains(x)); let i = b.index_of(x); assert(b[i] == x);
        assert(a.drop_last() =~= a.remove(a.len() - 1));
        assert(a.drop_last().to_multiset() =~= a.to_multiset().remove(x));
        assert(b.remove(i).to_multiset() =~= b.to_multiset().remove(x));
        any_order(a.drop_last(), b.remove(i), j); total_remove(b, i, j);
    }
}
// answers to all tasks, in any order: the sum over all rows
pub open spec fn replies(h: EstimatorHelper, n: int, k: int, all: Seq<Seq<F>>) -> bool { all.len() == k && forall|t: int| 0 <= t < k ==> #[trigger] reply(h, n, k, all, t) }
pub open spec fn reply(h: EstimatorHelper, n: int, k: int, all: Seq<Seq<F>>, t: int) -> bool { share(h, from(n, t, k), to(n, t, k), all[t]) }
proof fn total_shares(h: EstimatorHelper, n: int, k: int, all: Seq<Seq<F>>, m: int, j: int) requires replies(h, n, k, all), 0 <= m <= k, 0 <= j < h.grid@.len() ensures total(all.subrange(0, m), j) == shares(h, n, k, m, j) decreases m { if m > 0 { total_shares(h, n, k, all, m - 1, j); let s = all.subrange(0, m); assert(s.drop_last() =~= all.subrange(0, m - 1)); assert(reply(h, n, k, all, m - 1)); assert(s.last() == all[m - 1]); } else { assert(all.subrange(0, 0).len() == 0); } }
pub proof fn estimate_of_all_rows(h: EstimatorHelper, n: int, k: int, all: Seq<Seq<F>>, rec: Seq<Seq<F>>, j: int) requires 0 < k, 0 <= n, replies(h, n, k, all), reordered(rec, all), 0 <= j < h.grid@.len() ensures total(rec, j) == part(h, 0, n, j, 0) { total_shares(h, n, k, all, k, j); assert(all.subrange(0, k) =~= all); any_order(rec, all, j); every_row_once(h, n, k, j); }
// ---- bandwidth
pub open spec fn all_equal(w: A2, n: int) -> bool { w@.len() == n && w.cols() == 1 && forall|i: int, k: int| 0 <= i < n && 0 <= k < 1 ==> (#[trigger] w@[i][k]).r() == 1real / (n as real) }
proof fn sum_const(s: Seq<F>, x: real) requires forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).r() == x ensures sum(s) == (s.len() as real) * x decreases s.len() { if s.len() > 0 { sum_const(s.drop_last(), x); let n = s.len() as real; let m = s.drop_last().len() as real; assert(s.last().r() == x); assert(n == m + 1real); assert(n * x == m * x + x) by (nonlinear_arith) requires n == m + 1real; } else { assert((0 as real) * x == 0real) by (nonlinear_arith); } }
proof fn inverse_sum(n: real, x: real, s: real) requires n >= 1real, x == 1real / n, s == n * (x * x) ensures s != 0real, 1real / s == n { assert(n * x == 1real) by (nonlinear_arith) requires x == 1real / n, n >= 1real; assert(s == (n * x) * x) by (nonlinear_arith) requires s == n * (x * x); assert(s == x) by (nonlinear_arith) requires s == (n * x) * x, n * x == 1real; assert(x != 0real) by (nonlinear_arith) requires n * x == 1real; assert(1real / x == n) by (nonlinear_arith) requires n * x == 1real, x != 0real; }
pub open spec fn factor(n: int, d: int) -> real { rpow(n as real, (0real - 1real) / ((d + 4) as real)) }
pub open spec fn scaled(c: Seq<Seq<F>>, p: A2, d: int, f: real) -> bool { p@.len() == d && p.cols() == d && forall|i: int, k: int| 0 <= i < d && 0 <= k < d ==> (#[trigger] p@[i][k]).r() == c[i][k].r() / (f * f) }
pub open spec fn on_grid(g: A2, lo: real, hi: real, n: int) -> bool { g@.len() == n && g.cols() == 1 && forall|j: int| 0 <= j < n ==> (#[trigger] g@[j][0]).r() == spaced(lo - (hi - lo) / 10real, hi + (hi - lo) / 10real, n, j) }
// what the helpers evaluate: the Gaussian kernel estimate of all rows with equal weights and Scott's bandwidth, on the grid from a tenth below the least to a tenth above the greatest value
pub open spec fn gaussian(h: EstimatorHelper, data: A2, res: int) -> bool { exists|w: A2, g: A2, p: A2, lo: real, hi: real| #[trigger] made(data, w, g, p, h) && all_equal(w, data@.len() as int) && #[trigger] on_grid(g, lo, hi, res) && least(data@, lo) && greatest(data@, hi) && scaled(inv_of(cov_of(data@, 1real))->0, p, 1, factor(data@.len() as int, 1)) }
pub struct GaussianKDEActor { pub n_threads: usize, pub resolution: usize, pub data: Option<A2>, pub helper: Option<HAddr>, pub helper_protocol: HelperProtocol, pub estimate: Option<A1>, pub receiver: Option<Addr>, pub log: Log }
impl GaussianKDEActor {
    pub open spec fn n(self) -> int { self.data->0@.len() as int }
    pub open spec fn wf(self) -> bool { self.receiver is Some && 1 <= self.n_threads < usize::MAX && self.resolution > 1 }
    pub open spec fn holds(self) -> bool { self.data is Some && 1 <= self.n() <= usize::MAX && self.data->0.cols() == 1 }
    // these answers have been added up, more are to come
    pub open spec fn adds(self, rec: Seq<Seq<F>>) -> bool {
        &&& self.helper is Some && self.helper_protocol.n_total == self.n_threads && self.helper_protocol.n_received == rec.len() && self.helper_protocol.n_sent == self.n_threads - rec.len() && rec.len() < self.n_threads
        &&& rec.len() == 0 ==> self.estimate is None
        &&& rec.len() > 0 ==> self.estimate is Some && sums(rec, self.estimate->0@, self.resolution as int)
    }
//@extract src/training/node_estimation/multi_kde/actors/gaussian_kde.rs :: impl GaussianKDEActor :: reset
//@spec
    ensures final(self).wf() == old(self).wf(), final(self).data is None, final(self).helper is None, final(self).estimate is None, final(self).helper_protocol.n_total == 0, final(self).helper_protocol.n_sent == 0, final(self).helper_protocol.n_received == 0, final(self).log == old(self).log, final(self).n_threads == old(self).n_threads, final(self).resolution == old(self).resolution, final(self).receiver == old(self).receiver,
//@subst HelperProtocol::default() ==> vprotocol()
//@end
//@extract src/training/node_estimation/multi_kde/actors/gaussian_kde.rs :: impl GaussianKDEActor :: calculate_weights
//@ret r
//@spec
    requires self.holds(),
    ensures all_equal(r, self.n()),
//@floats
//@subst Array2<F> ==> A2
//@subst Array2::ones(Dim([n, 1])) / (vfc(n)) ==> vones2([n, 1]).vdiv(vfc(n))
//@end
//@extract src/training/node_estimation/multi_kde/actors/gaussian_kde.rs :: impl GaussianKDEActor :: neff
//@ret r
//@spec
    requires 1 <= weights@.len(), all_equal(weights, weights@.len() as int),
    ensures r.r() == weights@.len() as int as real,
//@floats
//@subst ArrayView2<F> ==> A2
//@subst let weights_sum: F = weights.iter().map( ==> let vs = weights.vflat().map(
//@subst .sum(); ==> ; let ghost sq = vs.all(); let weights_sum: F = vs.sum(); proof { let n = weights@.len() as int as real; let x = 1real / n; assert forall|i: int| 0 <= i < sq.len() implies (#[trigger] sq[i]).r() == x * x by { assert(weights@[i][0].r() == x); } sum_const(sq, x * x); inverse_sum(n, x, weights_sum.r()); rl_one(1); }
//@closure 0
|w: &F| -> (q: F) ensures q.r() == w.r() * w.r()
//@end
//@extract src/training/node_estimation/multi_kde/actors/gaussian_kde.rs :: impl GaussianKDEActor :: scotts_factor
//@ret r
//@spec
    requires self.holds(), all_equal(weights, self.n()),
    ensures r.r() == factor(self.n(), 1), r.r() > 0real,
//@floats
//@subst ArrayView2<F> ==> A2
//@top
    proof { rl_one(1); }
//@end
//@extract src/training/node_estimation/multi_kde/actors/gaussian_kde.rs :: impl GaussianKDEActor :: compute_covariance
//@ret r
//@spec
    requires self.holds(), factor.r() > 0real,
    ensures r is Some <==> inv_of(cov_of(self.data->0@, 1real)) is Some, r is Some ==> scaled(inv_of(cov_of(self.data->0@, 1real))->0, r->0, 1, factor.r()),
//@floats
//@subst Array2<F> ==> A2
//@subst covariance_inv / factor.powi(2) ==> covariance_inv.vdiv(factor.powi(2))
//@top
    proof { rl_one(1); let f = factor.r(); assert(f * f != 0real) by (nonlinear_arith) requires f > 0real; }
//@end
//@extract src/training/node_estimation/multi_kde/actors/gaussian_kde.rs :: impl GaussianKDEActor :: send_tasks
//@spec
    requires old(self).wf(), old(self).holds(), old(self).helper is Some, old(self).helper_protocol.n_sent == 0,
    ensures final(self).log.evs@ == old(self).log.evs@ + tasks(old(self).n(), old(self).n_threads as int, old(self).n_threads as int), final(self).helper_protocol.n_sent == old(self).n_threads, final(self).helper_protocol == (HelperProtocol { n_sent: old(self).n_threads, ..old(self).helper_protocol }),
        *final(self) == (GaussianKDEActor { log: final(self).log, helper_protocol: final(self).helper_protocol, ..*old(self) }),
//@subst num_integer::Integer::div_floor(&n, &self.n_threads) ==> vdiv_floor(n, self.n_threads)
//@subst t.mul(chunk_size) ==> t * chunk_size
//@subst (t + 1).mul(chunk_size) ==> (t + 1) * chunk_size
//@subst self.helper.as_ref().unwrap().do_send( ==> vhtell(&self.helper, &mut self.log,
//@top
    let ghost k = self.n_threads as int;
//@loop 0
            invariant k == old(self).n_threads, 1 <= k < usize::MAX, vend_0 == k, 0 <= vit_0 <= k, n == old(self).n(), chunk_size == n / (k as usize), old(self).helper is Some, *self == (GaussianKDEActor { log: self.log, helper_protocol: self.helper_protocol, ..*old(self) }),
                self.helper_protocol == (HelperProtocol { n_sent: vit_0, ..old(self).helper_protocol }), self.log.evs@ == old(self).log.evs@ + tasks(n as int, k, vit_0 as int),
            decreases vend_0 - vit_0,
//@loop 0 top
            let ghost l0 = self.log.evs@; proof { fits(n as int, t as int, k); fits(n as int, t + 1, k); }
//@loop 0 end
            proof { assert(tasks(n as int, k, t + 1) =~= tasks(n as int, k, t as int).push(Ev::Task { from: from(n as int, t as int, k) as usize, to: to(n as int, t as int, k) as usize })); assert(self.log.evs@ =~= old(self).log.evs@ + tasks(n as int, k, t + 1)); }
//@loop 0 after
        proof { }
//@end
//@extract src/training/node_estimation/multi_kde/actors/gaussian_kde.rs :: impl GaussianKDEActor :: evaluate
//@spec
    requires old(self).wf(), old(self).holds(), old(self).helper_protocol.n_sent == 0, old(self).helper_protocol.n_received == 0, grid.cols() == 1, precision@.len() == 1, precision.cols() == 1, all_equal(weights, old(self).n()),
    ensures final(self).log.evs@ == old(self).log.evs@ + tasks(old(self).n(), old(self).n_threads as int, old(self).n_threads as int), final(self).data == old(self).data, final(self).n_threads == old(self).n_threads, final(self).resolution == old(self).resolution, final(self).receiver == old(self).receiver,
        final(self).helper is Some, final(self).helper->0.n == old(self).n_threads, made(old(self).data->0, weights, grid, precision, final(self).helper->0.helper@), final(self).estimate == old(self).estimate, old(self).estimate is None ==> final(self).adds(Seq::empty()),
//@floats
//@subst Array2<F> ==> A2
//@subst ctx: &mut Context<Self> ==> ctx: &mut Context
//@subst SyncArbiter::start(self.n_threads, move || { ==> vstart(self.n_threads, {
//@end
//@extract src/training/node_estimation/multi_kde/actors/gaussian_kde.rs :: impl GaussianKDEActor :: estimate
//@spec
    requires old(self).wf(), old(self).helper_protocol.n_sent == 0, old(self).helper_protocol.n_received == 0, old(self).estimate is None, 1 <= data@.len() <= usize::MAX, data.cols() == 1,
    ensures old(self).started(data, *final(self)),
//@floats
//@rename view=vown
//@subst data: ArcArray2<F> ==> data: A2
//@subst ctx: &mut Context<Self> ==> ctx: &mut Context
//@subst Array::linspace( ==> vlinspace(
//@subst Some(precision) => self.evaluate(grid, weights, precision, ctx), ==> Some(precision) => { let ghost (gg, gw, gp) = (grid, weights, precision); proof { assert forall|j: int| 0 <= j < self.resolution implies (#[trigger] gg@[j][0]).r() == spaced(lo - (hi - lo) / 10real, hi + (hi - lo) / 10real, self.resolution as int, j) by { } assert(on_grid(gg, lo, hi, self.resolution as int)); } self.evaluate(grid, weights, precision, ctx); proof { assert(made(d0, gw, gg, gp, self.helper->0.helper@)); assert(gaussian(self.helper->0.helper@, d0, self.resolution as int)); } }
//@subst None => self.receiver.as_ref().unwrap().do_send(GaussianKDEResponse { kernel_estimate: Array1::zeros(self.resolution), }), ==> None => { let vm = GaussianKDEResponse { kernel_estimate: vzeros1(self.resolution), }; let ghost g = vm; votell(&self.receiver, &mut self.log, vm); proof { assert(flat(g, self.resolution as int)); } }
//@subst let padding = ==> let ghost (lo, hi) = (grid_min.r(), grid_max.r()); let padding =
//@subst Array1::zeros( ==> vzeros1(
//@subst self.receiver.as_ref().unwrap().do_send( ==> votell(&self.receiver, &mut self.log,
//@top
    let ghost d0 = data; proof { tenth(); }
//@end
//@extract src/training/node_estimation/multi_kde/actors/gaussian_kde.rs :: impl Handler<GaussianKDEMessage> for GaussianKDEActor :: handle
//@spec
    requires old(self).wf(), 1 <= msg.column@.len() <= usize::MAX, msg.column.cols() == 1,
    ensures old(self).started(msg.column, *final(self)),
//@subst fn handle( ==> fn handle_column(
//@subst ctx: &mut Self::Context) -> Self::Result ==> ctx: &mut Context)
//@end
//@extract src/training/node_estimation/multi_kde/actors/gaussian_kde.rs :: impl Handler<EstimatorResponse> for GaussianKDEActor :: handle
//@spec
    requires old(self).wf(), exists|rec: Seq<Seq<F>>| #[trigger] old(self).adds(rec), msg.estimate@.len() == old(self).resolution,
    ensures forall|rec: Seq<Seq<F>>| #[trigger] old(self).adds(rec) ==> old(self).added(rec.push(msg.estimate@), *final(self)), final(self).data == old(self).data, final(self).helper == old(self).helper, final(self).n_threads == old(self).n_threads, final(self).resolution == old(self).resolution, final(self).receiver == old(self).receiver,
//@subst fn handle( ==> fn handle_part(
//@subst _ctx: &mut Self::Context) -> Self::Result ==> _ctx: &mut Context)
//@subst self.helper.as_ref().unwrap().do_send( ==> vhtell(&self.helper, &mut self.log,
//@subst self.receiver.as_ref().unwrap().do_send(GaussianKDEResponse { kernel_estimate: estimate, }); ==> let vm = GaussianKDEResponse { kernel_estimate: estimate, }; let ghost g = vm; votell(&self.receiver, &mut self.log, vm); proof { assert forall|rec: Seq<Seq<F>>| #[trigger] old(self).adds(rec) implies old(self).added(rec.push(me), *self) by { assert(sums(rec.push(me), g.kernel_estimate@, self.resolution as int)); } }
//@subst if !self.helper_protocol.is_running() ==> proof { assert forall|rec: Seq<Seq<F>>| #[trigger] old(self).adds(rec) implies self.estimate is Some && sums(rec.push(me), self.estimate->0@, self.resolution as int) by { assert(rec.push(me).drop_last() =~= rec); assert(rec.push(me).last() == me); if rec.len() == 0 { assert forall|j: int| 0 <= j < self.resolution implies (#[trigger] self.estimate->0@[j]).r() == total(rec.push(me), j) by { assert(total(rec, j) == 0real); } } } } if !self.helper_protocol.is_running()
//@top
    let ghost me = msg.estimate@;
//@end
    // the answer goes out with the last part, once
    pub open spec fn added(self, rec: Seq<Seq<F>>, f: Self) -> bool {
        if rec.len() < self.n_threads { f.adds(rec) && f.log == self.log }
        else { f.estimate is None && exists|m: GaussianKDEResponse| #[trigger] sums(rec, m.kernel_estimate@, self.resolution as int) && f.log.evs@ == self.log.evs@.push(Ev::Poison).push(Ev::Answer { m }) }
    }
    pub open spec fn started(self, data: A2, f: Self) -> bool {
        if inv_of(cov_of(data@, 1real)) is Some {
            f.data == Some(data) && f.helper is Some && f.helper->0.n == self.n_threads && gaussian(f.helper->0.helper@, data, self.resolution as int) && f.adds(Seq::empty()) && f.n_threads == self.n_threads && f.resolution == self.resolution && f.receiver == self.receiver
                && f.log.evs@ == self.log.evs@ + tasks(data@.len() as int, self.n_threads as int, self.n_threads as int)
        } else { exists|m: GaussianKDEResponse| #[trigger] flat(m, self.resolution as int) && f.log.evs@ == self.log.evs@.push(Ev::Answer { m }) }
    }
}
proof fn tenth() ensures rl(1, 10) == 1real / 10real { }
pub open spec fn flat(m: GaussianKDEResponse, n: int) -> bool { m.kernel_estimate@.len() == n && forall|j: int| 0 <= j < n ==> (#[trigger] m.kernel_estimate@[j]).r() == 0real }
pub open spec fn sums(rec: Seq<Seq<F>>, e: Seq<F>, n: int) -> bool { e.len() == n && forall|j: int| 0 <= j < n ==> (#[trigger] e[j]).r() == total(rec, j) }
pub open spec fn norm_of(d: int, w: Seq<Seq<F>>, n: int) -> real decreases n { if n <= 0 { rpow(2real * pi(), (0real - (d as real)) / 2real) } else { norm_of(d, w, n - 1) * w[n - 1][n - 1].r() } }
pub open spec fn made(data: A2, weights: A2, grid: A2, precision: A2, r: EstimatorHelper) -> bool {
    &&& r.data == data && r.weights == weights && r.whitening_factors@ == chol(precision@) && r.norm.r() == norm_of(data.cols() as int, chol(precision@), data.cols() as int)
    &&& r.grid@.len() == grid@.len() && forall|j: int, k: int| 0 <= j < grid@.len() && 0 <= k < data.cols() ==> (#[trigger] r.grid@[j][k]).r() == dotp(grid@[j], chol(precision@), k, data.cols() as int)
}
pub open spec fn share(h: EstimatorHelper, a: int, b: int, r: Seq<F>) -> bool { r.len() == h.grid@.len() && forall|j: int| 0 <= j < r.len() ==> (#[trigger] r[j]).r() == part(h, a, b, j, 0) }
// FromTo: the items from..to of an iterator
pub struct FromTo<T> { pub iter: It<(usize, T)>, pub from: usize, pub to: usize }
pub open spec fn items<T>(s: Seq<(usize, T)>) -> Seq<T> { Seq::new(s.len(), |i: int| s[i].1) }
impl<T> FromTo<T> {
    pub open spec fn wf(self) -> bool { 0 <= self.iter.pos() <= self.iter.all().len() && self.from <= self.to && self.iter.all().len() + self.from <= usize::MAX && forall|i: int| 0 <= i < self.iter.all().len() ==> (#[trigger] self.iter.all()[i]).0 == i }
    // what is still to come
    pub open spec fn rest(self) -> Seq<T> { let n = if self.iter.all().len() < self.to - self.from { self.iter.all().len() as int } else { self.to - self.from }; if self.iter.pos() < n { items(self.iter.all()).subrange(self.iter.pos(), n) } else { Seq::empty() } }
//@extract src/utils/itertools.rs :: impl Iterator for FromTo :: next
//@ret r
//@spec
    requires old(self).wf(),
    ensures final(self).wf(), old(self).rest().len() == 0 ==> r is None && final(self).rest().len() == 0, old(self).rest().len() > 0 ==> r == Some(old(self).rest()[0]) && final(self).rest() =~= old(self).rest().skip(1),
//@subst Option<Self::Item> ==> Option<T>
//@end
//@extract src/utils/itertools.rs :: impl FromTo :: new
//@ret r
//@spec
    ensures r.iter == iter, r.from == from, r.to == to,
//@subst Enumerate<Skip<I>> ==> It<(usize, T)>
//@end
}
impl<T> It<T> {
    #[verifier::external_body] pub fn skip(self, n: usize) -> (r: It<T>) requires self.pos() == 0 ensures r.pos() == 0, r.all() == (if n <= self.all().len() { self.all().skip(n as int) } else { Seq::empty() }) { unimplemented!() }
//@extract src/utils/itertools.rs :: trait FromToAble :: fromto
//@ret r
//@spec
    requires self.pos() == 0, from <= to <= self.all().len() <= usize::MAX,
    ensures r.wf(), r.rest() == self.all().subrange(from as int, to as int),
//@drop warn!
//@subst FromTo<Self> where Self: Sized, ==> FromTo<T>
//@subst -> (r: FromTo<Self>) ==> -> (r: FromTo<T>)
//@subst FromTo::new(self.skip(from).enumerate(), from, to) ==> let ghost a = self.all(); let ve = self.skip(from).enumerate(); proof { assert(items(ve.all()).subrange(0, to - from) =~= a.subrange(from as int, to as int)); } FromTo::new(ve, from, to)
//@end
}
} // verus!
fn main() {}
