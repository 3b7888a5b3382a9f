verus! {
// ---- f32 treated as exact real arithmetic (assumption; the native replay runs the real f32) ----
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct F { x: f32 }
impl F { pub uninterp spec fn r(&self) -> real; 
    #[verifier::external_body] pub fn floor(self) -> (q: F) ensures q.r() == self.r().floor() as real { unimplemented!() }
    #[verifier::external_body] pub fn abs(self) -> (q: F) ensures q.r() == if self.r() < 0real { 0real - self.r() } else { self.r() } { unimplemented!() }
    #[verifier::external_body] pub fn max(self, o: F) -> (q: F) ensures q.r() == if self.r() < o.r() { o.r() } else { self.r() } { unimplemented!() }
    #[verifier::external_body] pub fn min(self, o: F) -> (q: F) ensures q.r() == if self.r() < o.r() { self.r() } else { o.r() } { unimplemented!() }
    #[verifier::external_body] pub fn lt(&self, o: &F) -> (q: bool) ensures q == (self.r() < o.r()) { unimplemented!() }
    #[verifier::external_body] pub fn gt(&self, o: &F) -> (q: bool) ensures q == (self.r() > o.r()) { unimplemented!() }
    #[verifier::external_body] pub fn is0(self) -> (q: bool) ensures q == (self.r() == 0real) { unimplemented!() }
}
impl vstd::std_specs::cmp::PartialEqSpecImpl<F> for F {
  open spec fn obeys_eq_spec() -> bool { true }
  open spec fn eq_spec(&self, o: &F) -> bool { self.r() == o.r() }
}
impl core::cmp::PartialEq for F { #[verifier::external_body] fn eq(&self, o: &F) -> (q: bool) { unimplemented!() } }
impl vstd::std_specs::cmp::PartialOrdSpecImpl<F> for F {
  open spec fn obeys_partial_cmp_spec() -> bool { true }
  open spec fn partial_cmp_spec(&self, o: &F) -> Option<core::cmp::Ordering> { if self.r() < o.r() { Some(core::cmp::Ordering::Less) } else if self.r() > o.r() { Some(core::cmp::Ordering::Greater) } else { Some(core::cmp::Ordering::Equal) } }
}
impl core::cmp::PartialOrd for F { #[verifier::external_body] fn partial_cmp(&self, o: &F) -> (q: Option<core::cmp::Ordering>) { unimplemented!() } }
pub open spec fn rl(n: int, d: int) -> real { (n as real) / (d as real) }
pub proof fn rl_one(n: int) ensures rl(n, 1) == n as real { let x = rl(n, 1); assert(x * (1int as real) == n as real) by (nonlinear_arith) requires x == (n as real) / (1int as real); assert(x * 1real == x) by (nonlinear_arith); }
#[verifier::external_body]
pub fn vfl(n: u64, d: u64) -> (q: F) ensures q.r() == rl(n as int, d as int) { unimplemented!() }
pub trait VInt { spec fn vi(self) -> int; }
impl VInt for usize { open spec fn vi(self) -> int { self as int } }
impl VInt for isize { open spec fn vi(self) -> int { self as int } }
#[verifier::external_body]
pub fn vfc<T: VInt>(x: T) -> (q: F) ensures q.r() == x.vi() as real { unimplemented!() }
// `as usize`: truncates a float towards zero and saturates, is the identity on usize
pub trait VToU { spec fn tu(self) -> int; }
impl VToU for usize { open spec fn tu(self) -> int { self as int } }
impl VToU for F { open spec fn tu(self) -> int { if self.r() < 0real { 0 } else if self.r().floor() > usize::MAX { usize::MAX as int } else { self.r().floor() } } }
#[verifier::external_body]
pub fn vto_usize<T: VToU>(x: T) -> (q: usize) ensures q == x.tu() { unimplemented!() }

macro_rules! fop { ($tr:ident, $sp:ident, $obeys:ident, $req:ident, $spec:ident, $m:ident, $o:tt) => { verus! {
impl vstd::std_specs::ops::$sp<F> for F {
  open spec fn $obeys() -> bool { false }
  open spec fn $req(self, r: F) -> bool { true }
  open spec fn $spec(self, r: F) -> F { self }
}
impl core::ops::$tr for F { type Output = F;
  #[verifier::external_body]
  fn $m(self, r: F) -> (q: F) ensures q.r() == self.r() $o r.r() { unimplemented!() } }
} } }
fop!(Sub, SubSpecImpl, obeys_sub_spec, sub_req, sub_spec, sub, -);
fop!(Add, AddSpecImpl, obeys_add_spec, add_req, add_spec, add, +);
fop!(Mul, MulSpecImpl, obeys_mul_spec, mul_req, mul_spec, mul, *);
// division by zero is not excluded by f32; over the reals x/0 is unspecified
impl vstd::std_specs::ops::DivSpecImpl<F> for F {
  open spec fn obeys_div_spec() -> bool { false }
  open spec fn div_req(self, r: F) -> bool { r.r() != 0real }
  open spec fn div_spec(self, r: F) -> F { self }
}
impl core::ops::Div for F { type Output = F;
  #[verifier::external_body]
  fn div(self, r: F) -> (q: F) ensures q.r() == self.r() / r.r() { unimplemented!() } }
impl vstd::std_specs::ops::NegSpecImpl for F {
  open spec fn obeys_neg_spec() -> bool { false }
  open spec fn neg_req(self) -> bool { true }
  open spec fn neg_spec(self) -> F { self }
}
impl core::ops::Neg for F { type Output = F;
  #[verifier::external_body]
  fn neg(self) -> (q: F) ensures q.r() == 0real - self.r() { unimplemented!() } }
} // verus!
macro_rules! fopa { ($tr:ident, $sp:ident, $obeys:ident, $req:ident, $spec:ident, $m:ident, $o:tt) => { verus! {
impl vstd::std_specs::ops::$sp for F {
  open spec fn $obeys() -> bool { false }
  open spec fn $req(&self, r: F) -> bool { true }
  open spec fn $spec(&self, r: F) -> &F { self }
}
impl core::ops::$tr for F {
  #[verifier::external_body]
  fn $m(&mut self, r: F) ensures final(self).r() == old(self).r() $o r.r() { unimplemented!() } }
} } }
fopa!(MulAssign, MulAssignSpecImpl, obeys_mul_assign_spec, mul_assign_req, mul_assign_spec, mul_assign, *);
fopa!(AddAssign, AddAssignSpecImpl, obeys_add_assign_spec, add_assign_req, add_assign_spec, add_assign, +);
fopa!(SubAssign, SubAssignSpecImpl, obeys_sub_assign_spec, sub_assign_req, sub_assign_spec, sub_assign, -);
