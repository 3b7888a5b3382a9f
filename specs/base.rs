// ---- shared prelude: assumed contracts of dependencies (std, num_integer) ----
#![allow(unused_imports, unused_variables, dead_code, unused_mut, unused_parens, unused_assignments)]
use vstd::prelude::*;
verus! {
global size_of usize == 8;
// panicking is never allowed on a verified path
#[verifier::external_body]
pub fn vpanic() -> ! requires false { panic!() }
#[verifier::external_body]
pub fn vany<T>() -> T { unimplemented!() }
pub fn vassert(b: bool) requires b { }

// num_integer::Integer: floor division and modulus
pub mod num_integer {
    use super::*;
    pub trait Integer: Sized {
        spec fn v(&self) -> int;
        fn div_floor(&self, o: &Self) -> (r: Self) requires o.v() > 0 ensures r.v() == self.v() / o.v();
        fn mod_floor(&self, o: &Self) -> (r: Self) requires o.v() > 0 ensures r.v() == self.v() % o.v();
    }
    impl Integer for usize {
        open spec fn v(&self) -> int { *self as int }
        #[verifier::external_body]
        fn div_floor(&self, o: &Self) -> (r: Self) { *self / *o }
        #[verifier::external_body]
        fn mod_floor(&self, o: &Self) -> (r: Self) { *self % *o }
    }
    impl Integer for isize {
        open spec fn v(&self) -> int { *self as int }
        #[verifier::external_body]
        fn div_floor(&self, o: &Self) -> (r: Self) { unimplemented!() }
        #[verifier::external_body]
        fn mod_floor(&self, o: &Self) -> (r: Self) { unimplemented!() }
    }
}
use num_integer::Integer;
// `a.sub(&b)` (std::ops::Sub<&T>): subtraction, panics on overflow
pub trait VSub: Sized { spec fn svi(self) -> int; spec fn fits(i: int) -> bool; fn sub(self, o: &Self) -> (r: Self) requires Self::fits(self.svi() - o.svi()) ensures r.svi() == self.svi() - o.svi(); }
impl VSub for isize { open spec fn svi(self) -> int { self as int } open spec fn fits(i: int) -> bool { isize::MIN <= i <= isize::MAX } fn sub(self, o: &isize) -> (r: isize) { self - *o } }
impl VSub for usize { open spec fn svi(self) -> int { self as int } open spec fn fits(i: int) -> bool { 0 <= i <= usize::MAX } fn sub(self, o: &usize) -> (r: usize) { self - *o } }
pub trait VAbs { spec fn avi(self) -> int; fn vabs(self) -> (r: isize) requires self.avi() > isize::MIN ensures r == if self.avi() < 0 { -self.avi() } else { self.avi() }; }
impl VAbs for isize { open spec fn avi(self) -> int { self as int } fn vabs(self) -> (r: isize) { if self < 0 { -self } else { self } } }
pub trait VMinMax: Sized { spec fn mvi(self) -> int; fn vmin(self, o: Self) -> (r: Self) ensures r == if self.mvi() <= o.mvi() { self } else { o }; fn vmax(self, o: Self) -> (r: Self) ensures r == if self.mvi() >= o.mvi() { self } else { o }; }
impl VMinMax for usize { open spec fn mvi(self) -> int { self as int } fn vmin(self, o: usize) -> (r: usize) { if self <= o { self } else { o } } fn vmax(self, o: usize) -> (r: usize) { if self >= o { self } else { o } } }
// PartialEq / PartialOrd methods on usize
pub trait VCmp { spec fn cv(&self) -> int; fn vlt(&self, o: &Self) -> (r: bool) ensures r == (self.cv() < o.cv()); fn vne(&self, o: &Self) -> (r: bool) ensures r == (self.cv() != o.cv()); fn veqq(&self, o: &Self) -> (r: bool) ensures r == (self.cv() == o.cv()); }
impl VCmp for usize { open spec fn cv(&self) -> int { *self as int } fn vlt(&self, o: &usize) -> (r: bool) { *self < *o } fn vne(&self, o: &usize) -> (r: bool) { *self != *o } fn veqq(&self, o: &usize) -> (r: bool) { *self == *o } }
} // verus!
