// `s![..]` of ndarray: which rows (or row), all columns
macro_rules! s { ($r:expr, ..) => { Row($r) }; }
verus! {
// ---- ndarray with two and three axes: sequences of rows (assumed contracts of ndarray, validated by the native replay) ----
pub struct Row<R>(pub R);
#[derive(Clone, Copy)] pub struct Axis(pub usize);
#[verifier::external_body] pub struct A1 { p: usize }
#[verifier::external_body] pub struct A2 { p: usize }
#[verifier::external_body] pub struct A3 { p: usize }
impl View for A1 { type V = Seq<F>; uninterp spec fn view(&self) -> Seq<F>; }
impl View for A2 { type V = Seq<Seq<F>>; uninterp spec fn view(&self) -> Seq<Seq<F>>; }
impl View for A3 { type V = Seq<Seq<Seq<F>>>; uninterp spec fn view(&self) -> Seq<Seq<Seq<F>>>; }
impl A2 { pub uninterp spec fn cols(&self) -> nat; }
impl A3 { pub uninterp spec fn rows(&self) -> nat; pub uninterp spec fn cols(&self) -> nat; }
pub open spec fn shaped2(a: Seq<Seq<F>>, c: int) -> bool { forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i]).len() == c }
pub open spec fn shaped3(a: Seq<Seq<Seq<F>>>, r: int, c: int) -> bool { forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i]).len() == r && shaped2(a[i], c) }
// an array has a fixed shape
#[verifier::external_body] pub broadcast proof fn a2_shape(a: A2) ensures #[trigger] shaped2(a@, a.cols() as int) { }
#[verifier::external_body] pub broadcast proof fn a3_shape(a: A3) ensures #[trigger] shaped3(a@, a.rows() as int, a.cols() as int) { }
pub trait RowSel: Sized { type Out; spec fn ok(self, n: int) -> bool; spec fn picked(self, a: A2, o: Self::Out) -> bool; spec fn put(self, a: Seq<Seq<F>>, o: Self::Out) -> Seq<Seq<F>>; }
pub open spec fn put_rows(a: Seq<Seq<F>>, lo: int, hi: int, o: Seq<Seq<F>>) -> Seq<Seq<F>> { Seq::new(a.len(), |i: int| if lo <= i < hi { o[i - lo] } else { a[i] }) }
macro_rules! rowrange { ($t:ty, $lo:expr, $hi:expr) => { verus! { impl RowSel for $t { type Out = A2;
    open spec fn ok(self, n: int) -> bool { 0 <= $lo(self, n) <= $hi(self, n) <= n }
    open spec fn picked(self, a: A2, o: A2) -> bool { o@ == a@.subrange($lo(self, a@.len() as int), $hi(self, a@.len() as int)) && o.cols() == a.cols() }
    open spec fn put(self, a: Seq<Seq<F>>, o: A2) -> Seq<Seq<F>> { put_rows(a, $lo(self, a.len() as int), $hi(self, a.len() as int), o@) }
} } } }
pub open spec fn r_lo(r: core::ops::Range<usize>, n: int) -> int { r.start as int } pub open spec fn r_hi(r: core::ops::Range<usize>, n: int) -> int { r.end as int }
pub open spec fn t_lo(r: core::ops::RangeTo<i32>, n: int) -> int { 0 } pub open spec fn t_hi(r: core::ops::RangeTo<i32>, n: int) -> int { if r.end < 0 { n + r.end } else { r.end as int } }
pub open spec fn f_lo(r: core::ops::RangeFrom<i32>, n: int) -> int { if r.start < 0 { n + r.start } else { r.start as int } } pub open spec fn f_hi(r: core::ops::RangeFrom<i32>, n: int) -> int { n }
rowrange!(core::ops::Range<usize>, r_lo, r_hi);
rowrange!(core::ops::RangeTo<i32>, t_lo, t_hi);
rowrange!(core::ops::RangeFrom<i32>, f_lo, f_hi);
macro_rules! rowone { ($t:ty, $i:expr) => { verus! { impl RowSel for $t { type Out = A1;
    open spec fn ok(self, n: int) -> bool { 0 <= $i(self, n) < n }
    open spec fn picked(self, a: A2, o: A1) -> bool { o@ == a@[$i(self, a@.len() as int)] && o@.len() == a.cols() }
    open spec fn put(self, a: Seq<Seq<F>>, o: A1) -> Seq<Seq<F>> { a.update($i(self, a.len() as int), o@) }
} } } }
pub open spec fn i_at(i: i32, n: int) -> int { if i < 0 { n + i } else { i as int } } pub open spec fn u_at(i: usize, n: int) -> int { i as int }
rowone!(i32, i_at);
rowone!(usize, u_at);
pub open spec fn colsum(a: Seq<Seq<F>>, c: int) -> real decreases a.len() { if a.len() == 0 { 0real } else { colsum(a.drop_last(), c) + a.last()[c].r() } }
impl A1 { #[verifier::external_body] pub fn assign(&mut self, o: &A1) requires old(self)@.len() == o@.len() ensures final(self)@ == o@ { unimplemented!() }
    #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body] pub fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
pub struct Shape { pub v: Ghost<Seq<nat>> }
impl vstd::std_specs::core::IndexSpecImpl<usize> for Shape { open spec fn index_req(&self, i: &usize) -> bool { *i < self.v@.len() } }
impl core::ops::Index<usize> for Shape { type Output = usize; #[verifier::external_body] fn index(&self, i: usize) -> (r: &usize) ensures i < self.v@.len() ==> *r == self.v@[i as int] { unimplemented!() } }
impl A2 {
    #[verifier::external_body] pub fn shape(&self) -> (r: Shape) ensures r.v@ == seq![self@.len(), self.cols()] { unimplemented!() }
    #[verifier::external_body] pub fn slice<R: RowSel>(&self, r: Row<R>) -> (q: R::Out) requires r.0.ok(self@.len() as int) ensures r.0.picked(*self, q) { unimplemented!() }
    #[verifier::external_body] pub fn slice_mut<R: RowSel>(&mut self, r: Row<R>) -> (q: &mut R::Out) requires r.0.ok(old(self)@.len() as int) ensures r.0.picked(*old(self), *q), final(self)@ == r.0.put(old(self)@, *final(q)), final(self).cols() == old(self).cols() { unimplemented!() }
    #[verifier::external_body] pub fn index_axis_mut(&mut self, a: Axis, i: usize) -> (q: &mut A1) requires a.0 == 0, i < old(self)@.len() ensures q@ == old(self)@[i as int], q@.len() == old(self).cols(), final(self)@ == old(self)@.update(i as int, final(q)@), final(self).cols() == old(self).cols() { unimplemented!() }
    #[verifier::external_body] pub fn assign(&mut self, o: &A2) requires old(self)@.len() == o@.len(), old(self).cols() == o.cols() ensures final(self)@ == o@, final(self).cols() == old(self).cols() { unimplemented!() }
    // the sum of every column
    #[verifier::external_body] pub fn sum_axis(&self, a: Axis) -> (r: A1) requires a.0 == 0 ensures r@.len() == self.cols(), forall|c: int| 0 <= c < self.cols() ==> (#[trigger] r@[c]).r() == colsum(self@, c) { unimplemented!() }
    #[verifier::external_body] pub fn fill(&mut self, x: F) ensures final(self)@.len() == old(self)@.len(), final(self).cols() == old(self).cols(), forall|i: int, c: int| 0 <= i < final(self)@.len() && 0 <= c < final(self).cols() ==> #[trigger] final(self)@[i][c] == x { unimplemented!() }
    #[verifier::external_body] pub fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
    #[verifier::external_body] pub fn to_shared(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
impl A3 {
    #[verifier::external_body] pub fn shape(&self) -> (r: Shape) ensures r.v@ == seq![self@.len(), self.rows(), self.cols()] { unimplemented!() }
    #[verifier::external_body] pub fn index_axis_mut(&mut self, a: Axis, i: usize) -> (q: &mut A2) requires a.0 == 0, i < old(self)@.len() ensures q@ == old(self)@[i as int], q@.len() == old(self).rows(), q.cols() == old(self).cols(), final(self)@ == old(self)@.update(i as int, final(q)@), final(self).rows() == old(self).rows(), final(self).cols() == old(self).cols() { unimplemented!() }
    #[verifier::external_body] pub fn to_shared(&self) -> (r: Self) ensures r == *self { unimplemented!() }
    #[verifier::external_body] pub fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
pub trait Zeros: Sized { type S; spec fn zero(r: Self, s: Self::S) -> bool; fn vzeros(s: Self::S) -> (r: Self) ensures Self::zero(r, s); }
impl Zeros for A2 { type S = (usize, usize); open spec fn zero(r: A2, s: (usize, usize)) -> bool { r@.len() == s.0 && r.cols() == s.1 && forall|i: int, c: int| 0 <= i < s.0 && 0 <= c < s.1 ==> (#[trigger] r@[i][c]).r() == 0real } #[verifier::external_body] fn vzeros(s: (usize, usize)) -> (r: A2) { unimplemented!() } }
impl Zeros for A3 { type S = (usize, usize, usize); open spec fn zero(r: A3, s: (usize, usize, usize)) -> bool { r@.len() == s.0 && r.rows() == s.1 && r.cols() == s.2 && forall|i: int, j: int, c: int| 0 <= i < s.0 && 0 <= j < s.1 && 0 <= c < s.2 ==> (#[trigger] r@[i][j][c]).r() == 0real } #[verifier::external_body] fn vzeros(s: (usize, usize, usize)) -> (r: A3) { unimplemented!() } }
} // verus!
