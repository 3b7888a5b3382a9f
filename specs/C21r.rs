//! The reference series: straight lines from the minimum to the maximum of every column. f32 values are reals.
//@include base.rs
//@include coll.rs
//@include float.rs
//@include nd.rs
verus! {
// n evenly spaced values
pub open spec fn lin(a: real, b: real, n: int, i: int) -> real { a + (i as real) * ((b - a) / ((n - 1) as real)) }
pub struct Array { }
impl Array { #[verifier::external_body] pub fn linspace(a: F, b: F, n: usize) -> (r: A1) requires n > 1 ensures r@.len() == n, forall|i: int| 0 <= i < n ==> (#[trigger] r@[i]).r() == lin(a.r(), b.r(), n as int, i) { unimplemented!() } }
#[verifier::external_body] pub fn stack(a: Axis, v: &[&A1]) -> (r: Option<A2>) requires a.0 == 0, v@.len() > 0, forall|i: int| 0 <= i < v@.len() ==> (#[trigger] v@[i])@.len() == v@[0]@.len() ensures r is Some, r->0@.len() == v@.len(), r->0.cols() == v@[0]@.len(), forall|i: int| 0 <= i < v@.len() ==> #[trigger] r->0@[i] == v@[i]@ { unimplemented!() }
impl A1 {
    #[verifier::external_body] pub fn viter(&self) -> (r: It<&F>) ensures r.pos() == 0, r.all().len() == self@.len(), forall|i: int| 0 <= i < self@.len() ==> *(#[trigger] r.all()[i]) == self@[i] { unimplemented!() }
    #[verifier::external_body] pub fn view_(&self) -> (r: &A1) ensures r == self { unimplemented!() }
}
impl A2 { // the columns in order
    #[verifier::external_body] pub fn axis_iter(&self, a: Axis) -> (r: It<A1>) requires a.0 == 1 ensures r.pos() == 0, r.all().len() == self.cols(), forall|i: int, k: int| 0 <= i < self.cols() && 0 <= k < self@.len() ==> #[trigger] r.all()[i]@[k] == self@[k][i], forall|i: int| 0 <= i < self.cols() ==> (#[trigger] r.all()[i])@.len() == self@.len() { unimplemented!() }
}
impl A2 { #[verifier::external_body] pub fn plus(self, r: &A1) -> (q: A2) requires self.cols() == r@.len() ensures q@.len() == self@.len(), q.cols() == self.cols(), forall|i: int, c: int| 0 <= i < q@.len() && 0 <= c < q.cols() ==> (#[trigger] q@[i][c]).r() == self@[i][c].r() + r@[c].r() { unimplemented!() } }
pub proof fn colsum_same(a: Seq<Seq<F>>, c: int, x: real) requires forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i])[c].r() == x ensures colsum(a, c) == (a.len() as int as real) * x decreases a.len()
{ if a.len() == 0 { assert(0real * x == 0real) by (nonlinear_arith); } else { colsum_same(a.drop_last(), c, x); assert(a.last()[c].r() == x); let n = (a.len() - 1) as real; let m = a.len() as int as real; assert(m == n + 1real); assert(m * x == n * x + x) by (nonlinear_arith) requires m == n + 1real; } }
//@extract src/utils/ndarray_extensions/mod.rs :: fn linspace
//@ret r
//@spec
    requires start@.len() == end@.len(), start@.len() > 0, n > 1,
    ensures r@.len() == start@.len(), r.cols() == n, forall|c: int, i: int| 0 <= c < r@.len() && 0 <= i < n ==> (#[trigger] r@[c][i]).r() == lin(start@[c].r(), end@[c].r(), n as int, i),
//@subst <A> ==> 
//@subst start: Array1<A>, end: Array1<A> ==> start: A1, end: A1
//@subst where A: Float, ==> 
//@subst Array1<A> ==> A1
//@subst start: Array1 ==> start: A1
//@subst end: Array1 ==> end: A1
//@subst (r: Array2) ==> (r: A2)
//@subst Vec<Array1> ==> Vec<A1>
//@subst ArrayView1<A> ==> &A1
//@subst .collect::<Vec<ArrayView1>>() ==> .collect()
//@subst Array::linspace(*s, *e, n) ==> Array::linspace(*x.0, *x.1, n)
//@subst x.view() ==> x.view_()
//@rename iter=viter
//@closure 0
|x: (&F, &F)| -> (q: A1) requires n > 1 ensures q@.len() == n, forall|i: int| 0 <= i < n ==> (#[trigger] q@[i]).r() == lin(x.0.r(), x.1.r(), n as int, i)
//@closure 1
|x: &A1| -> (q: &A1) ensures q == x
//@end
pub struct DatasetStats { pub min_col: Option<A1>, pub max_col: Option<A1>, pub std_col: Option<A1>, pub n: Option<usize> }
pub struct Parameters { pub pattern_length: usize, pub latent: usize }
pub struct ReferenceDatasetBuilder { pub data_stats: DatasetStats, pub parameters: Parameters }
// a window of a line that stays at its i-th value: every moving sum is latent times that value
pub open spec fn ref_at(b: ReferenceDatasetBuilder, i: int, c: int) -> real { (b.parameters.latent as int as real) * lin(b.data_stats.min_col->0@[c].r(), b.data_stats.max_col->0@[c].r(), 100, i) }
impl ReferenceDatasetBuilder {
//@extract src/data_manager/reference_dataset_builder/mod.rs :: impl ReferenceDatasetBuilder :: new
//@ret r
//@spec
    ensures r.data_stats == data_stats, r.parameters == parameters,
//@end
//@extract src/data_manager/reference_dataset_builder/mod.rs :: impl ReferenceDatasetBuilder :: build
//@ret r
//@spec
    requires self.data_stats.min_col is Some, self.data_stats.max_col is Some, self.data_stats.min_col->0@.len() == self.data_stats.max_col->0@.len(), self.data_stats.min_col->0@.len() > 0, self.parameters.latent < self.parameters.pattern_length,
    ensures r@.len() == 100, r.rows() == self.parameters.pattern_length - self.parameters.latent, r.cols() == self.data_stats.min_col->0@.len(),
        forall|i: int, j: int, c: int| 0 <= i < 100 && 0 <= j < r.rows() && 0 <= c < r.cols() ==> (#[trigger] r@[i][j][c]).r() == ref_at(*self, i, c),
//@floats
//@subst (r: Array3<F>) ==> (r: A3)
//@subst let mut data_ref = ArrayBase::zeros( ==> let mut data_ref = A3::vzeros(
//@subst let mut tmp: Array2<F> = ArrayBase::zeros( ==> let mut tmp = A2::vzeros(
//@subst t = t + v ==> t = t.plus(&v)
//@subst let mut t: Array2<F> = ArrayBase::zeros( ==> let mut t = A2::vzeros(
//@loop 0 pre
            let ghost gl = self.parameters.latent as int; let ghost gw = width as int; let ghost gd = dim as int;
//@loop 0
            invariant self.data_stats.min_col is Some, self.data_stats.max_col is Some, *min_cols == self.data_stats.min_col->0, *max_cols == self.data_stats.max_col->0, gl == self.parameters.latent, gw == width, gd == dim, dim == min_cols@.len(), dim > 0, width == self.parameters.pattern_length - self.parameters.latent, self.parameters.latent < self.parameters.pattern_length,
                0 <= vit_0.pos() <= vit_0.all().len(), vit_0.all().len() == 100, forall|i: int| 0 <= i < 100 ==> (#[trigger] vit_0.all()[i]).0 == i && vit_0.all()[i].1@.len() == dim, forall|i: int, c: int| 0 <= i < 100 && 0 <= c < dim ==> (#[trigger] vit_0.all()[i].1@[c]).r() == lin(min_cols@[c].r(), max_cols@[c].r(), 100, i),
                data_ref@.len() == 100, data_ref.rows() == width, data_ref.cols() == dim, tmp@.len() == width, tmp.cols() == dim, t@.len() == self.parameters.pattern_length, t.cols() == dim,
                forall|i: int, j: int, c: int| 0 <= i < vit_0.pos() && 0 <= j < width && 0 <= c < dim ==> (#[trigger] data_ref@[i][j][c]).r() == ref_at(*self, i, c),
            ensures vit_0.pos() == vit_0.all().len(),
            decreases vit_0.all().len() - vit_0.pos(),
//@loop 0 top
            let ghost p = vit_0.pos() - 1; proof { rl_one(0); assert(vit_0.all()[p].0 == p); assert(v == vit_0.all()[p].1); }
//@loop 1
                invariant gl == self.parameters.latent, width == self.parameters.pattern_length - self.parameters.latent, self.parameters.latent < self.parameters.pattern_length, 0 <= vit_1 <= vend_1, vend_1 == width, tmp@.len() == width, tmp.cols() == dim, t@.len() == self.parameters.pattern_length, t.cols() == dim,
                    forall|q: int, c: int| 0 <= q < t@.len() && 0 <= c < dim ==> (#[trigger] t@[q][c]).r() == v@[c].r(), v@.len() == dim,
                    forall|q: int, c: int| 0 <= q < vit_1 && 0 <= c < dim ==> (#[trigger] tmp@[q][c]).r() == (gl as real) * v@[c].r(),
                decreases vend_1 - vit_1,
//@loop 1 top
                let ghost t0 = tmp@;
//@loop 1 end
                proof { let w = t@.subrange(j as int, j + gl); assert forall|c: int| 0 <= c < dim implies (#[trigger] tmp@[j as int][c]).r() == (gl as real) * v@[c].r() by { assert forall|i: int| 0 <= i < w.len() implies (#[trigger] w[i])[c].r() == v@[c].r() by { assert(w[i] == t@[j + i]); assert(t@[j + i][c].r() == v@[c].r()); } colsum_same(w, c, v@[c].r()); } assert forall|q: int, c: int| 0 <= q < j && 0 <= c < dim implies (#[trigger] tmp@[q][c]).r() == (gl as real) * v@[c].r() by { assert(tmp@[q] == t0[q]); assert(t0[q][c].r() == (gl as real) * v@[c].r()); } }
//@end
}
fn main() {}
} // verus!
