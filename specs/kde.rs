verus! {
// ---- what clustering means: peaks of a density estimate, the closest peak, labels of distinct rows ----
pub open spec fn spaced(a: real, b: real, n: int, i: int) -> real { a + (b - a) * (i as real) / ((n - 1) as real) }
pub open spec fn above(e: Seq<F>, i: int, s: int) -> bool { e[i].r() > e[if i + s < e.len() { i + s } else { e.len() - 1 }].r() && e[i].r() > e[if i >= s { i - s } else { 0 }].r() }
#[verifier::opaque] pub open spec fn is_peak(e: Seq<F>, i: int, order: int) -> bool { forall|s: int| 1 <= s <= order ==> #[trigger] above(e, i, s) }
pub open spec fn places(n: int, f: spec_fn(int) -> bool) -> Seq<usize> decreases n { if n <= 0 { Seq::empty() } else { let r = places(n - 1, f); if f(n - 1) { r.push((n - 1) as usize) } else { r } } }
pub open spec fn peaks_of(e: Seq<F>, order: int) -> Seq<usize> { places(e.len() as int, |i: int| is_peak(e, i, order)) }
pub open spec fn peak_values(e: Seq<F>, order: int, lo: real, hi: real, r: Seq<F>) -> bool { r.len() == peaks_of(e, order).len() && forall|k: int| 0 <= k < r.len() ==> (#[trigger] r[k]).r() == spaced(lo - (hi - lo) / 10real, hi + (hi - lo) / 10real, e.len() as int, peaks_of(e, order)[k] as int) }
pub open spec fn dist(a: real, b: real) -> real { if a - b < 0real { 0real - (a - b) } else { a - b } }
pub open spec fn closest(p: Seq<F>, x: real, k: int) -> bool { 0 <= k < p.len() && (forall|j: int| 0 <= j < p.len() ==> dist(p[k].r(), x) <= dist((#[trigger] p[j]).r(), x)) && forall|j: int| 0 <= j < k ==> dist(p[k].r(), x) < dist((#[trigger] p[j]).r(), x) }
pub open spec fn assigned(v: Seq<Seq<F>>, p: Seq<F>, r: Seq<F>) -> bool { r.len() == v.len() && forall|i: int| 0 <= i < v.len() ==> #[trigger] near(v, p, r, i) }
pub open spec fn near(v: Seq<Seq<F>>, p: Seq<F>, r: Seq<F>, i: int) -> bool { exists|k: int| #[trigger] closest(p, v[i][0].r(), k) && r[i] == p[k] }
pub open spec fn reals(s: Seq<F>) -> Seq<real> { Seq::new(s.len(), |i: int| s[i].r()) }
pub open spec fn labelled(rows: Seq<Seq<F>>, l: Seq<usize>, c: Seq<Seq<F>>) -> bool {
    // one label per row; rows have the same label exactly if they are equal
    &&& l.len() == rows.len()
    &&& forall|i: int, j: int| #![trigger l[i], l[j]] 0 <= i < l.len() && 0 <= j < l.len() ==> (l[i] == l[j] <==> reals(rows[i]) == reals(rows[j]))
    // numbered by their first appearance
    &&& forall|i: int, m: int| #[trigger] below(l, i, m) ==> exists|j: int| 0 <= j < i && #[trigger] seen(l, j, m)
    // the center of a label is its row; there is one for every label
    &&& forall|i: int| 0 <= i < l.len() ==> (#[trigger] l[i]) < c.len() && reals(c[l[i] as int]) == reals(rows[i])
    &&& forall|m: int| 0 <= m < c.len() ==> #[trigger] is_label(l, m)
}
pub open spec fn below(l: Seq<usize>, i: int, m: int) -> bool { 0 <= i < l.len() && 0 <= m < l[i] }
pub open spec fn is_label(l: Seq<usize>, m: int) -> bool { exists|j: int| #[trigger] seen(l, j, m) }
pub open spec fn seen(l: Seq<usize>, j: int, m: int) -> bool { 0 <= j < l.len() && l[j] == m }
} // verus!
