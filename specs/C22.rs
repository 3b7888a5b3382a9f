//! f32 as real numbers (rounding is native only); ndarray's linspace, broadcast, map_axis, stack and ndarray-stats' argmin (first of equal ones) are as documented; itertools' sorted_by_key sorts.
//@include base.rs
//@include coll.rs
//@include float.rs
//@include nd.rs
//@include kde.rs
use core::ops::Mul;
verus! {
#[verifier::external_body] pub struct B1 { p: usize }
impl View for B1 { type V = Seq<bool>; uninterp spec fn view(&self) -> Seq<bool>; }
impl B1 {
    #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body] pub fn any(&self) -> (r: bool) ensures r == exists|i: int| 0 <= i < self@.len() && #[trigger] self@[i] { unimplemented!() }
    #[verifier::external_body] pub fn bitand_assign(&mut self, o: &B1) requires old(self)@.len() == o@.len() ensures final(self)@.len() == o@.len(), forall|i: int| 0 <= i < o@.len() ==> #[trigger] final(self)@[i] == (old(self)@[i] && o@[i]) { unimplemented!() }
    #[verifier::external_body] pub fn indexed_iter(&self) -> (r: It<(usize, &bool)>) ensures r.pos() == 0, r.all().len() == self@.len(), forall|i: int| 0 <= i < self@.len() ==> (#[trigger] r.all()[i]).0 == i && *r.all()[i].1 == self@[i] { unimplemented!() }
}
pub open spec fn somes<U>(s: Seq<Option<U>>) -> Seq<U> decreases s.len() { if s.len() == 0 { Seq::empty() } else { let r = somes(s.drop_last()); if s.last() is Some { r.push(s.last()->0) } else { r } } }
impl<T> It<T> {
    // FromTo: C22i
    #[verifier::external_body] pub fn fromto(self, a: usize, b: usize) -> (r: It<T>) requires self.pos() == 0, a <= b <= self.all().len() ensures r.pos() == 0, r.all() == self.all().subrange(a as int, b as int) { unimplemented!() }
    #[verifier::external_body] pub fn filter_map<U, Fn1: Fn(T) -> Option<U>>(self, f: Fn1) -> (r: It<U>) requires self.pos() == 0, forall|i: int| 0 <= i < self.all().len() ==> call_requires(f, (#[trigger] self.all()[i],))
        ensures r.pos() == 0, exists|o: Seq<Option<U>>| r.all() == #[trigger] somes(o) && o.len() == self.all().len() && forall|i: int| 0 <= i < o.len() ==> call_ensures(f, (self.all()[i],), #[trigger] o[i]) { unimplemented!() }
    #[verifier::external_body] pub fn sorted_by_key<Fn1: Fn(&T) -> usize>(self, f: Fn1) -> (r: It<T>) requires self.pos() == 0, forall|i: int| 0 <= i < self.all().len() ==> call_requires(f, (&#[trigger] self.all()[i],))
        ensures r.pos() == 0, r.all().len() == self.all().len(), exists|p: Seq<int>, k: Seq<usize>| #[trigger] sorts(self.all(), r.all(), p, k) && forall|i: int| 0 <= i < k.len() ==> call_ensures(f, (&r.all()[i],), #[trigger] k[i]) { unimplemented!() }
}
// o is i in the order p (every position once), its keys k do not decrease
pub open spec fn sorts<T>(i: Seq<T>, o: Seq<T>, p: Seq<int>, k: Seq<usize>) -> bool { o.len() == i.len() && p.len() == i.len() && k.len() == i.len() && (forall|a: int| 0 <= a < p.len() ==> 0 <= #[trigger] p[a] < i.len() && o[a] == i[p[a]]) && (forall|a: int, b: int| 0 <= a < b < p.len() ==> #[trigger] p[a] != #[trigger] p[b]) && forall|a: int, b: int| 0 <= a < b < k.len() ==> #[trigger] k[a] <= #[trigger] k[b] }
impl It<bool> { #[verifier::external_body] pub fn vbools(self) -> (r: B1) requires self.pos() == 0 ensures r@ == self.all() { unimplemented!() } }
#[verifier::external_body] pub fn vtrues(n: usize) -> (r: B1) ensures r@.len() == n, forall|i: int| 0 <= i < n ==> #[trigger] r@[i] { unimplemented!() }
#[verifier::external_body] pub fn vrep<T>(x: T, n: usize) -> (r: Vec<T>) ensures r@.len() == n, forall|i: int| 0 <= i < n ==> #[trigger] r@[i] == x { unimplemented!() }
pub trait VBand { spec fn bv(self) -> bool; fn vband(self, o: bool) -> (r: bool) ensures r == (self.bv() && o); }
impl VBand for bool { open spec fn bv(self) -> bool { self } fn vband(self, o: bool) -> (r: bool) { self && o } }
impl vstd::std_specs::core::IndexSpecImpl<usize> for A1 { open spec fn index_req(&self, i: &usize) -> bool { *i < self@.len() } }
impl core::ops::Index<usize> for A1 { type Output = F; #[verifier::external_body] fn index(&self, i: usize) -> (r: &F) ensures i < self@.len() ==> *r == self@[i as int] { unimplemented!() } }
impl A1 { #[verifier::external_body] pub fn iter(&self) -> (r: It<&F>) ensures r.pos() == 0, r.all().len() == self@.len(), forall|i: int| 0 <= i < self@.len() ==> *(#[trigger] r.all()[i]) == self@[i] { unimplemented!() } }
// n values, evenly from a to b
#[verifier::external_body] pub fn vlinspace(a: F, b: F, n: usize) -> (r: A1) requires n > 1 ensures r@.len() == n, forall|i: int| 0 <= i < n ==> (#[trigger] r@[i]).r() == spaced(a.r(), b.r(), n as int, i) { unimplemented!() }

// ---- peaks: greater than the values 1 to order places to both sides (the end values go on) ----
pub proof fn peak_step(e: Seq<F>, s: int) requires s >= 1 ensures forall|i: int| 0 <= i < e.len() ==> #[trigger] is_peak(e, i, s) == (is_peak(e, i, s - 1) && above(e, i, s)) { reveal(is_peak); assert forall|i: int| 0 <= i < e.len() implies #[trigger] is_peak(e, i, s) == (is_peak(e, i, s - 1) && above(e, i, s)) by { if is_peak(e, i, s - 1) && above(e, i, s) { assert forall|t: int| 1 <= t <= s implies #[trigger] above(e, i, t) by { if t < s { } } } } }
pub proof fn peak_none(e: Seq<F>) ensures forall|i: int| 0 <= i < e.len() ==> #[trigger] is_peak(e, i, 0) { reveal(is_peak); }
pub proof fn peak_less(e: Seq<F>, i: int, s: int, order: int) requires s <= order, is_peak(e, i, order) ensures is_peak(e, i, s) { reveal(is_peak); }
proof fn places_in(n: int, f: spec_fn(int) -> bool) requires n <= usize::MAX ensures forall|k: int| 0 <= k < places(n, f).len() ==> (#[trigger] places(n, f)[k]) < n decreases n { if n > 0 { places_in(n - 1, f); assert forall|k: int| 0 <= k < places(n, f).len() implies (#[trigger] places(n, f)[k]) < n by { if k < places(n - 1, f).len() { assert(places(n, f)[k] == places(n - 1, f)[k]); } } } }
proof fn somes_places(o: Seq<Option<usize>>, f: spec_fn(int) -> bool) requires forall|i: int| 0 <= i < o.len() ==> (#[trigger] o[i]) == (if f(i) { Some(i as usize) } else { None::<usize> }) ensures somes(o) == places(o.len() as int, f) decreases o.len() { if o.len() > 0 { assert(o.last() == o[o.len() - 1]); somes_places(o.drop_last(), f); } }
proof fn tenth() ensures rl(1, 10) == 1real / 10real { }
// the grid reaches a tenth beyond the values
// ---- the closest peak, the first of equally close ones ----
pub open spec fn first_min(d: Seq<F>, k: int) -> bool { 0 <= k < d.len() && (forall|j: int| 0 <= j < d.len() ==> d[k].r() <= (#[trigger] d[j]).r()) && forall|j: int| 0 <= j < k ==> d[k].r() < (#[trigger] d[j]).r() }
impl A1 {
    #[verifier::external_body] pub fn vfrom(p: Vec<F>) -> (r: A1) ensures r@ == p@ { unimplemented!() }
    #[verifier::external_body] pub fn vbroadcast(&self, s: [usize; 2]) -> (r: Option<A2>) requires s@[1] == self@.len() ensures r is Some, r->0@.len() == s@[0], r->0.cols() == s@[1], forall|i: int| 0 <= i < s@[0] ==> #[trigger] r->0@[i] == self@ { unimplemented!() }
    #[verifier::external_body] pub fn argmin(&self) -> (r: Option<usize>) ensures self@.len() > 0 ==> r is Some && first_min(self@, r->0 as int) { unimplemented!() }
}
impl A2 {
    #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self@.len() * self.cols() { unimplemented!() }
    #[verifier::external_body] pub fn vown(&self) -> (r: A2) ensures r@ == self@, r.cols() == self.cols() { unimplemented!() }
    #[verifier::external_body] pub fn vbroadcast(&self, s: [usize; 2]) -> (r: Option<A2>) requires self.cols() == 1, s@[0] == self@.len() ensures r is Some, r->0@.len() == s@[0], r->0.cols() == s@[1], forall|i: int, k: int| 0 <= i < s@[0] && 0 <= k < s@[1] ==> #[trigger] r->0@[i][k] == self@[i][0] { unimplemented!() }
    #[verifier::external_body] pub fn vsub(self, o: A2) -> (r: A2) requires self@.len() == o@.len(), self.cols() == o.cols() ensures r@.len() == self@.len(), r.cols() == self.cols(), forall|i: int, k: int| 0 <= i < r@.len() && 0 <= k < r.cols() ==> (#[trigger] r@[i][k]).r() == self@[i][k].r() - o@[i][k].r() { unimplemented!() }
    #[verifier::external_body] pub fn vabs(&self) -> (r: A2) ensures r@.len() == self@.len(), r.cols() == self.cols(), forall|i: int, k: int| 0 <= i < r@.len() && 0 <= k < r.cols() ==> (#[trigger] r@[i][k]).r() == dist(self@[i][k].r(), 0real) { unimplemented!() }
    #[verifier::external_body] pub fn map_axis<Fn1: Fn(A1) -> F>(&self, a: Axis, f: Fn1) -> (r: A1) requires a.0 == 1, forall|d: A1| d@.len() == self.cols() ==> #[trigger] call_requires(f, (d,)) ensures r@.len() == self@.len(), forall|i: int| 0 <= i < self@.len() ==> exists|d: A1| d@ == #[trigger] self@[i] && d@.len() == self.cols() && #[trigger] call_ensures(f, (d,), r@[i]) { unimplemented!() }
    #[verifier::external_body] pub fn axis_iter(&self, a: Axis) -> (r: It<A1>) requires a.0 == 0 ensures r.pos() == 0, r.all().len() == self@.len(), forall|i: int| 0 <= i < self@.len() ==> (#[trigger] r.all()[i])@ == self@[i] { unimplemented!() }
}
// ---- labels: one per distinct row ----
//@struct src/utils/float_approx.rs :: FloatApprox
pub open spec fn base(s: Seq<FloatApprox<F>>) -> Seq<F> { Seq::new(s.len(), |i: int| s[i].0) }
// the equality of keys is that of the floats
impl VKey for Vec<FloatApprox<F>> { type K = Seq<real>; open spec fn k(&self) -> Seq<real> { reals(base(self@)) } }
// after some rows: the map's entries are the labels of the rows seen
#[verifier::opaque] pub open spec fn numbering(rows: Seq<Seq<F>>, m: Map<Seq<real>, usize>, l: Seq<usize>, key: int) -> bool {
    &&& l.len() == rows.len() && 0 <= key <= rows.len() && m.dom().len() == key
    &&& forall|i: int| 0 <= i < l.len() ==> (#[trigger] l[i]) < key && m.contains_key(reals(rows[i])) && m[reals(rows[i])] == l[i]
    &&& forall|k: Seq<real>| #[trigger] m.contains_key(k) ==> m[k] < key && exists|j: int| 0 <= j < l.len() && reals(#[trigger] rows[j]) == k
    &&& forall|a: Seq<real>, b: Seq<real>| #[trigger] m.contains_key(a) && #[trigger] m.contains_key(b) && m[a] == m[b] ==> a == b
    &&& forall|i: int, v: int| #[trigger] below(l, i, v) ==> exists|j: int| 0 <= j < i && #[trigger] seen(l, j, v)
    &&& forall|v: int| 0 <= v < key ==> #[trigger] is_label(l, v)
}
proof fn number_step(rows: Seq<Seq<F>>, row: Seq<F>, m0: Map<Seq<real>, usize>, m: Map<Seq<real>, usize>, l0: Seq<usize>, l: Seq<usize>, k0: int, key: int)
    requires numbering(rows, m0, l0, k0),
        m0.contains_key(reals(row)) ==> m == m0 && l == l0.push(m0[reals(row)]) && key == k0,
        !m0.contains_key(reals(row)) ==> m == m0.insert(reals(row), k0 as usize) && l == l0.push(k0 as usize) && key == k0 + 1 && k0 < usize::MAX,
    ensures numbering(rows.push(row), m, l, key)
{
    reveal(numbering);
    let n = l0.len() as int; let rs = rows.push(row);
    assert forall|i: int| 0 <= i < l.len() implies (#[trigger] l[i]) < key && m.contains_key(reals(rs[i])) && m[reals(rs[i])] == l[i] by { if i < n { assert(l[i] == l0[i] && rs[i] == rows[i]); } }
    assert forall|k: Seq<real>| #[trigger] m.contains_key(k) implies m[k] < key && exists|j: int| 0 <= j < l.len() && reals(#[trigger] rs[j]) == k by {
        if m0.contains_key(k) { let j = choose|j: int| 0 <= j < l0.len() && reals(#[trigger] rows[j]) == k; assert(rs[j] == rows[j]); } else { assert(rs[n] == row); }
    }
    assert forall|i: int, v: int| #[trigger] below(l, i, v) implies exists|j: int| 0 <= j < i && #[trigger] seen(l, j, v) by {
        if i < n { assert(below(l0, i, v)); let j = choose|j: int| 0 <= j < i && #[trigger] seen(l0, j, v); assert(seen(l, j, v)); }
        else { assert(is_label(l0, v)); let j = choose|j: int| #[trigger] seen(l0, j, v); assert(seen(l0, j, v)); assert(seen(l, j, v)); }
    }
    assert forall|v: int| 0 <= v < key implies #[trigger] is_label(l, v) by { if v < k0 { assert(is_label(l0, v)); let j = choose|j: int| #[trigger] seen(l0, j, v); assert(seen(l, j, v)); } else { assert(seen(l, n, v)); } }
}
proof fn number_room(rows: Seq<Seq<F>>, m: Map<Seq<real>, usize>, l: Seq<usize>, key: int) requires numbering(rows, m, l, key) ensures key <= l.len(), l.len() == rows.len() { reveal(numbering); }
// n different numbers below n in order are 0, 1, ...
proof fn in_order(k: Seq<usize>, a: int) requires 0 <= a < k.len(), forall|i: int, j: int| 0 <= i < j < k.len() ==> #[trigger] k[i] < #[trigger] k[j] ensures k[a] >= a decreases a { if a > 0 { in_order(k, a - 1); assert(k[a - 1] < k[a]); } }
proof fn in_order_up(k: Seq<usize>, a: int) requires 0 <= a < k.len(), forall|i: int, j: int| 0 <= i < j < k.len() ==> #[trigger] k[i] < #[trigger] k[j], k.last() < k.len() ensures k[a] <= a decreases k.len() - a { if a < k.len() - 1 { in_order_up(k, a + 1); assert(k[a] < k[a + 1]); } }
spec fn entries(si: Seq<(Vec<FloatApprox<F>>, usize)>, m: Map<Seq<real>, usize>) -> bool {
    &&& si.len() == m.dom().len()
    &&& forall|i: int| 0 <= i < si.len() ==> m.contains_key((#[trigger] si[i]).0.k()) && m[si[i].0.k()] == si[i].1
    &&& forall|i: int, j: int| 0 <= i < j < si.len() ==> (#[trigger] si[i]).0.k() != (#[trigger] si[j]).0.k()
}
spec fn by_label(so: Seq<(Vec<FloatApprox<F>>, usize)>, rows: Seq<Seq<F>>, l: Seq<usize>, nc: int) -> bool {
    &&& forall|a: int| 0 <= a < so.len() ==> (#[trigger] so[a]).1 == a && base(so[a].0@).len() == nc && is_label(l, a)
    &&& forall|i: int| 0 <= i < l.len() ==> (#[trigger] l[i]) < so.len() && reals(base(so[l[i] as int].0@)) == reals(rows[i])
}
proof fn sorted_centers(rows: Seq<Seq<F>>, m: Map<Seq<real>, usize>, l: Seq<usize>, key: int, si: Seq<(Vec<FloatApprox<F>>, usize)>, so: Seq<(Vec<FloatApprox<F>>, usize)>, nc: int)
    requires numbering(rows, m, l, key), entries(si, m), shaped2(rows, nc), 1 <= rows.len(), exists|p: Seq<int>, k: Seq<usize>| #[trigger] sorts(si, so, p, k) && forall|i: int| 0 <= i < k.len() ==> so[i].1 == #[trigger] k[i],
    ensures by_label(so, rows, l, nc), so.len() == key, l.len() == rows.len(), forall|i: int, j: int| #![trigger l[i], l[j]] 0 <= i < l.len() && 0 <= j < l.len() ==> (l[i] == l[j] <==> reals(rows[i]) == reals(rows[j])), forall|i: int, v: int| #[trigger] below(l, i, v) ==> exists|j: int| 0 <= j < i && #[trigger] seen(l, j, v)
{
    reveal(numbering);
    let (p, k) = choose|p: Seq<int>, k: Seq<usize>| #[trigger] sorts(si, so, p, k) && forall|i: int| 0 <= i < k.len() ==> so[i].1 == #[trigger] k[i];
    assert forall|a: int, b: int| 0 <= a < b < k.len() implies #[trigger] k[a] < #[trigger] k[b] by {
        assert(p[a] != p[b]); assert(so[a] == si[p[a]] && so[b] == si[p[b]]);
        let (x, y) = if p[a] < p[b] { (p[a], p[b]) } else { (p[b], p[a]) };
        assert(si[x].0.k() != si[y].0.k());
        assert(m.contains_key(si[x].0.k()) && m.contains_key(si[y].0.k()));
        assert(k[a] <= k[b]);
    }
    assert forall|a: int| 0 <= a < so.len() implies (#[trigger] so[a]).1 == a && m.contains_key(so[a].0.k()) && m[so[a].0.k()] == a && base(so[a].0@).len() == nc && is_label(l, a) by {
        assert(so[a] == si[p[a]]); assert(so[k.len() - 1] == si[p[k.len() - 1]]);
        in_order(k, a); in_order_up(k, a);
        let kk = so[a].0.k(); let j = choose|j: int| 0 <= j < l.len() && reals(#[trigger] rows[j]) == kk; assert(rows[j].len() == nc); assert(reals(rows[j]).len() == nc); assert(reals(base(so[a].0@)).len() == nc);
    }
    assert forall|i: int| 0 <= i < l.len() implies (#[trigger] l[i]) < so.len() && reals(base(so[l[i] as int].0@)) == reals(rows[i]) by { let a = l[i] as int; assert(so[a].1 == a); assert(m.contains_key(so[a].0.k())); assert(m.contains_key(reals(rows[i]))); }
}
#[verifier::external_body] pub fn vstack_rows(a: Axis, v: &Vec<A1>) -> (r: Option<A2>) requires a.0 == 0, v@.len() >= 1, forall|i: int| 0 <= i < v@.len() ==> (#[trigger] v@[i])@.len() == v@[0]@.len() ensures r is Some, r->0@.len() == v@.len(), r->0.cols() == v@[0]@.len(), forall|i: int| 0 <= i < v@.len() ==> #[trigger] r->0@[i] == v@[i]@ { unimplemented!() }
impl It<F> { #[verifier::external_body] pub fn collect_vec(self) -> (r: Vec<F>) requires self.pos() == 0 ensures r@ == self.all() { unimplemented!() } }
impl It<A1> { }
impl A1 { #[verifier::external_body] pub fn into_iter(self) -> (r: It<F>) ensures r.pos() == 0, r.all() == self@ { unimplemented!() } }
impl FloatApprox<F> {
//@extract src/utils/float_approx.rs :: impl FloatApprox :: from_array_view_clone
//@ret r
//@spec
    ensures base(r@) == array@,
//@subst array: ArrayView1<A> ==> array: A1
//@subst Vec<Self> ==> Vec<FloatApprox<F>>
//@subst FloatApprox(*x) ==> FloatApprox(x)
//@subst array.into_iter().map( ==> let ghost a0 = array@; let vr = array.into_iter().map(
//@subst FloatApprox(x) }).collect() ==> FloatApprox(x) }); proof { assert(base(vr.all()) =~= a0); } vr.collect()
//@closure 0
|x: F| -> (q: FloatApprox<F>) ensures q.0 == x
//@end
//@extract src/utils/float_approx.rs :: impl FloatApprox :: to_base
//@ret r
//@spec
    ensures r == self.0,
//@subst -> (r: A) ==> -> (r: F)
//@end
}
//@struct src/training/node_estimation/multi_kde/mod.rs :: MultiKDEBase
impl MultiKDEBase {
//@extract src/training/node_estimation/multi_kde/mod.rs :: impl MultiKDEBase :: find_peak_index
//@ret r
//@spec
    requires 1 <= kernel_estimate@.len(), self.peak_order <= kernel_estimate@.len(), self.peak_order < usize::MAX, 
    ensures r@ == peaks_of(kernel_estimate@, self.peak_order as int),
//@floats
//@rename bitand=vband
//@subst kernel_estimate: ArrayView1<F> ==> kernel_estimate: A1
//@subst results: Array1<bool> = arr1(vec![true; kernel_estimate.len()].as_slice()) ==> results: B1 = vtrues(kernel_estimate.len())
//@subst vec![&kernel_estimate[datalen - 1]; shift] ==> vrep(&kernel_estimate[datalen - 1], shift)
//@subst vec![kernel_estimate[0]; shift] ==> vrep(kernel_estimate[0], shift)
//@subst .chain(last_element) ==> .chain(vinto(last_element))
//@subst = first_element.iter() ==> = first_element.viter()
//@subst main.gt(plus).vband(main.gt(minus)) ==> { let ((main, plus), minus) = x; main.gt(plus).vband(main.gt(minus)) }
//@subst .collect::<Array1<bool>>() ==> .vbools()
//@top
    let ghost e = kernel_estimate@; let ghost ord = self.peak_order as int;
    proof { peak_none(e); }
//@loop 0
        invariant_except_break 1 <= vit_0 <= vend_0,  forall|i: int| 0 <= i < e.len() ==> #[trigger] results@[i] == is_peak(e, i, vit_0 - 1),
        invariant vend_0 == ord + 1, e == kernel_estimate@, e.len() >= 1, ord <= e.len(), datalen == e.len(), results@.len() == e.len(), ord == self.peak_order,
        ensures forall|i: int| 0 <= i < e.len() ==> #[trigger] results@[i] == is_peak(e, i, ord),
        decreases vend_0 - vit_0,
//@loop 0 top
            let ghost r0 = results@; let ghost sh = shift as int;
//@subst results.bitand_assign(&current_results); ==> proof { assert forall|i: int| 0 <= i < e.len() implies #[trigger] current_results@[i] == above(e, i, sh) by { } peak_step(e, sh); } results.bitand_assign(&current_results); proof { assert forall|i: int| 0 <= i < e.len() implies #[trigger] results@[i] == is_peak(e, i, sh) by { assert(r0[i] == is_peak(e, i, sh - 1)); } if !(exists|i: int| 0 <= i < results@.len() && #[trigger] results@[i]) { assert forall|i: int| 0 <= i < e.len() implies #[trigger] results@[i] == is_peak(e, i, ord) by { if is_peak(e, i, ord) { peak_less(e, i, sh, ord); } } } }
//@subst results.indexed_iter().filter_map( ==> let vr = results.indexed_iter().filter_map(
//@subst { if *bit { Some(index) } else { None } }).collect() ==> { let (index, bit) = x; if *bit { Some(index) } else { None } }); proof { let f = |i: int| is_peak(e, i, ord); let o = choose|o: Seq<Option<usize>>| vr.all() == #[trigger] somes(o) && o.len() == e.len() && forall|i: int| 0 <= i < o.len() ==> (#[trigger] o[i]) == (if f(i) { Some(i as usize) } else { None::<usize> }); somes_places(o, f); } vr.collect()
//@closure 0
|x: ((&F, &F), &F)| -> (q: bool) ensures q == (x.0.0.r() > x.0.1.r() && x.0.0.r() > x.1.r())
//@closure 1
|x: (usize, &bool)| -> (q: Option<usize>) ensures q == (if *x.1 { Some(x.0) } else { None::<usize> })
//@end
//@extract src/training/node_estimation/multi_kde/mod.rs :: impl MultiKDEBase :: find_peak_values
//@ret r
//@spec
    requires self.resolution > 1, kernel_estimate@.len() == self.resolution, self.peak_order <= self.resolution, self.peak_order < usize::MAX,
    ensures peak_values(kernel_estimate@, self.peak_order as int, grid_min.r(), grid_max.r(), r@),
//@floats
//@subst kernel_estimate: ArrayView1<F> ==> kernel_estimate: A1
//@subst Array::linspace( ==> vlinspace(
//@subst .iter().map( ==> .viter().map(
//@top
    let ghost e = kernel_estimate@; let ghost ord = self.peak_order as int;
    proof { places_in(e.len() as int, |i: int| is_peak(e, i, ord)); tenth(); }
//@closure 0
|i: &usize| -> (q: F) requires *i < grid@.len() ensures q == grid@[*i as int]
//@end
//@extract src/training/node_estimation/multi_kde/mod.rs :: impl MultiKDEBase :: assign_closest_peak_values
//@ret r
//@spec
    requires points.cols() == 1, peaks@.len() > 0,
    ensures assigned(points@, peaks@, r@),
//@floats
//@rename broadcast=vbroadcast
//@rename to_owned=vown
//@rename sub=vsub
//@subst points: ArrayView2<F> ==> points: A2
//@subst -> (r: Array1<F>) ==> -> (r: A1)
//@subst Array1::from(peaks.clone()) ==> A1::vfrom(peaks.vclone())
//@subst peaks_arr = peaks_arr.vsub(broadcast_points); ==> let ghost vp = peaks_arr; let ghost vb = broadcast_points; peaks_arr = peaks_arr.vsub(broadcast_points); proof { assert forall|i: int, k: int| 0 <= i < points@.len() && 0 <= k < peaks@.len() implies (#[trigger] peaks_arr@[i][k]).r() == peaks@[k].r() - points@[i][0].r() by { assert(vp@[i] == peaks@); assert(vb@[i][k] == points@[i][0]); } }
//@subst peaks_arr.mapv(f32::abs) ==> let vm = peaks_arr.vabs(); let vr = vm
//@subst d.argmin().unwrap() ==> d.argmin().unwrap()
//@closure 0
|d: A1| -> (q: F) requires d@.len() == peaks@.len(), peaks@.len() > 0 ensures exists|k: int| #[trigger] first_min(d@, k) && q == peaks@[k]
//@subst peaks[d.argmin().unwrap()] }) ==> peaks[d.argmin().unwrap()] }); proof { assert forall|i: int| 0 <= i < points@.len() implies #[trigger] near(points@, peaks@, vr@, i) by { let d = choose|d: A1| d@ == vm@[i] && d@.len() == vm.cols() && exists|k: int| #[trigger] first_min(d@, k) && vr@[i] == peaks@[k]; let k = choose|k: int| #[trigger] first_min(d@, k) && vr@[i] == peaks@[k]; let x = points@[i][0].r(); assert forall|j: int| 0 <= j < peaks@.len() implies d@[j].r() == dist((#[trigger] peaks@[j]).r(), x) by { assert(d@[j] == vm@[i][j]); assert(peaks_arr@[i][j].r() == peaks@[j].r() - x); } assert(closest(peaks@, x, k)); } } vr
//@end
//@extract src/training/node_estimation/multi_kde/mod.rs :: impl MultiKDEBase :: extract_labels_from_centers
//@ret r
//@spec
    requires 1 <= cluster_centers@.len() <= usize::MAX,
    ensures labelled(cluster_centers@, r.0@, r.1@), r.1.cols() == cluster_centers.cols(),
//@floats
//@subst cluster_centers: Array2<F> ==> cluster_centers: A2
//@subst Array2<F>) ==> A2)
//@subst Vec<Array1<F>> ==> Vec<A1>
//@subst let sorted: Vec<ArrayView1<F>> = sorted.iter().map(Array1::view).collect(); ==>
//@subst stack(Axis(0), sorted.as_slice()) ==> vstack_rows(Axis(0), &sorted)
//@top
    let ghost rows = cluster_centers@; let ghost nc = cluster_centers.cols() as int;
    proof { a2_shape(cluster_centers); reveal(numbering); assert(rows.subrange(0, 0) =~= Seq::<Seq<F>>::empty()); }
//@subst { *k }).map( ==> { x.1 }); let ghost so = vs.all(); let vc = vs.map(
//@subst unique_cluster_centers.into_iter().sorted_by_key( ==> { let ghost mu = unique_cluster_centers@; let vi = unique_cluster_centers.into_iter(); let ghost si = vi.all(); let vs = vi.sorted_by_key(
//@subst Array1::from(center.into_iter().map( ==> let (center, _) = x; let ghost c0 = center@; let vr = center.vinto_iter().map(
//@subst coord.to_base() }).collect_vec(),) } }).collect(); ==> coord.to_base() }); proof { assert(vr.all() =~= base(c0)); } A1::vfrom(vr.collect_vec()) } }); proof { assert(rows.subrange(0, rows.len() as int) =~= rows); assert forall|a: int| 0 <= a < so.len() implies (#[trigger] vc.all()[a])@ == base(so[a].0@) by { } sorted_centers(rows, mu, labels@, key as int, si, so, nc); assert(labels@[0] < so.len()); } vc.collect() };
//@loop 0
        invariant rows.len() <= usize::MAX, vit_0.all().len() == rows.len(), 0 <= vit_0.pos() <= rows.len(), forall|i: int| 0 <= i < rows.len() ==> (#[trigger] vit_0.all()[i])@ == rows[i],
            numbering(rows.subrange(0, vit_0.pos()), unique_cluster_centers@, labels@, key as int),
        ensures vit_0.pos() == vit_0.all().len(),
        decreases vit_0.all().len() - vit_0.pos(),
//@loop 0 top
            proof { number_room(rows.subrange(0, vit_0.pos() - 1), unique_cluster_centers@, labels@, key as int); }
            let ghost at = vit_0.pos() - 1; let ghost l0 = labels@; let ghost m0 = unique_cluster_centers@; let ghost k0 = key as int;
//@loop 0 end
            proof { assert(rows.subrange(0, at + 1) =~= rows.subrange(0, at).push(rows[at])); number_step(rows.subrange(0, at), rows[at], m0, unique_cluster_centers@, l0, labels@, k0, key as int); }
//@closure 0
|x: &(Vec<FloatApprox<F>>, usize)| -> (q: usize) ensures q == x.1
//@closure 1
|x: (Vec<FloatApprox<F>>, usize)| -> (q: A1) ensures q@ == base(x.0@)
//@closure 2
|coord: FloatApprox<F>| -> (q: F) ensures q == coord.0
//@end
}
} // verus!
fn main() {}
