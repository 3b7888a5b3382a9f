verus! {
// ---- filling windows without edges ---------------------------------------------------------------
pub open spec fn filled(s: Seq<F>, init: F) -> Seq<F> decreases s.len() {
    if s.len() == 0 { s } else { let p = filled(s.drop_last(), init); p.push(if s.last().r() == 0real { if p.len() == 0 { init } else { p.last() } } else { s.last() }) }
}
pub proof fn filled_len(s: Seq<F>, init: F) ensures filled(s, init).len() == s.len() decreases s.len() { if s.len() > 0 { filled_len(s.drop_last(), init); } }
//@extract src/training/scoring/mod.rs :: fn fill_up_first_missing_points
//@spec
    ensures final(scores)@ == filled(old(scores)@, initial_score),
//@floats
//@subst fn fill_up_first_missing_points<T: IndexMut<usize, Output = F> + LengthAble>( ==> fn fill_up_first_missing_points(
//@subst scores: &mut T ==> scores: &mut Vec<F>
//@subst where <T as Index<usize>>::Output: Float, ==>
//@subst scores.get_length() ==> scores.len()
//@top
    let ghost s0 = scores@; proof { rl_one(0); }
//@loop 0 pre
    proof { assert(scores@ =~= filled(s0.take(0), initial_score) + s0.skip(0)); }
//@loop 0
        invariant 0 <= vit_0 <= vend_0, vend_0 == s0.len(), rl(0, 1) == 0real, scores@.len() == s0.len(), scores@ == filled(s0.take(vit_0 as int), initial_score) + s0.skip(vit_0 as int),
        decreases vend_0 - vit_0,
//@loop 0 top
        proof { filled_len(s0.take(i as int), initial_score); assert(scores@[i as int] == s0[i as int]); if i > 0 { assert(scores@[i - 1] == filled(s0.take(i as int), initial_score).last()); } }
        let ghost sc0 = scores@;
//@loop 0 end
        proof { let k = vit_0 as int; assert(s0.take(k).drop_last() =~= s0.take(k - 1)); filled_len(s0.take(k), initial_score); filled_len(s0.take(k - 1), initial_score); assert(s0.take(k).last() == s0[k - 1]);
            let p = filled(s0.take(k - 1), initial_score); let f = filled(s0.take(k), initial_score); assert(f.drop_last() =~= p); assert(scores@[k - 1] == f.last());
            assert(scores@ =~= sc0.update(k - 1, f.last()));
            assert(scores@ =~= filled(s0.take(k), initial_score) + s0.skip(k)); }
//@tail
    proof { assert(s0.take(s0.len() as int) =~= s0); assert(scores@ =~= filled(s0, initial_score)); }
//@end
// ---- windows: the score of window i, None without edges ------------------------------------------
pub type W = spec_fn(int) -> Option<real>;
// what a chunk that begins at `start` reports for its k-th window (C07)
pub open spec fn carried(w: W, start: int, k: int) -> real decreases k { match w(start + k) { Some(x) => x, None => if k <= 0 { 0real } else { carried(w, start, k - 1) } } }
pub open spec fn zeros_first(w: W) -> bool { forall|i: int, j: int| 0 <= i < j && (#[trigger] w(i)) is None ==> (#[trigger] w(j)) != Some(0real) }
// what is reported for the windows start..start+len
pub open spec fn is_run(w: W, m: Seq<F>, first_empty: bool, start: int, len: int) -> bool { m.len() == len && (forall|k: int| 0 <= k < len ==> (#[trigger] m[k]).r() == carried(w, start, k)) && first_empty == (len > 0 && w(start) is None) }
// the first `len` windows as one run would report them
pub open spec fn upto(w: W, s: Seq<F>, len: int) -> bool { s.len() == len && forall|k: int| 0 <= k < len ==> (#[trigger] s[k]).r() == carried(w, 0, k) }
pub proof fn carry_some(w: W, start: int, k: int) requires start >= 0, k >= 0, w(start) is Some ensures carried(w, start, k) == carried(w, 0, start + k) decreases k { if k > 0 { carry_some(w, start, k - 1); } }
// 0 in a chunk that begins without edges: no window with edges so far
pub proof fn carry_zero(w: W, start: int, k: int) requires start >= 0, k >= 0, w(start) is None, zeros_first(w), carried(w, start, k) == 0real ensures forall|i: int| start <= i <= start + k ==> (#[trigger] w(i)) is None decreases k {
    assert(w(start + k) is None) by { if k > 0 && w(start + k) is Some { assert(w(start + k) != Some(0real)); } }
    if k > 0 { carry_zero(w, start, k - 1); }
}
pub proof fn carry_nonzero(w: W, start: int, k: int) requires start >= 0, k >= 0, carried(w, start, k) != 0real ensures carried(w, start, k) == carried(w, 0, start + k) decreases k { if w(start + k) is None { carry_nonzero(w, start, k - 1); } }
pub proof fn fill_carries(w: W, m: Seq<F>, start: int, n: int, init: F) requires start > 0, 0 <= n <= m.len(), zeros_first(w), w(start) is None, init.r() == carried(w, 0, start - 1), forall|k: int| 0 <= k < n ==> (#[trigger] m[k]).r() == carried(w, start, k)
    ensures filled(m.take(n), init).len() == n, forall|k: int| 0 <= k < n ==> (#[trigger] filled(m.take(n), init)[k]).r() == carried(w, 0, start + k) decreases n
{
    if n > 0 {
        fill_carries(w, m, start, n - 1, init);
        let s = m.take(n); assert(s.drop_last() =~= m.take(n - 1)); assert(s.last() == m[n - 1]);
        let k = n - 1;
        assert(m[k].r() == carried(w, start, k));
        if s.last().r() == 0real { carry_zero(w, start, k); assert(w(start + k) is None); } else { carry_nonzero(w, start, k); }
    }
}
// scores continued by a run
pub open spec fn continued(s: Seq<F>, m: Seq<F>, first_empty: bool) -> Seq<F> { if first_empty && s.len() > 0 { s + filled(m, s.last()) } else { s + m } }
pub proof fn run_extends(w: W, s: Seq<F>, m: Seq<F>, first_empty: bool, len: int)
    requires zeros_first(w), is_run(w, m, first_empty, s.len() as int, len), upto(w, s, s.len() as int), len >= 0
    ensures upto(w, continued(s, m, first_empty), s.len() + len)
{
    let st = s.len() as int; let r = continued(s, m, first_empty);
    if first_empty && st > 0 { fill_carries(w, m, st, len, s.last()); assert(m.take(len) =~= m); }
    assert forall|k: int| 0 <= k < st + len implies (#[trigger] r[k]).r() == carried(w, 0, k) by {
        if k < st { assert(r[k] == s[k]); } else { let j = k - st;
            if first_empty && st > 0 { assert(r[k] == filled(m, s.last())[j]); assert(filled(m, s.last())[j].r() == carried(w, 0, st + j)); }
            else { assert(r[k] == m[j]); if st > 0 { assert(w(st) is Some); carry_some(w, st, j); } } }
    }
}
} // verus!
