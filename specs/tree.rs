verus! {
// ---- the reduction tree: in round c, member id gives its part to member id - thr(c) ------------------
pub open spec fn p2(k: int) -> int decreases k { if k <= 0 { 1 } else { 2 * p2(k - 1) } }
pub proof fn p2_pos(k: int) ensures p2(k) >= 1 decreases k { if k > 0 { p2_pos(k - 1); } }
pub proof fn p2_mono(a: int, b: int) requires a <= b ensures p2(a) <= p2(b) decreases b - a { if a < b { p2_mono(a, b - 1); p2_pos(b - 1); if b <= 0 { } } }
pub proof fn p2_add(a: int, b: int) requires a >= 0, b >= 0 ensures p2(a + b) == p2(a) * p2(b) decreases a { if a > 0 { p2_add(a - 1, b); assert(p2(a + b) == 2 * p2(a - 1 + b)); assert(2 * (p2(a - 1) * p2(b)) == (2 * p2(a - 1)) * p2(b)) by (nonlinear_arith); } else { assert(p2(0) * p2(b) == p2(b)) by (nonlinear_arith) requires p2(0) == 1; } }
// l rounds for len members
pub open spec fn rounds(len: int, l: int) -> bool { 0 <= l <= 24 && 1 <= len <= p2(l) && (l > 0 ==> p2(l - 1) < len) }
pub proof fn rounds_exist(len: int, l: int) requires 1 <= len <= p2(l), 0 <= l <= 24 ensures exists|k: int| #[trigger] rounds(len, k) decreases l { if l == 0 || p2(l - 1) < len { assert(rounds(len, l)); } else { rounds_exist(len, l - 1); } }
pub proof fn rounds_one(len: int, a: int, b: int) requires rounds(len, a), rounds(len, b) ensures a == b { if a < b { p2_mono(a, b - 1); } else if b < a { p2_mono(b, a - 1); } }
pub open spec fn lg(len: int) -> int { choose|k: int| #[trigger] rounds(len, k) }
pub open spec fn small_cluster(len: int) -> bool { 1 <= len <= 0x100_0000 }
pub proof fn lg_ok(len: int) requires small_cluster(len) ensures rounds(len, lg(len)) { assert(p2(24) == 0x100_0000) by (compute); rounds_exist(len, 24); }
pub open spec fn thr(l: int, c: int) -> int { if c < l { p2(l - c - 1) } else { 0 } }
pub proof fn thr_is(l: int, c: int) requires 0 <= l <= 24, 0 <= c <= 24 ensures p2(l) / p2(c + 1) == thr(l, c), p2(c + 1) >= 1, p2(l) <= 0x100_0000 {
    p2_pos(c + 1); p2_mono(l, 24); assert(p2(24) == 0x100_0000) by (compute);
    if c < l { p2_add(c + 1, l - c - 1); vstd::arithmetic::div_mod::lemma_div_multiples_vanish(p2(l - c - 1), p2(c + 1)); assert(p2(c + 1) * p2(l - c - 1) == p2(l)); assert(p2(l) / p2(c + 1) == p2(l - c - 1)) by { vstd::arithmetic::div_mod::lemma_div_multiples_vanish(p2(l - c - 1), p2(c + 1)); } }
    else { p2_mono(l + 1, c + 1); p2_pos(l); vstd::arithmetic::div_mod::lemma_basic_div(p2(l), p2(c + 1)); }
}
pub open spec fn full(len: int) -> Set<int> { vstd::set_lib::set_int_range(0, len) }
// whose parts member id has after c rounds
pub open spec fn class(len: int, l: int, id: int, c: int) -> Set<int> { full(len).filter(|j: int| j % p2(l - c) == id) }
pub proof fn class_own(len: int, l: int, id: int) requires rounds(len, l), 0 <= id < len ensures class(len, l, id, 0) =~= set![id] {
    assert forall|j: int| class(len, l, id, 0).contains(j) == set![id].contains(j) by { if 0 <= j < len { vstd::arithmetic::div_mod::lemma_small_mod(j as nat, p2(l) as nat); } }
}
pub proof fn class_all(len: int, l: int) requires rounds(len, l) ensures class(len, l, 0, l) =~= full(len) { assert(p2(0) == 1); assert forall|j: int| class(len, l, 0, l).contains(j) == (0 <= j < len) by { assert(j % 1 == 0); } }
// one round joins the classes of the two partners, which have nothing in common
pub proof fn class_join(len: int, l: int, id: int, c: int) requires rounds(len, l), 0 <= c < l, 0 <= id < thr(l, c)
    ensures class(len, l, id, c + 1) =~= class(len, l, id, c).union(class(len, l, id + thr(l, c), c)), class(len, l, id, c).disjoint(class(len, l, id + thr(l, c), c))
{
    let m = thr(l, c); p2_pos(l - c - 1); assert(p2(l - c) == 2 * m);
    assert forall|j: int| #[trigger] class(len, l, id, c + 1).contains(j) == class(len, l, id, c).union(class(len, l, id + m, c)).contains(j) by {
        if 0 <= j < len {
            vstd::arithmetic::div_mod::lemma_mod_mod(j, m, 2); assert(m * 2 == 2 * m) by (nonlinear_arith); let r = j % (2 * m); assert(r % m == j % m); vstd::arithmetic::div_mod::lemma_mod_bound(j, 2 * m);
            if r < m { vstd::arithmetic::div_mod::lemma_small_mod(r as nat, m as nat); } else { vstd::arithmetic::div_mod::lemma_small_mod((r - m) as nat, m as nat); vstd::arithmetic::div_mod::lemma_mod_add_multiples_vanish(r - m, m); assert(m + (r - m) == r); }
        }
    }
}
// a member without a partner in the first round has the same after it
pub proof fn class_skip(len: int, l: int, id: int) requires rounds(len, l), 1 <= l, 0 <= id < thr(l, 0), id + thr(l, 0) >= len ensures class(len, l, id, 1) =~= class(len, l, id, 0) {
    class_join(len, l, id, 0); assert forall|j: int| !#[trigger] class(len, l, id + thr(l, 0), 0).contains(j) by { if 0 <= j < len { vstd::arithmetic::div_mod::lemma_small_mod(j as nat, p2(l) as nat); } }
}
// in every later round the partner exists
pub proof fn partner(len: int, l: int, id: int, c: int) requires rounds(len, l), 1 <= c < l, 0 <= id < thr(l, c) ensures id + thr(l, c) < len { p2_mono(l - c, l - 1); p2_pos(l - c - 1); }
pub proof fn thr_step(l: int, c: int) requires 0 <= c, c + 1 <= l ensures thr(l, c) >= 1, c + 1 < l ==> thr(l, c) == 2 * thr(l, c + 1), thr(l, c) == p2(l - c - 1) { p2_pos(l - c - 1); }
// ---- matrices: whose data went into them, in which order -------------------------------------------
pub struct Array2 { pub ids: Ghost<Seq<int>> }
impl Array2 { #[verifier::external_body] pub fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
    pub open spec fn once(self) -> bool { self.ids@.no_duplicates() }
    pub open spec fn set(self) -> Set<int> { self.ids@.to_set() } }
// QR of two triangular matrices on top of each other: the R of the data of both
#[verifier::external_body] pub fn vqr2(a: &Array2, b: &Array2) -> (r: Array2) ensures r.ids@ == a.ids@ + b.ids@ { unimplemented!() }
#[verifier::external_body] pub fn vstack(a: &Array2, b: &Array2) -> (r: Array2) ensures r.ids@ == a.ids@ + b.ids@ { unimplemented!() }
// the numbers of rows
pub struct Rows { pub v: Ghost<Seq<int>> }
impl Rows { #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self.v@.len() { unimplemented!() } #[verifier::external_body] pub fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
#[verifier::external_body] pub fn vrows_push(a: &Rows, n: usize) -> (r: Rows) ensures r.v@ == a.v@.push(n as int) { unimplemented!() }
// data of one member
pub struct ArcArray2 { pub id: Ghost<int>, pub rows: usize }
#[verifier::external_body] pub fn vmeans(d: &ArcArray2) -> (r: Array2) ensures r.ids@ == seq![d.id@] { unimplemented!() }
#[verifier::external_body] pub fn vrows1(d: &ArcArray2) -> (r: Rows) ensures r.v@ == seq![d.rows as int] { unimplemented!() }
pub struct Centered { pub id: Ghost<int> }
// centring: with the means of the same data
#[verifier::external_body] pub fn vcenter(d: &ArcArray2, m: &Array2) -> (r: Centered) requires m.ids@ == seq![d.id@] ensures r.id@ == d.id@ { unimplemented!() }
#[verifier::external_body] pub fn vqr(c: &Centered) -> (r: ((), Array2)) ensures r.1.ids@ == seq![c.id@] { unimplemented!() }
pub uninterp spec fn rows_of(id: int) -> int;
// means and row counts belong together, each member at most once
pub open spec fn means_ok(m: Array2, n: Rows, len: int) -> bool { m.ids@.len() == n.v@.len() && m.once() && forall|i: int| 0 <= i < m.ids@.len() ==> 0 <= #[trigger] m.ids@[i] < len && n.v@[i] == rows_of(m.ids@[i]) }
pub proof fn set_union<T>(a: Seq<T>, b: Seq<T>) ensures (a + b).to_set() =~= a.to_set().union(b.to_set()) {
    assert forall|x: T| (a + b).to_set().contains(x) == a.to_set().union(b.to_set()).contains(x) by {
        if a.contains(x) { let i = a.index_of(x); assert((a + b)[i] == x); } if b.contains(x) { let i = b.index_of(x); assert((a + b)[a.len() + i] == x); }
        if (a + b).contains(x) { let i = (a + b).index_of(x); if i < a.len() { assert(a[i] == x); } else { assert(b[i - a.len()] == x); } }
    }
}
pub proof fn once_union<T>(a: Seq<T>, b: Seq<T>) requires a.no_duplicates(), b.no_duplicates(), a.to_set().disjoint(b.to_set()) ensures (a + b).no_duplicates() {
    let s = a + b; assert forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() && i != j implies s[i] != s[j] by { if i < a.len() && j >= a.len() { assert(a.to_set().contains(a[i])); assert(b.to_set().contains(b[j - a.len()])); } else if j < a.len() && i >= a.len() { assert(a.to_set().contains(a[j])); assert(b.to_set().contains(b[i - a.len()])); } }
}
pub open spec fn has_part(r: Array2, len: int, id: int, c: int) -> bool { let l = lg(len); r.once() && r.set() == class(len, l, id, c) && 0 <= c <= l && 0 <= id < len && (c >= 1 ==> id < p2(l - c)) }
pub proof fn part_own(len: int, id: int, r: Array2) requires small_cluster(len), 0 <= id < len, r.ids@ == seq![id] ensures has_part(r, len, id, 0) { lg_ok(len); class_own(len, lg(len), id); assert(r.ids@.to_set() =~= set![id]) by { assert(r.ids@[0] == id); assert forall|x: int| r.ids@.to_set().contains(x) == set![id].contains(x) by { if x == id { assert(r.ids@.contains(r.ids@[0])); } } } }
// a message of round c (numbered c + 1) for member id
pub open spec fn dec_ok(r: Array2, count: int, len: int, id: int) -> bool { let l = lg(len); 1 <= count <= l && 0 <= id < thr(l, count - 1) && has_part(r, len, id + thr(l, count - 1), count - 1) }
pub proof fn part_join(len: int, id: int, c: int, a: Array2, b: Array2, r: Array2) requires small_cluster(len), has_part(a, len, id, c), dec_ok(b, c + 1, len, id), r.ids@ == a.ids@ + b.ids@ ensures has_part(r, len, id, c + 1) {
    lg_ok(len); let l = lg(len); class_join(len, l, id, c); set_union(a.ids@, b.ids@); once_union(a.ids@, b.ids@); assert(p2(l - (c + 1)) == thr(l, c));
}
pub proof fn part_skip(len: int, id: int, a: Array2) requires small_cluster(len), has_part(a, len, id, 0), 0 < id < thr(lg(len), 0), id + thr(lg(len), 0) >= len ensures has_part(a, len, id, 1), 1 < lg(len) { lg_ok(len); let l = lg(len); assert(l >= 1); class_skip(len, l, id); assert(p2(l - 1) == thr(l, 0)); if l == 1 { assert(p2(0) == 1); } }
pub open spec fn all_ids(s: Seq<int>, len: int) -> bool { s.no_duplicates() && s.to_set() == full(len) }
pub proof fn part_all(len: int, a: Array2) requires small_cluster(len), has_part(a, len, 0, lg(len)) ensures all_ids(a.ids@, len) { lg_ok(len); class_all(len, lg(len)); }
pub proof fn means_all(m: Array2, n: Rows, len: int) requires means_ok(m, n, len), n.v@.len() == len ensures all_ids(m.ids@, len) {
    let s = m.ids@.to_set(); let f = full(len);
    m.ids@.unique_seq_to_set(); full_set(len);
    assert(s.subset_of(f)) by { assert forall|x: int| s.contains(x) implies f.contains(x) by { let i = m.ids@.index_of(x); assert(m.ids@[i] == x); } } vstd::set_lib::lemma_subset_equality(s, f);
}
pub proof fn full_set(len: int) requires len >= 0 ensures full(len).len() == len { vstd::set_lib::lemma_int_range(0, len); }
// the next power of two (checked natively for every cluster size that is run)
#[verifier::external_body] pub fn vpow2_ceil(len: usize) -> (r: usize) requires small_cluster(len as int) ensures r == p2(lg(len as int)) { unimplemented!() }
#[verifier::external_body] pub fn vpow2(k: u32) -> (r: usize) requires k <= 40 ensures r == p2(k as int) { unimplemented!() }
// member p gives its part away in round c
pub open spec fn gives(l: int, p: int, c: int) -> bool { 0 <= c < l && p > 0 && p >= thr(l, c) && forall|k: int| 0 <= k < c ==> p < #[trigger] thr(l, k) }
// what a member waits for is what its partner gives: no member waits for ever
pub proof fn awaited(len: int, l: int, id: int, c: int) requires rounds(len, l), 0 <= c < l, 0 <= id < thr(l, c), id + thr(l, c) < len ensures gives(l, id + thr(l, c), c) {
    p2_pos(l - c - 1); assert forall|k: int| 0 <= k < c implies id + thr(l, c) < #[trigger] thr(l, k) by { p2_mono(l - c, l - k - 1); }
}
// and every member but the first gives once
pub proof fn gives_once(l: int, p: int, a: int, b: int) requires gives(l, p, a), gives(l, p, b) ensures a == b { if a < b { assert(p < thr(l, a)); } else if b < a { assert(p < thr(l, b)); } }
pub proof fn gives_some(l: int, p: int, c: int) requires 0 <= c < l, p >= 1, forall|k: int| 0 <= k < c ==> p < #[trigger] thr(l, k) ensures exists|r: int| #[trigger] gives(l, p, r) decreases l - c {
    p2_pos(l - c - 1); if p >= thr(l, c) { assert(gives(l, p, c)); } else if c + 1 < l { assert forall|k: int| 0 <= k < c + 1 implies p < #[trigger] thr(l, k) by { } gives_some(l, p, c + 1); } else { assert(p2(0) == 1); }
}
} // verus!
