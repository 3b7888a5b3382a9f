//! PointRef is opaque: only id and segment are visible. segment_id_to_assignment and first_segment_of_i_next_cluster_node through the contracts proved in C01.
//! Vec::dedup removes adjacent equal elements.
//@include base.rs
//@include coll.rs
//@include points.rs
//@include owner.rs
verus! {
pub open spec fn first_of(p: Parameters, c: int) -> int { c * spn(p) }
impl Parameters {
    // C01
    #[verifier::external_body] pub fn segment_id_to_assignment(&self, segment_id: usize) -> (r: usize) requires pok(*self), segment_id < self.rate ensures r as int == owner(*self, segment_id as int), r < self.n_cluster_nodes { unimplemented!() }
    #[verifier::external_body] pub fn first_segment_of_i_next_cluster_node(&self, segment_id: usize, i: usize) -> (r: usize) requires pok(*self), segment_id < self.rate, i <= self.n_cluster_nodes
        ensures r as int == first_of(*self, (owner(*self, segment_id as int) + i) % (self.n_cluster_nodes as int)), r < self.rate { unimplemented!() }
}
#[verifier::external_body] pub fn vrange(a: usize, b: usize) -> (r: It<usize>) ensures r.pos() == 0, r.all().len() == (if a <= b { b - a } else { 0 }), forall|i: int| 0 <= i < r.all().len() ==> #[trigger] r.all()[i] == a + i { unimplemented!() }
//@struct src/data_store/node_questions/node_in_question.rs :: NodeInQuestion
impl NodeInQuestion {
//@extract src/data_store/node_questions/node_in_question.rs :: impl NodeInQuestion :: new
//@ret r
//@spec
    ensures r == (NodeInQuestion { prev_point_id, prev_point_segment_id, point_id, segment_id }),
//@end
//@extract src/data_store/node_questions/node_in_question.rs :: impl NodeInQuestion :: get_prev_id
//@ret r
//@spec
    ensures r == self.prev_point_id,
//@end
//@extract src/data_store/node_questions/node_in_question.rs :: impl NodeInQuestion :: get_prev_segment
//@ret r
//@spec
    ensures r == self.prev_point_segment_id,
//@end
//@extract src/data_store/node_questions/node_in_question.rs :: impl NodeInQuestion :: get_point_id
//@ret r
//@spec
    ensures r == self.point_id,
//@end
//@extract src/data_store/node_questions/node_in_question.rs :: impl NodeInQuestion :: get_segment
//@ret r
//@spec
    ensures r == self.segment_id,
//@end
}
// a question that was just asked is not asked twice
pub open spec fn added(s: Seq<NodeInQuestion>, q: NodeInQuestion) -> Seq<NodeInQuestion> { if s.len() > 0 && s.last() == q { s } else { s.push(q) } }
pub open spec fn no_twins(s: Seq<NodeInQuestion>) -> bool { forall|i: int| 0 < i < s.len() ==> s[i - 1] != #[trigger] s[i] }
#[verifier::external_body] pub fn vdedup(v: &mut Vec<NodeInQuestion>) ensures old(v)@.len() > 0 && no_twins(old(v)@.drop_last()) ==> final(v)@ == added(old(v)@.drop_last(), old(v)@.last()) { unimplemented!() }
#[verifier::external_body] pub fn vone<V>(k: usize, v: V) -> (r: HashMap<usize, V>) ensures r@ == Map::<usize, V>::empty().insert(k, v) { unimplemented!() }
pub struct NodeQuestions { pub node_questions: HashMap<usize, HashMap<usize, Vec<NodeInQuestion>>> }
// the questions that node b has for node a
pub open spec fn asked(m: Map<usize, HashMap<usize, Vec<NodeInQuestion>>>, a: usize, b: usize) -> Seq<NodeInQuestion> { if m.contains_key(a) && m[a]@.contains_key(b) { m[a]@[b]@ } else { Seq::empty() } }
pub open spec fn clean(m: Map<usize, HashMap<usize, Vec<NodeInQuestion>>>) -> bool { forall|a: usize, b: usize| no_twins(#[trigger] asked(m, a, b)) }
// all questions of the list that are b's for a, one after the other; no node asks itself
#[verifier::opaque]
pub open spec fn asked_all(s: Seq<NodeInQuestion>, l: Seq<NodeInQuestion>, a: usize, b: usize, p: Parameters) -> Seq<NodeInQuestion> decreases l.len() {
    if l.len() == 0 { s } else { let r = asked_all(s, l.drop_last(), a, b, p); let q = l.last(); if a != b && owner(p, q.segment_id as int) == a as int && owner(p, q.prev_point_segment_id as int) == b as int { added(r, q) } else { r } }
}
pub proof fn asked_step(s: Seq<NodeInQuestion>, l: Seq<NodeInQuestion>, k: int, a: usize, b: usize, p: Parameters)
    requires 0 <= k < l.len()
    ensures asked_all(s, l.take(k + 1), a, b, p) == (if a != b && owner(p, l[k].segment_id as int) == a as int && owner(p, l[k].prev_point_segment_id as int) == b as int { added(asked_all(s, l.take(k), a, b, p), l[k]) } else { asked_all(s, l.take(k), a, b, p) })
{ reveal(asked_all); assert(l.take(k + 1).drop_last() =~= l.take(k)); }
// the first segment of the (i + 1)-th next node
pub open spec fn entry(t: Transition, i: int, p: Parameters) -> int { first_of(p, (owner(p, t.from_point.seg() as int) + i + 1) % (p.n_cluster_nodes as int)) }
pub open spec fn question(t: Transition, prev: Option<Transition>, i: int, p: Parameters) -> NodeInQuestion {
    let w = entry(t, i, p); let id = t.from_point.id();
    if i == 0 && prev is Some && w == (t.from_point.seg() + 1) % (p.rate as int) { NodeInQuestion { prev_point_id: prev->0.from_point.id(), prev_point_segment_id: prev->0.to_point.seg(), point_id: id, segment_id: w as usize } }
    else { NodeInQuestion { prev_point_id: id, prev_point_segment_id: ((w - 1) % (p.rate as int)) as usize, point_id: id, segment_id: w as usize } }
}
// what is asked for a transition: within it, one question per node it enters; between it and the one before, one
pub open spec fn questions(t: Transition, prev: Option<Transition>, within: bool, span: int, p: Parameters) -> Seq<NodeInQuestion> {
    if within { Seq::new(span as nat, |i: int| question(t, prev, i, p)) }
    else { seq![NodeInQuestion { prev_point_id: prev->0.from_point.id(), prev_point_segment_id: prev->0.to_point.seg(), point_id: t.from_point.id(), segment_id: ((t.from_point.seg() + 1) % (p.rate as int)) as usize }] }
}
pub open spec fn in_rates(l: Seq<NodeInQuestion>, p: Parameters) -> bool { forall|i: int| 0 <= i < l.len() ==> (#[trigger] l[i]).segment_id < p.rate && l[i].prev_point_segment_id < p.rate }
impl NodeQuestions {
//@extract src/data_store/node_questions/mod.rs :: impl NodeQuestions :: add_niq
//@spec
    requires clean(old(self).node_questions@),
    ensures clean(final(self).node_questions@),
        answering_node == asking_node ==> *final(self) == *old(self),
        answering_node != asking_node ==> forall|a: usize, b: usize| #[trigger] asked(final(self).node_questions@, a, b) == (if a == answering_node && b == asking_node { added(asked(old(self).node_questions@, a, b), niq) } else { asked(old(self).node_questions@, a, b) }),
//@subst nodes.dedup(); ==> vdedup(nodes);
//@subst HashMap::from_iter([(asking_node, vec![niq])]) ==> vone(asking_node, vec![niq])
//@top
    let ghost m0 = self.node_questions@; let ghost s0 = asked(m0, answering_node, asking_node);
    proof { assert(no_twins(s0)); assert(s0.push(niq).drop_last() =~= s0); }
//@last
    proof { let m = self.node_questions@; if asking_node != answering_node {
        assert forall|a: usize, b: usize| #[trigger] asked(m, a, b) == (if a == answering_node && b == asking_node { added(asked(m0, a, b), niq) } else { asked(m0, a, b) }) by { if a == answering_node && b == asking_node { assert(m.contains_key(a) && m[a]@.contains_key(b)); assert(m[a]@[b]@ =~= added(s0, niq)); } else if a == answering_node { assert(asked(m, a, b) =~= asked(m0, a, b)); } }
        assert forall|a: usize, b: usize| no_twins(#[trigger] asked(m, a, b)) by { assert(no_twins(asked(m0, a, b))); } } }
//@end
//@extract src/data_store/node_questions/mod.rs :: impl NodeQuestions :: remove
//@ret r
//@spec
    ensures final(self).node_questions@ == old(self).node_questions@.remove(*answering_node), r == (if old(self).node_questions@.contains_key(*answering_node) { Some(old(self).node_questions@[*answering_node]) } else { None }),
//@end
//@extract src/data_store/node_questions/mod.rs :: impl NodeQuestions :: from_hashmap
//@ret r
//@spec
    ensures r.node_questions == node_questions,
//@end
//@extract src/data_store/node_questions/mod.rs :: impl NodeQuestions :: from_hashmap_with_value
//@ret r
//@spec
    ensures r.node_questions@ == Map::<usize, HashMap<usize, Vec<NodeInQuestion>>>::empty().insert(answering_node, answering_node_questions),
//@end
//@extract src/data_store/node_questions/mod.rs :: impl NodeQuestions :: clear
//@spec
    ensures final(self).node_questions@ == Map::<usize, HashMap<usize, Vec<NodeInQuestion>>>::empty(),
//@end
//@extract src/data_store/node_questions/mod.rs :: impl NodeQuestions :: segment_is_first_transition_intersection
//@ret r
//@spec
    requires rate_ok(parameters.rate as int), transition.from_point.seg() < parameters.rate,
    ensures r == (segment as int == (transition.from_point.seg() + 1) % (parameters.rate as int)),
//@end
//@extract src/data_store/node_questions/mod.rs :: impl NodeQuestions :: get_wanted_segment
//@ret r
//@spec
    requires pok(*parameters), transition.from_point.seg() < parameters.rate, i < parameters.n_cluster_nodes,
    ensures r.0 as int == entry(*transition, i as int, *parameters), r.0 < parameters.rate, r.1 as int == (r.0 - 1) % (parameters.rate as int), r.1 < parameters.rate,
//@end
//@extract src/data_store/node_questions/mod.rs :: impl NodeQuestions :: ask
//@spec
    requires pok(parameters), clean(old(self).node_questions@), transition.from_point.seg() < parameters.rate, within_transition || prev_transition is Some, cluster_span < parameters.n_cluster_nodes || !within_transition, prev_transition is Some ==> prev_transition->0.to_point.seg() < parameters.rate,
    ensures clean(final(self).node_questions@), ({ let l = questions(*transition, prev_transition, within_transition, cluster_span as int, parameters);
        forall|a: usize, b: usize| #[trigger] asked(final(self).node_questions@, a, b) == asked_all(asked(old(self).node_questions@, a, b), l, a, b, parameters) }),
//@subst (0..cluster_span) ==> vrange(0, cluster_span)
//@subst self.get_wanted_segment(transition, &parameters, i); ==> self.get_wanted_segment(transition, &parameters, i); proof { vstd::arithmetic::div_mod::lemma_small_mod(wanted_segment as nat, parameters.rate as nat); }
//@subst ) & (i == 0) ==> ) && (i == 0)
//@closure 0
|i: usize| -> (q: NodeInQuestion) requires i < parameters.n_cluster_nodes ensures q == question(*transition, Some(prev), i as int, parameters)
//@closure 1
|i: usize| -> (q: NodeInQuestion) requires i < parameters.n_cluster_nodes ensures q == question(*transition, None, i as int, parameters)
//@top
    let ghost l = questions(*transition, prev_transition, within_transition, cluster_span as int, parameters); let ghost m0 = self.node_questions@; let ghost p = parameters;
//@loop 0
            invariant vit_0.all() == l, 0 <= vit_0.pos() <= l.len(), in_rates(l, parameters), pok(parameters), clean(self.node_questions@), p == parameters,
                forall|a: usize, b: usize| #[trigger] asked(self.node_questions@, a, b) == asked_all(asked(m0, a, b), l.take(vit_0.pos()), a, b, parameters),
            ensures vit_0.pos() == vit_0.all().len(),
            decreases l.len() - vit_0.pos(),
//@loop 0 init
        proof { assert(vit_0.all() =~= l); reveal(asked_all); assert(l.take(0) =~= Seq::empty());
            assert forall|i: int| 0 <= i < l.len() implies (#[trigger] l[i]).segment_id < p.rate && l[i].prev_point_segment_id < p.rate by { let s = transition.from_point.seg() as int; entry_ok(*transition, i, p); assert(0 <= (entry(*transition, i, p) - 1) % (p.rate as int) < p.rate); assert(0 <= (s + 1) % (p.rate as int) < p.rate); } }
//@loop 0 top
            let ghost before = self.node_questions@; let ghost k = vit_0.pos() - 1; proof { assert(node_in_question == l[k]); assert(l[k].segment_id < p.rate && l[k].prev_point_segment_id < p.rate); }
//@loop 0 end
            proof { assert forall|a: usize, b: usize| #[trigger] asked(self.node_questions@, a, b) == asked_all(asked(m0, a, b), l.take(k + 1), a, b, p) by { asked_step(asked(m0, a, b), l, k, a, b, p); assert(asked(before, a, b) == asked_all(asked(m0, a, b), l.take(k), a, b, p)); } }
//@loop 0 after
        proof { assert(l.take(l.len() as int) =~= l); }
//@end
}
pub proof fn entry_ok(t: Transition, i: int, p: Parameters) requires pok(p), t.from_point.seg() < p.rate, i >= 0 ensures 0 <= entry(t, i, p) < p.rate
{
    let n = p.n_cluster_nodes as int; let c = (owner(p, t.from_point.seg() as int) + i + 1) % n; let s = spn(p); owner_bound(p, t.from_point.seg() as int);
    vstd::arithmetic::div_mod::lemma_mod_bound(owner(p, t.from_point.seg() as int) + i + 1, n);
    vstd::arithmetic::div_mod::lemma_div_non_zero(p.rate as int, n); vstd::arithmetic::div_mod::lemma_fundamental_div_mod(p.rate as int, n);
    assert(n * s <= p.rate) by (nonlinear_arith) requires p.rate as int == n * s + (p.rate as int) % n, (p.rate as int) % n >= 0;
    assert(c * s >= 0 && c * s < n * s) by (nonlinear_arith) requires 0 <= c < n, s >= 1;
}
// ---- every question is about a node its answerer has, and every passage to another node is asked for ----
pub open spec fn size_of(p: Parameters, c: int) -> int { if c == p.n_cluster_nodes - 1 { p.rate - first_of(p, c) } else { spn(p) } }
// segment s belongs to node owner(s): from the first of it up to the next one's
pub proof fn block(p: Parameters, s: int)
    requires pok(p), 0 <= s < p.rate
    ensures 0 <= owner(p, s) < p.n_cluster_nodes, first_of(p, owner(p, s)) <= s, s < first_of(p, owner(p, s)) + size_of(p, owner(p, s)), spn(p) >= 1, first_of(p, 0) == 0, first_of(p, p.n_cluster_nodes as int) <= p.rate,
        forall|c: int| 0 <= c < p.n_cluster_nodes ==> (#[trigger] first_of(p, c) > s <==> c > owner(p, s)),
        forall|c: int| 0 <= c < p.n_cluster_nodes ==> 0 <= #[trigger] first_of(p, c) < p.rate && first_of(p, c + 1) == first_of(p, c) + spn(p),
{
    let n = p.n_cluster_nodes as int; let k = spn(p); owner_bound(p, s);
    vstd::arithmetic::div_mod::lemma_div_non_zero(p.rate as int, n); vstd::arithmetic::div_mod::lemma_fundamental_div_mod(p.rate as int, n);
    assert(n * k <= p.rate) by (nonlinear_arith) requires p.rate as int == n * k + (p.rate as int) % n, (p.rate as int) % n >= 0;
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(s, k); let d = s / k; let r = s % k; vstd::arithmetic::div_mod::lemma_mod_bound(s, k);
    assert(d * k <= s < d * k + k) by (nonlinear_arith) requires s == k * d + r, 0 <= r < k;
    assert(n * k - k == (n - 1) * k) by (nonlinear_arith);
    assert(d >= n ==> (n - 1) * k <= d * k) by (nonlinear_arith) requires k >= 1;
    let o = owner(p, s); assert(o * k <= s);
    assert(0 * k == 0) by (nonlinear_arith);
    assert forall|c: int| 0 <= c < n implies (#[trigger] first_of(p, c) > s <==> c > o) by {
        if c > o { assert(c * k >= o * k + k) by (nonlinear_arith) requires c >= o + 1, k >= 1; assert(o == d); } else { assert(c * k <= o * k) by (nonlinear_arith) requires c <= o, k >= 1; } }
    assert forall|c: int| 0 <= c < n implies 0 <= #[trigger] first_of(p, c) < p.rate && first_of(p, c + 1) == first_of(p, c) + k by { assert(0 <= c * k && c * k + k <= n * k) by (nonlinear_arith) requires 0 <= c, c + 1 <= n, k >= 1; assert((c + 1) * k == c * k + k) by (nonlinear_arith); }
}
// the l-th segment a transition enters
pub open spec fn enters(t: Transition, l: int, rate: int) -> int { (t.from_point.seg() + l) % rate }
pub open spec fn span(t: Transition, p: Parameters) -> int { (owner(p, t.to_point.seg() as int) - owner(p, t.from_point.seg() as int)) % (p.n_cluster_nodes as int) }
proof fn wrap(a: int, m: int) requires m > 0, 0 <= a < 2 * m ensures a % m == (if a < m { a } else { a - m })
{ if a < m { vstd::arithmetic::div_mod::lemma_small_mod(a as nat, m as nat); } else { vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(a, m, 1, a - m); } }
// which (i + 1)-th next node is meant, and which span
proof fn ring(f: int, i: int, n: int) requires 0 <= f < n, 0 <= i < n ensures (f + i + 1) % n == (if f + i + 1 < n { f + i + 1 } else { f + i + 1 - n }) { if f + i + 1 < n { wrap(f + i + 1, n); } else { wrap(f + i + 1, n); } }
proof fn ring_diff(f: int, g: int, n: int) requires 0 <= f < n, 0 <= g < n ensures (g - f) % n == (if g >= f { g - f } else { g - f + n }) { if g >= f { wrap(g - f, n); } else { vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(g - f, n, -1, g - f + n); } }
// a transition that starts and ends on one node does not pass through another
proof fn stays(t: Transition, p: Parameters)
    requires pok(p), p.n_cluster_nodes >= 2, in_rate(t, p.rate as int), valid(t, p.rate as int), owner(p, t.from_point.seg() as int) == owner(p, t.to_point.seg() as int)
    ensures t.from_point.seg() < t.to_point.seg()
{
    let rate = p.rate as int; let a = t.from_point.seg() as int; let b = t.to_point.seg() as int; let n = p.n_cluster_nodes as int; let k = spn(p); let f = owner(p, a);
    advance_cases(t, rate); block(p, a); block(p, b);
    if b < a {
        let d = rate + b - a;
        if f < n - 1 { assert(size_of(p, f) == k); assert(n * k <= rate) by { } assert(n * k >= 2 * k) by (nonlinear_arith) requires n >= 2, k >= 1; assert(a - b < k); assert(false); }
        else {
            assert(a - b < rate - first_of(p, n - 1)); let o = (n - 1) * k; assert(d >= o + 1);
            vstd::arithmetic::div_mod::lemma_fundamental_div_mod(rate, n); vstd::arithmetic::div_mod::lemma_mod_bound(rate, n); let r = rate % n;
            assert(n * k == o + k) by (nonlinear_arith) requires o == (n - 1) * k; assert(rate == o + k + r);
            assert(o >= k + (n - 2)) by (nonlinear_arith) requires o == (n - 1) * k, n >= 2, k >= 1;
            assert(2 * d <= rate); assert(false);
        }
    }
}
pub proof fn answerable(t: Transition, prev: Option<Transition>, i: int, p: Parameters)
    requires pok(p), in_rate(t, p.rate as int), valid(t, p.rate as int), 0 <= i < span(t, p)
    // the transition itself enters the segment asked for, and the one before it, if it is not the one it starts in
    ensures ({ let q = question(t, prev, i, p); let rate = p.rate as int; exists|l: int| 1 <= l <= advance(t, rate) && q.segment_id as int == #[trigger] enters(t, l, rate) && ((w_first(t, i, p) && prev is Some) || q.prev_point_segment_id as int == enters(t, l - 1, rate)) && q.point_id == t.from_point.id() }),
{
    let rate = p.rate as int; let a = t.from_point.seg() as int; let b = t.to_point.seg() as int; let n = p.n_cluster_nodes as int; let f = owner(p, a); let g = owner(p, b);
    advance_cases(t, rate); block(p, a); block(p, b); ring_diff(f, g, n); ring(f, i, n); entry_ok(t, i, p);
    let c = (f + i + 1) % n; let w = entry(t, i, p); assert(w == first_of(p, c));
    let l = if w > a { w - a } else { w + rate - a };
    assert(first_of(p, c) > a <==> c > f); assert(first_of(p, c) > b <==> c > g);
    assert(f != g);
    wrap(a + l, rate); wrap(a + l - 1, rate); if w == 0 { vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(-1, rate, -1, rate - 1); } else { wrap(w - 1, rate); }
    assert(enters(t, l, rate) == w); assert(enters(t, l - 1, rate) == (w - 1) % rate);
    wrap(a + 1, rate); let q = question(t, prev, i, p);
    assert(1 <= l <= advance(t, rate) && q.segment_id as int == enters(t, l, rate));
}
pub open spec fn w_first(t: Transition, i: int, p: Parameters) -> bool { i == 0 && entry(t, i, p) == (t.from_point.seg() + 1) % (p.rate as int) }
// where a transition passes from a segment it enters (or starts in) to the next and the owner changes, the question exists
pub proof fn complete(t: Transition, prev: Option<Transition>, l: int, p: Parameters)
    requires pok(p), in_rate(t, p.rate as int), valid(t, p.rate as int), 1 <= l <= advance(t, p.rate as int), owner(p, enters(t, l - 1, p.rate as int)) != owner(p, enters(t, l, p.rate as int))
    ensures exists|i: int| 0 <= i < span(t, p) && (#[trigger] question(t, prev, i, p)).segment_id as int == enters(t, l, p.rate as int) && (l == 1 ==> i == 0)
{
    let rate = p.rate as int; let a = t.from_point.seg() as int; let b = t.to_point.seg() as int; let n = p.n_cluster_nodes as int; let f = owner(p, a); let g = owner(p, b);
    advance_cases(t, rate); block(p, a); block(p, b); ring_diff(f, g, n);
    let x = enters(t, l, rate); let y = enters(t, l - 1, rate); wrap(a + l, rate); wrap(a + l - 1, rate); block(p, x); block(p, y);
    let c = owner(p, x); let e = owner(p, y);
    if n == 1 { assert(e == 0 && c == 0); assert(false); }
    if x != 0 { assert(y == x - 1); assert(first_of(p, c) <= x); assert(first_of(p, e) <= y); if c < e { assert(first_of(p, e) > x); assert(false); } assert(c > e); assert(first_of(p, c) > y); } else { assert(first_of(p, c) <= 0); }
    assert(x == first_of(p, c));
    if f == g { stays(t, p); assert(a <= y < x <= b); assert(first_of(p, c) > a <==> c > f); assert(first_of(p, c) > b <==> c > g); assert(c > f); assert(false); }
    assert(first_of(p, c) > a <==> c > f); assert(first_of(p, c) > b <==> c > g);
    let i = if c > f { c - f - 1 } else { c - f - 1 + n };
    ring(f, i, n); assert(entry(t, i, p) == x);
    if l == 1 { wrap(a + 1, rate); assert(y == a); if x != 0 { assert(c > f); if c > f + 1 { assert(first_of(p, f + 1) > a); assert(first_of(p, f + 1) <= x <==> f + 1 <= c); assert(false); } } }
    assert(0 <= i < span(t, p)); assert(question(t, prev, i, p).segment_id as int == x);
}
} // verus!
fn main() {}
