//! a RemoteAddr is the node it leads to and the actor it names there (actix-telepathy); the cluster has at most 2^28 nodes.
//! std: HashMap iteration yields every entry once; sum is the sum.
//@include base.rs
//@include coll.rs
verus! {
pub struct Node { pub socket_addr: usize }
pub struct RemoteAddr { pub node: Node, pub id: String }
impl RemoteAddr {
    #[verifier::external_body] pub fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
    #[verifier::external_body] pub fn change_id(&mut self, id: String) ensures final(self).node == old(self).node, final(self).id@ == id@ { unimplemented!() }
}
impl Node { #[verifier::external_body] pub fn get_remote_addr(&self, id: String) -> (r: RemoteAddr) ensures r.node == *self, r.id == id { unimplemented!() } }
#[verifier::external_body] pub fn vclone_str(s: &String) -> (r: String) ensures r@ == s@, r == *s { unimplemented!() }
pub open spec fn usum(s: Seq<int>) -> int decreases s.len() { if s.len() == 0 { 0 } else { usum(s.drop_last()) + s.last() } }
pub proof fn usum_remove(s: Seq<int>, i: int) requires 0 <= i < s.len() ensures usum(s) == usum(s.remove(i)) + s[i] decreases s.len() {
    if i == s.len() - 1 { assert(s.remove(i) =~= s.drop_last()); } else { usum_remove(s.drop_last(), i); assert(s.remove(i).drop_last() =~= s.drop_last().remove(i)); assert(s.remove(i).last() == s.last()); }
}
// n numbers below n, all different: they sum up to 0 + 1 + ... + (n-1)
pub proof fn usum_all(s: Seq<int>, n: int) requires n >= 0, s.len() == n, s.no_duplicates(), forall|k: int| 0 <= k < n ==> #[trigger] s.contains(k) ensures usum(s) == n * (n - 1) / 2 decreases n {
    if n > 0 {
        assert(s.contains(n - 1)); let i = choose|i: int| 0 <= i < s.len() && s[i] == n - 1; usum_remove(s, i); let t = s.remove(i);
        assert forall|k: int| 0 <= k < n - 1 implies #[trigger] t.contains(k) by { assert(s.contains(k)); let j = choose|j: int| 0 <= j < s.len() && s[j] == k; if j < i { assert(t[j] == k); } else { assert(t[j - 1] == k); } }
        assert(t.no_duplicates()) by { assert forall|a: int, b: int| 0 <= a < t.len() && 0 <= b < t.len() && a != b implies t[a] != t[b] by { let a2 = if a < i { a } else { a + 1 }; let b2 = if b < i { b } else { b + 1 }; assert(t[a] == s[a2] && t[b] == s[b2]); } }
        usum_all(t, n - 1); assert(n * (n - 1) == (n - 1) * (n - 2) + 2 * (n - 1)) by (nonlinear_arith);
    } else { assert(0 * (0 - 1) / 2 == 0int) by (compute); }
}
pub proof fn usum_bound(s: Seq<int>, m: int) requires forall|i: int| 0 <= i < s.len() ==> 0 <= #[trigger] s[i] <= m, m >= 0 ensures 0 <= usum(s) <= m * s.len() decreases s.len() { if s.len() > 0 { usum_bound(s.drop_last(), m); assert(s.last() == s[s.len() - 1]); assert(m * s.len() == m * (s.len() - 1) + m) by (nonlinear_arith); } }
pub trait VSum { spec fn vals(&self) -> Seq<int>; fn vsum(self) -> (r: usize) requires usum(self.vals()) <= usize::MAX ensures r == usum(self.vals()); }
impl VSum for core::ops::Range<usize> { open spec fn vals(&self) -> Seq<int> { Seq::new((if self.start <= self.end { self.end - self.start } else { 0 }) as nat, |i: int| self.start + i) } #[verifier::external_body] fn vsum(self) -> (r: usize) { unimplemented!() } }
impl VSum for It<&usize> { open spec fn vals(&self) -> Seq<int> { Seq::new(self.all().len(), |i: int| *self.all()[i] as int) } #[verifier::external_body] fn vsum(self) -> (r: usize) { unimplemented!() } }
impl<V> HashMap<usize, V> {
    #[verifier::external_body] pub fn keys(&self) -> (r: It<&usize>) ensures r.pos() == 0, r.all().len() == self@.dom().len(), forall|i: int| 0 <= i < r.all().len() ==> self@.contains_key(*(#[trigger] r.all()[i])), forall|i: int, j: int| 0 <= i < j < r.all().len() ==> *(#[trigger] r.all()[i]) != *(#[trigger] r.all()[j]), forall|k: usize| #[trigger] self@.contains_key(k) ==> exists|i: int| 0 <= i < r.all().len() && *(#[trigger] r.all()[i]) == k { unimplemented!() }
}
// what the table of a node that is `own` of n holds: every other index
#[verifier::opaque]
pub open spec fn others<V>(m: Map<usize, V>, n: int, own: int) -> bool { 0 <= own < n <= 0x1000_0000 && m.dom().len() == n - 1 && forall|k: usize| #[trigger] m.contains_key(k) <==> k < n && k != own }
// the missing index, from the sums
pub proof fn missing(s: Seq<int>, n: int, own: int) requires 0 <= own < n <= 0x1000_0000, s.len() == n - 1, s.no_duplicates(), forall|k: int| #[trigger] s.contains(k) <==> 0 <= k < n && k != own ensures usum(s) + own == n * (n - 1) / 2, 0 <= usum(s) <= usize::MAX {
    let t = s.push(own); assert(t.drop_last() =~= s); assert(t.last() == own);
    assert(t.no_duplicates()) by { assert forall|a: int, b: int| 0 <= a < t.len() && 0 <= b < t.len() && a != b implies t[a] != t[b] by { if a == s.len() { assert(s.contains(s[b])); } else if b == s.len() { assert(s.contains(s[a])); } } }
    assert forall|k: int| 0 <= k < n implies #[trigger] t.contains(k) by { if k == own { assert(t[s.len() as int] == own); } else { assert(s.contains(k)); let j = choose|j: int| 0 <= j < s.len() && s[j] == k; assert(t[j] == k); } }
    usum_all(t, n);
    assert forall|i: int| 0 <= i < s.len() implies 0 <= #[trigger] s[i] <= 0x1000_0000 by { assert(s.contains(s[i])); } usum_bound(s, 0x1000_0000); assert(0x1000_0000 * s.len() <= usize::MAX) by (nonlinear_arith) requires s.len() <= 0x1000_0000;
}
pub struct ClusterNodes { pub nodes: HashMap<usize, RemoteAddr> }
impl ClusterNodes {
    pub open spec fn is(self, n: int, own: int) -> bool { others(self.nodes@, n, own) }
    pub open spec fn wf(self) -> bool { exists|n: int, own: int| self.is(n, own) }
    pub open spec fn n(self) -> int { self.nodes@.dom().len() as int + 1 }
    pub open spec fn own(self) -> int { choose|own: int| self.is(self.n(), own) }
    pub proof fn unique(self, n: int, own: int) requires self.is(n, own) ensures self.n() == n, self.own() == own, self.is(self.n(), self.own()), 0 <= own < n <= 0x1000_0000, self.wf() {
        reveal(others); assert(self.is(self.n(), own)); let o = self.own(); assert(self.is(self.n(), o)); if o != own { assert(self.nodes@.contains_key(o as usize) <==> (o as usize) < n && o as usize != own); assert(self.nodes@.contains_key(o as usize) <==> (o as usize) < n && o as usize != o); }
    }
    pub proof fn facts(self) requires self.wf() ensures self.is(self.n(), self.own()), 0 <= self.own() < self.n() <= 0x1000_0000, forall|k: usize| #[trigger] self.nodes@.contains_key(k) <==> k < self.n() && k != self.own() {
        let (n, own) = choose|n: int, own: int| self.is(n, own); self.unique(n, own); reveal(others);
    }
    #[verifier::external_body] pub fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
//@extract src/utils/mod.rs :: impl ClusterNodes :: get_main_node
//@ret r
//@spec
    ensures r is Some <==> self.nodes@.contains_key(0), r is Some ==> *r->0 == self.nodes@[0],
//@end
//@extract src/utils/mod.rs :: impl ClusterNodes :: get
//@ret r
//@spec
    ensures r is Some <==> self.nodes@.contains_key(*key), r is Some ==> *r->0 == self.nodes@[*key],
//@end
//@extract src/utils/mod.rs :: impl ClusterNodes :: len
//@ret r
//@spec
    ensures r == self.nodes@.dom().len(), r == self.n() - 1,
//@end
//@extract src/utils/mod.rs :: impl ClusterNodes :: len_incl_own
//@ret r
//@spec
    requires self.wf(),
    ensures r == self.n(),
//@top
    proof { self.facts(); }
//@end
//@extract src/utils/mod.rs :: impl ClusterNodes :: get_own_idx
//@ret r
//@spec
    requires self.wf(),
    ensures r == self.own(),
//@rename sum=vsum
//@top
    proof { self.facts(); reveal(others); let n = self.n(); let own = self.own(); let a = Seq::new(n as nat, |i: int| i);
        assert forall|k: int| 0 <= k < n implies #[trigger] a.contains(k) by { assert(a[k] == k); } usum_all(a, n);
        assert(0 <= n * (n - 1) / 2 <= 0x100_0000_0000_0000) by (nonlinear_arith) requires 1 <= n <= 0x1000_0000;
        assert(forall|q: core::ops::Range<usize>| q.start == 0 && q.end == n ==> (#[trigger] q.vals()) =~= a);
        assert forall|i: It<&usize>| #![trigger i.vals()] i.all().len() == self.nodes@.dom().len() && (forall|x: int| 0 <= x < i.all().len() ==> self.nodes@.contains_key(*(#[trigger] i.all()[x]))) && (forall|x: int, j: int| 0 <= x < j < i.all().len() ==> *(#[trigger] i.all()[x]) != *(#[trigger] i.all()[j])) && (forall|k: usize| #[trigger] self.nodes@.contains_key(k) ==> exists|x: int| 0 <= x < i.all().len() && *(#[trigger] i.all()[x]) == k) implies usum(i.vals()) + own == n * (n - 1) / 2 && 0 <= usum(i.vals()) <= usize::MAX by {
            let s = i.vals(); assert(s.no_duplicates());
            assert forall|k: int| #[trigger] s.contains(k) <==> 0 <= k < n && k != own by {
                if s.contains(k) { let j = choose|j: int| 0 <= j < s.len() && s[j] == k; assert(self.nodes@.contains_key(*i.all()[j])); }
                if 0 <= k < n && k != own { assert(self.nodes@.contains_key(k as usize)); let x = choose|x: int| 0 <= x < i.all().len() && *(#[trigger] i.all()[x]) == k as usize; assert(s[x] == k); }
            }
            missing(s, n, own);
        } }
//@end
//@extract src/utils/mod.rs :: impl ClusterNodes :: get_shifted_idx
//@ret r
//@spec
    requires self.wf(), -0x1000_0000 <= shift_by <= 0x1000_0000,
    ensures self.n() == 1 ==> r is None, self.n() > 1 ==> r == Some(((self.own() + shift_by) % self.n()) as usize) && 0 <= (self.own() + shift_by) % self.n() < self.n(),
//@top
    proof { self.facts(); }
//@end
//@extract src/utils/mod.rs :: impl ClusterNodes :: get_next_idx
//@ret r
//@spec
    requires self.wf(),
    ensures r == (if self.n() == 1 { None } else { Some(if self.own() + 1 == self.n() { 0 } else { (self.own() + 1) as usize }) }),
//@top
    proof { self.facts(); let (n, o) = (self.n(), self.own()); if o + 1 == n { vstd::arithmetic::div_mod::lemma_mod_self_0(n); } else { vstd::arithmetic::div_mod::lemma_small_mod((o + 1) as nat, n as nat); } }
//@end
//@extract src/utils/mod.rs :: impl ClusterNodes :: get_previous_idx
//@ret r
//@spec
    requires self.wf(),
    ensures r == (if self.n() == 1 { None } else { Some(if self.own() == 0 { (self.n() - 1) as usize } else { (self.own() - 1) as usize }) }),
//@top
    proof { self.facts(); let (n, o) = (self.n(), self.own()); if o == 0 { vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(-1, n, -1, n - 1); } else { vstd::arithmetic::div_mod::lemma_small_mod((o - 1) as nat, n as nat); } }
//@end
//@extract src/utils/mod.rs :: impl ClusterNodes :: get_as
//@ret r
//@spec
    ensures r is Some <==> self.nodes@.contains_key(*key), r is Some ==> r->0.node == self.nodes@[*key].node && r->0.id@ == remote_actor_id@,
//@end
//@extract src/utils/mod.rs :: impl ClusterNodes :: get_next_as
//@ret r
//@spec
    requires self.wf(),
    ensures self.n() == 1 ==> r is None, self.n() > 1 ==> r is Some && r->0.id@ == remote_actor_id@ && r->0.node == self.nodes@[if self.own() + 1 == self.n() { 0 } else { (self.own() + 1) as usize }].node,
//@top
    proof { self.facts(); }
//@end
//@extract src/utils/mod.rs :: impl ClusterNodes :: get_prev_as
//@ret r
//@spec
    requires self.wf(),
    ensures self.n() == 1 ==> r is None, self.n() > 1 ==> r is Some && r->0.id@ == remote_actor_id@ && r->0.node == self.nodes@[if self.own() == 0 { (self.n() - 1) as usize } else { (self.own() - 1) as usize }].node,
//@top
    proof { self.facts(); }
//@end
//@extract src/utils/mod.rs :: impl ClusterNodes :: iter
//@ret r
//@spec
    requires self.wf(),
    ensures r.pos() == 0, r.all().len() == self.n() - 1, forall|i: int| 0 <= i < r.all().len() ==> *(#[trigger] r.all()[i]).0 < self.n() && *r.all()[i].0 != self.own() && *r.all()[i].1 == self.nodes@[*r.all()[i].0], forall|i: int, j: int| 0 <= i < j < r.all().len() ==> *(#[trigger] r.all()[i]).0 != *(#[trigger] r.all()[j]).0,
//@subst Iter<'_, usize, RemoteAddr> ==> It<(&usize, &RemoteAddr)>
//@top
    proof { self.facts(); assert(forall|k: usize| k.k() == k); }
//@end
//@extract src/utils/mod.rs :: impl ClusterNodes :: all_connected
//@ret r
//@spec
    requires self.wf(),
    ensures r == (self.n() == parameters.n_cluster_nodes),
//@rename eq=veqq
//@end
//@extract src/utils/mod.rs :: impl ClusterNodes :: to_any
//@ret r
//@spec
    ensures r.nodes == *self, r.local_addr == addr, r.remote_actor_id is None,
//@subst to_any<T: Actor> ==> to_any
//@subst Addr<T> ==> Addr
//@subst AnyClusterNodes<T> ==> AnyClusterNodes
//@end
//@extract src/utils/mod.rs :: impl ClusterNodes :: to_any_as
//@ret r
//@spec
    ensures r.nodes == *self, r.local_addr == addr, r.remote_actor_id is Some, r.remote_actor_id->0@ == remote_actor_id@,
//@subst to_any_as<T: Actor> ==> to_any_as
//@subst Addr<T> ==> Addr
//@subst AnyClusterNodes<T> ==> AnyClusterNodes
//@end
//@extract src/utils/mod.rs :: impl ClusterNodes :: iter_any_as
//@ret r
//@spec
    ensures r.any_cluster_nodes.nodes == *self, r.any_cluster_nodes.local_addr == addr, r.any_cluster_nodes.remote_actor_id is Some, r.any_cluster_nodes.remote_actor_id->0@ == remote_actor_id@, r.position == 0,
//@subst iter_any_as<T: Actor> ==> iter_any_as
//@subst Addr<T> ==> Addr
//@subst AnyClusterNodesIterator<T> ==> AnyClusterNodesIterator
//@end
}
pub struct Parameters { pub n_cluster_nodes: usize }
#[verifier::external_body] pub struct Addr { x: usize }
impl Addr { #[verifier::external_body] pub fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
pub enum AnyAddr { Local(Addr), Remote(RemoteAddr) }
pub struct AnyClusterNodes { pub nodes: ClusterNodes, pub local_addr: Addr, pub remote_actor_id: Option<String> }
impl AnyClusterNodes {
//@extract src/utils/mod.rs :: impl AnyClusterNodes :: new
//@ret r
//@spec
    ensures r == (AnyClusterNodes { nodes, local_addr: addr, remote_actor_id }),
//@subst Addr<T> ==> Addr
//@end
//@extract src/utils/mod.rs :: impl AnyClusterNodes :: len
//@ret r
//@spec
    requires self.nodes.wf(),
    ensures r == self.nodes.n(),
//@top
    proof { self.nodes.facts(); }
//@end
//@extract src/utils/mod.rs :: impl IntoIterator for AnyClusterNodes :: into_iter
//@ret r
//@spec
    ensures r.any_cluster_nodes == self, r.position == 0,
//@subst Self::IntoIter ==> AnyClusterNodesIterator
//@end
}
// the address of node i as node `own` sees it
pub open spec fn addr_of(a: AnyClusterNodes, i: int) -> AnyAddr { AnyAddr::Local(a.local_addr) }
pub open spec fn leads_to(r: AnyAddr, a: AnyClusterNodes, i: int) -> bool {
    if i == a.nodes.own() { r == AnyAddr::Local(a.local_addr) }
    else { r is Remote && r->Remote_0.node == a.nodes.nodes@[i as usize].node && (match a.remote_actor_id { Some(s) => r->Remote_0.id@ == s@, None => r->Remote_0.id == a.nodes.nodes@[i as usize].id }) }
}
pub struct AnyClusterNodesIterator { pub any_cluster_nodes: AnyClusterNodes, pub position: usize }
impl AnyClusterNodesIterator {
//@extract src/utils/mod.rs :: impl From<AnyClusterNodes<T>> for AnyClusterNodesIterator :: from
//@ret r
//@spec
    ensures r.any_cluster_nodes == any_cluster_nodes, r.position == 0,
//@subst AnyClusterNodes<T> ==> AnyClusterNodes
//@end
//@extract src/utils/mod.rs :: impl AnyClusterNodesIterator :: last_position
//@ret r
//@spec
    requires old(self).any_cluster_nodes.nodes.wf(), old(self).position < usize::MAX,
    ensures r == (old(self).position + 1 >= old(self).any_cluster_nodes.nodes.n()), *final(self) == *old(self),
//@end
//@extract src/utils/mod.rs :: impl AnyClusterNodesIterator :: get_position
//@ret r
//@spec
    ensures r == old(self).position, *final(self) == *old(self),
//@end
//@extract src/utils/mod.rs :: impl Iterator for AnyClusterNodesIterator :: next
//@ret r
//@spec
    requires old(self).any_cluster_nodes.nodes.wf(),
    // node 0, 1, ..., n-1, the node itself at its own index
    ensures final(self).any_cluster_nodes == old(self).any_cluster_nodes,
        old(self).position >= old(self).any_cluster_nodes.nodes.n() ==> r is None && final(self).position == old(self).position,
        old(self).position < old(self).any_cluster_nodes.nodes.n() ==> r is Some && final(self).position == old(self).position + 1 && leads_to(r->0, old(self).any_cluster_nodes, old(self).position as int),
//@subst Option<Self::Item> ==> Option<AnyAddr>
//@subst change_id(id.clone()) ==> change_id(vclone_str(id))
//@top
    proof { self.any_cluster_nodes.nodes.facts(); }
//@end
}
} // verus!
fn main() {}
