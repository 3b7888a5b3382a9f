//! cluster members are told apart by their socket addresses (Node's Eq and Hash, actix-telepathy); HashSet iteration yields every member once.
//! a listener receives the members of one cluster run: the list the main node sends has no address twice (proved at the sender).
//@include base.rs
//@include coll.rs
verus! {
pub type SocketAddr = usize;
pub enum Ev { Sorted(usize, Seq<usize>), Start(Map<usize, usize>) }
#[derive(Clone, Copy)]
pub struct Node { pub socket_addr: usize }
pub struct RemoteAddr { pub node: Node }
pub struct Log { pub evs: Ghost<Seq<Ev>> }
impl VKey for Node { type K = usize; open spec fn k(&self) -> usize { self.socket_addr } }
impl Node { #[verifier::external_body] pub fn get_remote_addr(&self, id: ()) -> (r: RemoteAddr) ensures r.node == *self { unimplemented!() } }
impl RemoteAddr { #[verifier::external_body] pub fn vsend(self, log: &mut Log, m: SortedMembersMessage) ensures final(log).evs@ == old(log).evs@.push(Ev::Sorted(self.node.socket_addr, m.0@)) { unimplemented!() } }
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
pub struct HashSet<K> { k: core::marker::PhantomData<K> }
pub open spec fn lists(s: Seq<&Node>, m: Set<usize>) -> bool { s.len() == m.len() && (forall|i: int| 0 <= i < s.len() ==> m.contains((#[trigger] s[i]).socket_addr)) && (forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).socket_addr != (#[trigger] s[j]).socket_addr) && (forall|a: usize| #[trigger] m.contains(a) ==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).socket_addr == a) }
impl HashSet<Node> {
    pub uninterp spec fn view(&self) -> Set<usize>;
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r@ == Set::<usize>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn clone(&self) -> (r: Self) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, k: Node) -> (r: bool) ensures r == !old(self)@.contains(k.k()), final(self)@ == old(self)@.insert(k.k()) { unimplemented!() }
    #[verifier::external_body] pub fn remove(&mut self, k: &Node) -> (r: bool) ensures r == old(self)@.contains(k.k()), final(self)@ == old(self)@.remove(k.k()) { unimplemented!() }
    #[verifier::external_body] pub fn iter(&self) -> (r: It<&Node>) ensures r.pos() == 0, lists(r.all(), self@) { unimplemented!() }
}
impl<T> It<T> {
    // the first hit, or nothing if there is none
    #[verifier::external_body]
    pub fn find_map<U, Fn1: Fn(T) -> Option<U>>(self, f: Fn1) -> (r: Option<U>)
        requires self.pos() == 0, forall|i: int| 0 <= i < self.all().len() ==> call_requires(f, (#[trigger] self.all()[i],)),
        ensures r is Some ==> exists|i: int| 0 <= i < self.all().len() && call_ensures(f, (#[trigger] self.all()[i],), r),
            r is None ==> forall|i: int| 0 <= i < self.all().len() ==> call_ensures(f, (#[trigger] self.all()[i],), r),
    { unimplemented!() }
}
impl<V> HashMap<usize, V> {
    #[verifier::external_body] pub fn vclone(&self) -> (r: Self) ensures r@ == self@ { unimplemented!() }
}
pub open spec fn addrs(m: Map<usize, Node>) -> Map<usize, usize> { Map::new(m.dom(), |k: usize| m[k].socket_addr) }
// what the table of a node that is `own` of n holds: every other index
pub open spec fn others<V>(m: Map<usize, V>, n: int, own: int) -> bool { 0 <= own < n && m.dom().len() == n - 1 && forall|k: usize| #[trigger] m.contains_key(k) <==> k < n && k != own }
// the numbering of a list as a node sees it that is connected to `conn`
pub open spec fn numbered(l: Seq<usize>, conn: Set<usize>) -> Map<usize, usize> { Map::new(vstd::set_lib::set_int_range(0, l.len() as int).filter(|i: int| conn.contains(l[i])).map(|i: int| i as usize), |k: usize| l[k as int]) }
pub proof fn numbered_facts(l: Seq<usize>, conn: Set<usize>) requires l.len() <= usize::MAX ensures forall|k: usize| #[trigger] numbered(l, conn).contains_key(k) <==> k < l.len() && conn.contains(l[k as int]), forall|k: usize| #[trigger] numbered(l, conn).contains_key(k) ==> numbered(l, conn)[k] == l[k as int] {
    let s = vstd::set_lib::set_int_range(0, l.len() as int).filter(|i: int| conn.contains(l[i]));
    assert forall|k: usize| #[trigger] numbered(l, conn).contains_key(k) <==> k < l.len() && conn.contains(l[k as int]) by { if k < l.len() && conn.contains(l[k as int]) { assert(s.contains(k as int)); } }
}
// the members, this node first of all, each once
pub open spec fn roll(l: Seq<usize>, own: usize, conn: Set<usize>) -> bool { l.len() == conn.len() + 1 && l.no_duplicates() && l[0] == own && forall|a: usize| #[trigger] l.contains(a) <==> a == own || conn.contains(a) }
pub open spec fn told(evs: Seq<Ev>, l: Seq<usize>, conn: Set<usize>) -> bool { (forall|i: int| 0 <= i < evs.len() ==> (#[trigger] evs[i]) is Sorted && evs[i]->Sorted_1 == l && conn.contains(evs[i]->Sorted_0)) && evs.len() == conn.len() && forall|a: usize| #[trigger] conn.contains(a) ==> exists|i: int| 0 <= i < evs.len() && (#[trigger] evs[i])->Sorted_0 == a }
// PROPERTY: whoever numbers the members by the main node's list numbers them alike; the main node is 0, and each node's own index is the one missing in its table
pub proof fn agreement(l: Seq<usize>, main: usize, conn: Set<usize>, a: usize, i: int)
    requires roll(l, main, conn), 0 <= i < l.len() <= usize::MAX, l[i] == a, !conn.contains(main)
    ensures others(numbered(l, conn.insert(main).remove(a)), l.len() as int, i), forall|k: usize| k < l.len() && k != i ==> numbered(l, conn.insert(main).remove(a))[k] == #[trigger] l[k as int], i == 0 <==> a == main {
    let c = conn.insert(main).remove(a); numbered_facts(l, c); let m = numbered(l, c);
    assert forall|k: usize| #[trigger] m.contains_key(k) <==> k < l.len() && k != i by { if k < l.len() { assert(l.contains(l[k as int])); } }
    assert(m.dom() =~= vstd::set_lib::set_int_range(0, l.len() as int).remove(i).map(|j: int| j as usize)) by { assert forall|k: usize| m.dom().contains(k) implies vstd::set_lib::set_int_range(0, l.len() as int).remove(i).map(|j: int| j as usize).contains(k) by { assert(vstd::set_lib::set_int_range(0, l.len() as int).remove(i).contains(k as int)); } }
    vstd::set_lib::lemma_int_range(0, l.len() as int);
    vstd::set_lib::lemma_map_size(vstd::set_lib::set_int_range(0, l.len() as int).remove(i), m.dom(), |j: int| j as usize);
}
pub struct ClusterNodes { pub nodes: HashMap<usize, RemoteAddr> }
impl ClusterNodes {
    pub open spec fn table(self) -> Map<usize, usize> { Map::new(self.nodes@.dom(), |k: usize| self.nodes@[k].node.socket_addr) }
    #[verifier::external_body] pub fn vlen(&self) -> usize { unimplemented!() }
//@extract src/utils/mod.rs :: impl From<HashMap<usize, Node>> for ClusterNodes :: from
//@ret r
//@spec
    ensures r.table() =~= addrs(nodes@),
//@subst .collect() ==> .vcollect_map()
//@subst "".to_string() ==> ()
//@subst nodes .into_iter() ==> nodes.vinto_iter()
//@subst .map( ==> .vmap(
//@closure 0
    |p: (usize, Node)| -> (q: (usize, RemoteAddr)) ensures q.0 == p.0, q.1.node == p.1
//@subst (key, node.get_remote_addr(())) ==> { let (key, node) = p; (key, node.get_remote_addr(())) }
//@end
}
impl HashMap<usize, Node> {
    #[verifier::external_body] pub fn vinto_iter(self) -> (r: It<(usize, Node)>) ensures r.pos() == 0, r.all().len() == self@.dom().len(), forall|i: int| 0 <= i < r.all().len() ==> self@.contains_key((#[trigger] r.all()[i]).0) && self@[r.all()[i].0] == r.all()[i].1, forall|k: usize| #[trigger] self@.contains_key(k) ==> exists|i: int| 0 <= i < r.all().len() && (#[trigger] r.all()[i]).0 == k { unimplemented!() }
}
impl It<(usize, Node)> {
    #[verifier::external_body] pub fn vmap<U, Fn1: Fn((usize, Node)) -> U>(self, f: Fn1) -> (r: It<U>) requires self.pos() == 0, forall|i: int| 0 <= i < self.all().len() ==> call_requires(f, (#[trigger] self.all()[i],)) ensures r.pos() == 0, r.all().len() == self.all().len(), forall|i: int| #![trigger r.all()[i]] #![trigger self.all()[i]] 0 <= i < self.all().len() ==> call_ensures(f, (self.all()[i],), r.all()[i]) { unimplemented!() }
}
impl It<(usize, RemoteAddr)> {
    #[verifier::external_body] pub fn vcollect_map(self) -> (r: HashMap<usize, RemoteAddr>) requires self.pos() == 0 ensures forall|i: int| 0 <= i < self.all().len() ==> r@.contains_key((#[trigger] self.all()[i]).0), forall|k: usize| #[trigger] r@.contains_key(k) ==> exists|i: int| 0 <= i < self.all().len() && #[trigger] self.all()[i] == (k, r@[k]) { unimplemented!() }
}
pub struct StartTrainingMessage { pub nodes: ClusterNodes, pub source: Option<()>, pub data: Option<()> }
pub struct SortedMembersMessage(pub Vec<SocketAddr>);
pub struct Training { }
impl Training { #[verifier::external_body] pub fn vsend(&self, log: &mut Log, m: StartTrainingMessage) ensures final(log).evs@ == old(log).evs@.push(Ev::Start(m.nodes.table())) { unimplemented!() } }
pub enum Role { Main { data_path: Option<String> }, Sub { mainhost: SocketAddr } }
pub struct Parameters { pub role: Role, pub local_host: SocketAddr, pub n_cluster_nodes: usize }
impl Parameters {
//@extract src/parameters.rs :: impl Parameters :: is_main_addr
//@ret r
//@spec
    ensures r == (addr == (match self.role { Role::Main { .. } => self.local_host, Role::Sub { mainhost } => mainhost })),
//@rename eq=veqq
//@end
}
pub enum ClusterLog { NewMember(Node), MemberLeft(SocketAddr) }
pub struct Context { }
impl Context { #[verifier::external_body] pub fn stop(&mut self) { unimplemented!() } }
pub struct ClusterMemberListener { pub parameters: Parameters, pub connected_nodes: HashSet<Node>, pub main_node: Option<Node>, pub training: Training, pub sorted_nodes: HashMap<usize, Node>, pub sorted_addr_buffer: Vec<SocketAddr>, pub log: Log }
pub open spec fn grown(a: Map<usize, Node>, b: Map<usize, Node>, l: Seq<usize>, conn: Set<usize>, upto: int) -> bool { forall|k: usize| (#[trigger] b.contains_key(k) <==> (k < upto && conn.contains(l[k as int])) || a.contains_key(k)) && (k < upto && conn.contains(l[k as int]) ==> b[k].socket_addr == l[k as int]) && (!(k < upto && conn.contains(l[k as int])) && a.contains_key(k) ==> b[k] == a[k]) }
impl ClusterMemberListener {
    pub open spec fn wf(self) -> bool { 1 <= self.parameters.n_cluster_nodes && self.sorted_addr_buffer@.no_duplicates() }
    pub open spec fn is_main(self) -> bool { self.parameters.role is Main }
//@extract src/cluster_listener.rs :: impl ClusterMemberListener :: sort_members
//@spec
    requires sorted_socket_addrs@.no_duplicates(),
    ensures grown(old(self).sorted_nodes@, final(self).sorted_nodes@, sorted_socket_addrs@, old(self).connected_nodes@, sorted_socket_addrs@.len() as int),
        final(self).parameters == old(self).parameters, final(self).connected_nodes == old(self).connected_nodes, final(self).main_node == old(self).main_node, final(self).training == old(self).training, final(self).sorted_addr_buffer == old(self).sorted_addr_buffer, final(self).log == old(self).log,
//@rename eq=veqq
//@rename into_iter=vinto_iter
//@closure 0
    |x: &Node| -> (q: Option<Node>) ensures q is Some <==> x.socket_addr == socket_addr, q is Some ==> q->0 == *x
//@top
    let ghost l = sorted_socket_addrs@; let ghost conn = self.connected_nodes@;
//@loop 0
    invariant l == sorted_socket_addrs@, l.no_duplicates(), vit_0.all().len() == l.len(), l.len() <= usize::MAX, 0 <= vit_0.pos() <= l.len(), forall|i: int| 0 <= i < l.len() ==> #[trigger] vit_0.all()[i] == (i as usize, l[i]),
        forall|a: usize| #[trigger] connected_nodes@.contains(a) <==> conn.contains(a) && !l.take(vit_0.pos()).contains(a),
        grown(old(self).sorted_nodes@, self.sorted_nodes@, l, conn, vit_0.pos()),
        self.parameters == old(self).parameters, self.connected_nodes == old(self).connected_nodes, conn == self.connected_nodes@, self.main_node == old(self).main_node, self.training == old(self).training, self.sorted_addr_buffer == old(self).sorted_addr_buffer, self.log == old(self).log,
    ensures vit_0.pos() == vit_0.all().len(),
    decreases vit_0.all().len() - vit_0.pos(),
//@loop 0 top
    proof { let p = vit_0.pos() - 1; assert(connected_nodes@.contains(l[p]) <==> conn.contains(l[p])) by { assert(!l.take(p).contains(l[p])); } assert(l.take(p + 1) =~= l.take(p).push(l[p])); assert(!l.take(p).contains(l[p])); assert forall|a: usize| l.take(p + 1).contains(a) <==> l.take(p).contains(a) || a == l[p] by { if l.take(p).contains(a) { let j = choose|j: int| 0 <= j < p && l.take(p)[j] == a; assert(l.take(p + 1)[j] == a); } assert(l.take(p + 1)[p] == l[p]); } }
//@end
//@extract src/cluster_listener.rs :: impl ClusterMemberListener :: start_training
//@spec
    ensures *final(self) == (ClusterMemberListener { log: Log { evs: Ghost(old(self).log.evs@.push(Ev::Start(addrs(old(self).sorted_nodes@)))) }, ..*old(self) }),
//@subst do_send( ==> vsend(&mut self.log,
//@subst self.sorted_nodes.clone() ==> self.sorted_nodes.vclone()
//@end
//@extract src/cluster_listener.rs :: impl Handler<SortedMembersMessage> for ClusterMemberListener :: handle
//@subst fn handle( ==> fn handle_sorted(
//@spec
    requires old(self).wf(), msg.0@.no_duplicates(), old(self).sorted_nodes@ == Map::<usize, Node>::empty(), msg.0@.len() <= usize::MAX,
    ensures final(self).connected_nodes == old(self).connected_nodes, final(self).parameters == old(self).parameters,
        // everybody is connected: the numbering is the list's
        old(self).connected_nodes@.len() == old(self).parameters.n_cluster_nodes - 1 ==> final(self).log.evs@ == old(self).log.evs@.push(Ev::Start(numbered(msg.0@, old(self).connected_nodes@))),
        // otherwise the list is kept
        old(self).connected_nodes@.len() != old(self).parameters.n_cluster_nodes - 1 ==> final(self).log == old(self).log && final(self).sorted_addr_buffer@ == msg.0@ && final(self).sorted_nodes == old(self).sorted_nodes,
//@top
    let ghost l = msg.0@; let ghost conn = self.connected_nodes@;
    proof { numbered_facts(l, conn); assert forall|m: Map<usize, Node>| #[trigger] grown(Map::empty(), m, l, conn, l.len() as int) implies addrs(m) == numbered(l, conn) by { assert(addrs(m) =~= numbered(l, conn)); } }
//@subst Self::Result ==> ()
//@subst &mut Self::Context ==> &mut Context
//@end
//@extract src/cluster_listener.rs :: impl Handler<ClusterLog> for ClusterMemberListener :: handle
//@spec
    requires old(self).wf(), old(self).sorted_nodes@ == Map::<usize, Node>::empty(), old(self).sorted_addr_buffer@.len() <= usize::MAX,
        msg is NewMember ==> !old(self).connected_nodes@.insert(msg->NewMember_0.socket_addr).contains(old(self).parameters.local_host),
    ensures final(self).parameters == old(self).parameters, final(self).sorted_addr_buffer == old(self).sorted_addr_buffer,
        msg is MemberLeft ==> *final(self) == *old(self),
        msg is NewMember ==> ({
            let conn = old(self).connected_nodes@.insert(msg->NewMember_0.socket_addr); let full = conn.len() == old(self).parameters.n_cluster_nodes - 1; let e0 = old(self).log.evs@; let e1 = final(self).log.evs@;
            &&& final(self).connected_nodes@ == conn
            // the main node numbers the members, tells everyone the same list and starts with it itself
            &&& full && old(self).is_main() ==> exists|l: Seq<usize>, s: Seq<Ev>| roll(l, old(self).parameters.local_host, conn) && told(s, l, conn) && e1 == #[trigger] (e0 + s).push(Ev::Start(numbered(l, conn)))
            // the others start with the list they have, if they have one
            &&& full && !old(self).is_main() && old(self).sorted_addr_buffer@.len() > 0 ==> e1 == e0.push(Ev::Start(numbered(old(self).sorted_addr_buffer@, conn)))
            &&& full && !old(self).is_main() && old(self).sorted_addr_buffer@.len() == 0 ==> e1 == e0
            &&& !full ==> e1 == e0
        }),
//@top
    proof {
        let c1 = self.connected_nodes@.insert(msg->NewMember_0.socket_addr); let b = self.sorted_addr_buffer@;
        assert forall|l: Seq<usize>, m: Map<usize, Node>| l.len() <= usize::MAX && #[trigger] grown(Map::empty(), m, l, c1, l.len() as int) implies addrs(m) == numbered(l, c1) by { numbered_facts(l, c1); assert(addrs(m) =~= numbered(l, c1)); }
    }
//@rename append=vappend
//@rename clone=vclone
//@rename is_empty=vis_empty
//@subst node.vclone() ==> node.clone()
//@subst Self::Result ==> ()
//@subst &mut Self::Context ==> &mut Context
//@subst Self::ACTOR_ID.to_string() ==> ()
//@subst do_send( ==> vsend(&mut self.log,
//@closure 0
    |x: &Node| -> (q: usize) ensures q == x.socket_addr
//@loop 0 init
    let ghost l = sorted_members@; let ghost conn = self.connected_nodes@; let ghost own = self.parameters.local_host;
    proof {
        assert(conn == old(self).connected_nodes@.insert(msg->NewMember_0.socket_addr));
        let t = l.skip(1); assert(t.no_duplicates()); t.unique_seq_to_set(); assert(t.to_set().subset_of(conn)); vstd::set_lib::lemma_subset_equality(t.to_set(), conn);
        assert(l.no_duplicates()); assert forall|a: usize| #[trigger] l.contains(a) <==> a == own || conn.contains(a) by {
            if l.contains(a) { let i = choose|i: int| 0 <= i < l.len() && l[i] == a; if i > 0 { assert(t[i - 1] == a); } }
            if conn.contains(a) { assert(t.contains(a)); let i = choose|i: int| 0 <= i < t.len() && t[i] == a; assert(l[i + 1] == a); }
            assert(l[0] == own);
        }
        assert(roll(l, own, conn));
    }
//@loop 0
    invariant 0 <= vit_0.pos() <= vit_0.all().len(), lists(vit_0.all(), conn), l == sorted_members@, self.log.evs@.len() == old(self).log.evs@.len() + vit_0.pos(),
        forall|i: int| 0 <= i < old(self).log.evs@.len() ==> #[trigger] self.log.evs@[i] == old(self).log.evs@[i],
        forall|i: int| old(self).log.evs@.len() <= i < self.log.evs@.len() ==> #[trigger] self.log.evs@[i] == Ev::Sorted(vit_0.all()[i - old(self).log.evs@.len()].socket_addr, l),
        self.parameters == old(self).parameters, self.connected_nodes@ == conn, self.sorted_nodes == old(self).sorted_nodes, self.sorted_addr_buffer == old(self).sorted_addr_buffer,
    ensures vit_0.pos() == vit_0.all().len(),
    decreases vit_0.all().len() - vit_0.pos(),
//@loop 0 after
    proof {
        let n0 = old(self).log.evs@.len() as int; let t = self.log.evs@.skip(n0); assert(self.log.evs@ =~= old(self).log.evs@ + t);
        assert(told(t, l, conn)) by {
            assert forall|i: int| 0 <= i < t.len() implies (#[trigger] t[i]) == Ev::Sorted(vit_0.all()[i].socket_addr, l) by { assert(t[i] == self.log.evs@[n0 + i]); }
            assert forall|a: usize| #[trigger] conn.contains(a) implies exists|i: int| 0 <= i < t.len() && (#[trigger] t[i])->Sorted_0 == a by { let i = choose|i: int| 0 <= i < vit_0.all().len() && (#[trigger] vit_0.all()[i]).socket_addr == a; assert(t[i]->Sorted_0 == a); }
        }
    }
//@end
}
} // verus!
fn main() {}
