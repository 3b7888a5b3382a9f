//! the questions themselves are C19 (NodeQuestions), the data store C20 (lookups by point and by segment, in order of insertion), the protocol counters C11, the ring C12; clustering itself (MultiKDE) answers with one label per row.
//! wait_send delivers the message like do_send; counts stay below 2^30 messages.
//@include base.rs
//@include coll.rs
//@include float.rs
//@include nd.rs
//@include points.rs
//@include nodes.rs
verus! {
pub enum Ev { Ask { to: Option<usize>, m: AskForForeignNodes }, Answer { to: Option<usize>, m: ForeignNodesAnswer }, Done, Cluster { m: MultiKDEMessage }, Response { m: ClusteringResponse }, Centers { m: ClusterCenterMessage } }
} // verus!
//@include net.rs
//@include proto.rs
//@include proto_direct.rs
verus! {
//@struct src/data_store/node_questions/node_in_question.rs :: NodeInQuestion
impl NodeInQuestion {
    // C19
    #[verifier::external_body] pub fn get_prev_id(&self) -> (r: usize) ensures r == self.prev_point_id { unimplemented!() }
    #[verifier::external_body] pub fn get_prev_segment(&self) -> (r: usize) ensures r == self.prev_point_segment_id { unimplemented!() }
    #[verifier::external_body] pub fn get_point_id(&self) -> (r: usize) ensures r == self.point_id { unimplemented!() }
    #[verifier::external_body] pub fn get_segment(&self) -> (r: usize) ensures r == self.segment_id { unimplemented!() }
}
pub type Qs = HashMap<usize, Vec<NodeInQuestion>>;
pub struct NodeQuestions { pub node_questions: HashMap<usize, Qs> }
impl NodeQuestions {
    // C19
    #[verifier::external_body] pub fn remove(&mut self, k: &usize) -> (r: Option<Qs>) ensures final(self).node_questions@ == old(self).node_questions@.remove(*k), r == (if old(self).node_questions@.contains_key(*k) { Some(old(self).node_questions@[*k]) } else { None }) { unimplemented!() }
    #[verifier::external_body] pub fn from_hashmap_with_value(k: usize, v: Qs) -> (r: Self) ensures r.node_questions@ == Map::<usize, Qs>::empty().insert(k, v) { unimplemented!() }
    #[verifier::external_body] pub fn default() -> (r: Self) ensures r.node_questions@ == Map::<usize, Qs>::empty() { unimplemented!() }
}
pub type Ans = (usize, usize, usize, IndependentNode);
pub struct AskForForeignNodes { pub asked_nodes: NodeQuestions }
pub struct ForeignNodesAnswer { pub answers: HashMap<usize, Vec<Ans>> }
pub struct NodeEstimationDone;
pub struct MultiKDEMessage { pub data: A2 }
pub struct ClusteringResponse { pub cluster_centers: A2, pub labels: Vec<usize> }
pub struct ClusterCenterMessage { pub cluster_centers: A2, pub nodes: Vec<NodeRef>, pub label_counts: Vec<usize> }
impl VMsg for AskForForeignNodes { open spec fn ev(self, to: Option<usize>) -> Ev { Ev::Ask { to, m: self } } }
impl VMsg for ForeignNodesAnswer { open spec fn ev(self, to: Option<usize>) -> Ev { Ev::Answer { to, m: self } } }
impl VMsg for NodeEstimationDone { open spec fn ev(self, to: Option<usize>) -> Ev { Ev::Done } }
impl VMsg for MultiKDEMessage { open spec fn ev(self, to: Option<usize>) -> Ev { Ev::Cluster { m: self } } }
impl VMsg for ClusteringResponse { open spec fn ev(self, to: Option<usize>) -> Ev { Ev::Response { m: self } } }
impl VMsg for ClusterCenterMessage { open spec fn ev(self, to: Option<usize>) -> Ev { Ev::Centers { m: self } } }
impl Addr { #[verifier::external_body] pub fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } #[verifier::external_body] pub fn recipient(self) -> (r: Self) { unimplemented!() } }
pub enum AnyAddr { Local(Addr), Remote(RemoteAddr) }
pub open spec fn whom(c: ClusterNodes, i: int) -> Option<usize> { if i == c.own { None } else { Some(i as usize) } }
pub open spec fn goes_to(a: AnyAddr, to: Option<usize>) -> bool { match a { AnyAddr::Local(_) => to is None, AnyAddr::Remote(r) => to == Some(r.idx) } }
impl AnyAddr { #[verifier::external_body] pub fn vsend<M: VMsg>(self, log: &mut Log, m: M) ensures forall|to: Option<usize>| #[trigger] goes_to(self, to) ==> final(log).evs@ == old(log).evs@.push(m.ev(to)) { unimplemented!() } }
// C12: every node once, in order, this one by its local address
impl ClusterNodes { #[verifier::external_body] pub fn iter_any_as(&self, a: Addr, s: ()) -> (r: It<AnyAddr>) requires self.wf() ensures r.pos() == 0, r.all().len() == self.n, forall|i: int| 0 <= i < self.n ==> goes_to(#[trigger] r.all()[i], whom(*self, i)) { unimplemented!() } }
pub enum Clustering { MultiKDE }
pub struct MultiKDEActor { }
impl MultiKDEActor { #[verifier::external_body] pub fn new(r: Addr, n: usize) -> Self { unimplemented!() } #[verifier::external_body] pub fn start(self) -> Addr { unimplemented!() } }
pub struct Parameters { pub rate: usize, pub n_threads: usize, pub clustering: Clustering, pub explainability: bool }
#[verifier::external_body] pub struct IntersectionRef { p: usize }
impl IntersectionRef {
    pub uninterp spec fn seg(&self) -> usize; pub uninterp spec fn from(&self) -> usize; pub uninterp spec fn at(&self) -> Seq<F>;
    #[verifier::external_body] pub fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
    #[verifier::external_body] pub fn get_segment_id(&self) -> (r: usize) ensures r == self.seg() { unimplemented!() }
    #[verifier::external_body] pub fn get_from_id(&self) -> (r: usize) ensures r == self.from() { unimplemented!() }
    #[verifier::external_body] pub fn get_coordinates(&self) -> (r: A1) ensures r@ == self.at() { unimplemented!() }
}
//@struct src/data_store/node/mod.rs :: Node
impl Node {
//@extract src/data_store/node/mod.rs :: impl Node :: new
//@ret r
//@spec
    ensures r == (Node { intersection, cluster }),
//@end
//@extract src/data_store/node/mod.rs :: impl Node :: get_segment_id
//@ret r
//@spec
    ensures r == self.intersection.seg(),
//@end
//@extract src/data_store/node/mod.rs :: impl Node :: get_intersection
//@ret r
//@spec
    ensures r == self.intersection,
//@end
//@extract src/data_store/node/mod.rs :: impl Node :: get_cluster
//@ret r
//@spec
    ensures r == self.cluster,
//@end
//@extract src/data_store/node/mod.rs :: impl Node :: to_independent
//@ret r
//@spec
    ensures r == node_of(self.intersection, self.cluster),
//@end
}
pub open spec fn node_of(i: IntersectionRef, label: usize) -> IndependentNode { IndependentNode { segment: i.seg(), cluster: label, from_point_id: i.from() } }
// C20: nodes by the point they come from, in order of insertion; intersections by segment
pub struct DataStore { pub nodes: Ghost<Seq<NodeRef>>, pub inter: Ghost<Map<usize, Seq<IntersectionRef>>> }
pub open spec fn of_point(ns: Seq<NodeRef>, id: usize) -> Seq<NodeRef> decreases ns.len() { if ns.len() == 0 { seq![] } else { let r = of_point(ns.drop_last(), id); if ns.last().from_point_id == id { r.push(ns.last()) } else { r } } }
impl DataStore {
    #[verifier::external_body] pub fn get_nodes_by_point_id(&self, id: usize) -> (r: Option<&Vec<NodeRef>>) ensures r is None ==> of_point(self.nodes@, id).len() == 0, r is Some ==> r->0@ == of_point(self.nodes@, id) { unimplemented!() }
    #[verifier::external_body] pub fn get_intersections_from_segment(&self, s: usize) -> (r: Option<&Vec<IntersectionRef>>) ensures r is Some <==> self.inter@.contains_key(s), r is Some ==> r->0@ == self.inter@[s] && r->0@.len() > 0 { unimplemented!() }
    #[verifier::external_body] pub fn add_node_ref(&mut self, n: NodeRef) ensures final(self).nodes@ == old(self).nodes@.push(n), final(self).inter == old(self).inter { unimplemented!() }
}
pub struct Segmentation { pub node_questions: NodeQuestions }
pub struct NodeEstimation { pub next_foreign_node: HashMap<(usize, usize), (usize, IndependentNode)>, pub current_intersections: Vec<IntersectionRef>, pub current_segment_id: usize, pub source: Option<Addr>, pub asking_direct_protocol: DirectProtocol<AskForForeignNodes>, pub answering_direct_protocol: DirectProtocol<ForeignNodesAnswer>, pub answers: HashMap<usize, Vec<Ans>> }
pub struct Training { pub parameters: Parameters, pub cluster_nodes: ClusterNodes, pub data_store: DataStore, pub segmentation: Segmentation, pub node_estimation: NodeEstimation, pub own_addr: Option<Addr>, pub anomaly_contribution: Option<Addr>, pub log: Log, pub inbox_q: Inbox<AskForForeignNodes>, pub inbox_a: Inbox<ForeignNodesAnswer> }
pub open spec fn ok(t: Training) -> bool { let e = t.node_estimation; t.cluster_nodes.wf() && t.own_addr is Some && e.asking_direct_protocol.n_sent < 0x4000_0000 && e.answering_direct_protocol.n_sent < 0x4000_0000 }
pub open spec fn okr(t: Training) -> bool { let e = t.node_estimation; ok(t) && e.asking_direct_protocol.n_received < 0x4000_0000 && e.answering_direct_protocol.n_received < 0x4000_0000 }
pub open spec fn group<T>(m: Map<usize, Vec<T>>, k: usize) -> Seq<T> { if m.contains_key(k) { m[k]@ } else { Seq::empty() } }

// ---- questions and answers ----
// the questions for node k, alone
pub open spec fn only(m: Map<usize, Qs>, k: usize) -> Map<usize, Qs> { if m.contains_key(k) { Map::<usize, Qs>::empty().insert(k, m[k]) } else { Map::<usize, Qs>::empty() } }
pub open spec fn ask_to(e: Ev, to: Option<usize>, m: Map<usize, Qs>, k: usize) -> bool { e is Ask && e->Ask_to == to && e->Ask_m.asked_nodes.node_questions@ == only(m, k) }
// one message to every node, itself included, with the questions for that node
pub open spec fn asks_sent(old: Seq<Ev>, new: Seq<Ev>, c: ClusterNodes, m: Map<usize, Qs>, k: int) -> bool { new.len() == old.len() + k && new.take(old.len() as int) == old && forall|i: int| 0 <= i < k ==> ask_to(#[trigger] new[old.len() + i], whom(c, i), m, i as usize) }
pub open spec fn asking(t: Training, u: Training) -> bool {
    &&& u == (Training { log: u.log, segmentation: u.segmentation, node_estimation: NodeEstimation { asking_direct_protocol: DirectProtocol { n_sent: (t.node_estimation.asking_direct_protocol.n_sent + t.cluster_nodes.n) as usize, ..t.node_estimation.asking_direct_protocol }, ..t.node_estimation }, ..t })
    &&& asks_sent(t.log.evs@, u.log.evs@, t.cluster_nodes, t.segmentation.node_questions.node_questions@, t.cluster_nodes.n as int)
}
pub open spec fn only_a(m: Map<usize, Vec<Ans>>, k: usize) -> Map<usize, Vec<Ans>> { if m.contains_key(k) { Map::<usize, Vec<Ans>>::empty().insert(k, m[k]) } else { Map::<usize, Vec<Ans>>::empty() } }
pub open spec fn answer_to(e: Ev, to: Option<usize>, m: Map<usize, Vec<Ans>>, k: usize) -> bool { e is Answer && e->Answer_to == to && e->Answer_m.answers@ == only_a(m, k) }
pub open spec fn answers_sent(old: Seq<Ev>, new: Seq<Ev>, c: ClusterNodes, m: Map<usize, Vec<Ans>>, k: int) -> bool { new.len() == old.len() + k && new.take(old.len() as int) == old && forall|i: int| 0 <= i < k ==> answer_to(#[trigger] new[old.len() + i], whom(c, i), m, i as usize) }
pub open spec fn answering(t: Training, u: Training) -> bool {
    &&& u == (Training { log: u.log, node_estimation: NodeEstimation { answers: u.node_estimation.answers, answering_direct_protocol: DirectProtocol { n_sent: (t.node_estimation.answering_direct_protocol.n_sent + t.cluster_nodes.n) as usize, ..t.node_estimation.answering_direct_protocol }, ..t.node_estimation }, ..t })
    &&& answers_sent(t.log.evs@, u.log.evs@, t.cluster_nodes, t.node_estimation.answers@, t.cluster_nodes.n as int)
}
// the first node of that point in that segment
pub open spec fn has(ns: Seq<NodeRef>, q: NodeInQuestion) -> bool { exists|i: int| is_first(of_point(ns, q.point_id), q.segment_id, i) }
pub open spec fn is_first(s: Seq<NodeRef>, seg: usize, i: int) -> bool { 0 <= i < s.len() && s[i].segment == seg && forall|j: int| 0 <= j < i ==> (#[trigger] s[j]).segment != seg }
pub open spec fn answered(ns: Seq<NodeRef>, q: NodeInQuestion, a: Ans) -> bool { a.0 == q.prev_point_id && a.1 == q.prev_point_segment_id && a.2 == q.point_id && exists|i: int| is_first(of_point(ns, q.point_id), q.segment_id, i) && a.3 == #[trigger] of_point(ns, q.point_id)[i] }
// every question of the list is answered, in order, after what was there
pub open spec fn answered_all(ns: Seq<NodeRef>, qs: Seq<NodeInQuestion>, old: Seq<Ans>, new: Seq<Ans>) -> bool { new.len() == old.len() + qs.len() && new.take(old.len() as int) == old && forall|i: int| 0 <= i < qs.len() ==> answered(ns, #[trigger] qs[i], new[old.len() + i]) }
pub open spec fn searched(t: Training, u: Training, q: Map<usize, Vec<NodeInQuestion>>) -> bool {
    &&& u == (Training { node_estimation: NodeEstimation { answers: u.node_estimation.answers, ..t.node_estimation }, ..t })
    &&& forall|k: usize| k < t.cluster_nodes.n && k != t.cluster_nodes.own ==> answered_all(t.data_store.nodes@, group(q, k), group(t.node_estimation.answers@, k), #[trigger] group(u.node_estimation.answers@, k))
    &&& forall|k: usize| !(k < t.cluster_nodes.n && k != t.cluster_nodes.own) ==> group(t.node_estimation.answers@, k) == #[trigger] group(u.node_estimation.answers@, k)
}
pub open spec fn can_answer(t: Training, q: Map<usize, Vec<NodeInQuestion>>) -> bool { forall|k: usize, i: int| q.contains_key(k) && 0 <= i < q[k]@.len() ==> has(t.data_store.nodes@, #[trigger] q[k]@[i]) }
// the answer is found under the point and segment before
pub open spec fn taken(m: Map<(usize, usize), (usize, IndependentNode)>, a: Seq<Ans>) -> Map<(usize, usize), (usize, IndependentNode)> decreases a.len() { if a.len() == 0 { m } else { taken(m, a.drop_last()).insert((a.last().0, a.last().1), (a.last().2, a.last().3)) } }
impl<T> It<T> {
    #[verifier::external_body] pub fn find_map<U, Fn1: Fn(T) -> Option<U>>(self, f: Fn1) -> (r: Option<U>) requires self.pos() == 0, forall|i: int| 0 <= i < self.all().len() ==> call_requires(f, (#[trigger] self.all()[i],))
        ensures r is None ==> forall|i: int| 0 <= i < self.all().len() ==> call_ensures(f, (#[trigger] self.all()[i],), None::<U>), r is Some ==> exists|i: int| 0 <= i < self.all().len() && #[trigger] call_ensures(f, (self.all()[i],), r) && forall|j: int| 0 <= j < i ==> call_ensures(f, (#[trigger] self.all()[j],), None::<U>) { unimplemented!() }
}
pub trait VThen: Sized { spec fn tv(self) -> bool; fn vthen<T, Fn1: FnOnce() -> T>(self, f: Fn1) -> (r: Option<T>) requires self.tv() ==> call_requires(f, ()) ensures !self.tv() ==> r is None, self.tv() ==> r is Some && call_ensures(f, (), r->0); }
impl VThen for bool { open spec fn tv(self) -> bool { self } #[verifier::external_body] fn vthen<T, Fn1: FnOnce() -> T>(self, f: Fn1) -> (r: Option<T>) { unimplemented!() } }
impl IndependentNode { pub fn deref(&self) -> (r: &Self) ensures r == self { self } }
#[verifier::external_body] pub fn vaddr(o: &Option<Addr>) -> (r: Addr) requires *o is Some ensures r == o->0 { unimplemented!() }

pub open spec fn now_asks(t: Training, m: Training) -> bool {
    m == (Training { inbox_q: m.inbox_q, node_estimation: NodeEstimation { asking_direct_protocol: DirectProtocol { n_total: t.cluster_nodes.n, buffer: m.node_estimation.asking_direct_protocol.buffer, ..t.node_estimation.asking_direct_protocol }, ..t.node_estimation }, ..t }) && m.inbox_q.got@ == t.inbox_q.got@ + t.node_estimation.asking_direct_protocol.buffer@ && m.node_estimation.asking_direct_protocol.buffer@.len() == 0
}
// alone: done; otherwise ask, and take up the questions that came early
pub open spec fn asks_all(t: Training, u: Training) -> bool { if t.cluster_nodes.n == 1 { finished(t, u) } else { exists|m: Training| #[trigger] now_asks(t, m) && asking(m, u) } }
pub open spec fn now_answers(t: Training, m: Training) -> bool {
    m == (Training { inbox_a: m.inbox_a, node_estimation: NodeEstimation { answering_direct_protocol: DirectProtocol { n_total: t.cluster_nodes.n, buffer: m.node_estimation.answering_direct_protocol.buffer, ..t.node_estimation.answering_direct_protocol }, ..t.node_estimation }, ..t }) && m.inbox_a.got@ == t.inbox_a.got@ + t.node_estimation.answering_direct_protocol.buffer@ && m.node_estimation.answering_direct_protocol.buffer@.len() == 0
}
pub open spec fn answers_now(t: Training, u: Training) -> bool { exists|m: Training| #[trigger] now_answers(t, m) && answering(m, u) }
pub open spec fn finished(t: Training, u: Training) -> bool { u == (Training { log: u.log, ..t }) && u.log.evs@ == t.log.evs@.push(Ev::Done) }
pub open spec fn count_q(t: Training) -> Training { Training { node_estimation: NodeEstimation { asking_direct_protocol: DirectProtocol { n_received: (t.node_estimation.asking_direct_protocol.n_received + 1) as usize, ..t.node_estimation.asking_direct_protocol }, ..t.node_estimation }, ..t } }
pub open spec fn count_a(t: Training) -> Training { Training { node_estimation: NodeEstimation { answering_direct_protocol: DirectProtocol { n_received: (t.node_estimation.answering_direct_protocol.n_received + 1) as usize, ..t.node_estimation.answering_direct_protocol }, ..t.node_estimation }, ..t } }
// ---- nodes of a segment ----
pub open spec fn rows_of(d: A2, s: Seq<IntersectionRef>) -> bool { d@.len() == s.len() && forall|i: int| 0 <= i < s.len() ==> #[trigger] d@[i] == s[i].at() }
// none: no labels; one: one cluster; more: all of them, in order, are clustered
pub open spec fn begun(t: Training, u: Training) -> bool {
    let k = t.node_estimation.current_segment_id; let h = t.data_store.inter@.contains_key(k);
    &&& u == (Training { log: u.log, node_estimation: NodeEstimation { current_intersections: u.node_estimation.current_intersections, ..t.node_estimation }, ..t })
    &&& u.log.evs@.len() == t.log.evs@.len() + 1 && u.log.evs@.drop_last() == t.log.evs@
    &&& !h ==> u.node_estimation.current_intersections == t.node_estimation.current_intersections && u.log.evs@.last() is Response && u.log.evs@.last()->Response_m.labels@.len() == 0
    &&& h ==> u.node_estimation.current_intersections@ == t.data_store.inter@[k]
    &&& h && t.data_store.inter@[k].len() == 1 ==> u.log.evs@.last() is Response && u.log.evs@.last()->Response_m.labels@ == seq![0usize] && rows_of(u.log.evs@.last()->Response_m.cluster_centers, t.data_store.inter@[k])
    &&& h && t.data_store.inter@[k].len() > 1 ==> u.log.evs@.last() is Cluster && rows_of(u.log.evs@.last()->Cluster_m.data, t.data_store.inter@[k])
}
pub open spec fn same_dims(t: Training) -> bool { forall|k: usize, i: int, j: int| #![trigger t.data_store.inter@[k][i], t.data_store.inter@[k][j]] t.data_store.inter@.contains_key(k) && 0 <= i < t.data_store.inter@[k].len() && 0 <= j < t.data_store.inter@[k].len() ==> t.data_store.inter@[k][i].at().len() == t.data_store.inter@[k][j].at().len() }
#[verifier::external_body] pub fn stack(a: Axis, v: &[A1]) -> (r: Option<A2>) requires a.0 == 0, v@.len() > 0, forall|i: int| 0 <= i < v@.len() ==> (#[trigger] v@[i])@.len() == v@[0]@.len() ensures r is Some, r->0@.len() == v@.len(), forall|i: int| 0 <= i < v@.len() ==> #[trigger] r->0@[i] == v@[i]@ { unimplemented!() }
impl A2 { #[verifier::external_body] pub fn nrows(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() } #[verifier::external_body] pub fn default() -> A2 { unimplemented!() } }
#[verifier::external_body] pub fn vcmp(a: usize, b: usize) -> (r: Ordering) ensures r == (if a < b { Ordering::Less } else if a == b { Ordering::Equal } else { Ordering::Greater }) { unimplemented!() }
pub enum Ordering { Less, Equal, Greater }
#[verifier::external_body] pub fn vlist(x: &Vec<IntersectionRef>) -> (r: Vec<IntersectionRef>) ensures r@ == x@ { unimplemented!() }
#[verifier::external_body] pub fn vnodes(x: &Vec<NodeRef>) -> (r: Vec<NodeRef>) ensures r@ == x@ { unimplemented!() }
pub open spec fn nodes_of(s: Seq<IntersectionRef>, l: Seq<usize>) -> Seq<NodeRef> { Seq::new(if s.len() <= l.len() { s.len() } else { l.len() }, |i: int| node_of(s[i], l[i])) }
#[verifier::opaque] pub open spec fn times(l: Seq<usize>, k: usize) -> int decreases l.len() { if l.len() == 0 { 0 } else { times(l.drop_last(), k) + (if l.last() == k { 1int } else { 0int }) } }
pub proof fn times_step(l: Seq<usize>, n: int) requires 0 <= n < l.len() ensures forall|k: usize| #[trigger] times(l.take(n + 1), k) == times(l.take(n), k) + (if l[n] == k { 1int } else { 0int }) { reveal(times); assert(l.take(n + 1).drop_last() =~= l.take(n)); }
pub proof fn times_bounded(l: Seq<usize>) ensures forall|k: usize| 0 <= #[trigger] times(l, k) <= l.len() decreases l.len() { reveal(times); if l.len() > 0 { times_bounded(l.drop_last()); assert forall|k: usize| 0 <= #[trigger] times(l, k) <= l.len() by { assert(0 <= times(l.drop_last(), k)); } } }
pub open spec fn is_max(l: Seq<usize>, m: usize) -> bool { l.contains(m) && forall|i: int| 0 <= i < l.len() ==> l[i] <= m }
pub open spec fn counts(l: Seq<usize>, c: Seq<usize>) -> bool { (forall|i: int| 0 <= i < l.len() ==> #[trigger] l[i] < c.len()) && (c.len() > 0 ==> l.contains((c.len() - 1) as usize)) && forall|k: int| 0 <= k < c.len() ==> #[trigger] c[k] == times(l, k as usize) }
// every intersection of the segment becomes one node, with its label, in order
pub open spec fn labelled(t: Training, m: ClusteringResponse, u: Training) -> bool {
    let e = t.node_estimation; let ns = nodes_of(e.current_intersections@, m.labels@); let x = u.log.evs@;
    if m.labels@.len() == 0 { u == (Training { node_estimation: NodeEstimation { current_segment_id: (e.current_segment_id + 1) as usize, ..e }, ..t }) } else {
        &&& u == (Training { log: u.log, data_store: u.data_store, node_estimation: NodeEstimation { current_segment_id: (e.current_segment_id + 1) as usize, current_intersections: u.node_estimation.current_intersections, ..e }, ..t })
        &&& u.node_estimation.current_intersections@.len() == 0
        &&& u.data_store.nodes@ == t.data_store.nodes@ + ns && u.data_store.inter == t.data_store.inter
        &&& !t.parameters.explainability ==> x == t.log.evs@
        &&& t.parameters.explainability ==> x.len() == t.log.evs@.len() + 1 && x.drop_last() == t.log.evs@ && x.last() is Centers && x.last()->Centers_m.cluster_centers == m.cluster_centers && x.last()->Centers_m.nodes@ == ns && counts(m.labels@, x.last()->Centers_m.label_counts@)
    }
}
impl<'a> It<&'a usize> { #[verifier::external_body] pub fn max(self) -> (r: Option<&'a usize>) requires self.pos() == 0 ensures r is Some <==> self.all().len() > 0, r is Some ==> (exists|i: int| 0 <= i < self.all().len() && #[trigger] self.all()[i] == r->0) && forall|i: int| 0 <= i < self.all().len() ==> *(#[trigger] self.all()[i]) <= *r->0 { unimplemented!() } }
#[verifier::external_body] pub fn vnull(n: usize) -> (r: Vec<usize>) ensures r@.len() == n, forall|i: int| 0 <= i < n ==> #[trigger] r@[i] == 0 { unimplemented!() }
#[verifier::external_body] pub fn vcount(v: &mut Vec<usize>, i: usize, d: usize) requires i < old(v)@.len(), old(v)@[i as int] + d < usize::MAX ensures final(v)@ == old(v)@.update(i as int, (old(v)@[i as int] + d) as usize) { unimplemented!() }
impl Training {
//@extract src/training/node_estimation/mod.rs :: impl NodeEstimator for Training :: estimate_nodes
//@spec
    requires same_dims(*old(self)),
    ensures begun(*old(self), *final(self)),
//@subst clustering_recipient: Recipient<ClusteringResponse<f32>> ==> clustering_recipient: Addr
//@subst intersections.to_vec() ==> vlist(intersections)
//@subst Vec<ArrayView1<f32>> ==> Vec<A1>
//@rename iter=viter
//@subst data.nrows().cmp(&1) ==> vcmp(data.nrows(), 1)
//@subst cluster_addr.do_send( ==> cluster_addr.vsend(&mut self.log,
//@subst clustering_recipient.do_send( ==> clustering_recipient.vsend(&mut self.log,
//@subst Default::default() ==> A2::default()
//@last
        proof { assert(self.log.evs@.drop_last() =~= old(self).log.evs@); if old(self).data_store.inter@.contains_key(old(self).node_estimation.current_segment_id) && self.log.evs@.last() is Response { assert(self.log.evs@.last()->Response_m.labels@ =~= seq![0usize]); } }
//@closure 0
|x: &IntersectionRef| -> (q: A1) ensures q@ == x.at()
//@end
//@extract src/training/node_estimation/mod.rs :: impl NodeEstimator for Training :: finalize_node_estimation
//@spec
    ensures finished(*old(self), *final(self)),
//@subst ctx: &mut Context<Training> ==> ctx: &mut Context
//@subst .do_send(NodeEstimationDone) ==> .vsend(&mut self.log, NodeEstimationDone)
//@end
//@extract src/training/node_estimation/mod.rs :: impl NodeEstimator for Training :: ask_next
//@spec
    requires ok(*old(self)),
    ensures asking(*old(self), *final(self)),
//@subst self.own_addr.as_ref().unwrap().clone() ==> vaddr(&self.own_addr)
//@subst "Training" ==> ()
//@subst node.do_send(msg) ==> node.vsend(&mut self.log, msg)
//@top
    let ghost t0 = *self; let ghost e0 = self.log.evs@; let ghost k0 = e0.len() as int; let ghost m0 = self.segmentation.node_questions.node_questions@; proof { assert(e0.take(k0) =~= e0); }
//@loop 0
            invariant ok(t0), t0 == *old(self), e0 == t0.log.evs@, k0 == e0.len(), m0 == t0.segmentation.node_questions.node_questions@, vit_0.all().len() == t0.cluster_nodes.n, 0 <= vit_0.pos() <= vit_0.all().len(),
                forall|i: int| 0 <= i < vit_0.all().len() ==> (#[trigger] vit_0.all()[i]).0 == i && goes_to(vit_0.all()[i].1, whom(t0.cluster_nodes, i)),
                *self == (Training { log: self.log, segmentation: self.segmentation, node_estimation: NodeEstimation { asking_direct_protocol: DirectProtocol { n_sent: (t0.node_estimation.asking_direct_protocol.n_sent + vit_0.pos()) as usize, ..t0.node_estimation.asking_direct_protocol }, ..t0.node_estimation }, ..t0 }),
                asks_sent(e0, self.log.evs@, t0.cluster_nodes, m0, vit_0.pos()),
                forall|k: usize| k >= vit_0.pos() ==> only(self.segmentation.node_questions.node_questions@, k) == #[trigger] only(m0, k),
            ensures vit_0.pos() == vit_0.all().len(),
            decreases vit_0.all().len() - vit_0.pos(),
//@loop 0 top
            let ghost l0 = self.log.evs@; let ghost q = vit_0.pos() - 1; let ghost mb = self.segmentation.node_questions.node_questions@; proof { assert(id == q); assert(only(mb, id) == only(m0, id)); assert(goes_to(node, whom(t0.cluster_nodes, q))); }
//@loop 0 end
            proof {
                assert(self.log.evs@.take(k0) =~= l0.take(k0));
                assert forall|i: int| 0 <= i < q + 1 implies ask_to(#[trigger] self.log.evs@[k0 + i], whom(t0.cluster_nodes, i), m0, i as usize) by { if i < q { assert(self.log.evs@[k0 + i] == l0[k0 + i]); assert(ask_to(l0[k0 + i], whom(t0.cluster_nodes, i), m0, i as usize)); } else { } }
                assert forall|k: usize| k >= q + 1 implies only(self.segmentation.node_questions.node_questions@, k) == #[trigger] only(m0, k) by { assert(only(mb, k) == only(m0, k)); let a = self.segmentation.node_questions.node_questions@; assert(a.contains_key(k) == mb.contains_key(k)); }
            }
//@end
//@extract src/training/node_estimation/mod.rs :: impl NodeEstimator for Training :: answer_next
//@spec
    requires ok(*old(self)),
    ensures answering(*old(self), *final(self)),
//@subst ctx: &mut Context<Training> ==> ctx: &mut Context
//@subst self.own_addr.as_ref().unwrap().clone() ==> vaddr(&self.own_addr)
//@subst "Training" ==> ()
//@subst addr.do_send(msg) ==> addr.clone().vsend(&mut self.log, msg)
//@subst addr.wait_send(msg).into_actor(self).map(|res, _, _| if res.is_ok() {}).wait(ctx) ==> addr.clone().vsend(&mut self.log, msg)
//@top
    let ghost t0 = *self; let ghost e0 = self.log.evs@; let ghost k0 = e0.len() as int; let ghost m0 = self.node_estimation.answers@; proof { assert(e0.take(k0) =~= e0); }
//@loop 0
            invariant ok(t0), t0 == *old(self), e0 == t0.log.evs@, k0 == e0.len(), m0 == t0.node_estimation.answers@, vit_0.all().len() == t0.cluster_nodes.n, 0 <= vit_0.pos() <= vit_0.all().len(),
                forall|i: int| 0 <= i < vit_0.all().len() ==> (#[trigger] vit_0.all()[i]).0 == i && goes_to(vit_0.all()[i].1, whom(t0.cluster_nodes, i)),
                *self == (Training { log: self.log, node_estimation: NodeEstimation { answers: self.node_estimation.answers, answering_direct_protocol: DirectProtocol { n_sent: (t0.node_estimation.answering_direct_protocol.n_sent + vit_0.pos()) as usize, ..t0.node_estimation.answering_direct_protocol }, ..t0.node_estimation }, ..t0 }),
                answers_sent(e0, self.log.evs@, t0.cluster_nodes, m0, vit_0.pos()),
                forall|k: usize| k >= vit_0.pos() ==> only_a(self.node_estimation.answers@, k) == #[trigger] only_a(m0, k),
            ensures vit_0.pos() == vit_0.all().len(),
            decreases vit_0.all().len() - vit_0.pos(),
//@loop 0 top
            let ghost l0 = self.log.evs@; let ghost q = vit_0.pos() - 1; let ghost mb = self.node_estimation.answers@; proof { assert(id == q); assert(only_a(mb, id) == only_a(m0, id)); assert(goes_to(node, whom(t0.cluster_nodes, q))); }
//@loop 0 end
            proof {
                assert(self.log.evs@.take(k0) =~= l0.take(k0));
                assert forall|i: int| 0 <= i < q + 1 implies answer_to(#[trigger] self.log.evs@[k0 + i], whom(t0.cluster_nodes, i), m0, i as usize) by { if i < q { assert(self.log.evs@[k0 + i] == l0[k0 + i]); assert(answer_to(l0[k0 + i], whom(t0.cluster_nodes, i), m0, i as usize)); } else { } }
                assert forall|k: usize| k >= q + 1 implies only_a(self.node_estimation.answers@, k) == #[trigger] only_a(m0, k) by { assert(only_a(mb, k) == only_a(m0, k)); let a = self.node_estimation.answers@; assert(a.contains_key(k) == mb.contains_key(k)); }
            }
//@end
//@extract src/training/node_estimation/mod.rs :: impl NodeEstimator for Training :: take_in_answers
//@spec
    ensures *final(self) == (Training { node_estimation: NodeEstimation { next_foreign_node: final(self).node_estimation.next_foreign_node, ..old(self).node_estimation }, ..*old(self) }), final(self).node_estimation.next_foreign_node@ == taken(old(self).node_estimation.next_foreign_node@, answers@),
//@top
    let ghost m0 = self.node_estimation.next_foreign_node@; let ghost t0 = *self; proof { assert(answers@.take(0) =~= Seq::empty()); }
//@loop 0
            invariant vit_0.all() == answers@, 0 <= vit_0.pos() <= answers@.len(), *self == (Training { node_estimation: NodeEstimation { next_foreign_node: self.node_estimation.next_foreign_node, ..t0.node_estimation }, ..t0 }), self.node_estimation.next_foreign_node@ == taken(m0, answers@.take(vit_0.pos())),
            ensures vit_0.pos() == vit_0.all().len(),
            decreases answers@.len() - vit_0.pos(),
//@loop 0 end
            proof { let k = vit_0.pos(); assert(answers@.take(k).drop_last() =~= answers@.take(k - 1)); }
//@loop 0 after
        proof { assert(answers@.take(answers@.len() as int) =~= answers@); }
//@end
//@extract src/training/node_estimation/mod.rs :: impl NodeEstimator for Training :: ask_for_foreign_nodes
//@spec
    requires ok(*old(self)),
    ensures asks_all(*old(self), *final(self)),
//@subst ctx: &mut Context<Training> ==> ctx: &mut Context
//@subst resolve_buffer(ctx.address().recipient()) ==> resolve_buffer(&mut self.inbox_q)
//@subst self.ask_next(); ==> let ghost m = *self; self.ask_next(); proof { assert(now_asks(*old(self), m)); }
//@end
//@extract src/training/node_estimation/mod.rs :: impl NodeEstimator for Training :: start_anwering
//@spec
    requires ok(*old(self)),
    ensures answers_now(*old(self), *final(self)),
//@subst ctx: &mut Context<Training> ==> ctx: &mut Context
//@subst resolve_buffer(ctx.address().recipient()) ==> resolve_buffer(&mut self.inbox_a)
//@subst self.answer_next(ctx); ==> let ghost m = *self; self.answer_next(ctx); proof { assert(now_answers(*old(self), m)); }
//@end
//@extract src/training/node_estimation/mod.rs :: impl NodeEstimator for Training :: search_for_asked_nodes
//@spec
    requires ok(*old(self)), can_answer(*old(self), node_questions@),
    ensures searched(*old(self), *final(self), node_questions@),
//@subst mut node_questions: HashMap ==> node_questions: HashMap
//@subst node_questions.remove(asking_node) ==> vnq.remove(asking_node)
//@rename then=vthen eq=veqq extend=vextend
//@subst Some(nodes) => nodes.iter().find_map( ==> Some(nodes) => { let vi = nodes.viter(); let ghost al = vi.all(); let vr = vi.find_map(
//@subst .unwrap_or_else(|| { vpanic() }), ==> ; proof { let s = of_point(ns, niq.point_id); let w = choose|i: int| is_first(s, niq.segment_id, i); assert(s == nodes@); assert forall|j: int| #![trigger al[j]] #![trigger s[j]] 0 <= j < s.len() implies *al[j] == s[j] by { } assert(*al[w] == s[w]); assert(vr is Some); } vr.unwrap() }
//@top
    let mut vnq = node_questions; let ghost t0 = *self; let ghost ns = self.data_store.nodes@; let ghost a0 = self.node_estimation.answers@; let ghost mut keys = Seq::<usize>::empty();
//@loop 0 init
        proof { keys = keys_of(vit_0.all()); }
//@loop 0
            invariant ok(t0), t0 == *old(self), can_answer(t0, node_questions@), ns == t0.data_store.nodes@, a0 == t0.node_estimation.answers@, keys == keys_of(vit_0.all()), all_others(keys, t0.cluster_nodes.n as int, t0.cluster_nodes.own as int), 0 <= vit_0.pos() <= keys.len(),
                *self == (Training { node_estimation: NodeEstimation { answers: self.node_estimation.answers, ..t0.node_estimation }, ..t0 }),
                forall|i: int| vit_0.pos() <= i < keys.len() ==> group(vnq@, #[trigger] keys[i]) == group(node_questions@, keys[i]) && group(self.node_estimation.answers@, keys[i]) == group(a0, keys[i]),
                forall|k: usize| #[trigger] vnq@.contains_key(k) ==> node_questions@.contains_key(k) && vnq@[k] == node_questions@[k],
                forall|i: int| 0 <= i < vit_0.pos() ==> answered_all(ns, group(node_questions@, #[trigger] keys[i]), group(a0, keys[i]), group(self.node_estimation.answers@, keys[i])),
                forall|k: usize| !(k < t0.cluster_nodes.n && k != t0.cluster_nodes.own) ==> group(a0, k) == #[trigger] group(self.node_estimation.answers@, k),
            ensures vit_0.pos() == vit_0.all().len(),
            decreases keys.len() - vit_0.pos(),
//@loop 0 top
            let ghost q = vit_0.pos() - 1; let ghost c = keys[q]; let ghost v0 = vnq@; let ghost b0 = self.node_estimation.answers@; proof { assert(*asking_node == c); assert(keys.contains(c)); assert(c < t0.cluster_nodes.n && c != t0.cluster_nodes.own); assert(group(v0, c) == group(node_questions@, c)); }
//@loop 0 end
            proof {
                let a1 = self.node_estimation.answers@;
                assert(group(a1, c).take(group(a0, c).len() as int) =~= group(a0, c));
                assert(answered_all(ns, group(node_questions@, c), group(a0, c), group(a1, c)));
                assert forall|i: int| 0 <= i < q implies answered_all(ns, group(node_questions@, #[trigger] keys[i]), group(a0, keys[i]), group(a1, keys[i])) by { assert(keys[i] != c); assert(group(a1, keys[i]) == group(b0, keys[i])); }
                assert forall|i: int| q + 1 <= i < keys.len() implies group(vnq@, #[trigger] keys[i]) == group(node_questions@, keys[i]) && group(a1, keys[i]) == group(a0, keys[i]) by { assert(keys[i] != c); assert(group(a1, keys[i]) == group(b0, keys[i])); }
                assert forall|k: usize| !(k < t0.cluster_nodes.n && k != t0.cluster_nodes.own) implies group(a0, k) == #[trigger] group(a1, k) by { assert(k != c); assert(group(a0, k) == group(b0, k)); }
            }
//@loop 0 after
        proof { assert forall|k: usize| k < t0.cluster_nodes.n && k != t0.cluster_nodes.own implies answered_all(t0.data_store.nodes@, group(node_questions@, k), group(t0.node_estimation.answers@, k), #[trigger] group(self.node_estimation.answers@, k)) by { assert(keys.contains(k)); let i = choose|i: int| 0 <= i < keys.len() && keys[i] == k; assert(answered_all(ns, group(node_questions@, keys[i]), group(a0, keys[i]), group(self.node_estimation.answers@, keys[i]))); } }
//@closure 0
|niq: NodeInQuestion| -> (q: Ans) requires has(self.data_store.nodes@, niq) ensures answered(self.data_store.nodes@, niq, q)
//@closure 1
|node: &NodeRef| -> (q: Option<Ans>) ensures q == (if node.segment == niq.segment_id { Some((niq.prev_point_id, niq.prev_point_segment_id, niq.point_id, *node)) } else { None })
//@closure 2
|| -> (q: Ans) ensures q == (niq.prev_point_id, niq.prev_point_segment_id, niq.point_id, *node)
//@end
//@extract src/training/node_estimation/mod.rs :: impl Handler<ClusteringResponse<f32>> for Training :: handle
//@subst fn handle( ==> fn handle_clusters(
//@subst msg: ClusteringResponse<f32> ==> msg: ClusteringResponse
//@subst ctx: &mut Self::Context) -> Self::Result ==> ctx: &mut Context)
//@spec
    requires ok(*old(self)), same_dims(*old(self)), old(self).node_estimation.current_segment_id < 0x4000_0000, old(self).parameters.explainability ==> old(self).anomaly_contribution is Some, forall|i: int| 0 <= i < msg.labels@.len() ==> #[trigger] msg.labels@[i] < 0x4000_0000, msg.labels@.len() < 0x4000_0000,
    // the nodes of this segment, then the next segment or, after the last, the questions
    ensures exists|s: Training| #[trigger] labelled(*old(self), msg, s) && (if s.node_estimation.current_segment_id < s.parameters.rate { begun(s, *final(self)) } else { asks_all(s, *final(self)) }),
//@subst self.node_estimation.current_intersections.clone() ==> vlist(&self.node_estimation.current_intersections)
//@subst nodes.clone() ==> vnodes(&nodes)
//@rename iter=viter into_iter=vinto_iter
//@subst (0..(msg.labels.viter().max().unwrap() + 1)).map(|_| 0).collect() ==> { let mi = msg.labels.viter(); let ghost al = mi.all(); let m = mi.max().unwrap(); proof { assert forall|i: int| 0 <= i < msg0.labels@.len() implies #[trigger] msg0.labels@[i] <= *m by { assert(*al[i] == msg0.labels@[i]); } let w = choose|i: int| 0 <= i < al.len() && #[trigger] al[i] == m; assert(msg0.labels@[w] == *m); assert(msg0.labels@.contains(*m)); assert(msg0.labels@.take(0) =~= Seq::empty()); reveal(times); } vnull(*m + 1) }
//@subst label_counts[label] += 1; ==> vcount(&mut label_counts, label, 1);
//@subst self.anomaly_contribution.as_ref().expect("Should've been started by now").do_send( ==> vaddr(&self.anomaly_contribution).vsend(&mut self.log,
//@subst self.node_estimation.current_segment_id += 1; ==> self.node_estimation.current_segment_id += 1; let ghost s0 = *self; proof { assert(s0.log.evs@.len() > t0.log.evs@.len() ==> s0.log.evs@.drop_last() =~= t0.log.evs@); assert(labelled(t0, msg0, s0)); }
//@top
    let ghost t0 = *self; let ghost msg0 = msg; let ghost ci = self.node_estimation.current_intersections@; let ghost ns = nodes_of(ci, msg.labels@);
//@loop 0
                invariant vit_0.all().len() == ns.len(), 0 <= vit_0.pos() <= ns.len(), ns == nodes_of(ci, msg.labels@), forall|i: int| 0 <= i < ns.len() ==> (#[trigger] vit_0.all()[i]).0 == ci[i] && *vit_0.all()[i].1 == msg.labels@[i], nodes@ == ns.take(vit_0.pos()),
                ensures vit_0.pos() == vit_0.all().len(),
                decreases ns.len() - vit_0.pos(),
//@loop 0 end
                proof { let k = vit_0.pos(); assert(ns.take(k) =~= ns.take(k - 1).push(ns[k - 1])); }
//@loop 0 after
            proof { assert(ns.take(ns.len() as int) =~= ns); }
//@loop 1
                    invariant vit_1.all() == msg0.labels@, 0 <= vit_1.pos() <= vit_1.all().len(), msg0.labels@.len() < 0x4000_0000, forall|i: int| 0 <= i < msg0.labels@.len() ==> #[trigger] msg0.labels@[i] < label_counts@.len(), label_counts@.len() <= 0x4000_0000, label_counts@.len() > 0, msg0.labels@.contains((label_counts@.len() - 1) as usize), forall|k: int| 0 <= k < label_counts@.len() ==> #[trigger] label_counts@[k] == times(msg0.labels@.take(vit_1.pos()), k as usize),
                    ensures vit_1.pos() == vit_1.all().len(),
                    decreases vit_1.all().len() - vit_1.pos(),
//@loop 1 top
                    proof { let n = vit_1.pos() - 1; assert(label == msg0.labels@[n]); times_step(msg0.labels@, n); times_bounded(msg0.labels@.take(n)); assert(label_counts@[label as int] == times(msg0.labels@.take(n), label)); }
//@loop 1 after
                proof { assert(msg0.labels@.take(msg0.labels@.len() as int) =~= msg0.labels@); }
//@loop 2 pre
            let ghost t1 = *self; proof { assert(t1.data_store.nodes@ + ns.take(0) =~= t1.data_store.nodes@); }
//@loop 2
                invariant vit_2.all() == ns, 0 <= vit_2.pos() <= ns.len(), *self == (Training { data_store: self.data_store, ..t1 }), self.data_store.inter == t1.data_store.inter, self.data_store.nodes@ == t1.data_store.nodes@ + ns.take(vit_2.pos()),
                ensures vit_2.pos() == vit_2.all().len(),
                decreases ns.len() - vit_2.pos(),
//@loop 2 end
                proof { let k = vit_2.pos(); assert(ns.take(k) =~= ns.take(k - 1).push(ns[k - 1])); assert(self.data_store.nodes@ =~= t1.data_store.nodes@ + ns.take(k)); }
//@end
//@extract src/training/node_estimation/mod.rs :: impl Handler<AskForForeignNodes> for Training :: handle
//@subst fn handle( ==> fn handle_ask(
//@subst ctx: &mut Self::Context) -> Self::Result ==> ctx: &mut Context)
//@spec
    requires okr(*old(self)), msg.asked_nodes.node_questions@.contains_key(old(self).cluster_nodes.own) && old(self).node_estimation.asking_direct_protocol.running() ==> can_answer(*old(self), msg.asked_nodes.node_questions@[old(self).cluster_nodes.own]@),
    ensures ({ let t = *old(self); let u = *final(self); let p = t.node_estimation.asking_direct_protocol; let own = t.cluster_nodes.own; let qs = msg.asked_nodes.node_questions@; let c = count_q(t);
        // early: kept
        &&& !p.running() ==> u == (Training { node_estimation: NodeEstimation { asking_direct_protocol: DirectProtocol { buffer: u.node_estimation.asking_direct_protocol.buffer, ..p }, ..t.node_estimation }, ..t }) && u.node_estimation.asking_direct_protocol.buffer@ == p.buffer@.push(msg)
        &&& p.running() ==> exists|s: Training| #[trigger] searched_or_not(c, s, qs, own) && (if s.node_estimation.asking_direct_protocol.running() { u == s } else { answers_now(s, u) })
    }),
//@subst let mut asked_nodes = msg.asked_nodes; ==> let ghost c0 = *self; let ghost qs0 = msg.asked_nodes.node_questions@; let mut asked_nodes = msg.asked_nodes;
//@subst if !self.node_estimation.asking_direct_protocol.is_running() { ==> let ghost s0 = *self; proof { assert(searched_or_not(c0, s0, qs0, c0.cluster_nodes.own)); } if !self.node_estimation.asking_direct_protocol.is_running() {
//@end
//@extract src/training/node_estimation/mod.rs :: impl Handler<ForeignNodesAnswer> for Training :: handle
//@subst fn handle( ==> fn handle_answer(
//@subst ctx: &mut Self::Context) -> Self::Result ==> ctx: &mut Context)
//@spec
    requires okr(*old(self)),
    ensures ({ let t = *old(self); let u = *final(self); let p = t.node_estimation.answering_direct_protocol; let c = count_a(t);
        &&& !p.running() ==> u == (Training { node_estimation: NodeEstimation { answering_direct_protocol: DirectProtocol { buffer: u.node_estimation.answering_direct_protocol.buffer, ..p }, ..t.node_estimation }, ..t }) && u.node_estimation.answering_direct_protocol.buffer@ == p.buffer@.push(msg)
        &&& p.running() ==> u.node_estimation.next_foreign_node@ == taken(t.node_estimation.next_foreign_node@, group(msg.answers@, t.cluster_nodes.own))
              && u == (Training { log: u.log, node_estimation: NodeEstimation { next_foreign_node: u.node_estimation.next_foreign_node, ..c.node_estimation }, ..c })
              && u.log.evs@ == (if c.node_estimation.answering_direct_protocol.running() { t.log.evs@ } else { t.log.evs@.push(Ev::Done) })
    }),
//@end
}
pub open spec fn searched_or_not(c: Training, s: Training, qs: Map<usize, Qs>, own: usize) -> bool { if qs.contains_key(own) { searched(c, s, qs[own]@) } else { s == c } }
} // verus!
fn main() {}
