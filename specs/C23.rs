//! segment_id_to_assignment through the contract proved in C01, the ring of nodes through C12, the data store's intersections as in C19; the pairs to be cut are C04; where line and plane meet (coordinates of a result) is not interpreted here.
//! every message sent is delivered once; counts stay below 2^30 messages.
//@include base.rs
//@include coll.rs
//@include points.rs
//@include owner.rs
verus! {
pub enum Ev { Rot { to: Option<usize>, m: IntersectionRotationMessage }, Task { m: IntersectionTaskMessage }, Result { m: IntersectionResultMessage }, Pill, Done }
} // verus!
//@include net.rs
//@include proto.rs
//@include proto_direct.rs
//@include nodes.rs
//@include store.rs
verus! {
pub struct Arr { p: usize }
impl Arr { #[verifier::external_body] pub fn clone(&self) -> (r: Arr) ensures r == *self { unimplemented!() } }
pub type TransitionRef = Transition;
pub type SegmentID = usize;
impl Addr { #[verifier::external_body] pub fn clone(&self) -> Addr { unimplemented!() } #[verifier::external_body] pub fn recipient(self) -> Addr { unimplemented!() } }
#[verifier::external_body] pub struct ResultRec { p: usize }
impl ResultRec { #[verifier::external_body] pub fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } #[verifier::external_body] pub fn vsend<M: VMsg>(&self, log: &mut Log, m: M) ensures final(log).evs@ == old(log).evs@.push(m.ev(None)) { unimplemented!() } }
pub struct DoneRec { p: usize }
impl DoneRec { #[verifier::external_body] pub fn vsend<M: VMsg>(&self, log: &mut Log, m: M) ensures final(log).evs@ == old(log).evs@.push(m.ev(None)) { unimplemented!() } }
pub struct HAddr { p: usize }
impl HAddr { #[verifier::external_body] pub fn vsend<M: VMsg>(&self, log: &mut Log, m: M) ensures final(log).evs@ == old(log).evs@.push(m.ev(None)) { unimplemented!() } }
pub struct PoisonPill;
pub struct IntersectionCalculationDone;
pub struct IntersectionTask { pub transition: TransitionRef, pub segment_id: usize, pub line_points: Arr, pub plane_points: Arr }
pub struct IntersectionTaskMessage { pub tasks: Vec<IntersectionTask>, pub source: ResultRec }
pub struct IntersectionResult { pub transition: TransitionRef, pub segment_id: usize, pub intersection: Coords }
pub struct IntersectionResultMessage { pub results: Vec<IntersectionResult> }
pub struct IntersectionRotationMessage { pub intersection_coords_by_segment: HashMap<SegmentID, Vec<Intersection>> }
impl VMsg for IntersectionRotationMessage { open spec fn ev(self, to: Option<usize>) -> Ev { Ev::Rot { to, m: self } } }
impl VMsg for IntersectionTaskMessage { open spec fn ev(self, to: Option<usize>) -> Ev { Ev::Task { m: self } } }
impl VMsg for IntersectionResultMessage { open spec fn ev(self, to: Option<usize>) -> Ev { Ev::Result { m: self } } }
impl VMsg for PoisonPill { open spec fn ev(self, to: Option<usize>) -> Ev { Ev::Pill } }
impl VMsg for IntersectionCalculationDone { open spec fn ev(self, to: Option<usize>) -> Ev { Ev::Done } }
//@struct src/utils/helper_protocol.rs :: HelperProtocol
impl HelperProtocol {
//@extract src/utils/helper_protocol.rs :: impl HelperProtocol :: sent
//@spec
    requires old(self).n_sent < usize::MAX,
    ensures *final(self) == (HelperProtocol { n_sent: (old(self).n_sent + 1) as usize, ..*old(self) }),
//@end
//@extract src/utils/helper_protocol.rs :: impl HelperProtocol :: received
//@spec
    requires old(self).n_sent > 0, old(self).n_received < usize::MAX,
    ensures *final(self) == (HelperProtocol { n_sent: (old(self).n_sent - 1) as usize, n_received: (old(self).n_received + 1) as usize, ..*old(self) }),
//@end
//@extract src/utils/helper_protocol.rs :: impl HelperProtocol :: is_running
//@ret r
//@spec
    ensures r == (self.n_received < self.n_total),
//@end
}
impl Intersection {
//@extract src/data_store/intersection.rs :: impl Intersection :: new
//@ret r
//@spec
    ensures r == (Intersection { from_point_id: transition.from_point.id(), coordinates, segment_id }),
//@subst Array1<f32> ==> Coords
//@end
}
pub struct IntersectionCalculation {
    pub foreign_intersections: HashMap<SegmentID, Vec<Intersection>>, pub helpers: Option<HAddr>, pub pairs: Vec<(TransitionRef, SegmentID, Arr, Arr)>,
    pub helper_protocol: HelperProtocol, pub recipient: Option<DoneRec>, pub direct_protocol: DirectProtocol<IntersectionRotationMessage>,
}
pub struct Training { pub parameters: Parameters, pub cluster_nodes: ClusterNodes, pub data_store: DataStore, pub intersection_calculation: IntersectionCalculation, pub own_addr: Option<Addr>, pub log: Log, pub inbox: Inbox<IntersectionRotationMessage> }
pub type Map2 = Map<usize, Vec<Intersection>>;
// what is kept for others: only intersections of segments of others, each under its own segment
pub open spec fn foreign_ok(t: Training) -> bool { forall|k: usize| #[trigger] t.intersection_calculation.foreign_intersections@.contains_key(k) ==> k < t.parameters.rate && owner(t.parameters, k as int) != t.cluster_nodes.own && of_segment(t.intersection_calculation.foreign_intersections@[k]@, k) }
pub open spec fn of_segment(s: Seq<Intersection>, k: usize) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).segment_id == k }
pub open spec fn ok(t: Training) -> bool { t.cluster_nodes.wf() && pok(t.parameters) && t.cluster_nodes.n == t.parameters.n_cluster_nodes && t.own_addr is Some && t.data_store.wf() && foreign_ok(t) && counts(t, 0x4000_0000) }
pub open spec fn counts(t: Training, b: int) -> bool { t.intersection_calculation.direct_protocol.n_sent < b && t.intersection_calculation.direct_protocol.n_received < b && t.intersection_calculation.helper_protocol.n_sent < b && t.intersection_calculation.helper_protocol.n_received < b }
pub open spec fn by_owner(p: Parameters) -> spec_fn(Intersection) -> int { |x: Intersection| owner(p, x.segment_id as int) }
pub open spec fn cut(r: IntersectionResult) -> Intersection { Intersection { from_point_id: r.transition.from_point.id(), coordinates: r.intersection, segment_id: r.segment_id } }
pub open spec fn cuts(s: Seq<IntersectionResult>) -> Seq<Intersection> { Seq::new(s.len(), |i: int| cut(s[i])) }
// the intersections cs are taken in: those of the own segments into the data store, the others kept for their owner, in order
pub open spec fn assigned(t: Training, u: Training, cs: Seq<Intersection>) -> bool {
    let own = t.cluster_nodes.own; let f = t.intersection_calculation.foreign_intersections@; let g = u.intersection_calculation.foreign_intersections@;
    &&& u == (Training { data_store: u.data_store, intersection_calculation: IntersectionCalculation { foreign_intersections: u.intersection_calculation.foreign_intersections, ..t.intersection_calculation }, ..t })
    &&& u.data_store.wf() && u.data_store.same_graph(t.data_store) && u.data_store.intersections@ == t.data_store.intersections@ + sel(cs, by_owner(t.parameters), own as int)
    &&& foreign_ok(u)
    &&& forall|k: usize| k < t.parameters.rate && owner(t.parameters, k as int) != own ==> #[trigger] group(g, k) == group(f, k) + sel(cs, in_segment(), k as int)
}
pub open spec fn in_rate_all(s: Seq<IntersectionResult>, rate: usize) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).segment_id < rate }
pub proof fn assigned_step(t: Training, a: Training, u: Training, cs: Seq<Intersection>, x: Intersection)
    requires ok(t), assigned(t, a, cs), assigned(a, u, seq![x]), x.segment_id < t.parameters.rate ensures assigned(t, u, cs.push(x))
{
    let own = t.cluster_nodes.own; let p = t.parameters;
    let one = seq![x]; assert(one =~= Seq::<Intersection>::empty().push(x)); assert(cs.push(x) =~= cs + one);
    sel_add(cs, one, by_owner(p), own as int);
    assert(u.data_store.intersections@ =~= t.data_store.intersections@ + sel(cs.push(x), by_owner(p), own as int));
    assert forall|k: usize| k < p.rate && owner(p, k as int) != own implies #[trigger] group(u.intersection_calculation.foreign_intersections@, k) == group(t.intersection_calculation.foreign_intersections@, k) + sel(cs.push(x), in_segment(), k as int) by {
        sel_add(cs, one, in_segment(), k as int); assert(group(a.intersection_calculation.foreign_intersections@, k) == group(t.intersection_calculation.foreign_intersections@, k) + sel(cs, in_segment(), k as int));
        assert(group(u.intersection_calculation.foreign_intersections@, k) =~= group(t.intersection_calculation.foreign_intersections@, k) + sel(cs.push(x), in_segment(), k as int));
    }
}
// the message for node id: exactly the kept segments that belong to it, complete
pub open spec fn part_for(p: Parameters, m: Map2, f: Map2, id: usize) -> bool { part_upto(p, m, f, id, p.rate as int) }
pub open spec fn part_upto(p: Parameters, m: Map2, f: Map2, id: usize, s: int) -> bool { forall|k: usize| (#[trigger] m.contains_key(k) <==> f.contains_key(k) && k < s && owner(p, k as int) == id) && (m.contains_key(k) ==> m[k] == f[k]) }
pub open spec fn part_sent(p: Parameters, e: Ev, id: usize, f: Map2) -> bool { e is Rot && e->Rot_to == Some(id) && part_for(p, e->Rot_m.intersection_coords_by_segment@, f, id) }
pub open spec fn parts_sent(p: Parameters, old: Seq<Ev>, new: Seq<Ev>, ids: Seq<usize>, f: Map2) -> bool { new.len() == old.len() + ids.len() && new.take(old.len() as int) == old && forall|i: int| 0 <= i < ids.len() ==> part_sent(p, #[trigger] new[old.len() + i], ids[i], f) }
// all that distribution does: every other node is sent its intersections in one message and nothing is kept; alone, the stage is done
pub open spec fn distributed(t: Training, u: Training) -> bool {
    let n = t.cluster_nodes.n as int; let f = t.intersection_calculation.foreign_intersections@;
    &&& u == (Training { log: u.log, intersection_calculation: IntersectionCalculation { foreign_intersections: u.intersection_calculation.foreign_intersections, direct_protocol: u.intersection_calculation.direct_protocol, ..t.intersection_calculation }, ..t })
    &&& u.intersection_calculation.direct_protocol == (DirectProtocol { n_sent: (t.intersection_calculation.direct_protocol.n_sent + n - 1) as usize, ..t.intersection_calculation.direct_protocol })
    &&& n == 1 ==> u.log.evs@ == t.log.evs@.push(Ev::Done)
    &&& n > 1 ==> u.intersection_calculation.foreign_intersections@ == Map2::empty() && exists|ids: Seq<usize>| #[trigger] all_others(ids, n, t.cluster_nodes.own as int) && parts_sent(t.parameters, t.log.evs@, u.log.evs@, ids, f)
}
// messages that came early are taken up again, then everything is distributed
pub open spec fn started(t: Training) -> Training { Training { inbox: Inbox { got: Ghost(t.inbox.got@ + t.intersection_calculation.direct_protocol.buffer@), ..t.inbox }, ..t } }
pub open spec fn distribution(t: Training, u: Training) -> bool {
    exists|m: Training| #[trigger] distributed(m, u) && m.inbox.got@ == t.inbox.got@ + t.intersection_calculation.direct_protocol.buffer@ && m.inbox.first == t.inbox.first && m.intersection_calculation.direct_protocol.buffer@.len() == 0
        && m == (Training { inbox: m.inbox, intersection_calculation: IntersectionCalculation { direct_protocol: DirectProtocol { n_total: (t.cluster_nodes.n - 1) as usize, buffer: m.intersection_calculation.direct_protocol.buffer, ..t.intersection_calculation.direct_protocol }, ..t.intersection_calculation }, ..t })
}
// tasks are the pairs, each once (last first)
pub open spec fn task_of(x: (TransitionRef, SegmentID, Arr, Arr)) -> IntersectionTask { IntersectionTask { transition: x.0, segment_id: x.1, line_points: x.2, plane_points: x.3 } }
pub open spec fn tasks_of(s: Seq<(TransitionRef, SegmentID, Arr, Arr)>, n: int) -> Seq<IntersectionTask> { Seq::new(n as nat, |i: int| task_of(s[s.len() - 1 - i])) }
pub proof fn every_pair_is_a_task(s: Seq<(TransitionRef, SegmentID, Arr, Arr)>, i: int) requires 0 <= i < s.len() ensures tasks_of(s, s.len() as int)[s.len() - 1 - i] == task_of(s[i]), tasks_of(s, s.len() as int).len() == s.len() { }
impl Training {
    // C01
    #[verifier::external_body] pub fn segment_id_to_assignment(&self, segment_id: usize) -> (r: usize) requires pok(self.parameters), segment_id < self.parameters.rate ensures r as int == owner(self.parameters, segment_id as int), r < self.parameters.n_cluster_nodes { unimplemented!() }
//@extract src/training/intersection_calculation/mod.rs :: impl IntersectionCalculator for Training :: assign_received_intersection
//@spec
    requires ok(*old(self)), segment_id < old(self).parameters.rate,
    ensures assigned(*old(self), *final(self), seq![Intersection { from_point_id: transition.from_point.id(), coordinates: intersection, segment_id }]),
//@subst intersection: Array1<f32> ==> intersection: Coords
//@rename eq=veqq
//@subst match &mut self.intersection_calculation.foreign_intersections.get_mut(&segment_id) ==> match self.intersection_calculation.foreign_intersections.get_mut(&segment_id)
//@top
    let ghost x = Intersection { from_point_id: transition.from_point.id(), coordinates: intersection, segment_id }; let ghost f = self.intersection_calculation.foreign_intersections@;
    proof { assert(seq![x].drop_last() =~= Seq::empty()); assert(seq![x].last() == x); let e = Seq::<Intersection>::empty(); assert(e.push(x) =~= seq![x]); reveal_with_fuel(sel, 3); let i0 = self.data_store.intersections@; assert(i0 + seq![x] =~= i0.push(x)); assert(i0 + e =~= i0); assert forall|k: usize| #[trigger] group(f, k) + e == group(f, k) by { assert(group(f, k) + e =~= group(f, k)); } }
//@last
    proof {
        let g = self.intersection_calculation.foreign_intersections@; let own = self.cluster_nodes.own; let p = self.parameters;
        if owner(p, segment_id as int) != own {
            assert(g.contains_key(segment_id)); assert(g[segment_id]@ =~= group(f, segment_id).push(x));
            assert forall|k: usize| #[trigger] g.contains_key(k) implies k < p.rate && owner(p, k as int) != own && of_segment(g[k]@, k) by { if k != segment_id { assert(f.contains_key(k)); assert(g[k] == f[k]); } else { if f.contains_key(k) { assert(of_segment(f[k]@, k)); } } }
            assert forall|k: usize| k < p.rate && owner(p, k as int) != own implies #[trigger] group(g, k) == group(f, k) + sel(seq![x], in_segment(), k as int) by { if k == segment_id { assert(group(f, k).push(x) =~= group(f, k) + seq![x]); } else { assert(g.contains_key(k) == f.contains_key(k)); assert(group(g, k) == group(f, k)); } }
        } else { assert forall|k: usize| k < p.rate && owner(p, k as int) != own implies #[trigger] group(g, k) == group(f, k) + sel(seq![x], in_segment(), k as int) by { assert(k != segment_id); } }
    }
//@end
//@extract src/training/intersection_calculation/mod.rs :: impl IntersectionCalculator for Training :: rotate_foreign_assignments
//@spec
    requires ok(*old(self)),
    ensures distributed(*old(self), *final(self)),
//@subst rec: Recipient<IntersectionCalculationDone> ==> rec: Addr
//@subst rec.do_send( ==> rec.vsend(&mut self.log, 
//@subst "Training".to_string() ==> ()
//@rename eq=veqq
//@subst training_node.do_send( ==> training_node.vsend(&mut self.log, 
//@top
    let ghost f = self.intersection_calculation.foreign_intersections@; let ghost e0 = self.log.evs@; let ghost mut keys = Seq::<usize>::empty(); let ghost k0 = e0.len() as int; let ghost p = self.parameters; proof { assert(e0.take(k0) =~= e0); }
//@loop 0 init
        proof { keys = keys_of(vit_0.all()); assert(keys.take(0) =~= Seq::<usize>::empty()); }
//@loop 0
            invariant ok(*old(self)), self.cluster_nodes == old(self).cluster_nodes, e0 == old(self).log.evs@, k0 == e0.len(), p == old(self).parameters, f == old(self).intersection_calculation.foreign_intersections@, self.cluster_nodes.n > 1,
                *self == (Training { log: self.log, intersection_calculation: IntersectionCalculation { foreign_intersections: self.intersection_calculation.foreign_intersections, direct_protocol: self.intersection_calculation.direct_protocol, ..old(self).intersection_calculation }, ..*old(self) }),
                self.intersection_calculation.direct_protocol == (DirectProtocol { n_sent: (old(self).intersection_calculation.direct_protocol.n_sent + vit_0.pos()) as usize, ..old(self).intersection_calculation.direct_protocol }),
                self.intersection_calculation.foreign_intersections@ == Map2::empty(),
                keys == keys_of(vit_0.all()), all_others(keys, self.cluster_nodes.n as int, self.cluster_nodes.own as int), 0 <= vit_0.pos() <= keys.len(), forall|i: int| 0 <= i < keys.len() ==> (#[trigger] vit_0.all()[i]).1.idx == keys[i],
                parts_sent(p, e0, self.log.evs@, keys.take(vit_0.pos()), f),
                forall|i: int, k: usize| vit_0.pos() <= i < keys.len() && k < p.rate && owner(p, k as int) == #[trigger] keys[i] ==> (#[trigger] intersection_coords_by_segment@.contains_key(k)) == f.contains_key(k) && (f.contains_key(k) ==> intersection_coords_by_segment@[k] == f[k]),
            ensures vit_0.pos() == vit_0.all().len(),
            decreases vit_0.all().len() - vit_0.pos(),
//@loop 0 top
            let ghost l0 = self.log.evs@; let ghost q = vit_0.pos() - 1; let ghost c = keys[q]; let ghost v0 = intersection_coords_by_segment@; proof { assert(*id == c && node.idx == c); }
//@loop 0 end
            proof {
                let ids = keys.take(q + 1);
                assert forall|i: int| 0 <= i < ids.len() implies part_sent(p, #[trigger] self.log.evs@[k0 + i], ids[i], f) by { if i < q { assert(self.log.evs@[k0 + i] == l0[k0 + i]); assert(part_sent(p, l0[k0 + i], keys.take(q)[i], f)); } else { assert(part_upto(p, self.log.evs@[k0 + i]->Rot_m.intersection_coords_by_segment@, f, c, p.rate as int)); } }
                assert(self.log.evs@.take(k0) =~= l0.take(k0));
                assert forall|i: int, k: usize| vit_0.pos() <= i < keys.len() && k < p.rate && owner(p, k as int) == #[trigger] keys[i] implies (#[trigger] intersection_coords_by_segment@.contains_key(k)) == f.contains_key(k) && (f.contains_key(k) ==> intersection_coords_by_segment@[k] == f[k]) by { assert(keys[i] != keys[q]); assert(intersection_coords_by_segment@.contains_key(k) == v0.contains_key(k)); }
            }
//@loop 0 after
        proof { assert(keys.take(keys.len() as int) =~= keys); }
//@loop 1
                invariant 0 <= vit_1 <= vend_1, vend_1 == p.rate, ok(*old(self)), p == old(self).parameters, self.parameters == p, *id == c, f == old(self).intersection_calculation.foreign_intersections@,
                    part_upto(p, coords_to_send@, f, c, vit_1 as int),
                    forall|k: usize| k < p.rate && owner(p, k as int) == c && k >= vit_1 ==> (#[trigger] intersection_coords_by_segment@.contains_key(k)) == f.contains_key(k) && (f.contains_key(k) ==> intersection_coords_by_segment@[k] == f[k]),
                    forall|k: usize| owner(p, k as int) != c ==> (#[trigger] intersection_coords_by_segment@.contains_key(k)) == v0.contains_key(k) && (v0.contains_key(k) ==> intersection_coords_by_segment@[k] == v0[k]),
                decreases vend_1 - vit_1,
//@loop 1 top
                let ghost m0 = coords_to_send@; let ghost s = (vit_1 - 1) as usize; let ghost w0 = intersection_coords_by_segment@;
//@loop 1 end
                proof {
                    assert forall|k: usize| owner(p, k as int) != c implies (#[trigger] intersection_coords_by_segment@.contains_key(k)) == v0.contains_key(k) && (v0.contains_key(k) ==> intersection_coords_by_segment@[k] == v0[k]) by { assert(w0.contains_key(k) == v0.contains_key(k)); if owner(p, s as int) == c { assert(k != s); } }
                    assert forall|k: usize| k < p.rate && owner(p, k as int) == c && k >= vit_1 implies (#[trigger] intersection_coords_by_segment@.contains_key(k)) == f.contains_key(k) && (f.contains_key(k) ==> intersection_coords_by_segment@[k] == f[k]) by { assert(w0.contains_key(k) == f.contains_key(k)); }
                    assert forall|k: usize| (#[trigger] coords_to_send@.contains_key(k) <==> f.contains_key(k) && k < vit_1 && owner(p, k as int) == c) && (coords_to_send@.contains_key(k) ==> coords_to_send@[k] == f[k]) by { assert(m0.contains_key(k) <==> f.contains_key(k) && k < s && owner(p, k as int) == c); if k == s { assert(w0.contains_key(k) || !w0.contains_key(k)); } }
                }
//@end
//@extract src/training/intersection_calculation/mod.rs :: impl IntersectionCalculator for Training :: start_distribution_protocol
//@spec
    requires ok(*old(self)),
    ensures distribution(*old(self), *final(self)),
//@subst self.own_addr.as_ref().unwrap().clone() ==> vaddr(&self.own_addr)
//@subst resolve_buffer(own_addr.clone().recipient()) ==> resolve_buffer(&mut self.inbox)
//@subst self.rotate_foreign_assignments(own_addr.recipient()); ==> let ghost m = *self; self.rotate_foreign_assignments(own_addr.recipient()); proof { assert(distributed(m, *self)); }
//@end
//@extract src/training/intersection_calculation/mod.rs :: impl IntersectionCalculator for Training :: parallel_intersection_tasks
//@spec
    requires ok(*old(self)), old(self).intersection_calculation.helpers is Some,
    ensures ({ let t = *old(self); let u = *final(self); let ps = t.intersection_calculation.pairs@;
        // nothing to do: on to the distribution
        &&& ps.len() == 0 ==> distribution(t, u)
        // otherwise every pair goes to the helper once, in one message
        &&& ps.len() > 0 ==> u == (Training { log: u.log, intersection_calculation: IntersectionCalculation { pairs: u.intersection_calculation.pairs, helper_protocol: HelperProtocol { n_sent: (t.intersection_calculation.helper_protocol.n_sent + 1) as usize, ..t.intersection_calculation.helper_protocol }, ..t.intersection_calculation }, ..t })
            && u.intersection_calculation.pairs@.len() == 0 && exists|m: IntersectionTaskMessage| #[trigger] task_msg(m, ps, rec) && u.log.evs@ == t.log.evs@.push(Ev::Task { m }) }),
//@drop println!
//@subst rec: Recipient<IntersectionResultMessage> ==> rec: ResultRec
//@subst num_integer::div_ceil( ==> vdiv_ceil(
//@subst .helpers.as_ref().unwrap().do_send(IntersectionTaskMessage { ==> .helpers.as_ref().unwrap().vsend(&mut self.log, IntersectionTaskMessage {
//@rename min=vmin
//@top
    let ghost t0 = *self; let ghost ps = self.intersection_calculation.pairs@;
//@loop 0
            invariant vend_0 == 1, 0 <= vit_0 <= 1, ok(t0), t0.intersection_calculation.helpers is Some, t0 == *old(self), ps == t0.intersection_calculation.pairs@, chunk_size == ps.len(), ps.len() > 0,
                *self == (Training { log: self.log, intersection_calculation: IntersectionCalculation { pairs: self.intersection_calculation.pairs, helper_protocol: HelperProtocol { n_sent: (t0.intersection_calculation.helper_protocol.n_sent + vit_0) as usize, ..t0.intersection_calculation.helper_protocol }, ..t0.intersection_calculation }, ..t0 }),
                vit_0 == 0 ==> self.log == t0.log && self.intersection_calculation.pairs@ == ps,
                vit_0 == 1 ==> self.intersection_calculation.pairs@.len() == 0 && exists|m: IntersectionTaskMessage| #[trigger] task_msg(m, ps, rec) && self.log.evs@ == t0.log.evs@.push(Ev::Task { m }),
            decreases vend_0 - vit_0,
//@loop 0 end
            proof { assert(self.log.evs@.last() is Task); let m = self.log.evs@.last()->Task_m; assert(m.tasks@ =~= tasks_of(ps, ps.len() as int)); assert(task_msg(m, ps, rec)); assert(self.log.evs@ =~= t0.log.evs@.push(Ev::Task { m })); }
//@loop 1
                invariant 0 <= vit_1 <= vend_1, vend_1 == ps.len(), ps.len() > 0, self.log == t0.log,
                    *self == (Training { log: self.log, intersection_calculation: IntersectionCalculation { pairs: self.intersection_calculation.pairs, ..t0.intersection_calculation }, ..t0 }),
                    self.intersection_calculation.pairs@ == ps.take(ps.len() - vit_1), tasks@ == tasks_of(ps, vit_1 as int),
                decreases vend_1 - vit_1,
//@loop 1 pre
            proof { assert(tasks@ =~= tasks_of(ps, 0)); assert(ps.take(ps.len() as int) =~= ps); }
//@loop 1 end
                proof { assert(tasks@ =~= tasks_of(ps, vit_1 as int)); assert(self.intersection_calculation.pairs@ =~= ps.take(ps.len() - vit_1)); }
//@end
//@extract src/training/intersection_calculation/mod.rs :: impl Handler<IntersectionResultMessage> for Training :: handle
//@subst fn handle( ==> fn handle_result(
//@spec
    requires ok(*old(self)), counts(*old(self), 0x3fff_ffff), old(self).intersection_calculation.helpers is Some, old(self).intersection_calculation.helper_protocol.n_sent > 0, in_rate_all(msg.results@, old(self).parameters.rate),
    ensures exists|a: Training| #[trigger] taken(*old(self), a, *final(self), cuts(msg.results@)),
//@subst _ctx: &mut Self::Context) -> Self::Result ==> ctx: &mut Context)
//@subst .helpers.as_ref().unwrap().do_send(PoisonPill) ==> .helpers.as_ref().unwrap().vsend(&mut self.log, PoisonPill)
//@subst rec.do_send( ==> rec.vsend(&mut self.log, 
//@subst self.start_distribution_protocol(); ==> let ghost b = *self; self.start_distribution_protocol(); proof { assert(distribution(b, *self)); }
//@top
    let ghost t0 = *self; let ghost rs = msg.results@; let ghost mut a = *self;
//@loop 0 pre
        let ghost t1 = *self; proof { assert(t1.data_store.intersections@ + sel(Seq::<Intersection>::empty(), by_owner(t1.parameters), t1.cluster_nodes.own as int) =~= t1.data_store.intersections@); let f = t1.intersection_calculation.foreign_intersections@; assert forall|k: usize| #[trigger] group(f, k) == group(f, k) + sel(Seq::<Intersection>::empty(), in_segment(), k as int) by { assert(group(f, k) =~= group(f, k) + sel(Seq::<Intersection>::empty(), in_segment(), k as int)); } assert(cuts(rs.take(0)) =~= Seq::empty()); }
//@loop 0
            invariant vit_0.all() == rs, 0 <= vit_0.pos() <= rs.len(), in_rate_all(rs, t1.parameters.rate), ok(t1), assigned(t1, *self, cuts(rs.take(vit_0.pos()))),
            ensures vit_0.pos() == rs.len(),
            decreases rs.len() - vit_0.pos(),
//@loop 0 top
            let ghost b0 = *self; let ghost x = rs[vit_0.pos() - 1];
//@loop 0 end
            proof { let k = vit_0.pos(); assigned_step(t1, b0, *self, cuts(rs.take(k - 1)), cut(x)); assert(cuts(rs.take(k)) =~= cuts(rs.take(k - 1)).push(cut(x))); }
//@loop 0 after
        proof { assert(rs.take(rs.len() as int) =~= rs); a = *self; }
//@last
    proof { assert(taken(t0, a, *self, cuts(rs))); }
//@end
//@extract src/training/intersection_calculation/mod.rs :: impl Handler<IntersectionRotationMessage> for Training :: handle
//@subst fn handle( ==> fn handle_rotation(
//@spec
    requires ok(*old(self)), counts(*old(self), 0x3fff_ffff), part_ok(msg.intersection_coords_by_segment@, old(self).parameters.rate),
    ensures ({ let t = *old(self); let u = *final(self); let p = t.intersection_calculation.direct_protocol; let m = msg.intersection_coords_by_segment@;
        // early: kept
        if !p.running() { u == (Training { intersection_calculation: IntersectionCalculation { direct_protocol: u.intersection_calculation.direct_protocol, ..t.intersection_calculation }, ..t }) && u.intersection_calculation.direct_protocol == (DirectProtocol { buffer: u.intersection_calculation.direct_protocol.buffer, ..p }) && u.intersection_calculation.direct_protocol.buffer@ == p.buffer@.push(msg) }
        else { let q = DirectProtocol { n_received: (p.n_received + 1) as usize, ..p };
            &&& u == (Training { data_store: u.data_store, log: u.log, intersection_calculation: IntersectionCalculation { foreign_intersections: u.intersection_calculation.foreign_intersections, direct_protocol: q, ..t.intersection_calculation }, ..t })
            &&& u.data_store.wf() && u.data_store.same_graph(t.data_store) && foreign_ok(u) && added(t, u, m)
            &&& u.log.evs@ == (if q.running() { t.log.evs@ } else { t.log.evs@.push(Ev::Done) }) } }),
//@subst ctx: &mut Self::Context, ) -> Self::Result ==> ctx: &mut Context, )
//@subst ctx.address().do_send( ==> ctx.address().vsend(&mut self.log, 
//@rename eq=veqq extend=vextend
//@subst match &mut self.intersection_calculation.foreign_intersections.get_mut(&segment_id) ==> match self.intersection_calculation.foreign_intersections.get_mut(&segment_id)
//@top
    let ghost t0 = *self; let ghost mut z = *self; let ghost m = msg.intersection_coords_by_segment@; let ghost p = self.parameters; let ghost mut all = Seq::<(usize, Vec<Intersection>)>::empty();
//@loop 0 init
        proof { all = vit_0.all(); }
//@loop 0 pre
        let ghost t1 = *self;
//@loop 0
            invariant all == vit_0.all(), 0 <= vit_0.pos() <= all.len(), ok(t1), own_id == t1.cluster_nodes.own, p == t1.parameters, part_ok(m, p.rate),
                forall|i: int| 0 <= i < all.len() ==> m.contains_key((#[trigger] all[i]).0) && m[all[i].0] == all[i].1,
                forall|i: int, j: int| 0 <= i < j < all.len() ==> (#[trigger] all[i]).0 != (#[trigger] all[j]).0,
                *self == (Training { data_store: self.data_store, intersection_calculation: IntersectionCalculation { foreign_intersections: self.intersection_calculation.foreign_intersections, ..t1.intersection_calculation }, ..t1 }),
                self.data_store.wf(), self.data_store.same_graph(t1.data_store), foreign_ok(*self),
                forall|k: usize| #[trigger] added_at(t1, *self, k, part_of(all, vit_0.pos(), m, k)),
            ensures vit_0.pos() == all.len(),
            decreases all.len() - vit_0.pos(),
//@loop 0 top
            let ghost b0 = *self; let ghost j = vit_0.pos() - 1; let ghost c = all[j].0; let ghost f = self.intersection_calculation.foreign_intersections@;
            proof { assert(m.contains_key(c)); assert(m[c] == intersection_by_point); assert(of_segment(m[c]@, c)); }
//@loop 0 end
            proof {
                let g = self.intersection_calculation.foreign_intersections@; let own = own_id;
                assert(foreign_ok(*self)) by { assert forall|k: usize| #[trigger] g.contains_key(k) implies k < p.rate && owner(p, k as int) != own && of_segment(g[k]@, k) by { if owner(p, c as int) == own || k != c { assert(f.contains_key(k)); assert(g[k] == f[k]); } else { if f.contains_key(k) { assert(g[k]@ == f[k]@ + m[c]@); assert(of_segment(f[k]@, k)); } } } }
                assert forall|k: usize| #[trigger] added_at(t1, *self, k, part_of(all, j + 1, m, k)) by {
                    assert(added_at(t1, b0, k, part_of(all, j, m, k)));
                    let x = part_of(all, j, m, k); let y = part_of(all, j + 1, m, k);
                    part_of_step(all, j, m, k);
                    if owner(p, c as int) == own { sel_add(b0.data_store.intersections@, m[c]@, in_segment(), k as int); if k == c { sel_all(m[c]@, in_segment(), k as int); assert(sel(t1.data_store.intersections@, in_segment(), k as int) + x + m[c]@ =~= sel(t1.data_store.intersections@, in_segment(), k as int) + y); } else { sel_none(m[c]@, in_segment(), k as int); assert(sel(b0.data_store.intersections@, in_segment(), k as int) + Seq::<Intersection>::empty() =~= sel(b0.data_store.intersections@, in_segment(), k as int)); } }
                    else { if k == c { assert(group(g, k) =~= group(f, k) + m[c]@); assert(group(g, k) =~= group(t1.intersection_calculation.foreign_intersections@, k) + y); } else { assert(g.contains_key(k) == f.contains_key(k)); assert(group(g, k) == group(f, k)); } }
                }
            }
//@loop 0 after
        proof { assert forall|k: usize| #[trigger] added_at(t1, *self, k, group(m, k)) by { assert(added_at(t1, *self, k, part_of(all, all.len() as int, m, k))); part_of_all(all, m, k); } assert(added(t0, *self, m)) by { assert forall|k: usize| #[trigger] added_at(t0, *self, k, group(m, k)) by { assert(added_at(t1, *self, k, group(m, k))); } } }
        proof { z = *self; }
//@last
    proof { assert(added(t0, z, m)); assert forall|k: usize| #[trigger] added_at(t0, *self, k, group(m, k)) by { assert(added_at(t0, z, k, group(m, k))); } assert(foreign_ok(z)); }
//@end
}
pub open spec fn task_msg(m: IntersectionTaskMessage, ps: Seq<(TransitionRef, SegmentID, Arr, Arr)>, rec: ResultRec) -> bool { m.tasks@ == tasks_of(ps, ps.len() as int) && m.source == rec }
// what happens to the results: t --take in all--> a --> u
pub open spec fn taken(t: Training, a: Training, u: Training, cs: Seq<Intersection>) -> bool {
    let h = t.intersection_calculation.helper_protocol; let g = HelperProtocol { n_sent: (h.n_sent - 1) as usize, n_received: (h.n_received + 1) as usize, ..h };
    &&& assigned(Training { intersection_calculation: IntersectionCalculation { helper_protocol: g, ..t.intersection_calculation }, ..t }, a, cs)
    &&& g.n_received < g.n_total ==> u == a
    // the last results: the helper is stopped, and the distribution begins
    &&& g.n_received >= g.n_total ==> ({ let b = Training { log: Log { evs: Ghost(a.log.evs@.push(Ev::Pill)) }, ..a };
        if t.intersection_calculation.recipient is Some { u == (Training { log: u.log, ..a }) && u.log.evs@ == b.log.evs@.push(Ev::Done) } else { distribution(b, u) } })
}
// a message as it is sent: every intersection under its own segment
pub open spec fn part_ok(m: Map2, rate: usize) -> bool { forall|k: usize| #[trigger] m.contains_key(k) ==> k < rate && of_segment(m[k]@, k) }
// segment k gets the intersections x: in the data store if it is an own one, otherwise kept for the owner
pub open spec fn added_at(t: Training, u: Training, k: usize, x: Seq<Intersection>) -> bool {
    let s = sel(t.data_store.intersections@, in_segment(), k as int); let r = sel(u.data_store.intersections@, in_segment(), k as int); let f = group(t.intersection_calculation.foreign_intersections@, k); let g = group(u.intersection_calculation.foreign_intersections@, k);
    if owner(t.parameters, k as int) == t.cluster_nodes.own { r == s + x && g == f } else { r == s && g == f + x }
}
pub open spec fn added(t: Training, u: Training, m: Map2) -> bool { forall|k: usize| #[trigger] added_at(t, u, k, group(m, k)) }
// the part of segment k among the first j entries
pub open spec fn part_of(all: Seq<(usize, Vec<Intersection>)>, j: int, m: Map2, k: usize) -> Seq<Intersection> { if exists|i: int| 0 <= i < j && i < all.len() && (#[trigger] all[i]).0 == k { group(m, k) } else { Seq::empty() } }
pub proof fn part_of_step(all: Seq<(usize, Vec<Intersection>)>, j: int, m: Map2, k: usize)
    requires 0 <= j < all.len(), m.contains_key(all[j].0), forall|a: int, b: int| 0 <= a < b < all.len() ==> (#[trigger] all[a]).0 != (#[trigger] all[b]).0
    ensures k == all[j].0 ==> part_of(all, j, m, k).len() == 0 && part_of(all, j + 1, m, k) == m[k]@, k != all[j].0 ==> part_of(all, j + 1, m, k) == part_of(all, j, m, k)
{ if k == all[j].0 { assert(all[j].0 == k); } else { if exists|i: int| 0 <= i < j && i < all.len() && (#[trigger] all[i]).0 == k { let i = choose|i: int| 0 <= i < j && i < all.len() && (#[trigger] all[i]).0 == k; assert(0 <= i < j + 1 && all[i].0 == k); } } }
pub proof fn part_of_all(all: Seq<(usize, Vec<Intersection>)>, m: Map2, k: usize)
    requires forall|i: int| 0 <= i < all.len() ==> m.contains_key((#[trigger] all[i]).0), forall|k: usize| m.contains_key(k) ==> exists|i: int| 0 <= i < all.len() && (#[trigger] all[i]).0 == k
    ensures part_of(all, all.len() as int, m, k) == group(m, k) { }
pub proof fn sel_all<T>(s: Seq<T>, key: spec_fn(T) -> int, k: int) requires forall|i: int| 0 <= i < s.len() ==> key(#[trigger] s[i]) == k ensures sel(s, key, k) == s decreases s.len() { if s.len() > 0 { sel_all(s.drop_last(), key, k); assert(sel(s, key, k) =~= s); } else { assert(sel(s, key, k) =~= s); } }
pub proof fn sel_none<T>(s: Seq<T>, key: spec_fn(T) -> int, k: int) requires forall|i: int| 0 <= i < s.len() ==> key(#[trigger] s[i]) != k ensures sel(s, key, k).len() == 0 decreases s.len() { if s.len() > 0 { sel_none(s.drop_last(), key, k); } }
#[verifier::external_body] pub fn vaddr(a: &Option<Addr>) -> Addr requires a is Some { unimplemented!() }
#[verifier::external_body] pub fn vdiv_ceil(a: usize, b: usize) -> (r: usize) requires b > 0 ensures r as int == (a + b - 1) / (b as int) { unimplemented!() }

// ---- the helper: one result per task, in order, for the task's own transition and segment ----------
pub struct IntersectionCalculationHelper { pub log: Log }
pub open spec fn result_of(r: IntersectionResult, t: IntersectionTask) -> bool { r.transition == t.transition && r.segment_id == t.segment_id }
pub open spec fn results_of(rs: Seq<IntersectionResult>, ts: Seq<IntersectionTask>) -> bool { rs.len() == ts.len() && forall|i: int| 0 <= i < ts.len() ==> result_of(#[trigger] rs[i], ts[i]) }
// C04: a transition is not parallel to the planes it crosses
#[verifier::external_body] pub fn line_plane_intersection(l: Arr, p: Arr) -> (r: Result<Arr, ()>) ensures r is Ok { unimplemented!() }
impl IntersectionCalculationHelper {
//@extract src/training/intersection_calculation/helper.rs :: impl IntersectionCalculationHelper :: work
//@ret r
//@spec
    ensures result_of(r, task),
//@havoc shape ()
//@havoc reshaped ()
//@havoc distance Coords
//@end
//@extract src/training/intersection_calculation/helper.rs :: impl Handler<IntersectionTaskMessage> for IntersectionCalculationHelper :: handle
//@spec
    ensures exists|m: IntersectionResultMessage| #[trigger] results_of(m.results@, msg.tasks@) && final(self).log.evs@ == old(self).log.evs@.push(Ev::Result { m }),
//@subst _ctx: &mut Self::Context) -> Self::Result ==> ctx: &mut Context)
//@subst msg.tasks.into_iter() ==> vinto(msg.tasks)
//@closure 0
    |task: IntersectionTask| -> (o: IntersectionResult) ensures result_of(o, task)
//@subst msg.source.do_send( ==> msg.source.vsend(&mut self.log, 
//@last
    proof { let m = self.log.evs@.last()->Result_m; assert(results_of(m.results@, msg.tasks@)); }
//@end
}
// ---- together: from the pairs to the owners ---------------------------------------------------------
// the results of the tasks are for the pairs' transitions and segments: nothing lost, nothing twice
pub proof fn every_pair_is_cut_once(ps: Seq<(TransitionRef, SegmentID, Arr, Arr)>, m: IntersectionTaskMessage, rec: ResultRec, rs: Seq<IntersectionResult>, i: int)
    requires task_msg(m, ps, rec), results_of(rs, m.tasks@), 0 <= i < ps.len()
    ensures rs.len() == ps.len(), cut(rs[ps.len() - 1 - i]).from_point_id == ps[i].0.from_point.id(), cut(rs[ps.len() - 1 - i]).segment_id == ps[i].1
{ let j = ps.len() - 1 - i; assert(result_of(rs[j], m.tasks@[j])); }
// an intersection taken in is in the data store if its segment is an own one, otherwise it is kept for its segment
pub proof fn none_lost(t: Training, u: Training, cs: Seq<Intersection>, i: int)
    requires ok(t), assigned(t, u, cs), 0 <= i < cs.len(), cs[i].segment_id < t.parameters.rate
    ensures owner(t.parameters, cs[i].segment_id as int) == t.cluster_nodes.own ==> u.data_store.intersections@.contains(cs[i]),
        owner(t.parameters, cs[i].segment_id as int) != t.cluster_nodes.own ==> group(u.intersection_calculation.foreign_intersections@, cs[i].segment_id).contains(cs[i]),
{
    let k = cs[i].segment_id; let p = t.parameters;
    if owner(p, k as int) == t.cluster_nodes.own { sel_has(cs, by_owner(p), i); let s = sel(cs, by_owner(p), t.cluster_nodes.own as int); let j = choose|j: int| 0 <= j < s.len() && s[j] == cs[i]; let d = t.data_store.intersections@; assert(u.data_store.intersections@[d.len() + j] == cs[i]); }
    else { sel_has(cs, in_segment(), i); let s = sel(cs, in_segment(), k as int); let j = choose|j: int| 0 <= j < s.len() && s[j] == cs[i]; let d = group(t.intersection_calculation.foreign_intersections@, k); assert(group(u.intersection_calculation.foreign_intersections@, k)[d.len() + j] == cs[i]); }
}
// of the messages sent, exactly one carries segment k: the one to its owner, with all that was kept for it
pub proof fn one_message_per_segment(t: Training, old: Seq<Ev>, new: Seq<Ev>, ids: Seq<usize>, k: usize)
    requires ok(t), all_others(ids, t.cluster_nodes.n as int, t.cluster_nodes.own as int), parts_sent(t.parameters, old, new, ids, t.intersection_calculation.foreign_intersections@), t.intersection_calculation.foreign_intersections@.contains_key(k)
    ensures exists|i: int| 0 <= i < ids.len() && #[trigger] carries(new[old.len() + i], k, t.intersection_calculation.foreign_intersections@[k]@) && new[old.len() + i]->Rot_to == Some(owner(t.parameters, k as int) as usize)
            && forall|j: int| 0 <= j < ids.len() && j != i ==> !has_segment(#[trigger] new[old.len() + j], k)
{
    let p = t.parameters; let f = t.intersection_calculation.foreign_intersections@; owner_bound(p, k as int); let o = owner(p, k as int) as usize;
    assert(ids.contains(o)); let i = choose|i: int| 0 <= i < ids.len() && ids[i] == o;
    assert(part_sent(p, new[old.len() + i], ids[i], f)); assert(new[old.len() + i]->Rot_m.intersection_coords_by_segment@.contains_key(k)); assert(carries(new[old.len() + i], k, f[k]@));
    assert forall|j: int| 0 <= j < ids.len() && j != i implies !has_segment(#[trigger] new[old.len() + j], k) by { assert(part_sent(p, new[old.len() + j], ids[j], f)); assert(ids[j] != ids[i]); if has_segment(new[old.len() + j], k) { assert(new[old.len() + j]->Rot_m.intersection_coords_by_segment@.contains_key(k)); } }
}
pub open spec fn has_segment(e: Ev, k: usize) -> bool { e is Rot && e->Rot_m.intersection_coords_by_segment@.contains_key(k) }
pub open spec fn carries(e: Ev, k: usize, x: Seq<Intersection>) -> bool { has_segment(e, k) && e->Rot_m.intersection_coords_by_segment@[k]@ == x }
// what is sent is what the receiver expects: only segments of the receiver, each intersection under its segment; so the receiver stores all of it and keeps nothing back
pub proof fn receiver_stores_all(s: Training, e: Ev, id: usize, t: Training, u: Training)
    requires ok(s), part_sent(s.parameters, e, id, s.intersection_calculation.foreign_intersections@), t.parameters == s.parameters, t.cluster_nodes.own == id, added(t, u, e->Rot_m.intersection_coords_by_segment@)
    ensures part_ok(e->Rot_m.intersection_coords_by_segment@, s.parameters.rate), forall|k: usize| #[trigger] group(u.intersection_calculation.foreign_intersections@, k) == group(t.intersection_calculation.foreign_intersections@, k),
        forall|k: usize| owner(s.parameters, k as int) == id && k < s.parameters.rate ==> #[trigger] sel(u.data_store.intersections@, in_segment(), k as int) == sel(t.data_store.intersections@, in_segment(), k as int) + group(s.intersection_calculation.foreign_intersections@, k),
{
    let m = e->Rot_m.intersection_coords_by_segment@; let f = s.intersection_calculation.foreign_intersections@; let p = s.parameters;
    assert forall|k: usize| #[trigger] m.contains_key(k) implies k < p.rate && of_segment(m[k]@, k) by { assert(f.contains_key(k)); }
    assert forall|k: usize| #[trigger] group(u.intersection_calculation.foreign_intersections@, k) == group(t.intersection_calculation.foreign_intersections@, k) by { assert(added_at(t, u, k, group(m, k))); if owner(p, k as int) != id { assert(!m.contains_key(k)); assert(group(t.intersection_calculation.foreign_intersections@, k) + Seq::<Intersection>::empty() =~= group(t.intersection_calculation.foreign_intersections@, k)); } }
    assert forall|k: usize| owner(p, k as int) == id && k < p.rate implies #[trigger] sel(u.data_store.intersections@, in_segment(), k as int) == sel(t.data_store.intersections@, in_segment(), k as int) + group(f, k) by { assert(added_at(t, u, k, group(m, k))); assert(m.contains_key(k) == f.contains_key(k)); assert(group(m, k) == group(f, k)); }
}
} // verus!
fn main() {}
