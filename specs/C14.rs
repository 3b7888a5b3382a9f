//! build_segments, mirroring and the boundary transition are C02/C03; here: who is sent what, what is kept, and when the stage is done.
//! cluster_nodes.iter() yields every other node once (C12); counts stay below 2^30 messages.
//@include base.rs
//@include coll.rs
//@include points.rs
verus! {
pub enum Ev { First { to: Option<usize>, m: SendFirstPointMessage }, Seg { to: Option<usize>, m: SegmentMessage }, Count { to: Option<usize>, m: TransitionCountMessage }, Segmented }
} // verus!
//@include net.rs
//@include proto.rs
//@include proto_direct.rs
verus! {
pub type TransitionsForNodes = HashMap<usize, Vec<MaterializedTransition>>;
impl HashMap<usize, Vec<MaterializedTransition>> { #[verifier::external_body] pub fn vclone(&self) -> (r: Self) ensures r@ == self@ { unimplemented!() } }
pub struct SegmentMessage { pub segments: Vec<MaterializedTransition> }
pub struct SendFirstPointMessage { pub point: Point, pub transition: Option<MaterializedTransition> }
pub struct TransitionCountMessage { pub count: usize, pub clockwise_count: usize }
pub struct SegmentedMessage;
pub open spec fn group<T>(m: Map<usize, Vec<T>>, k: usize) -> Seq<T> { if m.contains_key(k) { m[k]@ } else { Seq::empty() } }
impl VMsg for SendFirstPointMessage { open spec fn ev(self, to: Option<usize>) -> Ev { Ev::First { to, m: self } } }
impl VMsg for SegmentMessage { open spec fn ev(self, to: Option<usize>) -> Ev { Ev::Seg { to, m: self } } }
impl VMsg for TransitionCountMessage { open spec fn ev(self, to: Option<usize>) -> Ev { Ev::Count { to, m: self } } }
impl VMsg for SegmentedMessage { open spec fn ev(self, to: Option<usize>) -> Ev { Ev::Segmented } }
pub struct Parameters { pub n_cluster_nodes: usize, pub rate: usize, pub self_correction: bool }
#[verifier::external_body] pub struct NodeQuestions { p: usize }
impl NodeQuestions { pub uninterp spec fn clean(self) -> bool; #[verifier::external_body] pub fn clear(&mut self) ensures final(self).clean() { unimplemented!() } }
pub struct DataStore { pub points: Ghost<Seq<PointRef>>, pub transitions: Ghost<Seq<Transition>> }
pub open spec fn mts(v: Seq<MaterializedTransition>) -> Seq<Transition> { Seq::new(v.len(), |i: int| v[i].tr()) }
impl DataStore {
    // C02
    #[verifier::external_body] pub fn add_materialized_transitions(&mut self, v: Vec<MaterializedTransition>) ensures final(self).transitions@ == old(self).transitions@ + mts(v@) { unimplemented!() }
    #[verifier::external_body] pub fn count_transitions(&self) -> (r: usize) ensures r == self.transitions@.len() { unimplemented!() }
    #[verifier::external_body] pub fn clear_transitions(&mut self) ensures final(self).transitions@.len() == 0, final(self).points == old(self).points { unimplemented!() }
    #[verifier::external_body] pub fn mirror_points(&mut self, n: usize) ensures final(self).points@ == mirrored(old(self).points@), final(self).transitions == old(self).transitions { unimplemented!() }
}
pub uninterp spec fn mirrored(a: Seq<PointRef>) -> Seq<PointRef>;
pub struct Segmentation {
    pub send_point: Option<Point>, pub send_transition: Option<MaterializedTransition>, pub last_point: Option<Point>, pub last_transition: Option<Transition>,
    pub awaits_first_point: bool, pub first_point_buffer: Option<SendFirstPointMessage>,
    pub direct_protocol: DirectProtocol<SegmentMessage>, pub node_questions: NodeQuestions, pub transitions_for_nodes: TransitionsForNodes,
    pub transition_count_protocol: RotationProtocol<TransitionCountMessage>, pub global_transition_count: usize, pub invalid_transition_directions: usize,
}
pub struct Training { pub parameters: Parameters, pub cluster_nodes: ClusterNodes, pub data_store: DataStore, pub segmentation: Segmentation, pub own_addr: Option<Addr>, pub log: Log, pub inbox_s: Inbox<SegmentMessage>, pub inbox_c: Inbox<TransitionCountMessage>, pub inbox_f: Inbox<SendFirstPointMessage> }
pub open spec fn ok(t: Training) -> bool { t.cluster_nodes.wf() && t.cluster_nodes.n == t.parameters.n_cluster_nodes && t.own_addr is Some && t.segmentation.direct_protocol.n_sent < 0x4000_0000 && t.segmentation.direct_protocol.n_received < 0x4000_0000 && t.segmentation.transition_count_protocol.n_sent < 0x4000_0000 && t.segmentation.transition_count_protocol.n_received < 0x4000_0000 }

// one message to each node id of the list, with that node's transitions
pub open spec fn part_sent(e: Ev, k: usize, m: Map<usize, Vec<MaterializedTransition>>) -> bool { e is Seg && e->Seg_to == Some(k) && e->Seg_m.segments@ == group(m, k) }
pub open spec fn parts_sent(old: Seq<Ev>, new: Seq<Ev>, ids: Seq<usize>, m: Map<usize, Vec<MaterializedTransition>>) -> bool { new.len() == old.len() + ids.len() && new.take(old.len() as int) == old && forall|i: int| 0 <= i < ids.len() ==> part_sent(#[trigger] new[old.len() + i], ids[i], m) }
// all that distribution does: every other node is sent its transitions in one message; alone, the stage is done
pub open spec fn distributed(t: Training, u: Training, m: Map<usize, Vec<MaterializedTransition>>) -> bool {
    let n = t.cluster_nodes.n as int;
    &&& u == (Training { log: u.log, segmentation: Segmentation { direct_protocol: u.segmentation.direct_protocol, ..t.segmentation }, ..t })
    &&& u.segmentation.direct_protocol == (DirectProtocol { n_sent: (t.segmentation.direct_protocol.n_sent + n - 1) as usize, ..t.segmentation.direct_protocol })
    &&& n == 1 ==> u.log.evs@ == t.log.evs@.push(Ev::Segmented)
    &&& n > 1 ==> exists|ids: Seq<usize>| #[trigger] all_others(ids, n, t.cluster_nodes.own as int) && parts_sent(t.log.evs@, u.log.evs@, ids, m)
}
// whether the node has to wait for the first point of the next one
pub open spec fn waits(t: Training) -> bool { t.cluster_nodes.n > 1 && t.cluster_nodes.own != t.cluster_nodes.n - 1 }
// the first point goes to the previous node once: with the first transition, or when it is clear that there is none. A node without an own transition that waits for the next node keeps it until then (C03).
pub open spec fn keeps(t: Training) -> bool { waits(t) && t.segmentation.send_transition is None }
pub open spec fn sent_with(t: Training, tr: Option<MaterializedTransition>) -> Seq<Ev> { if t.segmentation.send_point is Some { seq![Ev::First { to: Some(t.cluster_nodes.prev()), m: SendFirstPointMessage { point: t.segmentation.send_point->0, transition: tr } }] } else { seq![] } }
pub open spec fn first_sent(t: Training) -> Seq<Ev> { if t.cluster_nodes.n > 1 && !keeps(t) { sent_with(t, t.segmentation.send_transition) } else { seq![] } }
pub open spec fn left(t: Training) -> Option<Point> { if keeps(t) { t.segmentation.send_point } else { None } }
pub open spec fn after_first(t: Training, log: Log) -> Training { Training { log, segmentation: Segmentation { send_point: left(t), send_transition: None, ..t.segmentation }, ..t } }
pub open spec fn shared(t: Training, u: Training, nt: Map<usize, Vec<MaterializedTransition>>) -> bool {
        // not the last of several nodes: wait for the next node's first point; one that is already there comes back
        &&& waits(t) ==> u.log.evs@ == t.log.evs@ + first_sent(t) && u.segmentation.awaits_first_point && u.segmentation.transitions_for_nodes@ == nt && u.segmentation.first_point_buffer is None
              && u.inbox_f.got@ == (if t.segmentation.first_point_buffer is Some { t.inbox_f.got@.push(t.segmentation.first_point_buffer->0) } else { t.inbox_f.got@ })
              && u == (Training { log: u.log, inbox_f: u.inbox_f, segmentation: Segmentation { send_point: left(t), send_transition: None, awaits_first_point: true, first_point_buffer: None, transitions_for_nodes: u.segmentation.transitions_for_nodes, ..t.segmentation }, ..t })
        // otherwise distribute at once, and take up what came early
        &&& !waits(t) ==> exists|m: Training| #[trigger] distributed(m, u, nt) && m.log.evs@ == t.log.evs@ + first_sent(t) && m.inbox_s.got@ == t.inbox_s.got@ + t.segmentation.direct_protocol.buffer@ && m.segmentation.direct_protocol.buffer@.len() == 0
              && m == (Training { log: m.log, inbox_s: m.inbox_s, segmentation: Segmentation { send_point: left(t), send_transition: None, direct_protocol: DirectProtocol { n_total: (t.cluster_nodes.n - 1) as usize, buffer: m.segmentation.direct_protocol.buffer, ..t.segmentation.direct_protocol }, ..t.segmentation }, ..t }) 
}
// everything of the unmirrored points is gone
pub open spec fn cleared(t: Training, u: Training) -> bool { u == (Training { data_store: DataStore { transitions: u.data_store.transitions, ..t.data_store }, segmentation: Segmentation { send_point: None, send_transition: None, last_point: None, last_transition: None, node_questions: u.segmentation.node_questions, ..t.segmentation }, ..t }) && u.data_store.transitions@.len() == 0 && u.segmentation.node_questions.clean() }
pub uninterp spec fn built_of(points: Seq<PointRef>, p: Parameters, own: usize, corr: bool) -> (Map<usize, Vec<MaterializedTransition>>, Option<Point>, Option<MaterializedTransition>);
pub open spec fn built(t: Training, u: Training, r: Map<usize, Vec<MaterializedTransition>>) -> bool {
    &&& u == (Training { data_store: DataStore { transitions: u.data_store.transitions, ..t.data_store }, segmentation: Segmentation { send_point: u.segmentation.send_point, send_transition: u.segmentation.send_transition, last_point: u.segmentation.last_point, last_transition: u.segmentation.last_transition, node_questions: u.segmentation.node_questions, invalid_transition_directions: u.segmentation.invalid_transition_directions, ..t.segmentation }, ..t })
    &&& (r, u.segmentation.send_point, u.segmentation.send_transition) == built_of(t.data_store.points@, t.parameters, t.cluster_nodes.own, true) && (t.cluster_nodes.own == 0 ==> u.segmentation.send_point is None)
}
// mirrored and segmented anew
pub open spec fn resegmented(t: Training, b: Training, nt: Map<usize, Vec<MaterializedTransition>>) -> bool {
    &&& b.data_store.points@ == mirrored(t.data_store.points@) && (nt, b.segmentation.send_point, b.segmentation.send_transition) == built_of(mirrored(t.data_store.points@), t.parameters, t.cluster_nodes.own, true)
    &&& b == (Training { data_store: b.data_store, segmentation: Segmentation { send_point: b.segmentation.send_point, send_transition: b.segmentation.send_transition, last_point: b.segmentation.last_point, last_transition: b.segmentation.last_transition, node_questions: b.segmentation.node_questions, invalid_transition_directions: b.segmentation.invalid_transition_directions, ..t.segmentation }, ..t })
}
// the decision: the clockwise transitions outnumber the valid ones
pub open spec fn corrected(t: Training, u: Training) -> bool {
    if t.segmentation.global_transition_count < t.segmentation.invalid_transition_directions { exists|b: Training, nt: Map<usize, Vec<MaterializedTransition>>| #[trigger] resegmented(t, b, nt) && shared(b, u, nt) } else { shared(t, u, t.segmentation.transitions_for_nodes@) }
}
impl Training {
//@extract src/training/segmentation/mod.rs :: impl Segmenter for Training :: send_first_point
//@spec
    requires ok(*old(self)), old(self).cluster_nodes.n > 1,
    ensures final(self).log.evs@ == old(self).log.evs@ + sent_with(*old(self), transition), *final(self) == (Training { log: final(self).log, segmentation: Segmentation { send_point: None, ..old(self).segmentation }, ..*old(self) }),
//@subst "Training" ==> ()
//@subst .do_send( ==> .vsend(&mut self.log, 
//@top
    proof { let e = self.log.evs@; assert(e + Seq::<Ev>::empty() =~= e); assert forall|x: Ev| e + seq![x] == #[trigger] e.push(x) by { assert(e + seq![x] =~= e.push(x)); } }
//@end
//@extract src/training/segmentation/mod.rs :: impl Segmenter for Training :: try_send_inter_node_points
//@ret r
//@spec
    requires ok(*old(self)), old(self).cluster_nodes.n == 1 ==> old(self).segmentation.send_point is None,
    ensures r == waits(*old(self)), final(self).log.evs@ == old(self).log.evs@ + first_sent(*old(self)), *final(self) == after_first(*old(self), final(self).log),
//@subst "This should be empty, because there are no other cluster nodes!" ==> 
//@rename ne=vne
//@top
    let ghost t0 = *self; proof { let e = self.log.evs@; assert(e + Seq::<Ev>::empty() =~= e); }
//@end
//@extract src/training/segmentation/mod.rs :: impl Segmenter for Training :: distribute_segments
//@spec
    requires ok(*old(self)),
    ensures distributed(*old(self), *final(self), foreign_data@),
//@subst mut foreign_data: TransitionsForNodes) ==> foreign_data: TransitionsForNodes)
//@subst foreign_data.remove(id) ==> vfd.remove(id)
//@subst "Training".to_string() ==> ()
//@subst .expect("Should be set by now").do_send(SegmentedMessage) ==> .unwrap().vsend(&mut self.log, SegmentedMessage)
//@subst self.own_addr.as_ref() ==> Some(vaddr(&self.own_addr))
//@subst training_node.do_send( ==> training_node.vsend(&mut self.log, 
//@top
    let mut vfd = foreign_data; let ghost e0 = self.log.evs@; let ghost mut keys = Seq::<usize>::empty(); let ghost k0 = e0.len() as int; proof { assert(e0.take(k0) =~= e0); }
//@loop 0 init
        proof { keys = keys_of(vit_0.all()); assert(keys.take(0) =~= Seq::<usize>::empty()); }
//@loop 0
            invariant ok(*old(self)), self.cluster_nodes == old(self).cluster_nodes, e0 == old(self).log.evs@, k0 == e0.len(),
                *self == (Training { log: self.log, segmentation: Segmentation { direct_protocol: self.segmentation.direct_protocol, ..old(self).segmentation }, ..*old(self) }),
                self.segmentation.direct_protocol == (DirectProtocol { n_sent: (old(self).segmentation.direct_protocol.n_sent + vit_0.pos()) as usize, ..old(self).segmentation.direct_protocol }),
                keys == keys_of(vit_0.all()), all_others(keys, self.cluster_nodes.n as int, self.cluster_nodes.own as int), 0 <= vit_0.pos() <= keys.len(), forall|i: int| 0 <= i < keys.len() ==> (#[trigger] vit_0.all()[i]).1.idx == keys[i],
                self.cluster_nodes.n == 1 ==> self.log.evs@ == e0.push(Ev::Segmented),
                self.cluster_nodes.n > 1 ==> parts_sent(e0, self.log.evs@, keys.take(vit_0.pos()), foreign_data@),
                forall|i: int| vit_0.pos() <= i < keys.len() ==> group(vfd@, #[trigger] keys[i]) == group(foreign_data@, keys[i]),
            ensures vit_0.pos() == vit_0.all().len(),
            decreases vit_0.all().len() - vit_0.pos(),
//@loop 0 top
            let ghost v0 = vfd@; let ghost l0 = self.log.evs@; let ghost p = vit_0.pos() - 1; let ghost c = keys[p]; proof { assert(*id == c && node.idx == c); assert(group(v0, c) == group(foreign_data@, c)); }
//@loop 0 end
            proof {
                let ids = keys.take(p + 1);
                assert forall|i: int| 0 <= i < ids.len() implies part_sent(#[trigger] self.log.evs@[k0 + i], ids[i], foreign_data@) by { if i < p { assert(self.log.evs@[k0 + i] == l0[k0 + i]); assert(part_sent(l0[k0 + i], keys.take(p)[i], foreign_data@)); } else { assert(self.log.evs@[k0 + i]->Seg_m.segments@ =~= group(v0, c)); } }
                assert(self.log.evs@.take(k0) =~= l0.take(k0));
                assert forall|i: int| vit_0.pos() <= i < keys.len() implies group(vfd@, #[trigger] keys[i]) == group(foreign_data@, keys[i]) by { assert(keys[i] != c); assert(vfd@.contains_key(keys[i]) == v0.contains_key(keys[i])); }
            }
//@loop 0 after
        proof { assert(keys.take(keys.len() as int) =~= keys); }
//@end
//@extract src/training/segmentation/mod.rs :: impl Segmenter for Training :: distribute_or_wait_for_segments
//@spec
    requires ok(*old(self)), old(self).cluster_nodes.n == 1 ==> old(self).segmentation.send_point is None,
    ensures shared(*old(self), *final(self), node_transitions@),
//@subst ctx: &mut Context<Training> ==> ctx: &mut Context
//@subst ctx.address().do_send(msg) ==> self.inbox_f.vput(msg)
//@subst resolve_buffer(ctx.address().recipient()) ==> resolve_buffer(&mut self.inbox_s)
//@subst self.distribute_segments(node_transitions); ==> let ghost m = *self; self.distribute_segments(node_transitions); proof { assert(distributed(m, *self, node_transitions@)); }
//@end
//@extract src/training/segmentation/mod.rs :: impl Handler<SegmentMessage> for Training :: handle
//@subst fn handle( ==> fn handle_seg(
//@spec
    requires ok(*old(self)),
    ensures ({ let t = *old(self); let u = *final(self); let p = t.segmentation.direct_protocol;
        // early: kept
        if !p.running() { u == (Training { segmentation: Segmentation { direct_protocol: u.segmentation.direct_protocol, ..t.segmentation }, ..t }) && u.segmentation.direct_protocol == (DirectProtocol { buffer: u.segmentation.direct_protocol.buffer, ..p }) && u.segmentation.direct_protocol.buffer@ == p.buffer@.push(msg) }
        // otherwise the transitions are added; the stage is done with the last message
        else { let q = DirectProtocol { n_received: (p.n_received + 1) as usize, ..p };
            &&& u.data_store.transitions@ == t.data_store.transitions@ + mts(msg.segments@)
            &&& u == (Training { data_store: u.data_store, log: u.log, segmentation: Segmentation { direct_protocol: q, ..t.segmentation }, ..t })
            &&& u.log.evs@ == (if q.running() { t.log.evs@ } else { t.log.evs@.push(Ev::Segmented) }) } }),
//@subst ctx: &mut Self::Context ==> ctx: &mut Context
//@subst -> Self::Result ==>
//@subst ctx.address().do_send( ==> ctx.address().vsend(&mut self.log, 
//@end
    // C03: the valid transitions of the points. Started on a clean state only: send_transition is kept when there is one, questions are added.
    #[verifier::external_body] pub fn build_segments(&mut self) -> (r: TransitionsForNodes)
        requires old(self).segmentation.send_point is None, old(self).segmentation.send_transition is None, old(self).data_store.transitions@.len() == 0, old(self).segmentation.node_questions.clean(),
        ensures built(*old(self), *final(self), r@) { unimplemented!() }
//@extract src/training/segmentation/mod.rs :: impl Segmenter for Training :: clear_segmentation
//@spec
    ensures cleared(*old(self), *final(self)),
//@end
//@extract src/training/segmentation/mod.rs :: impl Segmenter for Training :: finish_self_correction
//@spec
    requires ok(*old(self)), old(self).cluster_nodes.n == 1 ==> old(self).segmentation.send_point is None,
    ensures shared(*old(self), *final(self), old(self).segmentation.transitions_for_nodes@),
//@subst ctx: &mut Context<Training> ==> ctx: &mut Context
//@subst self.segmentation.transitions_for_nodes.clone() ==> self.segmentation.transitions_for_nodes.vclone()
//@end
//@extract src/training/segmentation/mod.rs :: impl Segmenter for Training :: try_self_correction
//@spec
    requires ok(*old(self)), old(self).cluster_nodes.n == 1 ==> old(self).segmentation.send_point is None,
    ensures corrected(*old(self), *final(self)),
//@subst ctx: &mut Context<Training> ==> ctx: &mut Context
//@drop debug!
//@drop warn!
//@subst self.distribute_or_wait_for_segments(node_transitions, ctx); ==> let ghost b = *self; self.distribute_or_wait_for_segments(node_transitions, ctx); proof { assert(resegmented(*old(self), b, node_transitions@) && shared(b, *self, node_transitions@)); }
//@end
//@extract src/training/segmentation/mod.rs :: impl Handler<TransitionCountMessage> for Training :: handle
//@subst fn handle( ==> fn handle_count(
//@spec
    requires ok(*old(self)), old(self).cluster_nodes.n > 1, old(self).segmentation.global_transition_count + msg.count < usize::MAX, old(self).segmentation.invalid_transition_directions + msg.clockwise_count < usize::MAX,
    ensures ({ let t = *old(self); let u = *final(self); let p = t.segmentation.transition_count_protocol; let g = t.segmentation.global_transition_count + msg.count; let i = t.segmentation.invalid_transition_directions + msg.clockwise_count;
        if !p.running() { u == (Training { segmentation: Segmentation { transition_count_protocol: u.segmentation.transition_count_protocol, ..t.segmentation }, ..t }) && u.segmentation.transition_count_protocol == (RotationProtocol { buffer: u.segmentation.transition_count_protocol.buffer, ..p }) && u.segmentation.transition_count_protocol.buffer@ == p.buffer@.push(msg) }
        else { let q = RotationProtocol { n_received: (p.n_received + 1) as usize, ..p };
            // counted once; the last one decides, the others are passed on unchanged
            if !q.running() { corrected(Training { segmentation: Segmentation { global_transition_count: g as usize, invalid_transition_directions: i as usize, transition_count_protocol: q, ..t.segmentation }, ..t }, u) }
            else { u == (Training { log: u.log, segmentation: Segmentation { global_transition_count: g as usize, invalid_transition_directions: i as usize, transition_count_protocol: RotationProtocol { n_sent: (q.n_sent + 1) as usize, ..q }, ..t.segmentation }, ..t }) && u.log.evs@ == t.log.evs@.push(Ev::Count { to: Some(t.cluster_nodes.next()), m: msg }) } } }),
//@subst ctx: &mut Self::Context ==> ctx: &mut Context
//@subst -> Self::Result ==>
//@subst "Training" ==> ()
//@subst next_node.do_send( ==> next_node.vsend(&mut self.log, 
//@end
}
#[verifier::external_body] pub fn vaddr(a: &Option<Addr>) -> Addr requires a is Some { unimplemented!() }
} // verus!
fn main() {}
