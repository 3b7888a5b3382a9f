//! PointRef/Point are opaque: only id and segment are visible; a shared point is not changed while points are being segmented.
//! segment_id_to_assignment is used through the contract proved in C01; the ring index functions through the contracts proved in C12; the questions asked are recorded as an abstract log (their content is C19).
//! actix addresses/recipients are opaque; a send is recorded.
//@include base.rs
//@include coll.rs
//@include points.rs
//@include owner.rs
verus! {
pub type TransitionsForNodes = HashMap<usize, Vec<MaterializedTransition>>;
// one recorded question: (transition, previous transition, within?, span)
pub struct Ask { pub t: Transition, pub prev: Option<Transition>, pub within: bool, pub span: int }
#[verifier::external_body]
pub struct NodeQuestions { p: usize }
impl NodeQuestions {
    pub uninterp spec fn log(&self) -> Seq<Ask>;
    #[verifier::external_body]
    pub fn ask(&mut self, transition: &Transition, prev_transition: Option<Transition>, within_transition: bool, cluster_span: usize, parameters: Parameters)
        ensures final(self).log() == old(self).log().push(Ask { t: *transition, prev: prev_transition, within: within_transition, span: cluster_span as int }) { unimplemented!() }
    #[verifier::external_body] pub fn clear(&mut self) ensures final(self).log() == Seq::<Ask>::empty() { unimplemented!() }
}
// actix: opaque
#[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct Context<T> { p: core::marker::PhantomData<T> }
pub struct Addr { }
impl Addr { #[verifier::external_body] pub fn recipient(self) -> Addr { unimplemented!() } }
impl<T> Context<T> { #[verifier::external_body] pub fn address(&self) -> Addr { unimplemented!() } }
// Direct/RotationProtocol, through the contracts proved in C11
pub struct Proto { pub n_total: usize, pub n_sent: usize, pub n_received: usize }
impl Proto {
    #[verifier::external_body] pub fn start(&mut self, n_total: usize) ensures final(self).n_total == n_total, final(self).n_sent == old(self).n_sent, final(self).n_received == old(self).n_received { unimplemented!() }
    #[verifier::external_body] pub fn sent(&mut self) ensures final(self).n_sent == old(self).n_sent + 1, final(self).n_total == old(self).n_total, final(self).n_received == old(self).n_received { unimplemented!() }
    #[verifier::external_body] pub fn resolve_buffer<R>(&mut self, r: R) ensures *final(self) == *old(self) { unimplemented!() }
}
pub struct RemoteAddr { pub idx: Ghost<int> }
pub struct TransitionCountMessage { pub count: usize, pub clockwise_count: usize }
pub struct SendFirstPointMessage { pub point: Point, pub transition: Option<MaterializedTransition> }
pub struct ClusterNodes { pub n: usize, pub own: usize }
impl ClusterNodes {
    #[verifier::external_body] pub fn get_next_as(&self, id: Str) -> (r: Option<RemoteAddr>) ensures (r is Some) == (self.n > 1), r is Some ==> r->0.idx@ == (self.own + 1) % (self.n as int) { unimplemented!() }
    #[verifier::external_body] pub fn get_own_idx(&self) -> (r: usize) ensures r == self.own { unimplemented!() }
    #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self.n - 1 { unimplemented!() }
}
// the points b are the points a mirrored (Point::mirror: see C02)
pub uninterp spec fn mirrored(b: Seq<PointRef>, a: Seq<PointRef>) -> bool;
pub struct DataStore { pub points: Vec<PointRef>, pub transitions: Vec<Transition> }
impl DataStore {
    #[verifier::external_body] pub fn get_points(&self) -> (r: Vec<PointRef>) ensures r@ == self.points@ { unimplemented!() }
    #[verifier::external_body] pub fn mirror_points(&mut self, n: usize) ensures final(self).transitions == old(self).transitions, final(self).points@.len() == old(self).points@.len(),
        mirrored(final(self).points@, old(self).points@) { unimplemented!() }
//@extract src/data_store/mod.rs :: impl DataStore :: count_transitions
//@ret r
//@spec
    ensures r == self.transitions@.len(),
//@end
//@extract src/data_store/mod.rs :: impl DataStore :: clear_transitions
//@spec
    ensures final(self).transitions@.len() == 0, final(self).points == old(self).points,
//@end
//@extract src/data_store/mod.rs :: impl DataStore :: add_transition
//@spec
    ensures final(self).transitions@ == old(self).transitions@.push(transition), final(self).points == old(self).points,
//@subst TransitionRef::new(transition) ==> transition
//@end
}
pub struct Segmentation {
    pub send_point: Option<Point>, pub send_transition: Option<MaterializedTransition>, pub last_point: Option<Point>, pub last_transition: Option<Transition>,
    pub node_questions: NodeQuestions, pub transitions_for_nodes: TransitionsForNodes, pub global_transition_count: usize, pub invalid_transition_directions: usize,
    pub direct_protocol: Proto, pub transition_count_protocol: Proto, pub awaits_first_point: bool, pub first_point_buffer: Option<SendFirstPointMessage>,
}
pub type Str = ();
pub struct Training { pub parameters: Parameters, pub cluster_nodes: ClusterNodes, pub data_store: DataStore, pub segmentation: Segmentation,
    // what was sent / handed on
    pub counts: Ghost<Seq<(int, int, int)>>, pub firsts: Ghost<Seq<(Point, Option<Transition>)>>, pub handed: Ghost<Seq<Map<usize, Vec<MaterializedTransition>>>> }
// total number of transitions in the map
pub uninterp spec fn map_total(m: Map<usize, Vec<MaterializedTransition>>) -> int;
#[verifier::external_body] pub fn total_len(m: &TransitionsForNodes) -> (r: usize) ensures r == map_total(m@) { unimplemented!() }
pub open spec fn mts(v: Seq<MaterializedTransition>) -> Seq<Transition> { Seq::new(v.len(), |i: int| v[i].tr()) }

// ---- what segmentation must produce --------------------------------------------------------
// the valid transitions among the first k points, in order
#[verifier::opaque]
pub open spec fn vts(ps: Seq<PointRef>, k: int, rate: int) -> Seq<Transition> decreases k {
    if k <= 1 { seq![] } else {
        let t = Transition { from_point: ps[k - 2], to_point: ps[k - 1] };
        if valid(t, rate) { vts(ps, k - 1, rate).push(t) } else { vts(ps, k - 1, rate) }
    }
}
// crossing but not valid: turned more than half a circle
#[verifier::opaque]
pub open spec fn n_invalid(ps: Seq<PointRef>, k: int, rate: int) -> int decreases k {
    if k <= 1 { 0 } else {
        let t = Transition { from_point: ps[k - 2], to_point: ps[k - 1] };
        n_invalid(ps, k - 1, rate) + if crosses(t) && !valid(t, rate) { 1int } else { 0 }
    }
}
#[verifier::opaque]
pub open spec fn of_owner(ts: Seq<Transition>, p: Parameters, c: int) -> Seq<Transition> decreases ts.len() {
    if ts.len() == 0 { seq![] } else {
        let r = of_owner(ts.drop_last(), p, c);
        if owner(p, ts.last().from_point.seg() as int) == c { r.push(ts.last()) } else { r }
    }
}
#[verifier::opaque]
pub open spec fn splits(t: Transition, prev: Option<Transition>, p: Parameters) -> Seq<Ask> {
    let f = owner(p, t.from_point.seg() as int); let to = owner(p, t.to_point.seg() as int);
    let a: Seq<Ask> = if prev is Some && owner(p, prev->0.to_point.seg() as int) != f { seq![Ask { t, prev, within: false, span: 1 }] } else { seq![] };
    let b: Seq<Ask> = if f != to { seq![Ask { t, prev, within: true, span: (to - f) % (p.n_cluster_nodes as int) }] } else { seq![] };
    a + b
}
#[verifier::opaque]
pub open spec fn asks(ts: Seq<Transition>, p: Parameters) -> Seq<Ask> decreases ts.len() {
    if ts.len() == 0 { seq![] } else { asks(ts.drop_last(), p) + splits(ts.last(), if ts.len() >= 2 { Some(ts[ts.len() - 2]) } else { None }, p) }
}
proof fn vts_bound(ps: Seq<PointRef>, k: int, rate: int)
    requires k >= 0
    ensures n_invalid(ps, k, rate) <= k, n_invalid(ps, k, rate) >= 0, vts(ps, k, rate).len() <= k
    decreases k
{ reveal(vts); reveal(n_invalid); if k > 1 { vts_bound(ps, k - 1, rate) } }
// what is recorded for node c in foreign_data
#[verifier::opaque]
pub open spec fn per_node(m: Map<usize, Vec<MaterializedTransition>>, c: usize) -> Seq<Transition> { if m.contains_key(c) { mts(m[c]@) } else { seq![] } }

pub proof fn start(ps: Seq<PointRef>, p: Parameters)
    ensures vts(ps, 0, p.rate as int) == Seq::<Transition>::empty(), n_invalid(ps, 0, p.rate as int) == 0, asks(seq![], p) == Seq::<Ask>::empty(), forall|c: int| of_owner(seq![], p, c) == Seq::<Transition>::empty(),
{ reveal(vts); reveal(n_invalid); reveal(of_owner); reveal(asks); }
pub proof fn step(ps: Seq<PointRef>, k: int, p: Parameters)
    requires 1 <= k <= ps.len()
    ensures ({
        let rate = p.rate as int; let b = vts(ps, k - 1, rate); let ts = vts(ps, k, rate);
        if k == 1 { ts == b && ts.len() == 0 && n_invalid(ps, k, rate) == 0 && n_invalid(ps, k - 1, rate) == 0 } else {
            let t = Transition { from_point: ps[k - 2], to_point: ps[k - 1] };
            &&& n_invalid(ps, k, rate) == n_invalid(ps, k - 1, rate) + if crosses(t) && !valid(t, rate) { 1int } else { 0 }
            &&& !valid(t, rate) ==> ts == b
            &&& valid(t, rate) ==> {
                &&& ts == b.push(t) && ts.last() == t && (b.len() > 0 ==> ts[0] == b[0])
                &&& forall|c: usize| #[trigger] of_owner(ts, p, c as int) == (if owner(p, t.from_point.seg() as int) == c as int { of_owner(b, p, c as int).push(t) } else { of_owner(b, p, c as int) })
                &&& asks(ts, p) == asks(b, p) + splits(t, if b.len() > 0 { Some(b.last()) } else { None }, p)
            }
        }
    })
{
    reveal(vts); reveal(n_invalid);
    let rate = p.rate as int; let b = vts(ps, k - 1, rate);
    if k > 1 {
        let t = Transition { from_point: ps[k - 2], to_point: ps[k - 1] };
        assert(b.push(t).drop_last() =~= b);
        reveal(of_owner); reveal(asks);
    }
}
impl Training {
    #[verifier::external_body]
    pub fn segment_id_to_assignment(&self, segment_id: usize) -> (r: usize)
        requires pok(self.parameters), segment_id < self.parameters.rate
        ensures r as int == owner(self.parameters, segment_id as int), r < self.parameters.n_cluster_nodes { unimplemented!() }
    #[verifier::external_body]
    pub fn cluster_node_diff(&self, a: usize, b: usize) -> (r: usize)
        requires pok(self.parameters), a < self.parameters.n_cluster_nodes, b < self.parameters.n_cluster_nodes
        ensures r as int == (b - a) % (self.parameters.n_cluster_nodes as int) { unimplemented!() }

//@extract src/training/segmentation/mod.rs :: impl Segmenter for Training :: search_split_between_transitions
//@spec
    ensures
        final(self).segmentation.node_questions.log() == old(self).segmentation.node_questions.log() + (if from_node_id != last_to_node_id { seq![Ask { t: *transition, prev: prev_transition, within: false, span: 1 }] } else { seq![] }),
        final(self).data_store == old(self).data_store, final(self).parameters == old(self).parameters, final(self).cluster_nodes == old(self).cluster_nodes, final(self).handed == old(self).handed, final(self).firsts == old(self).firsts,
        final(self).segmentation == (Segmentation { node_questions: final(self).segmentation.node_questions, ..old(self).segmentation }),
//@tail
    proof { assert(self.segmentation.node_questions.log() =~= old(self).segmentation.node_questions.log() + (if from_node_id != last_to_node_id { seq![Ask { t: *transition, prev: prev_transition, within: false, span: 1 }] } else { seq![] })); }
//@end
//@extract src/training/segmentation/mod.rs :: impl Segmenter for Training :: search_split_within_transition
//@spec
    requires pok(old(self).parameters), from_node_id < old(self).parameters.n_cluster_nodes, to_node_id < old(self).parameters.n_cluster_nodes,
    ensures
        final(self).segmentation.node_questions.log() == old(self).segmentation.node_questions.log() + (if from_node_id != to_node_id { seq![Ask { t: *transition, prev: prev_transition, within: true, span: (to_node_id - from_node_id) % (old(self).parameters.n_cluster_nodes as int) }] } else { seq![] }),
        final(self).data_store == old(self).data_store, final(self).parameters == old(self).parameters, final(self).cluster_nodes == old(self).cluster_nodes, final(self).handed == old(self).handed, final(self).firsts == old(self).firsts,
        final(self).segmentation == (Segmentation { node_questions: final(self).segmentation.node_questions, ..old(self).segmentation }),
//@tail
    proof { assert(self.segmentation.node_questions.log() =~= old(self).segmentation.node_questions.log() + (if from_node_id != to_node_id { seq![Ask { t: *transition, prev: prev_transition, within: true, span: (to_node_id - from_node_id) % (old(self).parameters.n_cluster_nodes as int) }] } else { seq![] })); }
//@end
//@extract src/training/segmentation/mod.rs :: impl Segmenter for Training :: find_splits
//@spec
    requires pok(old(self).parameters), from_node_id < old(self).parameters.n_cluster_nodes, to_node_id < old(self).parameters.n_cluster_nodes,
        in_rate(*transition, old(self).parameters.rate as int),
        from_node_id == owner(old(self).parameters, transition.from_point.seg() as int), to_node_id == owner(old(self).parameters, transition.to_point.seg() as int),
        (prev_transition is Some) == (last_to_node_id is Some),
        prev_transition is Some ==> last_to_node_id->0 == owner(old(self).parameters, prev_transition->0.to_point.seg() as int),
    ensures
        final(self).segmentation.node_questions.log() == old(self).segmentation.node_questions.log() + splits(*transition, prev_transition, old(self).parameters),
        final(self).data_store == old(self).data_store, final(self).parameters == old(self).parameters, final(self).cluster_nodes == old(self).cluster_nodes, final(self).handed == old(self).handed, final(self).firsts == old(self).firsts,
        final(self).segmentation == (Segmentation { node_questions: final(self).segmentation.node_questions, ..old(self).segmentation }),
//@tail
    proof {
        reveal(splits);
        let a: Seq<Ask> = if prev_transition is Some && owner(old(self).parameters, prev_transition->0.to_point.seg() as int) != from_node_id { seq![Ask { t: *transition, prev: prev_transition, within: false, span: 1 }] } else { seq![] };
        let b: Seq<Ask> = if from_node_id != to_node_id { seq![Ask { t: *transition, prev: prev_transition, within: true, span: (to_node_id - from_node_id) % (old(self).parameters.n_cluster_nodes as int) }] } else { seq![] };
        let l = old(self).segmentation.node_questions.log();
        assert((l + a) + b =~= l + (a + b)); assert(l + Seq::<Ask>::empty() =~= l);
    }
//@subst prev_transition.clone() ==> clone_ot(&prev_transition)
//@end
//@extract src/training/segmentation/mod.rs :: impl Segmenter for Training :: build_segments
//@ret r
//@spec
    requires pok(old(self).parameters), old(self).cluster_nodes.own < old(self).parameters.n_cluster_nodes,
        forall|i: int| 0 <= i < old(self).data_store.points@.len() ==> (#[trigger] old(self).data_store.points@[i]).seg() < old(self).parameters.rate,
        old(self).segmentation.invalid_transition_directions + old(self).data_store.points@.len() < usize::MAX,
    ensures ({
        let ps = old(self).data_store.points@; let p = old(self).parameters; let rate = p.rate as int; let ts = vts(ps, ps.len() as int, rate);
        // every valid transition is recorded once, in order, under the owner of its start segment
        &&& forall|c: usize| #[trigger] per_node(r@, c) == of_owner(ts, p, c as int)
        // and kept locally iff this node owns its start segment
        &&& final(self).data_store.transitions@ == old(self).data_store.transitions@ + of_owner(ts, p, old(self).cluster_nodes.own as int)
        &&& final(self).data_store.points == old(self).data_store.points
        &&& final(self).parameters == p && final(self).cluster_nodes == old(self).cluster_nodes && final(self).handed == old(self).handed
        // clockwise transitions are counted iff self correction is on
        &&& final(self).segmentation.invalid_transition_directions == old(self).segmentation.invalid_transition_directions + (if p.self_correction { n_invalid(ps, ps.len() as int, rate) } else { 0 })
        // what crosses the partition boundary
        &&& (final(self).segmentation.last_point is Some) == (ps.len() > 0)
        &&& ps.len() > 0 ==> final(self).segmentation.last_point->0.rf() == ps.last()
        &&& final(self).segmentation.last_transition == (if ts.len() > 0 { Some(ts.last()) } else { None })
        &&& (ps.len() > 0 && old(self).cluster_nodes.own != 0 ==> final(self).segmentation.send_point is Some && final(self).segmentation.send_point->0.rf() == ps[0])
        &&& (old(self).cluster_nodes.own == 0 ==> final(self).segmentation.send_point == old(self).segmentation.send_point)
        &&& (old(self).segmentation.send_transition is None ==> (final(self).segmentation.send_transition is Some) == (ts.len() > 0) && (ts.len() > 0 ==> final(self).segmentation.send_transition->0.tr() == ts[0]))
        // questions to neighbours: exactly at ownership changes
        &&& final(self).segmentation.node_questions.log() == old(self).segmentation.node_questions.log() + asks(ts, p)
    }),
//@subst match foreign_data.get_mut(&from_node_id) ==> let ghost fd0 = foreign_data@; match foreign_data.get_mut(&from_node_id)
//@subst last_to_node_id = Some(to_node_id); ==> proof { if fd0.contains_key(from_node_id) { let v = foreign_data@[from_node_id]; assert(v@.len() == fd0[from_node_id]@.len() + 1); assert(v@.last().tr() == transition); } else { let v = foreign_data@[from_node_id]; assert(v@.len() == 1); assert(v@.last().tr() == transition); } lemma_push(fd0, foreign_data@, from_node_id, transition); let os = of_owner(before, p, own as int); assert(tr0 + os.push(transition) =~= (tr0 + os).push(transition)); let (x, y) = (asks(before, p), splits(transition, if before.len() > 0 { Some(before.last()) } else { None }, p)); assert(log0 + (x + y) =~= (log0 + x) + y); } last_to_node_id = Some(to_node_id);
//@subst last_point.map(|x| x.deref_clone()) ==> (match last_point { Some(x) => Some(x.deref_clone()), None => None })
//@top
    let ghost ps = self.data_store.points@; let ghost p = self.parameters; let ghost rate = p.rate as int;
    let ghost log0 = self.segmentation.node_questions.log(); let ghost tr0 = self.data_store.transitions@; let ghost own = self.cluster_nodes.own;
//@loop 0 pre
    proof {
        start(ps, p);
        assert(log0 + asks(seq![], p) =~= log0);
        assert(tr0 + of_owner(seq![], p, own as int) =~= tr0);
        assert forall|c: usize| #[trigger] per_node(foreign_data@, c) == of_owner(seq![], p, c as int) by { reveal(per_node); }
    }
//@loop 0
        invariant vit_0.all() == ps, 0 <= vit_0.pos() <= ps.len(), pok(p), rate == p.rate, self.parameters == p, self.cluster_nodes == old(self).cluster_nodes, own == self.cluster_nodes.own, self.handed == old(self).handed,
            own_id == own, is_not_first == (own != 0),
            forall|i: int| 0 <= i < ps.len() ==> (#[trigger] ps[i]).seg() < rate,
            self.data_store.points@ == ps, self.data_store.points == old(self).data_store.points,
            last_point == (if vit_0.pos() > 0 { Some(ps[vit_0.pos() - 1]) } else { None }),
            ({ let ts = vts(ps, vit_0.pos(), rate);
               &&& last_transition == (if ts.len() > 0 { Some(ts.last()) } else { None })
               &&& (last_to_node_id is Some) == (ts.len() > 0)
               &&& (ts.len() > 0 ==> last_to_node_id->0 as int == owner(p, ts.last().to_point.seg() as int) && in_rate(ts.last(), rate))
               &&& (forall|c: usize| #[trigger] per_node(foreign_data@, c) == of_owner(ts, p, c as int))
               &&& self.data_store.transitions@ == tr0 + of_owner(ts, p, own as int)
               &&& self.segmentation.node_questions.log() == log0 + asks(ts, p)
               &&& (old(self).segmentation.send_transition is None ==> (self.segmentation.send_transition is Some) == (ts.len() > 0) && (ts.len() > 0 ==> self.segmentation.send_transition->0.tr() == ts[0]))
            }),
            self.segmentation.invalid_transition_directions == old(self).segmentation.invalid_transition_directions + (if p.self_correction { n_invalid(ps, vit_0.pos(), rate) } else { 0 }),
            old(self).segmentation.invalid_transition_directions + ps.len() < usize::MAX,
            vit_0.pos() > 0 && own != 0 ==> self.segmentation.send_point is Some && self.segmentation.send_point->0.rf() == ps[0],
            (vit_0.pos() == 0 || own == 0) ==> self.segmentation.send_point == old(self).segmentation.send_point,
        ensures vit_0.pos() == ps.len(),
        decreases ps.len() - vit_0.pos(),
//@loop 0 top
        let ghost k = vit_0.pos();
        let ghost before = vts(ps, k - 1, rate);
        proof {
            vts_bound(ps, k, rate); vts_bound(ps, k - 1, rate);
            step(ps, k, p);
        }
//@end
    // recording stand-ins: sending the count to the next node; handing transitions on for distribution
    #[verifier::external_body] pub fn vsend(&mut self, to: RemoteAddr, m: TransitionCountMessage)
        ensures *final(self) == (Training { counts: final(self).counts, ..*old(self) }), final(self).counts@ == old(self).counts@.push((to.idx@, m.count as int, m.clockwise_count as int)) { unimplemented!() }
    #[verifier::external_body] pub fn distribute_or_wait_for_segments(&mut self, node_transitions: TransitionsForNodes, ctx: &mut Context<Training>)
        ensures final(self).handed@ == old(self).handed@.push(node_transitions@), final(self).data_store == old(self).data_store { unimplemented!() }
    // C14
    #[verifier::external_body] pub fn send_first_point(&mut self, transition: Option<MaterializedTransition>)
        ensures *final(self) == (Training { firsts: final(self).firsts, segmentation: Segmentation { send_point: None, ..old(self).segmentation }, ..*old(self) }), final(self).firsts@ == (if old(self).segmentation.send_point is Some { old(self).firsts@.push((old(self).segmentation.send_point->0, otr(transition))) } else { old(self).firsts@ }) { unimplemented!() }
    #[verifier::external_body] pub fn distribute_segments(&mut self, foreign_data: TransitionsForNodes)
        ensures final(self).handed@ == old(self).handed@.push(foreign_data@), final(self).data_store == old(self).data_store, final(self).firsts == old(self).firsts, final(self).segmentation.node_questions == old(self).segmentation.node_questions, final(self).segmentation.awaits_first_point == old(self).segmentation.awaits_first_point { unimplemented!() }
//@extract src/training/segmentation/mod.rs :: impl Segmenter for Training :: clear_segmentation
//@spec
    ensures final(self).data_store.transitions@.len() == 0, final(self).data_store.points == old(self).data_store.points,
        final(self).segmentation.node_questions.log() == Seq::<Ask>::empty(),
        final(self).segmentation.send_point is None, final(self).segmentation.last_point is None, final(self).segmentation.send_transition is None, final(self).segmentation.last_transition is None,
        final(self).segmentation.invalid_transition_directions == old(self).segmentation.invalid_transition_directions,
        final(self).parameters == old(self).parameters, final(self).cluster_nodes == old(self).cluster_nodes, final(self).handed == old(self).handed,
//@end
//@extract src/training/segmentation/mod.rs :: impl Segmenter for Training :: finish_self_correction
//@spec
    ensures final(self).handed@ == old(self).handed@.push(old(self).segmentation.transitions_for_nodes@), final(self).data_store == old(self).data_store,
//@end
//@extract src/training/segmentation/mod.rs :: impl Segmenter for Training :: try_self_correction
//@spec
    requires pok(old(self).parameters), old(self).cluster_nodes.own < old(self).parameters.n_cluster_nodes,
        old(self).segmentation.invalid_transition_directions + old(self).data_store.points@.len() < usize::MAX,
        forall|m: Seq<PointRef>, i: int| mirrored(m, old(self).data_store.points@) && 0 <= i < m.len() ==> (#[trigger] m[i]).seg() < old(self).parameters.rate,
    ensures ({
        let turn = old(self).segmentation.global_transition_count < old(self).segmentation.invalid_transition_directions;
        // mirrored iff the clockwise transitions outnumber the valid ones; then the transitions are exactly the valid ones of the mirrored points
        &&& turn ==> mirrored(final(self).data_store.points@, old(self).data_store.points@) && final(self).data_store.transitions@ == of_owner(vts(final(self).data_store.points@, final(self).data_store.points@.len() as int, old(self).parameters.rate as int), old(self).parameters, old(self).cluster_nodes.own as int)
        &&& turn ==> final(self).handed@.len() == old(self).handed@.len() + 1 && (forall|c: usize| #[trigger] per_node(final(self).handed@.last(), c) == of_owner(vts(final(self).data_store.points@, final(self).data_store.points@.len() as int, old(self).parameters.rate as int), old(self).parameters, c as int))
        &&& !turn ==> final(self).data_store == old(self).data_store && final(self).handed@ == old(self).handed@.push(old(self).segmentation.transitions_for_nodes@)
    }),
//@subst self.distribute_or_wait_for_segments(node_transitions, ctx); ==> proof { let e = Seq::<Transition>::empty(); assert forall|x: Seq<Transition>| e + x == x by { assert(e + x =~= x); } } self.distribute_or_wait_for_segments(node_transitions, ctx);
//@end
//@extract src/training/segmentation/mod.rs :: impl Segmenter for Training :: self_correction
//@spec
    requires pok(old(self).parameters), old(self).cluster_nodes.own < old(self).parameters.n_cluster_nodes, old(self).cluster_nodes.n == old(self).parameters.n_cluster_nodes,
        old(self).segmentation.invalid_transition_directions + old(self).data_store.points@.len() < usize::MAX,
        old(self).segmentation.transition_count_protocol.n_sent < usize::MAX, old(self).segmentation.global_transition_count + map_total(node_transitions@) < usize::MAX,
        forall|m: Seq<PointRef>, i: int| mirrored(m, old(self).data_store.points@) && 0 <= i < m.len() ==> (#[trigger] m[i]).seg() < old(self).parameters.rate,
    ensures
        // in a cluster: this node contributes each of its transitions once, and waits for the others
        old(self).cluster_nodes.n > 1 ==> final(self).counts@ == old(self).counts@.push(((old(self).cluster_nodes.own + 1) % (old(self).cluster_nodes.n as int), map_total(node_transitions@), old(self).segmentation.invalid_transition_directions as int))
            && final(self).segmentation.global_transition_count == old(self).segmentation.global_transition_count + map_total(node_transitions@)
            && final(self).segmentation.transitions_for_nodes@ == node_transitions@ && final(self).data_store == old(self).data_store && final(self).handed == old(self).handed
            && final(self).segmentation.transition_count_protocol.n_total == old(self).cluster_nodes.n - 1 && final(self).segmentation.transition_count_protocol.n_sent == old(self).segmentation.transition_count_protocol.n_sent + 1,
        // locally: decided at once
        old(self).cluster_nodes.n == 1 ==> (old(self).data_store.transitions@.len() < old(self).segmentation.invalid_transition_directions ==> mirrored(final(self).data_store.points@, old(self).data_store.points@))
            && (old(self).data_store.transitions@.len() >= old(self).segmentation.invalid_transition_directions ==> final(self).data_store == old(self).data_store),
//@rename do_send=vdo
//@subst next_node.vdo( ==> self.vsend(next_node, 
//@subst "Training" ==> ()
//@subst node_transitions.iter().map(|(_segment, transitions)| transitions.len()).sum::<usize>() ==> total_len(&node_transitions)
//@end
//@extract src/training/segmentation/mod.rs :: impl Handler<SendFirstPointMessage> for Training :: handle
//@spec
    requires pok(old(self).parameters), old(self).cluster_nodes.own < old(self).parameters.n_cluster_nodes,
        old(self).segmentation.awaits_first_point ==> old(self).segmentation.last_point is Some, old(self).segmentation.awaits_first_point ==> old(self).segmentation.last_point->0.rf().seg() < old(self).parameters.rate, msg.point.rf().seg() < old(self).parameters.rate,
        old(self).segmentation.last_transition is Some ==> in_rate(old(self).segmentation.last_transition->0, old(self).parameters.rate as int), msg.transition is Some ==> in_rate(msg.transition->0.tr(), old(self).parameters.rate as int),
    ensures
    // too early: kept, nothing else changes
    !old(self).segmentation.awaits_first_point ==> *final(self) == (Training { segmentation: Segmentation { first_point_buffer: Some(msg), ..old(self).segmentation }, ..*old(self) }),
    old(self).segmentation.awaits_first_point ==> !final(self).segmentation.awaits_first_point && ({
        let p = old(self).parameters; let rate = p.rate as int; let prev = old(self).segmentation.last_transition; let nt = otr(msg.transition);
        let t = Transition { from_point: old(self).segmentation.last_point->0.rf(), to_point: msg.point.rf() };
        let o = owner(p, t.from_point.seg() as int);
        // the transition that spans the partition boundary is treated exactly like the others
        &&& final(self).handed@.len() == old(self).handed@.len() + 1
        &&& forall|c: usize| #[trigger] per_node(final(self).handed@.last(), c) == (if valid(t, rate) && o == c as int { per_node(old(self).segmentation.transitions_for_nodes@, c).push(t) } else { per_node(old(self).segmentation.transitions_for_nodes@, c) })
        &&& final(self).data_store.transitions@ == (if valid(t, rate) && o == old(self).cluster_nodes.own as int { old(self).data_store.transitions@.push(t) } else { old(self).data_store.transitions@ })
        // so are the questions: first those of the spanning transition, then those between it (or the last one before) and the first of the next partition
        &&& asked(final(self).segmentation.node_questions.log(), old(self).segmentation.node_questions.log() + (if valid(t, rate) { splits(t, prev, p) } else { Seq::empty() }), if valid(t, rate) { Some(t) } else { prev }, nt, p)
        // a node without an own transition sends its first point now, with the first transition after it
        &&& final(self).firsts@ == (if old(self).segmentation.send_point is Some { old(self).firsts@.push((old(self).segmentation.send_point->0, if valid(t, rate) { Some(t) } else { nt })) } else { old(self).firsts@ })
    }),
//@subst Self::Context ==> Context<Training>
//@subst & spanning_transition.has_valid_direction( ==> && spanning_transition.has_valid_direction(
//@subst Self::Result ==> ()
//@subst self.segmentation.last_transition.clone() ==> clone_ot(&self.segmentation.last_transition)
//@subst msg.transition.clone() ==> clone_omt(&msg.transition)
//@closure 0
    |transition: &Transition| -> (q: usize) requires pok(self.parameters), transition.to_point.seg() < self.parameters.rate ensures q as int == owner(self.parameters, transition.to_point.seg() as int), q < self.parameters.n_cluster_nodes
//@top
        let ghost fdi = self.segmentation.transitions_for_nodes@; let ghost pr = self.parameters;
        let ghost st = Transition { from_point: self.segmentation.last_point->0.rf(), to_point: msg.point.rf() }; let ghost nt0 = otr(msg.transition); let ghost prev0 = self.segmentation.last_transition; let ghost lg0 = self.segmentation.node_questions.log(); let ghost lg1 = lg0 + (if valid(st, self.parameters.rate as int) { splits(st, prev0, self.parameters) } else { Seq::empty() });
        let ghost so = owner(self.parameters, st.from_point.seg() as int) as usize; proof { if self.segmentation.awaits_first_point { owner_bound(self.parameters, st.from_point.seg() as int); } }
        let ghost rate = self.parameters.rate as int;
        proof { if self.segmentation.awaits_first_point { advance_cases(st, rate); } assert(lg0 + Seq::<Ask>::empty() =~= lg0); }
//@subst let node_transitions = self.segmentation ==> proof { let m2 = self.segmentation.transitions_for_nodes@; if valid(st, rate) { let v = m2[so]; if fdi.contains_key(so) { assert(v@.len() == fdi[so]@.len() + 1); assert(v@.last().tr() == st); } else { assert(v@.len() == 1); assert(v@.last().tr() == st); } lemma_push(fdi, m2, so, st); } } let node_transitions = self.segmentation
//@end
}
#[verifier::external_body] pub fn clone_omt(o: &Option<MaterializedTransition>) -> (r: Option<MaterializedTransition>) ensures r == *o { unimplemented!() }
pub open spec fn otr(o: Option<MaterializedTransition>) -> Option<Transition> { match o { Some(m) => Some(m.tr()), None => None } }
// what is asked between a transition and the next one, which a different node provides (asking where it is the same node has no effect, C19)
pub open spec fn asked(log: Seq<Ask>, before: Seq<Ask>, last: Option<Transition>, next: Option<Transition>, p: Parameters) -> bool {
    if last is Some && next is Some { log == before.push(Ask { t: next->0, prev: last, within: false, span: 1 }) || (log == before && owner(p, last->0.to_point.seg() as int) == owner(p, next->0.from_point.seg() as int)) } else { log == before }
}
#[verifier::external_body]
pub fn clone_ot(o: &Option<Transition>) -> (r: Option<Transition>) ensures r == *o { unimplemented!() }
pub open spec fn pushed(m: Map<usize, Vec<MaterializedTransition>>, c: usize, v: Vec<MaterializedTransition>, t: Transition) -> bool {
    let o = if m.contains_key(c) { m[c]@ } else { Seq::<MaterializedTransition>::empty() };
    v@.len() == o.len() + 1 && v@.last().tr() == t && (forall|i: int| 0 <= i < o.len() ==> #[trigger] v@[i] == o[i])
}
pub proof fn lemma_push(m: Map<usize, Vec<MaterializedTransition>>, m2: Map<usize, Vec<MaterializedTransition>>, c: usize, t: Transition)
    requires m2.contains_key(c), m2 == m.insert(c, m2[c]), pushed(m, c, m2[c], t)
    ensures per_node(m2, c) == per_node(m, c).push(t), forall|d: usize| d != c ==> #[trigger] per_node(m2, d) == per_node(m, d),
{
    reveal(per_node);
    assert(per_node(m2, c) =~= per_node(m, c).push(t));
}
} // verus!
fn main() {}
