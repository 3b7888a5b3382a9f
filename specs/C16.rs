//! linear algebra (QR, SVD, means of a matrix, stacking) computes what its name says; here: whose data goes into which matrix, and when. The numbers are compared natively with a PCA of all data (bounded).
//! a message is handled by the node it was sent to, once; every node starts with its own data; at most 2^24 nodes (2^ceil(log2 n) in f32 is the next power of two; checked natively up to 64).
//! the helpers of a node answer with means, number of rows and R of all the node's rows, when each has its rows (C16h); ndarray's chunks are the rows in order, in pieces of the given size (the last may be smaller).
//! no node starts the next analysis before the components of this one arrived.
//@include base.rs
//@include coll.rs
//@include float.rs
//@include tree.rs
verus! {
pub enum Ev { Dec { to: Option<usize>, m: PCADecompositionMessage }, Means { to: Option<usize>, m: PCAMeansMessage }, Comp { to: Option<usize>, m: PCAComponents }, Done, Poison { to: Option<usize> }, Helper { to: Option<usize>, m: PCAHelperMessage } }
} // verus!
//@include net.rs
//@include proto.rs
verus! {
pub struct PCADecompositionMessage { pub r: Array2, pub count: usize }
pub struct PCAMeansMessage { pub columns_means: Array2, pub n: usize }
#[verifier::external_body] pub struct Vec1 { }
impl Vec1 { #[verifier::external_body] pub fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
pub struct PCAComponents { pub components: Mat, pub means: Vec1 }
impl PCAComponents { #[verifier::external_body] pub fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
pub struct PCADoneMessage;
pub struct PoisonPill;
pub enum PCAHelperMessage { Setup { neighbors: Vec<HelperAddr>, data: Chunk }, Decomposition { r: Array2, count: usize }, Means { columns_means: Array2, n: usize }, Components { components: Mat, means: Vec1 }, Response { column_means: Whole, n: WholeRows, r: Array2 } }
impl VMsg for PCADecompositionMessage { open spec fn ev(self, to: Option<usize>) -> Ev { Ev::Dec { to, m: self } } }
impl VMsg for PCAMeansMessage { open spec fn ev(self, to: Option<usize>) -> Ev { Ev::Means { to, m: self } } }
impl VMsg for PCAComponents { open spec fn ev(self, to: Option<usize>) -> Ev { Ev::Comp { to, m: self } } }
impl VMsg for PCADoneMessage { open spec fn ev(self, to: Option<usize>) -> Ev { Ev::Done } }
impl VMsg for PoisonPill { open spec fn ev(self, to: Option<usize>) -> Ev { Ev::Poison { to } } }
impl VMsg for PCAHelperMessage { open spec fn ev(self, to: Option<usize>) -> Ev { Ev::Helper { to, m: self } } }
// a matrix of numbers
#[verifier::external_body] pub struct Mat { }
impl Mat {
    pub uninterp spec fn v(&self) -> Seq<Seq<F>>; pub uninterp spec fn width(&self) -> int;
    pub open spec fn wf(&self) -> bool { forall|r: int| 0 <= r < self.v().len() ==> (#[trigger] self.v()[r]).len() == self.width() }
    #[verifier::external_body] pub fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
    #[verifier::external_body] pub fn rows(&self) -> (r: usize) ensures r == self.v().len() { unimplemented!() }
    #[verifier::external_body] pub fn cols(&self) -> (r: usize) ensures r == self.width() { unimplemented!() }
    #[verifier::external_body] pub fn at(&self, r: usize, c: usize) -> (x: F) requires r < self.v().len(), c < self.width() ensures x == self.v()[r as int][c as int] { unimplemented!() }
    #[verifier::external_body] pub fn at_mut(&mut self, r: usize, c: usize) -> (x: &mut F) requires r < old(self).v().len(), c < old(self).width()
        ensures *x == old(self).v()[r as int][c as int], final(self).v() == old(self).v().update(r as int, old(self).v()[r as int].update(c as int, *final(x))), final(self).width() == old(self).width() { unimplemented!() }
}
pub open spec fn flipped(a: Seq<F>, b: Seq<F>) -> bool { a.len() == b.len() && forall|c: int| 0 <= c < a.len() ==> (#[trigger] b[c]).r() == 0real - a[c].r() }
// each direction keeps or changes its sign as a whole, so that its first number is not negative
pub open spec fn normed(a: Mat, b: Mat) -> bool { b.v().len() == a.v().len() && b.width() == a.width() && forall|r: int| 0 <= r < a.v().len() ==> if a.v()[r][0].r() >= 0real { #[trigger] b.v()[r] == a.v()[r] } else { flipped(a.v()[r], b.v()[r]) } }
// the last R, from the R of all nodes' centred data and all nodes' means and counts
#[verifier::external_body] pub fn vlast_r(means: &Array2, n: &Rows, r: &Array2, Ghost(len): Ghost<int>) -> (q: ((), Array2)) requires all_ids(r.ids@, len), all_ids(means.ids@, len), means_ok(*means, *n, len) { unimplemented!() }
#[verifier::external_body] pub fn vsvd(r: &Array2) -> (q: ((), (), Option<Mat>)) ensures q.2 is Some, q.2->0.wf(), q.2->0.width() >= 1 { unimplemented!() }
#[verifier::external_body] pub fn vslice(v: &Mat, n: usize) -> (q: Mat) ensures q.wf(), q.width() >= 1 { unimplemented!() }
pub struct Parameters { pub n_threads: usize }
#[derive(Clone, Copy)]
pub struct HelperAddr { pub idx: usize }
impl HelperAddr { #[verifier::external_body] pub fn vsend<M: VMsg>(&self, log: &mut Log, m: M) ensures final(log).evs@ == old(log).evs@.push(m.ev(Some(self.idx))) { unimplemented!() } pub fn recipient(self) -> (r: Self) ensures r == self { self } }
impl HelperAddr { #[verifier::external_body] pub fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
#[verifier::external_body] pub fn clone_addrs(v: &Vec<HelperAddr>) -> (r: Vec<HelperAddr>) ensures r@ == v@ { unimplemented!() }
pub struct PCAHelper;
impl PCAHelper { #[verifier::external_body] pub fn start_helper(i: usize, to: Addr) -> (r: HelperAddr) ensures r.idx == i { unimplemented!() } }
impl Addr { #[verifier::external_body] pub fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } pub fn recipient(self) -> (r: Self) ensures r == self { self } }
// rows [from, to) of the data of node id
pub struct Chunk { pub id: Ghost<int>, pub from: Ghost<int>, pub to: Ghost<int> }
impl Chunk { #[verifier::external_body] pub fn to_shared(&self) -> (r: Chunk) ensures r == *self { unimplemented!() } }
pub open spec fn ceil(a: int, b: int) -> int { if a <= 0 { 0 } else { (a - 1) / b + 1 } }
#[verifier::external_body] pub fn vdiv_ceil(a: usize, b: usize) -> (r: usize) requires b > 0 ensures r == ceil(a as int, b as int) { unimplemented!() }
pub open spec fn piece(d: ArcArray2, size: int, i: int) -> Chunk { Chunk { id: d.id, from: Ghost(i * size), to: Ghost(if (i + 1) * size <= d.rows { (i + 1) * size } else { d.rows as int }) } }
#[verifier::external_body] pub fn vchunks(d: &ArcArray2, size: usize) -> (r: It<Chunk>) requires size > 0 ensures r.pos() == 0, r.all() == Seq::new(ceil(d.rows as int, size as int) as nat, |i: int| piece(*d, size as int, i)) { unimplemented!() }
#[verifier::external_body] pub fn vrange(a: usize, b: usize) -> (r: It<usize>) requires a <= b ensures r.pos() == 0, r.all() == Seq::new((b - a) as nat, |i: int| (a + i) as usize) { unimplemented!() }
pub struct Whole { pub id: Ghost<int> }
impl Whole { #[verifier::external_body] pub fn len(&self) -> (r: usize) { unimplemented!() } }
pub struct WholeRows { pub rows: Ghost<int> }
#[verifier::external_body] pub fn vwhole(w: Whole) -> (r: Array2) ensures r.ids@ == seq![w.id@] { unimplemented!() }
#[verifier::external_body] pub fn vwhole_rows(w: WholeRows) -> (r: Rows) ensures r.v@ == seq![w.rows@] { unimplemented!() }
pub open spec fn numbered(h: Seq<HelperAddr>) -> bool { forall|i: int| 0 <= i < h.len() ==> (#[trigger] h[i]).idx == i }
pub open spec fn setup_to(e: Ev, i: int, helpers: Seq<HelperAddr>, c: Chunk) -> bool { e is Helper && e->Helper_to == Some(i as usize) && e->Helper_m is Setup && e->Helper_m->neighbors@ == helpers && e->Helper_m->Setup_data == c }
// every helper is set up once, with its piece of the rows; the pieces are all rows, and none is empty
pub open spec fn handed_out(old: Seq<Ev>, new: Seq<Ev>, d: ArcArray2, size: int, helpers: Seq<HelperAddr>) -> bool {
    &&& size >= 1 && numbered(helpers) && helpers.len() >= 1 && helpers.len() <= 0x100_0000 && new.len() == old.len() + helpers.len() && new.take(old.len() as int) == old
    &&& forall|i: int| 0 <= i < helpers.len() ==> setup_to(#[trigger] new[old.len() + i], i, helpers, piece(d, size, i))
    &&& (helpers.len() - 1) * size < d.rows <= helpers.len() * size
}
pub proof fn tiles(a: int, b: int) requires a >= 1, b >= 1 ensures (ceil(a, b) - 1) * b < a <= ceil(a, b) * b, ceil(a, b) >= 1, ceil(a, b) <= a {
    let q = (a - 1) / b; vstd::arithmetic::div_mod::lemma_fundamental_div_mod(a - 1, b); vstd::arithmetic::div_mod::lemma_mod_bound(a - 1, b); vstd::arithmetic::div_mod::lemma_div_pos_is_pos(a - 1, b);
    assert(b * q == q * b && (q + 1) * b == q * b + b) by (nonlinear_arith); assert(q <= q * b) by (nonlinear_arith) requires q >= 0, b >= 1;
}
pub struct PCA { pub id: usize, pub n_components: usize, pub components: Option<Mat>, pub global_means: Option<Vec1>, pub data: Option<ArcArray2>, pub local_r: Option<Array2>, pub r_count: usize, pub column_means: Option<Array2>, pub n: Option<Rows>, pub helpers: Vec<HelperAddr>, pub buffer: Vec<PCADecompositionMessage>, pub means_buffer: Vec<PCAMeansMessage> }
impl PCA {
    #[verifier::external_body] pub fn default() -> (r: Self) ensures r.id == 0, r.n_components == 0, r.components is None, r.global_means is None, r.data is None, r.local_r is None, r.r_count == 0, r.column_means is None, r.n is None, r.helpers@.len() == 0, r.buffer@.len() == 0, r.means_buffer@.len() == 0 { unimplemented!() }
    pub open spec fn fresh(self, id: usize, k: usize) -> bool { self.id == id && self.n_components == k && self.components is None && self.global_means is None && self.data is None && self.local_r is None && self.r_count == 0 && self.column_means is None && self.n is None }
//@extract src/training/rotation/pca/mod.rs :: impl PCA :: new
//@ret r
//@spec
    ensures r.fresh(id, n_components), r.buffer@.len() == 0, r.means_buffer@.len() == 0,
//@subst Default::default() ==> PCA::default()
//@end
//@extract src/training/rotation/pca/mod.rs :: impl PCA :: restart
//@spec
    // nothing of the last analysis is left but what other nodes have already sent for the next
    ensures final(self).fresh(id, n_components), final(self).buffer@ == old(self).buffer@, final(self).means_buffer@ == old(self).means_buffer@,
//@subst std::mem::take( ==> vtake_vec(
//@end
//@extract src/training/rotation/pca/mod.rs :: impl PCA :: clear
//@spec
    ensures final(self).fresh(old(self).id, old(self).n_components), final(self).buffer@ == old(self).buffer@, final(self).means_buffer@ == old(self).means_buffer@,
//@end
}
pub struct Rotation { pub pca: PCA }
pub struct Training { pub parameters: Parameters, pub rotation: Rotation, pub cluster_nodes: ClusterNodes, pub own_addr: Option<Addr>, pub log: Log, pub inbox_d: Inbox<PCADecompositionMessage>, pub inbox_m: Inbox<PCAMeansMessage> }
pub open spec fn rev<T>(s: Seq<T>) -> Seq<T> { Seq::new(s.len(), |i: int| s[s.len() - 1 - i]) }
pub proof fn rev_last<T>(s: Seq<T>) requires s.len() > 0 ensures rev(s) == seq![s.last()] + rev(s.drop_last()) { assert(rev(s) =~= seq![s.last()] + rev(s.drop_last())); }

// ---- one analysis on one node --------------------------------------------------------------------
pub open spec fn len(t: Training) -> int { t.cluster_nodes.n as int }
pub open spec fn base(t: Training) -> bool { let p = t.rotation.pca; t.cluster_nodes.wf() && small_cluster(len(t)) && p.id == t.cluster_nodes.own && t.own_addr is Some && (p.column_means is Some <==> p.n is Some) && (p.column_means is Some ==> means_ok(p.column_means->0, p.n->0, len(t)) && p.n->0.v@.len() >= 1) && (p.local_r is Some ==> p.column_means is Some) && (p.local_r is None ==> p.r_count == 0) }
pub open spec fn ok(t: Training) -> bool { let p = t.rotation.pca; base(t) && (p.local_r is Some ==> has_part(p.local_r->0, len(t), p.id as int, p.r_count as int)) }
pub open spec fn all_means(t: Training) -> bool { t.rotation.pca.n is Some && t.rotation.pca.n->0.v@.len() == len(t) }
// the node has given its part away; node 0: it has everything
pub open spec fn fin(t: Training) -> bool { let p = t.rotation.pca; let l = lg(len(t)); p.local_r is Some && if p.id > 0 { p.id >= thr(l, p.r_count as int) } else { p.r_count == l && all_means(t) } }
// without a partner, the first round is skipped
pub open spec fn settled(t: Training) -> int { let p = t.rotation.pca; let h = thr(lg(len(t)), 0); if p.r_count == 0 && 0 < p.id < h && p.id + h >= len(t) { 1 } else { p.r_count as int } }
pub open spec fn with_count(t: Training, c: int) -> Training { Training { rotation: Rotation { pca: PCA { r_count: c as usize, ..t.rotation.pca }, ..t.rotation }, ..t } }
pub open spec fn comp_to(e: Ev, to: Option<usize>, m: PCAComponents) -> bool { e == Ev::Comp { to, m } }
// the components went to every node once
pub open spec fn shared(old: Seq<Ev>, new: Seq<Ev>, t: Training, m: PCAComponents) -> bool { exists|ids: Seq<usize>| #[trigger] all_others(ids, len(t), t.cluster_nodes.own as int) && sent_to(old, new, ids, m) }
pub open spec fn sent_to(old: Seq<Ev>, new: Seq<Ev>, ids: Seq<usize>, m: PCAComponents) -> bool { new.len() == old.len() + ids.len() + 1 && new.take(old.len() as int) == old && (forall|i: int| 0 <= i < ids.len() ==> comp_to(#[trigger] new[old.len() + i], Some(ids[i]), m)) && comp_to(new.last(), None, m) }
pub open spec fn dec_of(t: Training) -> Ev { let p = t.rotation.pca; Ev::Dec { to: Some((p.id - thr(lg(len(t)), p.r_count as int)) as usize), m: PCADecompositionMessage { r: p.local_r->0, count: (p.r_count + 1) as usize } } }
// what happens when the node looks whether it can go on (t: before, u: after)
pub open spec fn went_on(t: Training, u: Training) -> bool {
    let v = with_count(t, settled(t));
    if !fin(v) { u == v && ({ let p = v.rotation.pca; // it waits for a partner that exists (node 0 possibly only for means)
        let h = thr(lg(len(t)), p.r_count as int); p.id + h < len(t) && (p.id < h || p.id == 0 && h == 0) }) }
    else if v.rotation.pca.id > 0 { u == (Training { log: u.log, ..v }) && u.log.evs@ == t.log.evs@.push(dec_of(v)) && dec_ok(v.rotation.pca.local_r->0, v.rotation.pca.r_count + 1, len(t), v.rotation.pca.id - thr(lg(len(t)), v.rotation.pca.r_count as int)) }
    else { all_ids(v.rotation.pca.local_r->0.ids@, len(t)) && all_ids(v.rotation.pca.column_means->0.ids@, len(t)) && u.rotation.pca.components is Some && u == (Training { log: u.log, rotation: Rotation { pca: PCA { components: u.rotation.pca.components, ..v.rotation.pca }, ..v.rotation }, ..v }) && exists|m: PCAComponents| #[trigger] shared(t.log.evs@, u.log.evs@, t, m) && Some(m.components) == u.rotation.pca.components }
}
impl Training {
//@extract src/training/rotation/pca/mod.rs :: impl PCAnalyzer for Training :: resolve_buffer
//@spec
    requires old(self).own_addr is Some,
    ensures final(self).inbox_d.got@ == old(self).inbox_d.got@ + rev(old(self).rotation.pca.buffer@), final(self).rotation.pca.buffer@.len() == 0, *final(self) == (Training { inbox_d: final(self).inbox_d, rotation: Rotation { pca: PCA { buffer: final(self).rotation.pca.buffer, ..old(self).rotation.pca }, ..old(self).rotation }, ..*old(self) }), final(self).inbox_d.first == old(self).inbox_d.first,
//@subst let own_addr = self.own_addr.as_ref().unwrap(); ==>
//@subst own_addr.do_send(msg) ==> self.inbox_d.vput(msg)
//@loop 0
            invariant *self == (Training { inbox_d: self.inbox_d, rotation: Rotation { pca: PCA { buffer: self.rotation.pca.buffer, ..old(self).rotation.pca }, ..old(self).rotation }, ..*old(self) }), self.inbox_d.first == old(self).inbox_d.first,
                old(self).inbox_d.got@ + rev(old(self).rotation.pca.buffer@) == self.inbox_d.got@ + rev(self.rotation.pca.buffer@),
            ensures self.rotation.pca.buffer@.len() == 0,
            decreases self.rotation.pca.buffer@.len(),
//@loop 0 top
            let ghost g0 = self.inbox_d.got@; let ghost b1 = self.rotation.pca.buffer@;
//@loop 0 end
            proof { rev_last(b1.push(msg)); assert(b1.push(msg).drop_last() =~= b1); assert(g0 + (seq![msg] + rev(b1)) =~= g0.push(msg) + rev(b1)); }
//@loop 0 after
        proof { assert(self.inbox_d.got@ + rev(self.rotation.pca.buffer@) =~= self.inbox_d.got@); }
//@end
//@extract src/training/rotation/pca/mod.rs :: impl PCAnalyzer for Training :: resolve_means_buffer
//@spec
    requires old(self).own_addr is Some,
    ensures final(self).inbox_m.got@ == old(self).inbox_m.got@ + rev(old(self).rotation.pca.means_buffer@), final(self).rotation.pca.means_buffer@.len() == 0, *final(self) == (Training { inbox_m: final(self).inbox_m, rotation: Rotation { pca: PCA { means_buffer: final(self).rotation.pca.means_buffer, ..old(self).rotation.pca }, ..old(self).rotation }, ..*old(self) }), final(self).inbox_m.first == old(self).inbox_m.first,
//@subst let own_addr = self.own_addr.as_ref().unwrap(); ==>
//@subst own_addr.do_send(msg) ==> self.inbox_m.vput(msg)
//@loop 0
            invariant *self == (Training { inbox_m: self.inbox_m, rotation: Rotation { pca: PCA { means_buffer: self.rotation.pca.means_buffer, ..old(self).rotation.pca }, ..old(self).rotation }, ..*old(self) }), self.inbox_m.first == old(self).inbox_m.first,
                old(self).inbox_m.got@ + rev(old(self).rotation.pca.means_buffer@) == self.inbox_m.got@ + rev(self.rotation.pca.means_buffer@),
            ensures self.rotation.pca.means_buffer@.len() == 0,
            decreases self.rotation.pca.means_buffer@.len(),
//@loop 0 top
            let ghost g0 = self.inbox_m.got@; let ghost b1 = self.rotation.pca.means_buffer@;
//@loop 0 end
            proof { rev_last(b1.push(msg)); assert(b1.push(msg).drop_last() =~= b1); assert(g0 + (seq![msg] + rev(b1)) =~= g0.push(msg) + rev(b1)); }
//@loop 0 after
        proof { assert(self.inbox_m.got@ + rev(self.rotation.pca.means_buffer@) =~= self.inbox_m.got@); }
//@end
//@extract src/training/rotation/pca/mod.rs :: impl PCAnalyzer for Training :: has_all_means
//@ret r
//@spec
    requires self.cluster_nodes.wf(),
    ensures r == all_means(*self),
//@end
//@extract src/training/rotation/pca/mod.rs :: impl PCAnalyzer for Training :: next_2_power
//@ret r
//@spec
    requires old(self).cluster_nodes.wf(), small_cluster(len(*old(self))),
    ensures r == p2(lg(len(*old(self)))), *final(self) == *old(self),
//@subst 2_i32.pow((len as f32).log2().ceil() as u32) as usize ==> vpow2_ceil(len)
//@end
//@extract src/training/rotation/pca/mod.rs :: impl PCAnalyzer for Training :: normalize
//@ret r
//@spec
    requires v.wf(), v.width() >= 1,
    ensures normed(*v, r), *final(self) == *old(self),
//@floats
//@subst Array2<F> ==> Mat
//@subst v[[r, 0]] ==> v.at(r, 0)
//@subst v[[r, c]] ==> *v.at_mut(r, c)
//@subst v.shape()[0] ==> v.rows()
//@subst v.shape()[1] ==> v.cols()
//@top
    let ghost v0 = *v;
//@loop 0
            invariant *self == *old(self), v0.wf(), v0.width() >= 1, v.v().len() == v0.v().len(), v.width() == v0.width(), vend_0 == v0.v().len(), 0 <= vit_0 <= vend_0,
                forall|q: int| 0 <= q < vit_0 ==> if v0.v()[q][0].r() >= 0real { #[trigger] v.v()[q] == v0.v()[q] } else { flipped(v0.v()[q], v.v()[q]) },
                forall|q: int| vit_0 <= q < v0.v().len() ==> #[trigger] v.v()[q] == v0.v()[q],
            decreases vend_0 - vit_0,
//@loop 0 top
            let ghost w0 = v.v(); let ghost rr = vit_0 - 1; proof { rl_one(0); assert(w0[rr] == v0.v()[rr]); }
//@loop 1
                invariant *self == *old(self), v0.wf(), v.v().len() == v0.v().len(), v.width() == v0.width(), 0 <= rr < v0.v().len(), r == rr, vend_1 == v0.width(), 0 <= vit_1 <= vend_1, w0.len() == v0.v().len(), w0[rr] == v0.v()[rr],
                    forall|q: int| 0 <= q < w0.len() && q != rr ==> #[trigger] v.v()[q] == w0[q], v.v()[rr].len() == v0.width(), w0[rr].len() == v0.width(),
                    forall|k: int| 0 <= k < v0.width() ==> (#[trigger] v.v()[rr][k]).r() == (if k < vit_1 { 0real - w0[rr][k].r() } else { w0[rr][k].r() }),
                decreases vend_1 - vit_1,
//@loop 1 top
                let ghost x0 = v.v();
//@loop 1 end
                proof { rl_one(1); let c0 = vit_1 - 1; assert(v.v()[rr] =~= x0[rr].update(c0 as int, v.v()[rr][c0 as int])); let a = x0[rr][c0 as int].r(); assert(a * (0real - 1real) == 0real - a) by (nonlinear_arith); }
//@loop 1 after
            proof { assert(flipped(v0.v()[rr], v.v()[rr])); }
//@end
//@extract src/training/rotation/pca/mod.rs :: impl PCAnalyzer for Training :: share_principal_components
//@spec
    requires base(*old(self)), old(self).rotation.pca.components is Some,
    ensures shared(old(self).log.evs@, final(self).log.evs@, *old(self), PCAComponents { components: old(self).rotation.pca.components->0, means }), *final(self) == (Training { log: final(self).log, ..*old(self) }),
//@subst Array1<f32> ==> Vec1
//@subst "Training".to_string() ==> ()
//@subst addr.do_send( ==> addr.vsend(&mut self.log, 
//@subst match &self.own_addr { Some(own_addr) => own_addr.do_send(msg), None => vpanic(), } ==> vaddr(&self.own_addr).vsend(&mut self.log, msg)
//@top
    let ghost e0 = self.log.evs@; let ghost mut keys = Seq::<usize>::empty(); let ghost k0 = e0.len() as int; proof { assert(e0.take(k0) =~= e0); }
//@loop 0 init
        proof { keys = keys_of(vit_0.all()); }
//@loop 0
            invariant *self == (Training { log: self.log, ..*old(self) }), base(*old(self)), keys == keys_of(vit_0.all()), all_others(keys, len(*old(self)), old(self).cluster_nodes.own as int), 0 <= vit_0.pos() <= keys.len(), forall|i: int| 0 <= i < keys.len() ==> (#[trigger] vit_0.all()[i]).1.idx == keys[i],
                e0 == old(self).log.evs@, k0 == e0.len(), self.log.evs@.len() == k0 + vit_0.pos(), self.log.evs@.take(k0) == e0, forall|i: int| 0 <= i < vit_0.pos() ==> comp_to(#[trigger] self.log.evs@[k0 + i], Some(keys[i]), msg),
            ensures vit_0.pos() == vit_0.all().len(),
            decreases vit_0.all().len() - vit_0.pos(),
//@loop 0 top
            let ghost l0 = self.log.evs@;
//@loop 0 end
            proof { assert(self.log.evs@.take(k0) =~= l0.take(k0)); assert forall|i: int| 0 <= i < vit_0.pos() implies comp_to(#[trigger] self.log.evs@[k0 + i], Some(keys[i]), msg) by { if i < vit_0.pos() - 1 { assert(self.log.evs@[k0 + i] == l0[k0 + i]); } } }
//@loop 0 after
        let ghost l1 = self.log.evs@; proof { let l2 = l1.push(Ev::Comp { to: None, m: msg }); assert(l2.take(k0) =~= l1.take(k0)); assert forall|i: int| 0 <= i < keys.len() implies comp_to(#[trigger] l2[k0 + i], Some(keys[i]), msg) by { assert(l2[k0 + i] == l1[k0 + i]); } assert(sent_to(e0, l2, keys, msg)); }
//@end
//@extract src/training/rotation/pca/mod.rs :: impl PCAnalyzer for Training :: finalize
//@spec
    requires base(*old(self)), old(self).rotation.pca.local_r is Some, all_means(*old(self)), all_ids(old(self).rotation.pca.local_r->0.ids@, len(*old(self))),
    ensures ({ let t = *old(self); let u = *final(self); u.rotation.pca.components is Some && u == (Training { log: u.log, rotation: Rotation { pca: PCA { components: u.rotation.pca.components, ..t.rotation.pca }, ..t.rotation }, ..t }) && exists|m: PCAComponents| #[trigger] shared(t.log.evs@, u.log.evs@, t, m) && Some(m.components) == u.rotation.pca.components }),
//@havoc column_means ()
//@havoc dim ()
//@havoc n ()
//@havoc n_reshaped ()
//@havoc global_means Vec1
//@havoc squared_n ()
//@havoc mean_diff ()
//@havoc squared_mul ()
//@subst concatenate![ Axis(0), squared_mul.view(), self.rotation.pca.local_r.as_ref().unwrap().view() ] .qr() .unwrap() ==> vlast_r(self.rotation.pca.column_means.as_ref().unwrap(), self.rotation.pca.n.as_ref().unwrap(), self.rotation.pca.local_r.as_ref().unwrap(), Ghost(len(*self)))
//@subst r.svd(false, true).unwrap() ==> vsvd(&r)
//@subst v.expect("Could not calculate SVD.") ==> v.unwrap()
//@subst v .slice(s![0..self.rotation.pca.n_components, ..]) .to_owned() ==> vslice(&v, self.rotation.pca.n_components)
//@subst self.share_principal_components(global_means); ==> let ghost gm = global_means; let ghost mid = *self; self.share_principal_components(global_means); proof { let m = PCAComponents { components: mid.rotation.pca.components->0, means: gm }; assert(shared(mid.log.evs@, self.log.evs@, mid, m)); assert(shared(old(self).log.evs@, self.log.evs@, *old(self), m)); }
//@top
    proof { means_all(self.rotation.pca.column_means->0, self.rotation.pca.n->0, len(*self)); }
//@end
//@extract src/training/rotation/pca/mod.rs :: impl PCAnalyzer for Training :: send_to_main
//@spec
    requires base(*old(self)), old(self).rotation.pca.column_means is Some, old(self).rotation.pca.data is Some,
    ensures *final(self) == (Training { log: final(self).log, ..*old(self) }), final(self).log.evs@ == old(self).log.evs@ + (if old(self).cluster_nodes.own == 0 { seq![] } else { seq![Ev::Means { to: Some(0usize), m: PCAMeansMessage { columns_means: old(self).rotation.pca.column_means->0, n: old(self).rotation.pca.data->0.rows } }] }),
//@subst "Training".to_string() ==> ()
//@subst addr.do_send( ==> addr.vsend(&mut self.log, 
//@subst self.rotation.pca.data.as_ref().unwrap().shape()[0] ==> self.rotation.pca.data.as_ref().unwrap().rows
//@top
    proof { let e = self.log.evs@; assert(e + Seq::<Ev>::empty() =~= e); assert forall|x: Ev| e + seq![x] == #[trigger] e.push(x) by { assert(e + seq![x] =~= e.push(x)); } }
//@end
//@extract src/training/rotation/pca/mod.rs :: impl PCAnalyzer for Training :: send_to_neighbor_or_finalize
//@spec
    requires ok(*old(self)), old(self).rotation.pca.local_r is Some,
    ensures went_on(*old(self), *final(self)), ok(*final(self)),
    decreases (if old(self).rotation.pca.r_count == 0 { 1int } else { 0int }),
//@rename div=vdiv
//@subst 2_usize.pow((self.rotation.pca.r_count + 1) as u32) ==> vpow2((self.rotation.pca.r_count + 1) as u32)
//@subst "Training".to_string() ==> ()
//@subst addr.do_send( ==> addr.vsend(&mut self.log, 
//@top
    proof { look(*self); }
//@end
//@extract src/training/rotation/pca/mod.rs :: impl PCAnalyzer for Training :: combine_remote_r
//@spec
    requires base(*old(self)), old(self).rotation.pca.local_r is Some, old(self).rotation.pca.r_count >= 1, has_part(old(self).rotation.pca.local_r->0, len(*old(self)), old(self).rotation.pca.id as int, old(self).rotation.pca.r_count - 1), dec_ok(remote_r, old(self).rotation.pca.r_count as int, len(*old(self)), old(self).rotation.pca.id as int),
    ensures ok(*final(self)), ({ let t = *old(self); exists|m: Training| #[trigger] went_on(m, *final(self)) && m.rotation.pca.local_r is Some && m.rotation.pca.local_r->0.ids@ == t.rotation.pca.local_r->0.ids@ + remote_r.ids@ && m == (Training { rotation: Rotation { pca: PCA { local_r: m.rotation.pca.local_r, ..t.rotation.pca }, ..t.rotation }, ..t }) }),
//@subst Array2<f32> ==> Array2
//@subst let (_q, r) = concatenate(Axis(0), &[r.view(), remote_r.view()]) .unwrap() .qr() .unwrap(); ==> let r = vqr2(r, &remote_r); proof { part_join(len(*old(self)), old(self).rotation.pca.id as int, old(self).rotation.pca.r_count - 1, old(self).rotation.pca.local_r->0, remote_r, r); }
//@subst self.send_to_neighbor_or_finalize(); ==> let ghost m = *self; self.send_to_neighbor_or_finalize(); proof { assert(went_on(m, *self)); }
//@end
//@extract src/training/rotation/pca/mod.rs :: impl PCAnalyzer for Training :: center_columns_decomposition
//@spec
    requires base(*old(self)), old(self).rotation.pca.local_r is None, old(self).rotation.pca.r_count == 0, old(self).rotation.pca.data is Some, old(self).rotation.pca.data->0.id@ == old(self).rotation.pca.id, old(self).rotation.pca.data->0.rows == rows_of(old(self).rotation.pca.id as int),
    ensures ok(*final(self)), started(*old(self), *final(self)),
//@subst data.mean_axis(Axis(0)) .unwrap() .into_shape([1, data.shape()[1]]) .unwrap() ==> vmeans(data)
//@subst arr1(&[data.shape()[0] as f32]) ==> vrows1(data)
//@subst data - self.rotation.pca.column_means.as_ref().unwrap() ==> vcenter(data, self.rotation.pca.column_means.as_ref().unwrap())
//@subst col_centered .qr() .expect("Could not perform QR decomposition") ==> vqr(&col_centered)
//@subst self.send_to_main(); ==> proof { part_own(len(*self), self.rotation.pca.id as int, self.rotation.pca.local_r->0); } let ghost m0 = *self; self.send_to_main();
//@subst self.send_to_neighbor_or_finalize(); ==> let ghost m = *self; self.send_to_neighbor_or_finalize(); let ghost w = *self; proof { assert(went_on(m, w)); }
//@tail
    proof { assert(has_own(*old(self), m, w) && resent(w, *self)); }
//@end
//@extract src/training/rotation/pca/mod.rs :: impl PCAnalyzer for Training :: helper_center_columns_decomposition
//@spec
    requires old(self).own_addr is Some, old(self).rotation.pca.data is Some, 1 <= old(self).rotation.pca.data->0.rows, 1 <= old(self).parameters.n_threads <= 0x100_0000,
    ensures ({ let t = *old(self); let u = *final(self); u == (Training { log: u.log, rotation: Rotation { pca: PCA { helpers: u.rotation.pca.helpers, ..t.rotation.pca }, ..t.rotation }, ..t }) && exists|size: int| #[trigger] handed_out(t.log.evs@, u.log.evs@, t.rotation.pca.data->0, size, u.rotation.pca.helpers@) }),
//@rename iter=viter
//@subst num_integer::div_ceil( ==> vdiv_ceil(
//@subst data.shape()[0] ==> data.rows
//@subst Recipient<PCAHelperMessage> ==> HelperAddr
//@subst data .axis_chunks_iter(Axis(0), chunk_size) ==> vchunks(data, chunk_size)
//@subst (0..n_helpers) .into_iter() ==> vrange(0, n_helpers)
//@subst .expect("PCA started before data is present!") ==> .unwrap()
//@subst helper.do_send( ==> helper.vsend(&mut self.log, 
//@subst helpers.clone() ==> clone_addrs(&helpers)
//@closure 0
    |i: usize| -> (q: HelperAddr) ensures q.idx == i
//@closure 1
    |addr: &HelperAddr| -> (q: HelperAddr) ensures q == *addr
//@top
    let ghost e0 = self.log.evs@; let ghost k0 = e0.len() as int; let ghost d = self.rotation.pca.data->0; proof { assert(e0.take(k0) =~= e0); tiles(d.rows as int, self.parameters.n_threads as int); tiles(d.rows as int, ceil(d.rows as int, self.parameters.n_threads as int)); few_chunks(d.rows as int, self.parameters.n_threads as int); }
//@loop 0 init
        let ghost hs = self.rotation.pca.helpers@; let ghost size = chunk_size as int; proof { assert(helpers@ =~= hs); assert(vit_0.all().len() == hs.len()); assert forall|i: int| 0 <= i < hs.len() implies (#[trigger] vit_0.all()[i]).0 == piece(d, size, i) && *vit_0.all()[i].1 == hs[i] by { } }
//@loop 0
            invariant *self == (Training { log: self.log, rotation: Rotation { pca: PCA { helpers: self.rotation.pca.helpers, ..old(self).rotation.pca }, ..old(self).rotation }, ..*old(self) }), self.rotation.pca.helpers@ == hs, helpers@ == hs, numbered(hs), e0 == old(self).log.evs@, k0 == e0.len(), vit_0.all().len() == hs.len(), 0 <= vit_0.pos() <= hs.len(), forall|i: int| 0 <= i < hs.len() ==> (#[trigger] vit_0.all()[i]).0 == piece(d, size, i) && *vit_0.all()[i].1 == hs[i],
                self.log.evs@.len() == k0 + vit_0.pos(), self.log.evs@.take(k0) == e0, forall|i: int| 0 <= i < vit_0.pos() ==> setup_to(#[trigger] self.log.evs@[k0 + i], i, hs, piece(d, size, i)),
            ensures vit_0.pos() == vit_0.all().len(),
            decreases vit_0.all().len() - vit_0.pos(),
//@loop 0 top
            let ghost l0 = self.log.evs@;
//@loop 0 end
            proof { assert(self.log.evs@.take(k0) =~= l0.take(k0)); assert forall|i: int| 0 <= i < vit_0.pos() implies setup_to(#[trigger] self.log.evs@[k0 + i], i, hs, piece(d, size, i)) by { if i < vit_0.pos() - 1 { assert(self.log.evs@[k0 + i] == l0[k0 + i]); } } }
//@loop 0 after
        proof { assert(handed_out(e0, self.log.evs@, d, size, hs)); }
//@end
//@extract src/training/rotation/pca/mod.rs :: impl Handler<PCAHelperMessage> for Training :: handle
//@subst fn handle( ==> fn handle_helper(
//@spec
    requires base(*old(self)), old(self).rotation.pca.local_r is None, old(self).rotation.pca.r_count == 0, old(self).rotation.pca.data is Some, old(self).rotation.pca.data->0.id@ == old(self).rotation.pca.id, old(self).rotation.pca.data->0.rows == rows_of(old(self).rotation.pca.id as int),
        msg is Response ==> msg->column_means.id@ == old(self).rotation.pca.id && msg->Response_n.rows@ == rows_of(old(self).rotation.pca.id as int) && msg->Response_r.ids@ == seq![old(self).rotation.pca.id as int],
    ensures msg is Response ==> ok(*final(self)) && exists|t: Training| #[trigger] started(t, *final(self)) && stopped(*old(self), t), !(msg is Response) ==> *final(self) == *old(self),
//@subst _ctx: &mut Self::Context) -> Self::Result ==> _ctx: &mut Context)
//@subst column_means.into_shape([1, n_columns]).unwrap() ==> vwhole(column_means)
//@subst concatenate![Axis(0), arr1(&[n])] ==> vwhole_rows(n)
//@subst helper.do_send(PoisonPill) ==> helper.vsend(&mut self.log, PoisonPill)
//@top
    let ghost e0 = self.log.evs@; let ghost k0 = e0.len() as int; let ghost h0 = self.rotation.pca.helpers@; proof { assert(e0.take(k0) =~= e0); }
//@loop 0
                invariant k0 == e0.len(), n_helpers == h0.len(), vend_0 == n_helpers, 0 <= vit_0 <= vend_0, helpers@ == h0.take(h0.len() - vit_0), self.log.evs@.len() == k0 + vit_0, self.log.evs@.take(k0) == e0, forall|i: int| 0 <= i < vit_0 ==> #[trigger] self.log.evs@[k0 + i] == (Ev::Poison { to: Some(h0[h0.len() - 1 - i].idx) }),
                decreases vend_0 - vit_0,
//@loop 0 top
                let ghost l0 = self.log.evs@;
//@loop 0 end
                proof { assert(self.log.evs@.take(k0) =~= l0.take(k0)); assert forall|i: int| 0 <= i < vit_0 implies #[trigger] self.log.evs@[k0 + i] == (Ev::Poison { to: Some(h0[h0.len() - 1 - i].idx) }) by { if i < vit_0 - 1 { assert(self.log.evs@[k0 + i] == l0[k0 + i]); } } }
//@subst self.send_to_main(); ==> let ghost m0 = *self; proof { part_own(len(*self), self.rotation.pca.id as int, self.rotation.pca.local_r->0); } self.send_to_main();
//@subst self.send_to_neighbor_or_finalize(); ==> let ghost m = *self; self.send_to_neighbor_or_finalize(); let ghost w = *self; proof { assert(went_on(m, w)); }
//@subst self.resolve_means_buffer(); ==> self.resolve_means_buffer(); proof { { let t = Training { log: m0.log, rotation: Rotation { pca: PCA { helpers: m0.rotation.pca.helpers, ..old(self).rotation.pca }, ..old(self).rotation }, ..*old(self) }; assert(has_own(t, m, w) && resent(w, *self)); assert(started(t, *self)); assert(stopped(*old(self), t)); } }
//@end
//@extract src/training/rotation/pca/mod.rs :: impl PCAnalyzer for Training :: pca
//@spec
    requires base(*old(self)), old(self).rotation.pca.local_r is None, 1 <= old(self).parameters.n_threads <= 0x100_0000, data.id@ == old(self).rotation.pca.id, data.rows == rows_of(old(self).rotation.pca.id as int), data.rows >= 1,
    ensures ({ let t = *old(self); let u = *final(self); let d = Training { rotation: Rotation { pca: PCA { data: Some(data), ..t.rotation.pca }, ..t.rotation }, ..t };
        &&& t.parameters.n_threads == 1 ==> ok(u) && started(d, u)
        &&& t.parameters.n_threads > 1 ==> u == (Training { log: u.log, rotation: Rotation { pca: PCA { helpers: u.rotation.pca.helpers, ..d.rotation.pca }, ..d.rotation }, ..d }) && exists|size: int| #[trigger] handed_out(t.log.evs@, u.log.evs@, data, size, u.rotation.pca.helpers@) }),
//@subst ArcArray2<f32> ==> ArcArray2
//@end
//@extract src/training/rotation/pca/mod.rs :: impl Handler<PCAMeansMessage> for Training :: handle
//@subst fn handle( ==> fn handle_means(
//@spec
    requires ok(*old(self)), old(self).rotation.pca.id == 0, old(self).rotation.pca.column_means is Some ==> old(self).rotation.pca.local_r is Some, msg.columns_means.ids@.len() == 1, msg.n == rows_of(msg.columns_means.ids@[0]), 0 < msg.columns_means.ids@[0] < len(*old(self)),
        // a node sends its means once per analysis
        old(self).rotation.pca.column_means is Some && !all_means(*old(self)) ==> !old(self).rotation.pca.column_means->0.ids@.contains(msg.columns_means.ids@[0]),
    ensures ok(*final(self)), ({ let t = *old(self); let u = *final(self);
        if t.rotation.pca.column_means is None || all_means(t) { u == (Training { rotation: Rotation { pca: PCA { means_buffer: u.rotation.pca.means_buffer, ..t.rotation.pca }, ..t.rotation }, ..t }) && u.rotation.pca.means_buffer@ == t.rotation.pca.means_buffer@.push(msg) }
        else { !fin(t) && exists|m: Training| #[trigger] went_on(m, u) && m.rotation.pca.column_means is Some && m.rotation.pca.n is Some && m.rotation.pca.column_means->0.ids@ == t.rotation.pca.column_means->0.ids@ + msg.columns_means.ids@ && m.rotation.pca.n->0.v@ == t.rotation.pca.n->0.v@.push(msg.n as int) && m == (Training { rotation: Rotation { pca: PCA { column_means: m.rotation.pca.column_means, n: m.rotation.pca.n, ..t.rotation.pca }, ..t.rotation }, ..t }) } }),
//@subst _ctx: &mut Self::Context) -> Self::Result ==> _ctx: &mut Context)
//@subst concatenate![ Axis(0), self.rotation.pca.column_means.as_ref().unwrap().clone(), msg.columns_means.view().into_dimensionality().unwrap() ] ==> vstack(self.rotation.pca.column_means.as_ref().unwrap(), &msg.columns_means)
//@subst concatenate![ Axis(0), self.rotation.pca.n.as_ref().unwrap().clone(), arr1(&[msg.n as f32]) ] ==> vrows_push(self.rotation.pca.n.as_ref().unwrap(), msg.n)
//@subst self.send_to_neighbor_or_finalize(); ==> proof { means_push(*old(self), *self, msg); } let ghost m = *self; self.send_to_neighbor_or_finalize(); proof { assert(went_on(m, *self)); }
//@end
//@extract src/training/rotation/pca/mod.rs :: impl Handler<PCADecompositionMessage> for Training :: handle
//@subst fn handle( ==> fn handle_dec(
//@spec
    requires ok(*old(self)), dec_ok(msg.r, msg.count as int, len(*old(self)), old(self).rotation.pca.id as int),
    ensures ok(*final(self)), ({ let t = *old(self); let u = *final(self); let p = t.rotation.pca;
        if p.local_r is None || msg.count != p.r_count + 1 { u == (Training { rotation: Rotation { pca: PCA { buffer: u.rotation.pca.buffer, ..p }, ..t.rotation }, ..t }) && u.rotation.pca.buffer@ == p.buffer@.push(msg) }
        else { !fin(t) && exists|m: Training, w: Training| #[trigger] went_on(m, w) && joined(t, m, msg) && #[trigger] resent_dec(w, u) } }),
//@subst _ctx: &mut Self::Context) -> Self::Result ==> _ctx: &mut Context)
//@subst self.combine_remote_r(msg.r); ==> let ghost a = *self; self.combine_remote_r(msg.r); let ghost w = *self; proof { let m = choose|m: Training| #[trigger] went_on(m, w) && m.rotation.pca.local_r is Some && m.rotation.pca.local_r->0.ids@ == a.rotation.pca.local_r->0.ids@ + msg.r.ids@ && m == (Training { rotation: Rotation { pca: PCA { local_r: m.rotation.pca.local_r, ..a.rotation.pca }, ..a.rotation }, ..a }); assert(went_on(m, w) && joined(*old(self), m, msg)); }
//@subst self.resolve_buffer(); ==> self.resolve_buffer(); proof { assert(resent_dec(w, *self)); }
//@top
    proof { lg_ok(len(*self)); }
//@end
//@extract src/training/rotation/pca/mod.rs :: impl Handler<PCAComponents> for Training :: handle
//@subst fn handle( ==> fn handle_comp(
//@spec
    ensures ({ let t = *old(self); let u = *final(self); u.rotation.pca.components == Some(msg.components) && u.rotation.pca.global_means == Some(msg.means) && u.log.evs@ == t.log.evs@.push(Ev::Done) && u == (Training { log: u.log, rotation: Rotation { pca: PCA { components: u.rotation.pca.components, global_means: u.rotation.pca.global_means, ..t.rotation.pca }, ..t.rotation }, ..t }) }),
//@subst ctx: &mut Self::Context) -> Self::Result ==> ctx: &mut Context)
//@subst match &self.rotation.pca.recipient { Some(rec) => { rec.do_send(msg); } None => ctx.address().do_send(PCADoneMessage), } ==> ctx.address().vsend(&mut self.log, PCADoneMessage);
//@end
}
#[verifier::external_body] pub fn vaddr(a: &Option<Addr>) -> (r: Addr) requires a is Some ensures r == a->0 { unimplemented!() }
pub trait VDiv: Sized { spec fn rep(self) -> int; fn vdiv(self, o: usize) -> (r: usize) requires o > 0 ensures r as int == self.rep() / (o as int); }
impl VDiv for usize { open spec fn rep(self) -> int { self as int } fn vdiv(self, o: usize) -> (r: usize) { self / o } }
// the R of the partner is added, and the round counted
pub open spec fn joined(t: Training, m: Training, msg: PCADecompositionMessage) -> bool { m.rotation.pca.local_r is Some && m.rotation.pca.local_r->0.ids@ == t.rotation.pca.local_r->0.ids@ + msg.r.ids@ && m == (Training { rotation: Rotation { pca: PCA { local_r: m.rotation.pca.local_r, r_count: msg.count, ..t.rotation.pca }, ..t.rotation }, ..t }) }
// what was kept is looked at again
pub open spec fn resent_dec(w: Training, u: Training) -> bool { u.inbox_d.got@ == w.inbox_d.got@ + rev(w.rotation.pca.buffer@) && u.rotation.pca.buffer@.len() == 0 && u.inbox_d.first == w.inbox_d.first && u == (Training { inbox_d: u.inbox_d, rotation: Rotation { pca: PCA { buffer: u.rotation.pca.buffer, ..w.rotation.pca }, ..w.rotation }, ..w }) }
pub open spec fn resent(w: Training, u: Training) -> bool { u.inbox_d.got@ == w.inbox_d.got@ + rev(w.rotation.pca.buffer@) && u.inbox_m.got@ == w.inbox_m.got@ + rev(w.rotation.pca.means_buffer@) && u.rotation.pca.buffer@.len() == 0 && u.rotation.pca.means_buffer@.len() == 0 && u == (Training { inbox_d: u.inbox_d, inbox_m: u.inbox_m, rotation: Rotation { pca: PCA { buffer: u.rotation.pca.buffer, means_buffer: u.rotation.pca.means_buffer, ..w.rotation.pca }, ..w.rotation }, ..w }) }
// own data: means, number of rows and R; the means go to node 0; then as far as it goes
pub open spec fn has_own(t: Training, m: Training, w: Training) -> bool { let id = t.rotation.pca.id as int;
    &&& went_on(m, w) && m.rotation.pca.local_r is Some && m.rotation.pca.column_means is Some && m.rotation.pca.n is Some && m.rotation.pca.local_r->0.ids@ == seq![id] && m.rotation.pca.column_means->0.ids@ == seq![id] && m.rotation.pca.n->0.v@ == seq![rows_of(id)]
    &&& m == (Training { log: m.log, rotation: Rotation { pca: PCA { local_r: m.rotation.pca.local_r, column_means: m.rotation.pca.column_means, n: m.rotation.pca.n, ..t.rotation.pca }, ..t.rotation }, ..t })
    &&& m.log.evs@ == t.log.evs@ + (if id == 0 { seq![] } else { seq![Ev::Means { to: Some(0usize), m: PCAMeansMessage { columns_means: m.rotation.pca.column_means->0, n: t.rotation.pca.data->0.rows } }] })
}
pub open spec fn started(t: Training, u: Training) -> bool { exists|m: Training, w: Training| #[trigger] has_own(t, m, w) && #[trigger] resent(w, u) }
pub open spec fn poisoned(e: Ev, h: HelperAddr) -> bool { e == Ev::Poison { to: Some(h.idx) } }
// the helpers end, each once
pub open spec fn stopped(t: Training, u: Training) -> bool { let h = t.rotation.pca.helpers@; let e = t.log.evs@; let f = u.log.evs@;
    u == (Training { log: u.log, rotation: Rotation { pca: PCA { helpers: u.rotation.pca.helpers, ..t.rotation.pca }, ..t.rotation }, ..t }) && u.rotation.pca.helpers@.len() == 0 && f.len() == e.len() + h.len() && f.take(e.len() as int) == e && forall|i: int| 0 <= i < h.len() ==> #[trigger] f[e.len() + i] == (Ev::Poison { to: Some(h[h.len() - 1 - i].idx) }) }
// not more chunks than threads
pub proof fn few_chunks(a: int, b: int) requires a >= 1, b >= 1 ensures ceil(a, ceil(a, b)) <= b {
    tiles(a, b); let s = ceil(a, b); tiles(a, s); let k = ceil(a, s); if k > b { assert((k - 1) * s >= b * s) by (nonlinear_arith) requires k - 1 >= b, s >= 1; assert(b * s == s * b) by (nonlinear_arith); }
}
pub proof fn means_push(t: Training, m: Training, msg: PCAMeansMessage)
    requires ok(t), t.rotation.pca.column_means is Some, m.rotation.pca.column_means is Some, m.rotation.pca.n is Some, msg.columns_means.ids@.len() == 1, msg.n == rows_of(msg.columns_means.ids@[0]), 0 < msg.columns_means.ids@[0] < len(t), !t.rotation.pca.column_means->0.ids@.contains(msg.columns_means.ids@[0]), m.rotation.pca.column_means->0.ids@ == t.rotation.pca.column_means->0.ids@ + msg.columns_means.ids@, m.rotation.pca.n->0.v@ == t.rotation.pca.n->0.v@.push(msg.n as int)
    ensures means_ok(m.rotation.pca.column_means->0, m.rotation.pca.n->0, len(t))
{
    let a = t.rotation.pca.column_means->0.ids@; let b = m.rotation.pca.column_means->0.ids@; let x = msg.columns_means.ids@[0]; assert(b =~= a.push(x));
    assert forall|i: int, j: int| 0 <= i < b.len() && 0 <= j < b.len() && i != j implies b[i] != b[j] by { if i == a.len() { assert(a.contains(a[j])); } else if j == a.len() { assert(a.contains(a[i])); } }
}
// everything the code needs to know when it looks whether it can go on
pub proof fn look(t: Training)
    requires ok(t), t.rotation.pca.local_r is Some,
    ensures ({ let l = lg(len(t)); let c = t.rotation.pca.r_count as int; let id = t.rotation.pca.id as int; let h = thr(l, c);
        &&& 0 <= c <= l <= 24 && p2(l) / p2(c + 1) == h && p2(c + 1) >= 1 && p2(l) <= 0x100_0000 && 0 <= h && rounds(len(t), l) && (h == 0 <==> c == l)
        &&& id > 0 && id >= h ==> h >= 1 && dec_ok(t.rotation.pca.local_r->0, c + 1, len(t), id - h)
        &&& (c == 0 && id < h && id + h >= len(t)) ==> id > 0 && l >= 2 && has_part(t.rotation.pca.local_r->0, len(t), id, 1) && settled(t) == 1
        &&& !(c == 0 && 0 < id < h && id + h >= len(t)) ==> settled(t) == c
        &&& id == 0 && h == 0 ==> all_ids(t.rotation.pca.local_r->0.ids@, len(t))
        &&& id == 0 && c == 0 ==> h < len(t)
        &&& (id < h && c >= 1 ==> id + h < len(t))
        &&& (all_means(t) ==> all_ids(t.rotation.pca.column_means->0.ids@, len(t))) })
{
    let n = len(t); let l = lg(n); let c = t.rotation.pca.r_count as int; let id = t.rotation.pca.id as int; lg_ok(n); thr_is(l, c); let h = thr(l, c);
    if c < l { p2_pos(l - c - 1); thr_step(l, c); }
    if all_means(t) { means_all(t.rotation.pca.column_means->0, t.rotation.pca.n->0, n); }
    if id == 0 && h == 0 { part_all(n, t.rotation.pca.local_r->0); }
    if id < h && c >= 1 { partner(n, l, id, c); }
    if c == 0 && l >= 1 { assert(h == p2(l - 1)); }
    if id > 0 && id >= h { if c == l { assert(p2(0) == 1); } assert(p2(l - c) == 2 * h); if c == 0 { assert(id < 2 * h); } }
    if c == 0 && id < h && id + h >= n { assert(id > 0); part_skip(n, id, t.rotation.pca.local_r->0); }
}
} // verus!
fn main() {}
