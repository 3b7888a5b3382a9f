//! the mailbox of a helper keeps the order in which messages were sent (also over several helpers: a message sent because of another comes after it), so a helper is set up before anything else reaches it, and helper 0 has all means before the last R.
//! linear algebra as in C16: whose rows go into which matrix; the numbers are compared natively.
//@include base.rs
//@include coll.rs
//@include float.rs
//@include tree.rs
verus! {
pub enum Ev { Msg { to: Option<usize>, m: PCAHelperMessage } }
} // verus!
//@include net.rs
verus! {
pub enum PCAHelperMessage { Setup { neighbors: Vec<HelperAddr>, data: ArcArray2 }, Decomposition { r: Array2, count: usize }, Means { columns_means: Array2, n: usize }, Components { components: (), means: () }, Response { column_means: Whole, n: WholeRows, r: Array2 } }
impl VMsg for PCAHelperMessage { open spec fn ev(self, to: Option<usize>) -> Ev { Ev::Msg { to, m: self } } }
#[derive(Clone, Copy)]
pub struct HelperAddr { pub idx: usize }
impl HelperAddr { #[verifier::external_body] pub fn vsend<M: VMsg>(&self, log: &mut Log, m: M) ensures final(log).evs@ == old(log).evs@.push(m.ev(Some(self.idx))) { unimplemented!() } }
impl Addr { #[verifier::external_body] pub fn vsendr<M: VMsg>(&self, log: &mut Log, m: M) ensures final(log).evs@ == old(log).evs@.push(m.ev(None)) { unimplemented!() } }
#[verifier::external_body] pub struct Whole { }
#[verifier::external_body] pub struct WholeRows { }
pub struct NView { }
impl NView { #[verifier::external_body] pub fn vsum(&self) -> WholeRows { unimplemented!() } }
#[verifier::external_body] pub fn vlast_r(means: &Array2, n: &Rows, r: &Array2, Ghost(len): Ghost<int>) -> (q: ((), Array2)) requires all_ids(r.ids@, len), all_ids(means.ids@, len), means_ok(*means, *n, len) ensures q.1.ids@ == r.ids@ { unimplemented!() }
#[verifier::external_body] pub fn vextend_addrs(v: &mut Vec<HelperAddr>, o: Vec<HelperAddr>) ensures final(v)@ == old(v)@ + o@ { unimplemented!() }
pub struct PCAHelper { pub id: usize, pub receiver: Option<Addr>, pub neighbors: Vec<HelperAddr>, pub data: Option<ArcArray2>, pub column_means: Option<Array2>, pub n: Option<Rows>, pub local_r: Option<Array2>, pub r_count: usize, pub buffer: Vec<PCAHelperMessage>, pub means_buffer: Vec<PCAHelperMessage>, pub log: Log }
pub open spec fn rev<T>(s: Seq<T>) -> Seq<T> { Seq::new(s.len(), |i: int| s[s.len() - 1 - i]) }
pub proof fn rev_last<T>(s: Seq<T>) requires s.len() > 0 ensures rev(s) == seq![s.last()] + rev(s.drop_last()) { assert(rev(s) =~= seq![s.last()] + rev(s.drop_last())); }
pub open spec fn to_self(h: PCAHelper, s: Seq<PCAHelperMessage>) -> Seq<Ev> { Seq::new(s.len(), |i: int| Ev::Msg { to: Some(h.id), m: s[i] }) }
pub open spec fn len(t: PCAHelper) -> int { t.neighbors@.len() as int }
pub open spec fn base(t: PCAHelper) -> bool { small_cluster(len(t)) && t.id < len(t) && t.receiver is Some && (forall|i: int| 0 <= i < len(t) ==> (#[trigger] t.neighbors@[i]).idx == i) && (t.column_means is Some <==> t.n is Some) && (t.column_means is Some ==> means_ok(t.column_means->0, t.n->0, len(t)) && t.n->0.v@.len() >= 1) && (t.local_r is Some <==> t.column_means is Some) && (t.local_r is None ==> t.r_count == 0) }
pub open spec fn ok(t: PCAHelper) -> bool { base(t) && (t.local_r is Some ==> has_part(t.local_r->0, len(t), t.id as int, t.r_count as int)) }
pub open spec fn all_means(t: PCAHelper) -> bool { t.n is Some && t.n->0.v@.len() == len(t) }
// helper 0 has all means when it has all R (order of the mailbox)
pub open spec fn in_order(t: PCAHelper) -> bool { t.id == 0 && t.local_r is Some && t.r_count == lg(len(t)) ==> all_means(t) }
pub open spec fn fin(t: PCAHelper) -> bool { let l = lg(len(t)); t.local_r is Some && if t.id > 0 { t.id >= thr(l, t.r_count as int) } else { t.r_count == l } }
pub open spec fn settled(t: PCAHelper) -> int { let h = thr(lg(len(t)), 0); if t.r_count == 0 && 0 < t.id < h && t.id + h >= len(t) { 1 } else { t.r_count as int } }
pub open spec fn with_count(t: PCAHelper, c: int) -> PCAHelper { PCAHelper { r_count: c as usize, ..t } }
pub open spec fn dec_of(t: PCAHelper) -> Ev { Ev::Msg { to: Some((t.id - thr(lg(len(t)), t.r_count as int)) as usize), m: PCAHelperMessage::Decomposition { r: t.local_r->0, count: (t.r_count + 1) as usize } } }
pub open spec fn answered(e: Ev, len: int) -> bool { e is Msg && e->to is None && e->m is Response && all_ids(e->m->Response_r.ids@, len) }
pub open spec fn went_on(t: PCAHelper, u: PCAHelper) -> bool {
    let v = with_count(t, settled(t));
    if !fin(v) { u == v && ({ let h = thr(lg(len(t)), v.r_count as int); v.id + h < len(t) && v.id < h }) }
    else if v.id > 0 { u == (PCAHelper { log: u.log, ..v }) && u.log.evs@ == t.log.evs@.push(dec_of(v)) && dec_ok(v.local_r->0, v.r_count + 1, len(t), v.id - thr(lg(len(t)), v.r_count as int)) }
    else { u == (PCAHelper { log: u.log, ..v }) && u.log.evs@.len() == t.log.evs@.len() + 1 && u.log.evs@.drop_last() == t.log.evs@ && answered(u.log.evs@.last(), len(t)) }
}
pub proof fn look(t: PCAHelper)
    requires ok(t), t.local_r is Some, in_order(t),
    ensures ({ let l = lg(len(t)); let c = t.r_count as int; let id = t.id as int; let h = thr(l, c);
        &&& 0 <= c <= l <= 24 && p2(l) / p2(c + 1) == h && p2(c + 1) >= 1 && p2(l) <= 0x100_0000 && 0 <= h && rounds(len(t), l) && (h == 0 <==> c == l)
        &&& id > 0 && id >= h ==> h >= 1 && dec_ok(t.local_r->0, c + 1, len(t), id - h)
        &&& (c == 0 && id < h && id + h >= len(t)) ==> id > 0 && l >= 2 && has_part(t.local_r->0, len(t), id, 1) && settled(t) == 1
        &&& !(c == 0 && 0 < id < h && id + h >= len(t)) ==> settled(t) == c
        &&& id == 0 && h == 0 ==> all_ids(t.local_r->0.ids@, len(t)) && all_means(t)
        &&& id == 0 && c == 0 ==> h < len(t)
        &&& (id < h && c >= 1 ==> id + h < len(t))
        &&& (all_means(t) ==> all_ids(t.column_means->0.ids@, len(t))) })
{
    let n = len(t); let l = lg(n); let c = t.r_count as int; let id = t.id as int; lg_ok(n); thr_is(l, c); let h = thr(l, c);
    if c < l { p2_pos(l - c - 1); thr_step(l, c); }
    if all_means(t) { means_all(t.column_means->0, t.n->0, n); }
    if id == 0 && h == 0 { part_all(n, t.local_r->0); }
    if id < h && c >= 1 { partner(n, l, id, c); }
    if c == 0 && l >= 1 { assert(h == p2(l - 1)); }
    if id > 0 && id >= h { if c == l { assert(p2(0) == 1); } assert(p2(l - c) == 2 * h); if c == 0 { assert(id < 2 * h); } }
    if c == 0 && id < h && id + h >= n { assert(id > 0); part_skip(n, id, t.local_r->0); }
}
pub trait VDiv: Sized { spec fn rep(self) -> int; fn vdiv(self, o: usize) -> (r: usize) requires o > 0 ensures r as int == self.rep() / (o as int); }
impl VDiv for usize { open spec fn rep(self) -> int { self as int } fn vdiv(self, o: usize) -> (r: usize) { self / o } }
pub open spec fn resent_r(t: PCAHelper, u: PCAHelper) -> bool { u == (PCAHelper { log: u.log, buffer: u.buffer, ..t }) && u.buffer@.len() == 0 && u.log.evs@ == t.log.evs@ + to_self(t, rev(t.buffer@)) }
pub open spec fn resent_m(t: PCAHelper, u: PCAHelper) -> bool { u == (PCAHelper { log: u.log, means_buffer: u.means_buffer, ..t }) && u.means_buffer@.len() == 0 && u.log.evs@ == t.log.evs@ + to_self(t, rev(t.means_buffer@)) }
pub open spec fn has_own(t: PCAHelper, m: PCAHelper, w: PCAHelper) -> bool { let id = t.id as int;
    &&& went_on(m, w) && m.local_r is Some && m.column_means is Some && m.n is Some && m.local_r->0.ids@ == seq![id] && m.column_means->0.ids@ == seq![id] && m.n->0.v@ == seq![rows_of(id)]
    &&& m == (PCAHelper { log: m.log, local_r: m.local_r, column_means: m.column_means, n: m.n, ..t })
    &&& m.log.evs@ == t.log.evs@ + (if id == 0 { seq![] } else { seq![Ev::Msg { to: Some(0usize), m: PCAHelperMessage::Means { columns_means: m.column_means->0, n: t.data->0.rows } }] })
}
pub open spec fn started(t: PCAHelper, u: PCAHelper) -> bool { exists|m: PCAHelper, w: PCAHelper, x: PCAHelper| #[trigger] has_own(t, m, w) && #[trigger] resent_r(w, x) && #[trigger] resent_m(x, u) }
pub open spec fn before(t: PCAHelper) -> bool { base(t) && t.local_r is None && t.data is Some && t.data->0.id@ == t.id && t.data->0.rows == rows_of(t.id as int) }
pub open spec fn joined(t: PCAHelper, m: PCAHelper, r: Array2, count: usize) -> bool { m.local_r is Some && m.local_r->0.ids@ == t.local_r->0.ids@ + r.ids@ && m == (PCAHelper { local_r: m.local_r, r_count: count, ..t }) }
pub open spec fn taken(t: PCAHelper, u: PCAHelper, cm: Array2, n: usize) -> bool { u.column_means is Some && u.n is Some && u.column_means->0.ids@ == t.column_means->0.ids@ + cm.ids@ && u.n->0.v@ == t.n->0.v@.push(n as int) && u == (PCAHelper { column_means: u.column_means, n: u.n, ..t }) }
pub proof fn means_push(t: PCAHelper, cm: Array2, n: usize, b: Array2, c: Rows)
    requires means_ok(t.column_means->0, t.n->0, len(t)), cm.ids@.len() == 1, n == rows_of(cm.ids@[0]), 0 < cm.ids@[0] < len(t), !t.column_means->0.ids@.contains(cm.ids@[0]), b.ids@ == t.column_means->0.ids@ + cm.ids@, c.v@ == t.n->0.v@.push(n as int)
    ensures means_ok(b, c, len(t))
{
    let a = t.column_means->0.ids@; let b = b.ids@; let x = cm.ids@[0]; assert(b =~= a.push(x));
    assert forall|i: int, j: int| 0 <= i < b.len() && 0 <= j < b.len() && i != j implies b[i] != b[j] by { if i == a.len() { assert(a.contains(a[j])); } else if j == a.len() { assert(a.contains(a[i])); } }
}
impl PCAHelper {
//@extract src/training/rotation/pca/helper.rs :: impl PCAHelper :: resolve_buffer
//@spec
    requires base(*old(self)),
    ensures resent_r(*old(self), *final(self)),
//@subst .do_send(msg) ==> .vsend(&mut self.log, msg)
//@loop 0
            invariant base(*old(self)), *self == (PCAHelper { log: self.log, buffer: self.buffer, ..*old(self) }), old(self).log.evs@ + to_self(*old(self), rev(old(self).buffer@)) == self.log.evs@ + to_self(*old(self), rev(self.buffer@)),
            ensures self.buffer@.len() == 0,
            decreases self.buffer@.len(),
//@loop 0 top
            let ghost g0 = self.log.evs@; let ghost b1 = self.buffer@;
//@loop 0 end
            proof { rev_last(b1.push(msg)); assert(b1.push(msg).drop_last() =~= b1); let o = *old(self); assert(g0 + to_self(o, seq![msg] + rev(b1)) =~= g0.push(Ev::Msg { to: Some(o.id), m: msg }) + to_self(o, rev(b1))); }
//@loop 0 after
        proof { assert(self.log.evs@ + to_self(*old(self), rev(self.buffer@)) =~= self.log.evs@); }
//@end
//@extract src/training/rotation/pca/helper.rs :: impl PCAHelper :: resolve_means_buffer
//@spec
    requires base(*old(self)),
    ensures resent_m(*old(self), *final(self)),
//@subst .do_send(msg) ==> .vsend(&mut self.log, msg)
//@loop 0
            invariant base(*old(self)), *self == (PCAHelper { log: self.log, means_buffer: self.means_buffer, ..*old(self) }), old(self).log.evs@ + to_self(*old(self), rev(old(self).means_buffer@)) == self.log.evs@ + to_self(*old(self), rev(self.means_buffer@)),
            ensures self.means_buffer@.len() == 0,
            decreases self.means_buffer@.len(),
//@loop 0 top
            let ghost g0 = self.log.evs@; let ghost b1 = self.means_buffer@;
//@loop 0 end
            proof { rev_last(b1.push(msg)); assert(b1.push(msg).drop_last() =~= b1); let o = *old(self); assert(g0 + to_self(o, seq![msg] + rev(b1)) =~= g0.push(Ev::Msg { to: Some(o.id), m: msg }) + to_self(o, rev(b1))); }
//@loop 0 after
        proof { assert(self.log.evs@ + to_self(*old(self), rev(self.means_buffer@)) =~= self.log.evs@); }
//@end
//@extract src/training/rotation/pca/helper.rs :: impl PCAHelper :: send_to_main
//@spec
    requires base(*old(self)), old(self).column_means is Some, old(self).data is Some,
    ensures *final(self) == (PCAHelper { log: final(self).log, ..*old(self) }), final(self).log.evs@ == old(self).log.evs@.push(Ev::Msg { to: Some(0usize), m: PCAHelperMessage::Means { columns_means: old(self).column_means->0, n: old(self).data->0.rows } }),
//@subst .expect("Does not have neighbors yet") ==> .unwrap()
//@subst main.do_send( ==> main.vsend(&mut self.log, 
//@subst self.data.as_ref().unwrap().shape()[0] ==> self.data.as_ref().unwrap().rows
//@end
//@extract src/training/rotation/pca/helper.rs :: impl PCAHelper :: next_2_power
//@ret r
//@spec
    requires small_cluster(len(*old(self))),
    ensures r == p2(lg(len(*old(self)))), *final(self) == *old(self),
//@subst 2_i32.pow((len as f32).log2().ceil() as u32) as usize ==> vpow2_ceil(len)
//@end
//@extract src/training/rotation/pca/helper.rs :: impl PCAHelper :: finalize
//@spec
    requires base(*old(self)), old(self).local_r is Some, all_means(*old(self)), all_ids(old(self).local_r->0.ids@, len(*old(self))),
    ensures *final(self) == (PCAHelper { log: final(self).log, ..*old(self) }), final(self).log.evs@.len() == old(self).log.evs@.len() + 1, final(self).log.evs@.drop_last() == old(self).log.evs@, answered(final(self).log.evs@.last(), len(*old(self))),
//@havoc column_means ()
//@havoc dim ()
//@havoc n NView
//@havoc n_reshaped ()
//@havoc global_means Whole
//@havoc squared_n ()
//@havoc mean_diff ()
//@havoc squared_mul ()
//@rename sum=vsum
//@subst concatenate![ Axis(0), squared_mul.view(), self.local_r.as_ref().unwrap().view() ] .qr() .unwrap() ==> vlast_r(self.column_means.as_ref().unwrap(), self.n.as_ref().unwrap(), self.local_r.as_ref().unwrap(), Ghost(len(*self)))
//@subst .do_send( ==> .vsendr(&mut self.log, 
//@top
    let ghost e0 = self.log.evs@; proof { means_all(self.column_means->0, self.n->0, len(*self)); }
//@tail
    proof { assert(self.log.evs@.drop_last() =~= e0); }
//@end
//@extract src/training/rotation/pca/helper.rs :: impl PCAHelper :: send_to_neighbor_or_finalize
//@spec
    requires ok(*old(self)), old(self).local_r is Some, in_order(*old(self)),
    ensures went_on(*old(self), *final(self)), ok(*final(self)),
    decreases (if old(self).r_count == 0 { 1int } else { 0int }),
//@rename div=vdiv
//@subst 2_usize.pow((self.r_count + 1) as u32) ==> vpow2((self.r_count + 1) as u32)
//@subst .do_send( ==> .vsend(&mut self.log, 
//@top
    proof { look(*self); }
//@end
//@extract src/training/rotation/pca/helper.rs :: impl PCAHelper :: combine_sent_r
//@spec
    requires base(*old(self)), in_order(*old(self)), old(self).local_r is Some, old(self).r_count >= 1, has_part(old(self).local_r->0, len(*old(self)), old(self).id as int, old(self).r_count - 1), dec_ok(remote_r, old(self).r_count as int, len(*old(self)), old(self).id as int),
    ensures ok(*final(self)), ({ let t = *old(self); exists|m: PCAHelper| #[trigger] went_on(m, *final(self)) && joined(t, m, remote_r, t.r_count) }),
//@subst Array2<f32> ==> Array2
//@subst let (_q, combined_r) = concatenate(Axis(0), &[local_r.view(), remote_r.view()]) .unwrap() .qr() .unwrap(); ==> let combined_r = vqr2(local_r, &remote_r); proof { part_join(len(*old(self)), old(self).id as int, old(self).r_count - 1, old(self).local_r->0, remote_r, combined_r); }
//@subst self.send_to_neighbor_or_finalize(); ==> let ghost m = *self; self.send_to_neighbor_or_finalize(); proof { assert(went_on(m, *self)); }
//@end
//@extract src/training/rotation/pca/helper.rs :: impl PCAHelper :: center_columns_decomposition
//@spec
    requires before(*old(self)),
    ensures ok(*final(self)), started(*old(self), *final(self)),
//@subst data.mean_axis(Axis(0)) .unwrap() .into_shape([1, data.shape()[1]]) .unwrap() ==> vmeans(data)
//@subst arr1(&[data.shape()[0] as f32]) ==> vrows1(data)
//@subst data - self.column_means.as_ref().unwrap() ==> vcenter(data, self.column_means.as_ref().unwrap())
//@subst col_centered.qr().unwrap() ==> vqr(&col_centered)
//@subst if self.id != 0 ==> proof { part_own(len(*self), self.id as int, self.local_r->0); let e = self.log.evs@; assert(e + Seq::<Ev>::empty() =~= e); assert forall|x: Ev| e + seq![x] == #[trigger] e.push(x) by { assert(e + seq![x] =~= e.push(x)); } } if self.id != 0
//@subst self.send_to_neighbor_or_finalize(); ==> let ghost m = *self; proof { lone(m); } self.send_to_neighbor_or_finalize(); let ghost w = *self; proof { assert(went_on(m, w)); }
//@subst self.resolve_means_buffer(); ==> let ghost x = *self; self.resolve_means_buffer();
//@tail
    proof { assert(has_own(*old(self), m, w) && resent_r(w, x) && resent_m(x, *self)); }
//@end
//@extract src/training/rotation/pca/helper.rs :: impl Handler<PCAHelperMessage> for PCAHelper :: handle
//@spec
    requires ({ let t = *old(self);
        &&& msg is Setup ==> ({ let n = PCAHelper { neighbors: msg->neighbors, data: Some(msg->Setup_data), ..t }; t.neighbors@.len() == 0 && before(n) })
        &&& !(msg is Setup) ==> ok(t) && t.local_r is Some && in_order(t)
        &&& msg is Decomposition ==> dec_ok(msg->Decomposition_r, msg->count as int, len(t), t.id as int) && (t.id == 0 && msg->count == lg(len(t)) ==> all_means(t))
        &&& msg is Means ==> t.id == 0 && msg->columns_means.ids@.len() == 1 && msg->Means_n == rows_of(msg->columns_means.ids@[0]) && 0 < msg->columns_means.ids@[0] < len(t) && !t.column_means->0.ids@.contains(msg->columns_means.ids@[0]) }),
    ensures ok(*final(self)), ({ let t = *old(self); let u = *final(self);
        &&& msg is Setup ==> exists|n: PCAHelper| #[trigger] started(n, u) && n.neighbors@ == msg->neighbors@ && n == (PCAHelper { neighbors: n.neighbors, data: Some(msg->Setup_data), ..t })
        &&& msg is Decomposition && msg->count == t.r_count + 1 ==> !fin(t) && exists|m: PCAHelper, w: PCAHelper| #[trigger] went_on(m, w) && joined(t, m, msg->Decomposition_r, msg->count) && #[trigger] resent_r(w, u)
        &&& msg is Decomposition && msg->count != t.r_count + 1 ==> u == (PCAHelper { buffer: u.buffer, ..t }) && u.buffer@ == t.buffer@.push(msg)
        &&& msg is Means ==> taken(t, u, msg->columns_means, msg->Means_n)
        &&& msg is Components || msg is Response ==> u == t }),
//@subst _ctx: &mut Self::Context) -> Self::Result ==> _ctx: &mut Context)
//@subst self.neighbors.extend(neighbors) ==> vextend_addrs(&mut self.neighbors, neighbors)
//@subst self.center_columns_decomposition(); ==> proof { assert(self.neighbors@ =~= msg->neighbors@); lg_ok(len(*self)); } let ghost n = *self; self.center_columns_decomposition(); proof { assert(started(n, *self)); }
//@subst self.combine_sent_r(r); ==> let ghost a = *self; self.combine_sent_r(r); let ghost w = *self; proof { let m = choose|m: PCAHelper| #[trigger] went_on(m, w) && joined(a, m, r, a.r_count); assert(went_on(m, w) && joined(*old(self), m, r, count)); }
//@subst self.resolve_buffer(); ==> self.resolve_buffer(); proof { assert(resent_r(w, *self)); }
//@subst concatenate![ Axis(0), self.column_means.as_ref().unwrap().clone(), columns_means.view().into_dimensionality().unwrap() ] ==> vstack(self.column_means.as_ref().unwrap(), &columns_means)
//@subst concatenate![ Axis(0), self.n.as_ref().unwrap().clone(), arr1(&[n as f32]) ] ==> vrows_push(self.n.as_ref().unwrap(), n)
//@top
    proof { if self.neighbors@.len() > 0 { lg_ok(len(*self)); } }
//@end
}
// one helper alone has its own means, which are all
pub proof fn lone(t: PCAHelper) requires base(t), t.local_r is Some, t.r_count == 0, t.n->0.v@.len() >= 1 ensures in_order(t) { lg_ok(len(t)); if lg(len(t)) == 0 { assert(p2(0) == 1); means_bound(t.column_means->0, t.n->0, len(t)); } }
pub proof fn means_bound(m: Array2, n: Rows, len: int) requires means_ok(m, n, len), len == 1, n.v@.len() >= 1 ensures n.v@.len() == 1 { if n.v@.len() > 1 { assert(m.ids@[0] == 0 && m.ids@[1] == 0); } }
} // verus!
fn main() {}
