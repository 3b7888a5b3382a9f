verus! {
// ---- messages: a send appends (receiver, message) to the sender's log; delivery is not modelled here ----
pub trait VMsg: Sized { spec fn ev(self, to: Option<usize>) -> Ev; }
pub struct Log { pub evs: Ghost<Seq<Ev>> }
pub struct RemoteAddr { pub idx: usize }
impl RemoteAddr { #[verifier::external_body] pub fn vsend<M: VMsg>(self, log: &mut Log, m: M) ensures final(log).evs@ == old(log).evs@.push(m.ev(Some(self.idx))) { unimplemented!() } }
impl RemoteAddr { #[verifier::external_body] pub fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } #[verifier::external_body] pub fn change_id(&mut self, s: ()) ensures *final(self) == *old(self) { unimplemented!() } }
// the actor itself
pub struct Addr { }
impl Addr { #[verifier::external_body] pub fn vsend<M: VMsg>(self, log: &mut Log, m: M) ensures final(log).evs@ == old(log).evs@.push(m.ev(None)) { unimplemented!() } }
pub struct Context { }
impl Context { #[verifier::external_body] pub fn address(&self) -> Addr { unimplemented!() } }
pub open spec fn keys_of(all: Seq<(&usize, &RemoteAddr)>) -> Seq<usize> { Seq::new(all.len(), |i: int| *all[i].0) }
pub open spec fn all_others(ids: Seq<usize>, n: int, own: int) -> bool { ids.len() == n - 1 && ids.no_duplicates() && forall|k: usize| #[trigger] ids.contains(k) <==> k < n && k != own }
// contracts proved for the real type in C12: n nodes on a ring, this one is `own`
pub struct ClusterNodes { pub n: usize, pub own: usize }
impl ClusterNodes {
    pub open spec fn wf(self) -> bool { self.own < self.n && self.n <= 0x1000_0000 }
    pub open spec fn next(self) -> usize { if self.own + 1 == self.n { 0 } else { (self.own + 1) as usize } }
    pub open spec fn prev(self) -> usize { if self.own == 0 { (self.n - 1) as usize } else { (self.own - 1) as usize } }
    // every other node exactly once, in some order
    #[verifier::external_body] pub fn iter(&self) -> (r: It<(&usize, &RemoteAddr)>) requires self.wf()
        ensures r.pos() == 0, all_others(keys_of(r.all()), self.n as int, self.own as int), forall|i: int| 0 <= i < r.all().len() ==> (#[trigger] r.all()[i]).1.idx == *r.all()[i].0,
    { unimplemented!() }
    #[verifier::external_body] pub fn len(&self) -> (r: usize) requires self.wf() ensures r as int == self.n - 1 { unimplemented!() }
    #[verifier::external_body] pub fn len_incl_own(&self) -> (r: usize) requires self.wf() ensures r == self.n { unimplemented!() }
    #[verifier::external_body] pub fn get_own_idx(&self) -> (r: usize) ensures r == self.own { unimplemented!() }
    #[verifier::external_body] pub fn get_next_idx(&self) -> (r: Option<usize>) requires self.wf() ensures r == (if self.n > 1 { Some(self.next()) } else { None }) { unimplemented!() }
    #[verifier::external_body] pub fn get_previous_idx(&self) -> (r: Option<usize>) requires self.wf() ensures r == (if self.n > 1 { Some(self.prev()) } else { None }) { unimplemented!() }
    #[verifier::external_body] pub fn get(&self, key: &usize) -> (r: Option<&RemoteAddr>) requires self.wf() ensures r is Some <==> (*key < self.n && *key != self.own), r is Some ==> *r->0 == (RemoteAddr { idx: *key }) { unimplemented!() }
    #[verifier::external_body] pub fn get_as(&self, key: &usize, s: ()) -> (r: Option<RemoteAddr>) requires self.wf() ensures r == (if *key < self.n && *key != self.own { Some(RemoteAddr { idx: *key }) } else { None }) { unimplemented!() }
    #[verifier::external_body] pub fn get_next_as(&self, s: ()) -> (r: Option<RemoteAddr>) requires self.wf() ensures r == (if self.n > 1 { Some(RemoteAddr { idx: self.next() }) } else { None }) { unimplemented!() }
    #[verifier::external_body] pub fn get_prev_as(&self, s: ()) -> (r: Option<RemoteAddr>) requires self.wf() ensures r == (if self.n > 1 { Some(RemoteAddr { idx: self.prev() }) } else { None }) { unimplemented!() }
}
} // verus!
