verus! {
// ---- exchange ----
pub struct Peer { pub network_interface: Option<()>, pub idx: usize }
pub struct Source { pub node: Peer }
impl Source {
    #[verifier::external_body] pub fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
    #[verifier::external_body] pub fn new_from_id(host: usize, s: ()) -> (r: Self) { unimplemented!() }
}
pub open spec fn from(s: Source) -> Option<usize> { if s.node.network_interface is Some { Some(s.node.idx) } else { None } }
pub enum Back { Remote(Source), Local(Addr) }
pub open spec fn leads(b: Back) -> Option<usize> { match b { Back::Remote(s) => Some(s.node.idx), Back::Local(_) => None } }
impl Back { #[verifier::external_body] pub fn vsend<M: VMsg>(self, log: &mut Log, m: M) ensures final(log).evs@ == old(log).evs@.push(m.ev(leads(self))) { unimplemented!() } }
pub enum AnyAddr { Remote(RemoteAddr), Local(Addr) }
pub open spec fn to_of(b: AnyAddr) -> Option<usize> { match b { AnyAddr::Remote(s) => Some(s.idx), AnyAddr::Local(_) => None } }
impl AnyAddr { #[verifier::external_body] pub fn vsend<M: VMsg>(self, log: &mut Log, m: M) ensures final(log).evs@ == old(log).evs@.push(m.ev(to_of(self))) { unimplemented!() } }
impl Addr { #[verifier::external_body] pub fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
// C12
impl ClusterNodes { #[verifier::external_body] pub fn get_main_node(&self) -> (r: Option<&RemoteAddr>) requires self.wf() ensures r is None <==> self.own == 0, r is Some ==> r->0.idx == 0 { unimplemented!() } }
} // verus!
