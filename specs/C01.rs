//! Parameters is reproduced with its integer fields only (rate, n_cluster_nodes); no other field is read by the functions under contract.
//! num_integer::Integer::{div_floor,mod_floor} are assumed to be floor division and modulus.
//! machine integers are exact (overflow is an obligation, not an assumption).
//@include base.rs
verus! {
pub struct Parameters { pub rate: usize, pub n_cluster_nodes: usize }

// ---- the abstract ownership map -------------------------------------------------------------
pub open spec fn pok(p: Parameters) -> bool { 1 <= p.n_cluster_nodes && p.n_cluster_nodes <= p.rate && p.rate <= 0x3fff_ffff_ffff_ffff }
pub open spec fn spn(p: Parameters) -> int { p.rate as int / p.n_cluster_nodes as int }
pub open spec fn owner(p: Parameters, s: int) -> int {
    if s / spn(p) >= p.n_cluster_nodes { p.n_cluster_nodes - 1 } else { s / spn(p) }
}
pub open spec fn first_of(p: Parameters, c: int) -> int { c * spn(p) }
pub open spec fn end_of(p: Parameters, c: int) -> int { if c == p.n_cluster_nodes - 1 { p.rate as int } else { (c + 1) * spn(p) } }

proof fn spn_pos(p: Parameters)
    requires pok(p)
    ensures spn(p) >= 1, spn(p) * p.n_cluster_nodes <= p.rate, spn(p) <= p.rate,
{
    assert(spn(p) >= 1 && spn(p) * p.n_cluster_nodes <= p.rate && spn(p) <= p.rate) by (nonlinear_arith)
        requires spn(p) == p.rate as int / p.n_cluster_nodes as int, 1 <= p.n_cluster_nodes <= p.rate;
}
// every segment has exactly one owner; owners hold contiguous, ordered, non-empty ranges that tile 0..rate
proof fn ownership_tiles(p: Parameters, s: int, c: int)
    requires pok(p), 0 <= s < p.rate, 0 <= c < p.n_cluster_nodes,
    ensures 0 <= owner(p, s) < p.n_cluster_nodes,
        owner(p, s) == c <==> first_of(p, c) <= s < end_of(p, c),
        first_of(p, c) < end_of(p, c) <= p.rate,
        first_of(p, 0) == 0,
        c + 1 < p.n_cluster_nodes ==> end_of(p, c) == first_of(p, c + 1),
        owner(p, first_of(p, c)) == c,
{
    spn_pos(p);
    let k = spn(p); let n = p.n_cluster_nodes as int;
    assert(0 <= s / k && (s / k) * k <= s < (s / k + 1) * k) by (nonlinear_arith) requires k >= 1, s >= 0;
    assert((s / k == c) <==> (c * k <= s < (c + 1) * k)) by (nonlinear_arith) requires k >= 1, s >= 0, c >= 0, (s / k) * k <= s < (s / k + 1) * k;
    assert((s / k >= n - 1) <==> (s >= (n - 1) * k)) by (nonlinear_arith) requires k >= 1, s >= 0, n >= 1, (s / k) * k <= s < (s / k + 1) * k;
    assert(c * k < (c + 1) * k && (c + 1) * k <= n * k) by (nonlinear_arith) requires k >= 1, 0 <= c < n;
    assert((c * k) / k == c) by (nonlinear_arith) requires k >= 1, c >= 0;
    assert((n - 1) * k < n * k) by (nonlinear_arith) requires k >= 1;
    assert(n * k == k * n) by (nonlinear_arith);
    assert(0 * k == 0) by (nonlinear_arith);
}
// ownership is monotone
proof fn ownership_monotone(p: Parameters, s: int, t: int)
    requires pok(p), 0 <= s <= t < p.rate
    ensures owner(p, s) <= owner(p, t)
{
    spn_pos(p);
    assert(s / spn(p) <= t / spn(p)) by (nonlinear_arith) requires spn(p) >= 1, 0 <= s <= t;
}

impl Parameters {
//@extract src/parameters.rs :: impl Parameters :: segments_per_node
//@ret r
//@spec
    requires pok(*self),
    ensures r as int == spn(*self), r >= 1,
//@top
    proof { spn_pos(*self); }
//@end
//@extract src/parameters.rs :: impl Parameters :: segment_id_to_assignment
//@ret r
//@spec
    requires pok(*self), segment_id < self.rate,
    ensures r as int == owner(*self, segment_id as int), r < self.n_cluster_nodes,
        first_of(*self, r as int) <= segment_id < end_of(*self, r as int),
//@top
    proof { spn_pos(*self); ownership_tiles(*self, segment_id as int, owner(*self, segment_id as int)); ownership_tiles(*self, segment_id as int, 0); }
//@end
//@extract src/parameters.rs :: impl Parameters :: first_segment_of_i_next_cluster_node
//@ret r
//@spec
    requires pok(*self), segment_id < self.rate, i <= self.n_cluster_nodes,
    ensures r as int == first_of(*self, (owner(*self, segment_id as int) + i) % (self.n_cluster_nodes as int)),
        r < self.rate,
        owner(*self, r as int) == (owner(*self, segment_id as int) + i) % (self.n_cluster_nodes as int),
//@top
    proof {
        spn_pos(*self);
        let c = (owner(*self, segment_id as int) + i) % (self.n_cluster_nodes as int);
        ownership_tiles(*self, segment_id as int, 0);
        assert(0 <= c < self.n_cluster_nodes) by (nonlinear_arith) requires self.n_cluster_nodes >= 1, c == (owner(*self, segment_id as int) + i) % (self.n_cluster_nodes as int);
        ownership_tiles(*self, segment_id as int, c);
        assert(c * spn(*self) <= self.rate) ;
    }
//@end
}

pub struct ClusterNodes { pub n: usize, pub own: usize }
impl ClusterNodes {
    // contracts proved for the real type in C12
    #[verifier::external_body]
    pub fn len_incl_own(&self) -> (r: usize) ensures r == self.n { unimplemented!() }
    #[verifier::external_body]
    pub fn get_own_idx(&self) -> (r: usize) ensures r == self.own { unimplemented!() }
}
pub struct NodeEstimation { pub current_segment_id: usize }
pub struct Training { pub parameters: Parameters, pub cluster_nodes: ClusterNodes, pub node_estimation: NodeEstimation, pub asked: Ghost<bool> }
pub struct IntersectionCalculationDone;
pub struct Context { }
pub struct Recipient { }
pub struct Addr { }
impl Addr { #[verifier::external_body] pub fn recipient(&self) -> Recipient { unimplemented!() } }
impl Context { #[verifier::external_body] pub fn address(&self) -> Addr { unimplemented!() } }
pub struct ConsoleLogger { }
impl ConsoleLogger { #[verifier::external_body] pub fn new(a: usize, b: usize, s: ()) -> Self { unimplemented!() } #[verifier::external_body] pub fn print(&self) { unimplemented!() } }
pub type SegmentID = usize;

impl Training {
    #[verifier::external_body]
    pub fn estimate_nodes(&mut self, r: Recipient)
        // node estimation must start at the first segment this cluster node owns
        requires old(self).node_estimation.current_segment_id as int == first_of(old(self).parameters, old(self).cluster_nodes.own as int),
        ensures final(self).asked@,
    { unimplemented!() }

//@extract src/training/mod.rs :: impl Training :: segment_id_to_assignment
//@ret r
//@spec
    requires pok(self.parameters), segment_id < self.parameters.rate,
    ensures r as int == owner(self.parameters, segment_id as int), r < self.parameters.n_cluster_nodes,
//@end
//@extract src/training/mod.rs :: impl Training :: cluster_node_diff
//@ret r
//@spec
    requires pok(self.parameters), from_node_id < self.parameters.n_cluster_nodes, to_node_id < self.parameters.n_cluster_nodes,
    ensures r as int == (to_node_id - from_node_id) % (self.parameters.n_cluster_nodes as int),
        r < self.parameters.n_cluster_nodes,
        (from_node_id + r) % (self.parameters.n_cluster_nodes as int) == to_node_id as int,
//@top
    proof {
        let n = self.parameters.n_cluster_nodes as int; let d = (to_node_id - from_node_id) % n;
        assert(0 <= d < n) by (nonlinear_arith) requires n >= 1, d == (to_node_id - from_node_id) % n;
        if to_node_id >= from_node_id { vstd::arithmetic::div_mod::lemma_small_mod((to_node_id - from_node_id) as nat, n as nat); }
        else { vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(to_node_id - from_node_id, n, -1, n + to_node_id - from_node_id); }
        if to_node_id >= from_node_id { vstd::arithmetic::div_mod::lemma_small_mod(to_node_id as nat, n as nat); }
        else { vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(from_node_id + d, n, 1, to_node_id as int); }
    }
//@end
//@extract src/training/mod.rs :: impl Handler<IntersectionCalculationDone> for Training :: handle
//@spec
    requires pok(old(self).parameters), old(self).cluster_nodes.n == old(self).parameters.n_cluster_nodes, old(self).cluster_nodes.own < old(self).cluster_nodes.n,
    ensures final(self).asked@,
//@top
    proof { spn_pos(self.parameters); ownership_tiles(self.parameters, 0, self.cluster_nodes.own as int);
        let k = spn(self.parameters); let o = self.cluster_nodes.own as int;
        assert(k * o == o * k && 0 <= k * o) by (nonlinear_arith) requires k >= 1, o >= 0; }
//@subst Self::Context ==> Context
//@subst  -> Self::Result ==>
//@subst "Estimating Nodes".to_string() ==> ()
//@end
}
// asking the next cluster node(s) over: the i-next node of a segment's owner is reached by a ring distance of i
proof fn next_and_diff_agree(p: Parameters, s: int, t: int)
    requires pok(p), 0 <= s < p.rate, 0 <= t < p.rate,
    ensures (owner(p, s) + (owner(p, t) - owner(p, s)) % (p.n_cluster_nodes as int)) % (p.n_cluster_nodes as int) == owner(p, t),
{
    ownership_tiles(p, s, 0); ownership_tiles(p, t, 0);
    let n = p.n_cluster_nodes as int; let a = owner(p, s); let b = owner(p, t);
    if b >= a { vstd::arithmetic::div_mod::lemma_small_mod((b - a) as nat, n as nat); vstd::arithmetic::div_mod::lemma_small_mod(b as nat, n as nat); }
    else { vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(b - a, n, -1, n + b - a);
           vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(n + b, n, 1, b); }
}
} // verus!
fn main() {}
