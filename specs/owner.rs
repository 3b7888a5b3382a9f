verus! {
pub struct Parameters { pub rate: usize, pub n_cluster_nodes: usize, pub self_correction: bool }
impl Parameters { #[verifier::external_body] pub fn clone(&self) -> (r: Parameters) ensures r == *self { unimplemented!() } }
pub open spec fn pok(p: Parameters) -> bool { 1 <= p.n_cluster_nodes && p.n_cluster_nodes <= p.rate && p.rate <= 0x3fff_ffff_ffff_ffff }
pub open spec fn spn(p: Parameters) -> int { p.rate as int / p.n_cluster_nodes as int }
pub open spec fn owner(p: Parameters, s: int) -> int {
    if s / spn(p) >= p.n_cluster_nodes { p.n_cluster_nodes - 1 } else { s / spn(p) }
}
pub proof fn owner_bound(p: Parameters, s: int) requires pok(p), 0 <= s < p.rate ensures 0 <= owner(p, s) < p.n_cluster_nodes
{
    vstd::arithmetic::div_mod::lemma_div_non_zero(p.rate as int, p.n_cluster_nodes as int);
    vstd::arithmetic::div_mod::lemma_div_pos_is_pos(s, spn(p));
}
} // verus!
