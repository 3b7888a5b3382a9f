use super::*;
use crate::data_store::node::IndependentNode;
use crate::training::verif as tv;
//@block e_connect
pub type N = (usize, usize, usize);
pub fn nv(n: &NodeRef) -> N { (n.get_segment_id(), n.get_cluster(), n.get_from_id()) }
/// connect_nodes on the nodes (segment, cluster) per point id (in the order they were stored) and the
/// answered questions (point id, segment) -> node; gives all edges in order
pub fn connect(n: usize, nodes: &[(usize, Vec<(usize, usize)>)], foreign: &[((usize, usize), N)]) -> Vec<(N, N)> {
    let mut t = tv::training(tv::params(100, 1), 0);
    t.dataset_stats = Some(crate::data_manager::DatasetStats { n: Some(n), ..Default::default() });
    for (id, l) in nodes { for (s, c) in l { t.data_store.add_independent_node(IndependentNode::new(*s, *c, *id)); } }
    for (k, v) in foreign { t.node_estimation.next_foreign_node.insert(*k, (v.2, IndependentNode::new(v.0, v.1, v.2))); }
    t.connect_nodes();
    t.data_store.get_edges().iter().map(|e| (nv(&e.get_from_node()), nv(&e.get_to_node()))).collect()
}
