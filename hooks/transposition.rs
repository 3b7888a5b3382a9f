use super::*;
use crate::data_store::node::IndependentNode;
use crate::data_store::edge::Edge;
use crate::training::verif as tv;
//@block tp_transpose
/// (segment, cluster, point)
pub type N = (usize, usize, usize);
pub fn nd(n: &N) -> IndependentNode { IndependentNode::new(n.0, n.1, n.2) }
pub fn ed(e: &(N, N)) -> Edge { Edge::new(nd(&e.0).into_ref(), nd(&e.1).into_ref()) }
pub fn mv(e: &MaterializedEdge) -> (N, N) { let (a, b) = (e.get_from_node(), e.get_to_node()); ((a.get_segment_id(), a.get_cluster(), a.get_from_id()), (b.get_segment_id(), b.get_cluster(), b.get_from_id())) }
pub fn sv(t: &Training) -> Vec<(N, N)> { use crate::data_store::materialize::Materialize; t.data_store.get_edges().iter().map(|e| mv(&e.materialize())).collect() }
pub struct Out { pub start: Option<usize>, pub kept: Vec<(N, N)>, pub sent: Vec<(usize, Vec<(N, N)>)>, pub running: Vec<bool>, pub done: Vec<(N, N)> }
/// the node transposes its edges after `early` of the messages arrived, then all messages are handled
pub fn transpose(n: usize, own: usize, points: usize, es: &[(N, N)], msgs: &[Vec<(N, N)>], early: usize) -> Out {
    use crate::data_store::materialize::Materialize;
    let (mut t, mut cap) = tv::training_cap(tv::params(100, n), own);
    t.dataset_stats = Some(crate::data_manager::DatasetStats { n: Some(points), ..Default::default() });
    t.data_store.add_edges(es.iter().map(ed).collect());
    let mut ctx = Context::<Training>::new();
    let msg = |m: &Vec<(N, N)>| TranspositionRotationMessage { assignments: m.iter().map(|e| ed(e).materialize()).collect() };
    for m in &msgs[..early] { t.handle(msg(m), &mut ctx); }
    t.transpose(ctx.address().recipient());
    let start = t.transposition.range_start_point; let kept = sv(&t);
    let mut running = vec![t.transposition.direct_protocol.is_running()];
    // what came early comes back through the mailbox
    for m in msgs { t.handle(msg(m), &mut ctx); running.push(t.transposition.direct_protocol.is_running()); }
    let sent = cap.drain().iter().filter_map(|s| s.get::<TranspositionRotationMessage>().map(|x| (s.to, x.assignments.iter().map(mv).collect()))).collect();
    Out { start, kept, sent, running, done: sv(&t) }
}
