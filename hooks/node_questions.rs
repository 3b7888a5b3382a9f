use super::*;
//@block nq_view
/// (answering node, asking node) -> [(prev point, prev segment, point, segment)]
pub fn view(q: &NodeQuestions) -> std::collections::BTreeMap<(usize, usize), Vec<(usize, usize, usize, usize)>> {
    let mut m = std::collections::BTreeMap::new();
    for (a, h) in q.node_questions.iter() { for (b, v) in h.iter() {
        m.insert((*a, *b), v.iter().map(|n| (n.get_prev_id(), n.get_prev_segment(), n.get_point_id(), n.get_segment())).collect());
    } }
    m
}
//@block nq_ask
use crate::data_store::verif::{tr, Tr};
/// the questions after the calls (transition, previous one, within, span)
pub fn ask(calls: &[(Tr, Option<Tr>, bool, usize)], rate: usize, n: usize) -> std::collections::BTreeMap<(usize, usize), Vec<(usize, usize, usize, usize)>> {
    let p = Parameters { rate, n_cluster_nodes: n, ..Default::default() };
    let mut q = NodeQuestions::default();
    for (t, prev, within, span) in calls { q.ask(&tr(t.0, t.1, t.2, t.3), prev.map(|t| tr(t.0, t.1, t.2, t.3)), *within, *span, p.clone()); }
    let mut m = std::collections::BTreeMap::new();
    for (a, h) in q.node_questions.iter() { for (b, v) in h.iter() { m.insert((*a, *b), v.iter().map(|n| (n.get_prev_id(), n.get_prev_segment(), n.get_point_id(), n.get_segment())).collect()); } }
    m
}
