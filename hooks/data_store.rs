use super::*;
pub use super::node_questions::verif as node_questions;
//@block d_point
pub fn point(id: usize, coords: &[f32], seg: usize) -> Point { Point::new(id, Array1::from(coords.to_vec()), seg) }
pub fn transition(a: Point, b: Point) -> Transition { Transition::new(a.into_ref(), b.into_ref()) }
/// a transition with given ids and segments
pub fn tr(fid: usize, fseg: usize, tid: usize, tseg: usize) -> Transition { transition(point(fid, &[1.0, 1.0], fseg), point(tid, &[1.0, 1.0], tseg)) }
/// (from id, from segment, to id, to segment)
pub type Tr = (usize, usize, usize, usize);
pub fn trv<T: TransitionMixin>(t: &T) -> Tr {
    let (a, b) = t.get_points();
    (a.get_id(), a.get_segment(), b.get_id(), b.get_segment())
}
pub fn transitions(d: &DataStore) -> Vec<Tr> { d.get_transitions().iter().map(|t| trv(&**t)).collect() }
//@block d_graph
pub type N = (usize, usize, usize);
#[derive(Clone, Debug)]
pub enum Op { Node(N), Mats(Vec<(N, N)>), Edges(Vec<(N, N)>), Cut((usize, usize)), Cuts(Vec<(usize, usize)>), Sort, Wipe }
#[derive(Clone, Debug, PartialEq, Default)]
pub struct Graph { pub nodes: Vec<Option<Vec<N>>>, pub cuts: Vec<Option<Vec<(usize, usize)>>>, pub edges: Vec<(N, N)>, pub wiped: Vec<(N, N)> }
pub fn nv(n: &IndependentNode) -> N { (n.get_segment_id(), n.get_cluster(), n.get_from_id()) }
/// a data store after the operations: what the index gives for the points/segments 0..k, and all edges
pub fn graph(ops: &[Op], k: usize) -> Graph {
    let mut d = DataStore::default(); let mut wiped = vec![];
    let nd = |n: &N| IndependentNode::new(n.0, n.1, n.2); let ed = |e: &(N, N)| Edge::new(nd(&e.0).into_ref(), nd(&e.1).into_ref());
    let cut = |c: &(usize, usize)| Intersection::new(TransitionRef::new(tr(c.0, 0, c.0 + 1, 1)), Array1::from(vec![c.0 as f32]), c.1);
    for o in ops { match o {
        Op::Node(n) => d.add_independent_node(nd(n)), Op::Mats(e) => d.add_materialized_edges(e.iter().map(|x| ed(x).materialize()).collect()), Op::Edges(e) => d.add_edges(e.iter().map(ed).collect()),
        Op::Cut(c) => d.add_intersection(cut(c)), Op::Cuts(c) => d.add_intersections(c.iter().map(cut).collect()), Op::Sort => d.sort_edges(), Op::Wipe => wiped = d.wipe_graph().iter().map(|e| (nv(&e.get_from_node()), nv(&e.get_to_node()))).collect(),
    } }
    Graph { nodes: (0..k).map(|i| d.get_nodes_by_point_id(i).map(|v| v.iter().map(|n| nv(n)).collect())).collect(),
        cuts: (0..k).map(|i| d.get_intersections_from_segment(i).map(|v| v.iter().map(|x| { assert_eq!(x.get_coordinates()[0], x.get_from_id() as f32); (x.get_from_id(), x.get_segment_id()) }).collect())).collect(),
        edges: d.get_edges().iter().map(|e| (nv(&e.get_from_node()), nv(&e.get_to_node()))).collect(), wiped }
}
//@block d_points
/// add_points_with_offset, then mirrored `m` times: (id, coordinates, segment)
pub fn points(batches: &[(usize, Vec<Vec<f32>>)], rate: usize, m: usize) -> Vec<(usize, Vec<f32>, usize)> {
    let mut d = DataStore::default();
    for (o, b) in batches { d.add_points_with_offset(b.iter().map(|v| Array1::from(v.clone())).collect(), *o, rate); }
    for _ in 0..m { d.mirror_points(rate); }
    d.get_points().iter().map(|p| (p.get_id(), p.clone_coordinates().to_vec(), p.get_segment())).collect()
}
//@block d_transfer
/// transitions received in the given batches: (transitions, number, points)
pub fn received(own: &[Tr], batches: &[Vec<Tr>], clear: bool) -> (Vec<Tr>, usize, Vec<(usize, usize)>) {
    let mut d = DataStore::default();
    for t in own { d.add_transition(tr(t.0, t.1, t.2, t.3)); }
    if clear { d.clear_transitions(); }
    for b in batches { d.add_materialized_transitions(b.iter().map(|t| tr(t.0, t.1, t.2, t.3).materialize()).collect()); }
    (transitions(&d), d.count_transitions(), d.get_points().iter().map(|p| (p.get_id(), p.get_segment())).collect())
}
