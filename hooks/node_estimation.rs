use super::*;
use crate::training::verif as tv;
pub use super::multi_kde::actors::verif as multi_kde_actors;
pub use super::multi_kde::verif as multi_kde;
//@block n_exchange
use std::sync::{Arc, Mutex};
use actix::prelude::*;
use crate::{SyncInterface, data_store::intersection::Intersection};
pub type N = (usize, usize, usize);
#[derive(Message)] #[rtype(Result = "()")] pub struct Begin;
impl Handler<Begin> for Training { type Result = (); fn handle(&mut self, _: Begin, ctx: &mut Self::Context) { self.estimate_nodes(ctx.address().recipient()); } }
#[derive(Clone, Default, Debug, PartialEq)] pub struct Snap { pub nodes: Vec<Vec<N>>, pub next: std::collections::BTreeMap<(usize, usize), (usize, N)>, pub done: usize }
#[derive(Message)] #[rtype(Result = "()")] pub struct Look(pub Arc<Mutex<Vec<Snap>>>, pub usize, pub usize);
fn nv(n: &IndependentNode) -> N { (n.get_segment_id(), n.get_cluster(), n.get_from_id()) }
impl Handler<Look> for Training { type Result = (); fn handle(&mut self, m: Look, _: &mut Self::Context) {
    let s = &mut m.0.lock().unwrap()[m.1];
    s.nodes = (0..m.2).map(|p| self.data_store.get_nodes_by_point_id(p).map(|v| v.iter().map(|n| nv(n)).collect()).unwrap_or_default()).collect();
    s.next = self.node_estimation.next_foreign_node.iter().map(|(k, v)| (*k, (v.0, nv(&v.1)))).collect();
} }
pub struct Done(Arc<Mutex<Vec<Snap>>>, usize); impl Actor for Done { type Context = Context<Self>; }
impl Handler<NodeEstimationDone> for Done { type Result = (); fn handle(&mut self, _: NodeEstimationDone, _: &mut Self::Context) { self.0.lock().unwrap()[self.1].done += 1; } }
/// what a node starts with: intersections (point, segment, coordinates) and questions (answering, asking, [prev point, prev segment, point, segment])
#[derive(Clone, Default, Debug)] pub struct Start { pub cuts: Vec<(usize, usize, [f32; 2])>, pub questions: Vec<(usize, usize, [usize; 4])> }
/// node estimation on n real nodes; `pick(k)` chooses among k pending messages or nodes to start. None: a node died or did not finish
pub fn exchange(starts: &[Start], rate: usize, first: usize, points: usize, mut pick: impl FnMut(usize) -> usize + 'static) -> Option<Vec<Snap>> {
    let n = starts.len(); let starts = starts.to_vec();
    let (all, mut cap) = tv::cap_all(n);
    let snaps = Arc::new(Mutex::new(vec![Snap::default(); n])); let o = snaps.clone(); let dead = Arc::new(Mutex::new(false)); let d2 = dead.clone();
    let sys = actix::System::new();
    sys.block_on(async move {
        let nodes: Vec<Addr<Training>> = all.into_iter().enumerate().map(|(i, c)| {
            let mut p = tv::params(rate, n); p.n_threads = 1;
            let mut t = Training::init(p); t.cluster_nodes = c;
            for (id, seg, xy) in starts[i].cuts.iter() { t.data_store.add_intersection(Intersection::new(crate::data_store::transition::TransitionRef::new(crate::data_store::verif::tr(*id, 0, *id + 1, 1)), ndarray::Array1::from(xy.to_vec()), *seg)); }
            for (a, b, q) in starts[i].questions.iter() { t.segmentation.node_questions.add_niq(*a, *b, NodeInQuestion::new(q[0], q[1], q[2], q[3])); }
            t.node_estimation.current_segment_id = first;
            t.node_estimation.source = Some(Done(o.clone(), i).start().recipient());
            t.start() }).collect();
        let mut begun = vec![false; n]; let mut pending: Vec<tv::Sent> = vec![]; let mut quiet = std::time::Instant::now();
        loop {
            tv::settle(&nodes, 3).await;
            let new = cap.drain(); if !new.is_empty() { quiet = std::time::Instant::now(); }
            pending.extend(new);
            let ready: Vec<usize> = (0..n).filter(|i| !begun[*i]).collect();
            let c = pending.len() + ready.len();
            if nodes.iter().any(|a| !a.connected()) { *d2.lock().unwrap() = true; break; }
            if c == 0 { if o.lock().unwrap().iter().all(|s| s.done > 0) || quiet.elapsed().as_millis() > 400 { break; } tv::Yield::new().await; continue; }
            quiet = std::time::Instant::now();
            let x = pick(c);
            if x < ready.len() { let i = ready[x]; nodes[i].do_send(Begin); begun[i] = true; }
            else {
                let s = pending.remove(x - ready.len());
                if let Some(m) = s.get::<AskForForeignNodes>() { nodes[s.to].do_send(m); }
                else if let Some(m) = s.get::<ForeignNodesAnswer>() { nodes[s.to].do_send(m); }
            }
        }
        tv::settle(&nodes, 2).await;
        for (i, a) in nodes.iter().enumerate() { a.do_send(Look(o.clone(), i, points)); }
        tv::settle(&nodes, 1).await; tv::Yield::new().await;
    });
    let r = snaps.lock().unwrap().clone();
    if *dead.lock().unwrap() || !r.iter().all(|s| s.done > 0) { None } else { Some(r) }
}
//@block n_centers
/// the clusters of the segments are answered (labels of its intersections, centers) while the windows are to be explained; the contributions of the windows then asked for
pub fn centers(segments: &[(usize, Vec<usize>, Vec<Vec<f32>>)], windows: &[Vec<(usize, usize)>]) -> Vec<Vec<Vec<f32>>> {
    use crate::training::anomaly_contribution::{verif as ac, AnomalyContribution, QueryClusterContribution, QueryClustercontributionDone};
    use actix::prelude::*;
    use crate::data_store::intersection::Intersection;
    let got = std::sync::Arc::new(std::sync::Mutex::new(vec![])); let g = got.clone(); let (segments, windows) = (segments.to_vec(), windows.to_vec());
    actix::System::new().block_on(async move {
        let mut p = tv::params(50, 1); p.explainability = true;
        let mut t = tv::training(p, 0); let mut ctx = Context::<Training>::new(); t.own_addr = Some(ctx.address());
        let a = <AnomalyContribution as Actor>::start_default(); t.anomaly_contribution = Some(a.clone());
        for (s, labels, cs) in &segments {
            t.node_estimation.current_segment_id = *s;
            t.node_estimation.current_intersections = labels.iter().enumerate().map(|(i, l)| Intersection::new(crate::data_store::transition::TransitionRef::new(crate::data_store::verif::tr(i, 0, i + 1, 1)), ndarray::Array1::from(cs[*l].clone()), *s).into_ref()).collect();
            t.handle(ClusteringResponse { cluster_centers: ndarray::Array2::from_shape_vec((cs.len(), cs[0].len()), cs.concat()).unwrap(), labels: labels.clone() }, &mut ctx);
        }
        let r = ac::got(g.clone()).start();
        for w in &windows { a.do_send(QueryClusterContribution { nodes: w.iter().map(ac::node).collect() }); }
        a.do_send(QueryClustercontributionDone { receiver: r.recipient() });
        let c = std::time::Instant::now();
        while g.lock().unwrap().is_empty() && c.elapsed().as_secs() < 5 && a.connected() { tv::Yield::new().await; }
    });
    let r = got.lock().unwrap().clone(); r
}
