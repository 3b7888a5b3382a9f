use super::*;
use crate::data_store::verif as ds;
use crate::training::verif as tv;
pub use ds::Tr;
//@block i_run
pub struct Collect { pub out: std::sync::Arc<std::sync::Mutex<Option<Vec<(Tr, usize, Vec<f32>)>>>> }
impl actix::Actor for Collect { type Context = actix::Context<Self>; }
impl Handler<IntersectionResultMessage> for Collect {
    type Result = ();
    fn handle(&mut self, msg: IntersectionResultMessage, _c: &mut Self::Context) {
        let v = msg.results.into_iter().map(|r| (ds::trv(&*r.transition), r.segment_id, r.intersection.to_vec())).collect();
        *self.out.lock().unwrap() = Some(v);
        actix::System::current().stop();
    }
}
/// calculate_intersections on the given transitions, answered by the real helper.
/// transitions: (from id, from segment, from coords, to id, to segment, to coords)
pub fn intersections(rate: usize, ts: &[(usize, usize, Vec<f32>, usize, usize, Vec<f32>)]) -> Vec<(Tr, usize, Vec<f32>)> {
    let out = std::sync::Arc::new(std::sync::Mutex::new(None));
    let o2 = out.clone();
    let ts = ts.to_vec();
    let sys = actix::System::new();
    sys.block_on(async move {
        let mut t = tv::training(tv::params(rate, 1), 0);
        for (a, sa, ca, b, sb, cb) in ts { t.data_store.add_transition(ds::transition(ds::point(a, &ca, sa), ds::point(b, &cb, sb))); }
        let addr = actix::Actor::start(Collect { out: o2 });
        t.calculate_intersections(addr.recipient());
    });
    sys.run().unwrap();
    let r = out.lock().unwrap().take();
    r.unwrap_or_default()
}
//@block i_line
pub fn line_plane(line: ndarray::Array2<f32>, plane: ndarray::Array2<f32>) -> Option<Vec<f32>> {
    crate::utils::line_plane_intersection(line, plane).ok().map(|v| v.to_vec())
}
//@block i_assign
/// assign results (from id, segment) on node own of n: (segments of the data store's intersections, segments kept for others)
pub fn assign(rate: usize, n: usize, own: usize, rs: &[(usize, usize)]) -> (Vec<(usize, Vec<usize>)>, Vec<(usize, Vec<usize>)>) {
    let mut t = tv::training(tv::params(rate, n), own);
    for (id, s) in rs {
        let tr = TransitionRef::new(ds::tr(*id, 0, *id + 1, 1));
        t.assign_received_intersection(*s, tr, arr1(&[*id as f32]));
    }
    view(&t)
}
pub fn view(t: &Training) -> (Vec<(usize, Vec<usize>)>, Vec<(usize, Vec<usize>)>) {
    let mut own = vec![];
    for s in 0..t.parameters.rate { if let Some(v) = t.data_store.get_intersections_from_segment(s) { own.push((s, v.iter().map(|x| { assert_eq!(x.get_segment_id(), s); assert_eq!(x.get_coordinates().to_vec(), vec![x.get_from_id() as f32]); x.get_from_id() }).collect())) } }
    let mut f: Vec<(usize, Vec<usize>)> = t.intersection_calculation.foreign_intersections.iter().map(|(k, v)| (*k, v.iter().map(|x| x.get_from_id()).collect())).collect();
    f.sort();
    (own, f)
}
//@block i_recv
/// a message with intersections arrives at node own of n (after which: own intersections, kept for others, still running?)
pub fn receive(rate: usize, n: usize, own: usize, msgs: &[Vec<(usize, Vec<usize>)>], started: bool) -> (Vec<(usize, Vec<usize>)>, Vec<(usize, Vec<usize>)>, bool) {
    let mut t = tv::training_net(tv::params(rate, n), own);
    let mut ctx = actix::Context::<Training>::new();
    t.own_addr = Some(ctx.address());
    if started { t.start_distribution_protocol(); }
    for m in msgs {
        let mut h = HashMap::new();
        for (s, ids) in m { h.insert(*s, ids.iter().map(|i| Intersection::new(TransitionRef::new(ds::tr(*i, 0, *i + 1, 1)), arr1(&[*i as f32]), *s)).collect::<Vec<_>>()); }
        t.handle(IntersectionRotationMessage { intersection_coords_by_segment: h }, &mut ctx);
    }
    let (a, b) = view(&t);
    (a, b, t.intersection_calculation.direct_protocol.is_running())
}
//@block i_exchange
use crate::SyncInterface;
use std::sync::{Arc, Mutex};
#[derive(Message)] #[rtype(result = "()")] pub struct Begin;
impl Handler<Begin> for Training { type Result = (); fn handle(&mut self, _: Begin, ctx: &mut Self::Context) { self.calculate_intersections(ctx.address().recipient()); } }
/// a node at the end: its intersections (point, segment, coordinates), what it still keeps for others, and the graph nodes (point, segment) of the next stage
#[derive(Clone, Default, Debug)] pub struct Snap { pub cuts: Vec<(usize, usize, Vec<f32>)>, pub kept: usize, pub nodes: Vec<(usize, usize)>, pub running: bool }
#[derive(Message)] #[rtype(result = "()")] pub struct Look(pub Arc<Mutex<Vec<Snap>>>, pub usize, pub usize);
use actix::Message;
impl Handler<Look> for Training { type Result = (); fn handle(&mut self, m: Look, _: &mut Self::Context) {
    let s = &mut m.0.lock().unwrap()[m.1]; let rate = self.parameters.rate;
    s.cuts = (0..rate).flat_map(|k| self.data_store.get_intersections_from_segment(k).map(|v| v.iter().map(|x| (x.get_from_id(), k, x.get_coordinates().to_vec())).collect::<Vec<_>>()).unwrap_or_default()).collect();
    s.nodes = (0..m.2).flat_map(|p| self.data_store.get_nodes_by_point_id(p).map(|v| v.iter().map(|n| (p, n.get_segment_id())).collect::<Vec<_>>()).unwrap_or_default()).collect();
    s.kept = self.intersection_calculation.foreign_intersections.values().map(|v| v.len()).sum();
    s.running = self.intersection_calculation.direct_protocol.is_running();
} }
/// intersection calculation on n real nodes, each with its transitions; `pick(k)` chooses among k pending messages or nodes to start. None: a node died
pub fn exchange(rate: usize, points: usize, starts: &[Vec<(usize, usize, Vec<f32>, usize, usize, Vec<f32>)>], mut pick: impl FnMut(usize) -> usize + 'static) -> Option<Vec<Snap>> {
    let n = starts.len(); let starts = starts.to_vec();
    let (all, mut cap) = tv::cap_all(n);
    let snaps = Arc::new(Mutex::new(vec![Snap::default(); n])); let o = snaps.clone(); let dead = Arc::new(Mutex::new(false)); let d2 = dead.clone();
    let sys = actix::System::new();
    sys.block_on(async move {
        let nodes: Vec<Addr<Training>> = all.into_iter().enumerate().map(|(i, c)| {
            let mut p = tv::params(rate, n); p.n_threads = 1;
            let mut t = Training::init(p); t.cluster_nodes = c;
            for (a, sa, ca, b, sb, cb) in starts[i].iter() { t.data_store.add_transition(ds::transition(ds::point(*a, ca, *sa), ds::point(*b, cb, *sb))); }
            t.node_estimation.source = Some(actix::Actor::start(Sink).recipient());
            actix::Actor::start(t) }).collect();
        let mut begun = vec![false; n]; let mut pending: Vec<tv::Sent> = vec![]; let mut quiet = std::time::Instant::now();
        loop {
            tv::settle(&nodes, 3).await;
            let new: Vec<tv::Sent> = cap.drain().into_iter().filter(|s| s.is::<IntersectionRotationMessage>()).collect(); if !new.is_empty() { quiet = std::time::Instant::now(); }
            pending.extend(new);
            let ready: Vec<usize> = (0..n).filter(|i| !begun[*i]).collect();
            let c = pending.len() + ready.len();
            if nodes.iter().any(|a| !a.connected()) { *d2.lock().unwrap() = true; break; }
            if c == 0 {
                for (i, a) in nodes.iter().enumerate() { a.do_send(Look(o.clone(), i, points)); }
                tv::settle(&nodes, 1).await;
                // all nodes have begun the next stage, or nothing has happened for long
                if o.lock().unwrap().iter().map(|s| (!s.running && s.nodes.len() == s.cuts.len()) as usize).sum::<usize>() == n && quiet.elapsed().as_millis() > 15 || quiet.elapsed().as_millis() > 600 { break; }
                tv::Yield::new().await; continue;
            }
            quiet = std::time::Instant::now();
            let x = pick(c);
            if x < ready.len() { let i = ready[x]; nodes[i].do_send(Begin); begun[i] = true; }
            else { let s = pending.remove(x - ready.len()); if let Some(m) = s.get::<IntersectionRotationMessage>() { nodes[s.to].do_send(m); } }
        }
        tv::settle(&nodes, 2).await;
        for (i, a) in nodes.iter().enumerate() { a.do_send(Look(o.clone(), i, points)); }
        tv::settle(&nodes, 1).await;
    });
    let r = snaps.lock().unwrap().clone();
    if *dead.lock().unwrap() { None } else { Some(r) }
}
pub struct Sink; impl actix::Actor for Sink { type Context = actix::Context<Self>; }
impl Handler<crate::training::node_estimation::NodeEstimationDone> for Sink { type Result = (); fn handle(&mut self, _: crate::training::node_estimation::NodeEstimationDone, _: &mut Self::Context) {} }
