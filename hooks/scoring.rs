use super::*;
use crate::training::verif as tv;
use crate::data_store::edge::Edge;
use crate::data_store::node::IndependentNode;
use crate::data_store::materialize::Materialize;
pub use super::helper::verif as hp;
pub use super::helper::verif::{E, K};
//@block sc_eit
/// count_edges_in_time on node own of n; edges lead to the given points
pub fn eit(n: usize, own: usize, start: Option<usize>, rotated: usize, ids: &[usize]) -> Vec<usize> {
    let mut t = tv::training(tv::params(100, n), own);
    t.transposition.range_start_point = start;
    t.num_rotated = Some(rotated);
    for i in ids { t.data_store.add_edge(hp::edge(&((1, 0), (2, 0), *i))); }
    t.count_edges_in_time()
}
//@block sc_weights
pub fn weights(edges: &[E]) -> (std::collections::BTreeMap<(K, K), usize>, std::collections::BTreeMap<K, usize>) {
    let mut t = tv::training(tv::params(100, 1), 0);
    for e in edges { t.data_store.add_edge(hp::edge(e)); }
    let w = t.calculate_edge_weight(); let d = t.calculate_node_degrees();
    let (wl, dl) = (w.len(), d.len());
    let w: std::collections::BTreeMap<(K, K), usize> = w.iter().map(|(k, v)| (mk(k), *v)).collect();
    let d: std::collections::BTreeMap<K, usize> = d.iter().map(|(k, v)| ((k.get_segment_id(), k.get_cluster()), *v)).collect();
    assert_eq!((wl, dl), (w.len(), d.len()), "the same edge or node occurs twice");
    (w, d)
}
pub fn mk(k: &MaterializedEdge) -> (K, K) { ((k.get_from_node().get_segment_id(), k.get_from_node().get_cluster()), (k.get_to_node().get_segment_id(), k.get_to_node().get_cluster())) }
//@block sc_merge
type W = std::collections::BTreeMap<(K, K), usize>;
type D = std::collections::BTreeMap<K, usize>;
pub fn wmap(w: &[((K, K), usize)]) -> HashMap<MaterializedEdge, usize> { w.iter().map(|(k, v)| (hp::edge(&(k.0, k.1, 3)).materialize(), *v)).collect() }
pub fn dmap(d: &[(K, usize)]) -> HashMap<IndependentNode, usize> { d.iter().map(|(k, v)| (IndependentNode::new(k.0, k.1, 9), *v)).collect() }
pub fn wview(w: &HashMap<MaterializedEdge, usize>) -> W { w.iter().map(|(k, v)| (mk(k), *v)).collect() }
pub fn dview(d: &HashMap<IndependentNode, usize>) -> D { d.iter().map(|(k, v)| ((k.get_segment_id(), k.get_cluster()), *v)).collect() }
/// node own of n has the given tables and starts the exchange after `early` messages arrived; then the others arrive.
/// Result: its tables, whether it is done, and what it sent as (receiver, table)
pub fn merged(n: usize, own: usize, w0: &[((K, K), usize)], d0: &[(K, usize)], msgs: &[(Vec<((K, K), usize)>, Vec<(K, usize)>)], early: usize) -> (W, D, bool, Vec<(usize, W)>, Vec<(usize, D)>) {
    let (mut t, mut cap) = tv::training_cap(tv::params(100, n), own);
    {
        let mut ctx = Context::<Training>::new();
        t.own_addr = Some(ctx.address());
        t.scoring.edge_weight = wmap(w0);
        t.scoring.node_degrees = d0.iter().map(|(k, v)| (IndependentNode::new(k.0, k.1, 9).into_ref(), *v)).collect();
        let nd = |d: &Vec<(K, usize)>| NodeDegrees { degrees: dmap(d) }; let ew = |w: &Vec<((K, K), usize)>| EdgeWeights { weights: wmap(w) };
        for m in &msgs[..early] { t.handle(ew(&m.0), &mut ctx); t.handle(nd(&m.1), &mut ctx); }
        t.start_node_degrees_rotation(&mut ctx);
        t.start_edge_weight_rotation(&mut ctx);
        // what arrived too early comes back through the mailbox
        for m in msgs { t.handle(ew(&m.0), &mut ctx); t.handle(nd(&m.1), &mut ctx); }
        let sent = cap.drain();
        let sw = sent.iter().filter_map(|s| s.get::<EdgeWeights>().map(|x| (s.to, wview(&x.weights)))).collect();
        let sd = sent.iter().filter_map(|s| s.get::<NodeDegrees>().map(|x| (s.to, dview(&x.degrees)))).collect();
        let d = t.scoring.node_degrees.iter().map(|(k, v)| ((k.get_segment_id(), k.get_cluster()), *v)).collect();
        (wview(&t.scoring.edge_weight), d, t.init_done(), sw, sd)
    }
}
//@block sc_parallel
/// parallel_score: what the helpers are told, as (start, answer length), sorted by start; and the number of answers waited for
pub fn parallel(score_length: usize, n_threads: usize) -> (Vec<(usize, usize)>, usize) {
    let out = std::sync::Arc::new(std::sync::Mutex::new(vec![])); let o2 = out.clone();
    let tot = std::sync::Arc::new(std::sync::Mutex::new(0)); let t2 = tot.clone();
    let sys = actix::System::new();
    sys.block_on(async move {
        let mut p = tv::params(100, 1); p.n_threads = n_threads; p.query_length = 1;
        let mut t = tv::training(p, 0);
        let c = actix::Actor::start(hp::Collect { out: o2, n: usize::MAX });
        t.scoring.helpers = Some(SyncArbiter::start(1, move || hp::helper(&[], &vec![0; score_length], &[], &[], 1, c.clone().recipient())));
        t.scoring.helper_protocol.n_total = n_threads;
        t.parallel_score(score_length);
        *t2.lock().unwrap() = t.scoring.helper_protocol.n_total;
        let n = t.scoring.helper_protocol.n_sent;
        loop { if out.lock().unwrap().len() >= n { break; } actix_rt_yield().await; }
        let mut v: Vec<(usize, usize)> = out.lock().unwrap().iter().map(|x| (x.0, x.1.len())).collect(); v.sort();
        out.lock().unwrap().clear();
        RES.with(|r| *r.borrow_mut() = v);
    });
    let n = *tot.lock().unwrap();
    (RES.with(|r| r.borrow().clone()), n)
}
thread_local! { static RES: std::cell::RefCell<Vec<(usize, usize)>> = std::cell::RefCell::new(vec![]); }
pub struct Y(bool);
impl std::future::Future for Y { type Output = (); fn poll(mut self: std::pin::Pin<&mut Self>, cx: &mut std::task::Context<'_>) -> std::task::Poll<()> { if self.0 { std::task::Poll::Ready(()) } else { self.0 = true; cx.waker().wake_by_ref(); std::task::Poll::Pending } } }
pub fn actix_rt_yield() -> Y { std::thread::sleep(std::time::Duration::from_micros(200)); Y(false) }
//@block sc_assemble
/// the answers arrive in the given order (a re-sent one at the position `pick` chooses among the pending): the assembled scores
pub fn assemble(n_total: usize, answers: &[(usize, Vec<f32>, bool)], mut pick: impl FnMut(usize) -> usize) -> (Vec<f32>, bool, usize) {
    let r = std::rc::Rc::new(std::cell::RefCell::new((vec![], false, 0usize))); let r2 = r.clone();
    let sys = actix::System::new();
    sys.block_on(async {
        let mut t = tv::training_net(tv::params(100, 2), 0);
        let mut ctx = Context::<Training>::new();
        t.own_addr = Some(ctx.address());
        let c = Context::<hp::Collect>::new().address();
        t.scoring.helpers = Some(SyncArbiter::start(1, move || hp::helper(&[], &[], &[], &[], 1, c.clone().recipient())));
        t.scoring.helper_protocol.n_total = n_total;
        for _ in answers { t.scoring.helper_protocol.sent(); }
        let mut pend: Vec<ScoringHelperResponse> = answers.iter().map(|a| ScoringHelperResponse { start: a.0, scores: a.1.clone(), first_empty: a.2 }).collect();
        while !pend.is_empty() {
            let i = pick(pend.len()); let m = pend.remove(i);
            let mut before = t.scoring.helper_buffer.clone();
            t.handle(m, &mut ctx);
            for k in t.scoring.helper_buffer.keys() { before.remove(k); }
            for (_, v) in before { pend.push(v); }
        }
        let left = t.scoring.helper_buffer.len();
        let (s, f) = t.scoring.subscores.get(&0).map(|x| (x.0.to_vec(), x.1)).unwrap_or((t.scoring.single_scores.clone(), t.scoring.first_empty));
        let fin = t.scoring.subscores.contains_key(&0);
        *r2.borrow_mut() = (s, f, if fin { left } else { 1000 + left });
    });
    let x = r.borrow().clone();
    x
}
//@block sc_norm
pub fn normalize(v: &[f32]) -> Vec<f32> {
    let mut t = tv::training(tv::params(100, 1), 0);
    let mut a = Array1::from(v.to_vec());
    t.normalize_score(&mut a);
    a.to_vec()
}
//@block sc_final
/// finalize_scoring with the given subscores per node: the final score and the lines of the output file
pub fn finalize(subs: &[(Vec<f32>, bool)], path: &str) -> (Vec<f32>, Vec<String>) {
    let n = subs.len();
    let mut p = tv::params(100, n); p.score_output_path = Some(path.to_string());
    let mut t = tv::training(p, 0);
    let mut ctx = Context::<Training>::new();
    t.own_addr = Some(ctx.address());
    for (i, s) in subs.iter().enumerate() { t.scoring.subscores.insert(i, (Array1::from(s.0.clone()), s.1)); }
    t.finalize_scoring(&mut ctx);
    let text = std::fs::read_to_string(path).unwrap();
    (t.scoring.score.as_ref().unwrap().to_vec(), text.lines().map(|x| x.to_string()).collect())
}
//@block sc_overlap
/// one after the other, from the last node: node k has the given edges and counts, takes its successor's overlap (early: before it waits for it) and passes its own on.
/// Result per node: its edges, its counts, (receiver, edges, counts) of what it sent while it had to wait and after it, whether it still waits
pub struct Ov { pub edges: Vec<E>, pub counts: Vec<usize>, pub before: Vec<(usize, Vec<E>, Vec<usize>)>, pub sent: Vec<(usize, Vec<E>, Vec<usize>)>, pub running: bool, pub helpers: bool }
pub fn overlap(q: usize, nodes: &[(Vec<E>, Vec<usize>)], early: &[bool]) -> Vec<Ov> {
    use super::messages::{OverlapRotation, ScoreInitDone};
    let n = nodes.len();
    let out = std::rc::Rc::new(std::cell::RefCell::new(vec![])); let o2 = out.clone();
    let sys = actix::System::new();
    let e1 = |e: &MaterializedEdge| ((e.get_from_node().get_segment_id(), e.get_from_node().get_cluster()), (e.get_to_node().get_segment_id(), e.get_to_node().get_cluster()), e.get_to_id());
    sys.block_on(async {
        let mut msg: Option<OverlapRotation> = None;
        for k in (0..n).rev() {
            let mut p = tv::params(100, n); p.query_length = q; p.n_threads = 1;
            let (mut t, mut cap) = tv::training_cap(p, k);
            let mut ctx = Context::<Training>::new();
            t.own_addr = Some(ctx.address());
            for e in &nodes[k].0 { t.data_store.add_edge(hp::edge(e)); }
            t.scoring.edges_in_time = nodes[k].1.clone();
            for (es, _) in nodes { for e in es { let d = hp::edge(e); t.scoring.edge_weight.insert(d.materialize(), 1); t.scoring.node_degrees.insert(d.get_from_node(), 2); t.scoring.node_degrees.insert(d.get_to_node(), 2); } }
            let seen = |v: Vec<tv::Sent>| v.iter().filter_map(|s| s.get::<OverlapRotation>().map(|m| (s.to, m.edges.iter().map(|e| e1(e)).collect::<Vec<E>>(), m.edges_in_time))).collect::<Vec<_>>();
            let mut before = vec![];
            if k < n - 1 && early[k] { t.handle(msg.clone().unwrap(), &mut ctx); before.extend(seen(cap.drain())); }
            if k < n - 1 { t.handle(ScoreInitDone, &mut ctx); before.extend(seen(cap.drain())); t.handle(msg.take().unwrap(), &mut ctx); } else { t.handle(ScoreInitDone, &mut ctx); }
            let raw = cap.drain();
            msg = raw.iter().filter_map(|s| s.get::<OverlapRotation>()).next();
            let sent = seen(raw);
            o2.borrow_mut().push(Ov { edges: t.data_store.get_edges().iter().map(|e| e1(&e.materialize())).collect(), counts: t.scoring.edges_in_time.clone(), before, sent, running: t.scoring.overlap_rotation_protocol.is_running(), helpers: t.scoring.helpers.is_some() });
            drop(cap);
            if msg.is_none() && k > 0 { break; }
        }
    });
    let mut v = std::mem::take(&mut *out.borrow_mut()); v.reverse(); v
}
//@block sc_explain_file
/// the lines of the file the given contributions are written to
pub fn explain_file(contributions: &[Vec<f32>], path: &str) -> Vec<String> {
    let mut p = tv::params(100, 1); p.anomaly_contribution_output_path = path.to_string();
    let mut t = tv::training(p, 0);
    let mut ctx = Context::<Training>::new();
    t.own_addr = Some(ctx.address());
    t.handle(QueryClusterContributionResponse { contributions: contributions.iter().map(|x| Array1::from(x.clone())).collect() }, &mut ctx);
    drop(t);
    std::fs::read_to_string(path).unwrap().lines().map(|x| x.to_string()).collect()
}
//@block sc_explain
/// the lines of the file after the explanation of the windows of the edges, with the given centers per segment
pub fn explain(segments: &[(usize, Vec<(Vec<f32>, usize)>)], edges: &[E], eit: &[usize], q: usize, path: &str) -> Vec<String> {
    use crate::training::anomaly_contribution::{verif as ac, AnomalyContribution};
    std::fs::remove_file(path).ok();
    let (segments, edges, eit, pa) = (segments.to_vec(), edges.to_vec(), eit.to_vec(), path.to_string());
    actix::System::new().block_on(async move {
        // explainability stays off: started() would replace the actor that knows the centers
        let mut p = tv::params(100, 1); p.anomaly_contribution_output_path = pa; p.query_length = q;
        let mut t = tv::training(p, 0);
        let a = <AnomalyContribution as actix::Actor>::start_default();
        for (s, cs) in &segments { a.do_send(ac::centers(*s, cs)); }
        for e in &edges { t.data_store.add_edge(hp::edge(e)); }
        t.scoring.edges_in_time = eit;
        t.anomaly_contribution = Some(a);
        let mut ctx = Context::<Training>::new();
        let addr = ctx.address();
        t.own_addr = Some(addr.clone());
        t.build_anomaly_contribution_score(&mut ctx);
        ctx.run(t);
        let c = std::time::Instant::now();
        while addr.connected() && c.elapsed().as_secs() < 5 { tv::Yield::new().await; }
    });
    std::fs::read_to_string(path).unwrap_or_default().lines().map(|x| x.to_string()).collect()
}
