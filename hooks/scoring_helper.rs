use super::*;
use crate::data_store::edge::Edge;
use crate::data_store::node::IndependentNode;
//@block h_edges
pub type K = (usize, usize);
/// (from (segment, cluster), to (segment, cluster), to point)
pub type E = (K, K, usize);
pub fn edge(e: &E) -> Edge { Edge::new(IndependentNode::new(e.0 .0, e.0 .1, 7).into_ref(), IndependentNode::new(e.1 .0, e.1 .1, e.2).into_ref()) }
pub fn helper(edges: &[E], eit: &[usize], w: &[((K, K), usize)], d: &[(K, usize)], q: usize, receiver: Recipient<ScoringHelperResponse>) -> ScoringHelper {
    ScoringHelper {
        edges: edges.iter().map(|e| EdgeRef::new(edge(e))).collect(),
        edges_in_time: eit.to_vec(),
        edge_weight: w.iter().map(|(k, v)| (edge(&(k.0, k.1, 3)).materialize(), *v)).collect(),
        node_degrees: d.iter().map(|(k, v)| (IndependentNode::new(k.0, k.1, 5).into_ref(), *v)).collect(),
        query_length: q,
        receiver,
    }
}
//@block h_run
pub struct Collect { pub out: std::sync::Arc<std::sync::Mutex<Vec<(usize, Vec<f32>, bool)>>>, pub n: usize }
impl Actor for Collect { type Context = Context<Self>; }
impl Handler<ScoringHelperResponse> for Collect {
    type Result = ();
    fn handle(&mut self, m: ScoringHelperResponse, _c: &mut Self::Context) {
        let mut o = self.out.lock().unwrap();
        o.push((m.start, m.scores, m.first_empty));
        if o.len() == self.n { System::current().stop(); }
    }
}
/// the helper's answers to the given (start, length) instructions
pub fn answers(edges: &[E], eit: &[usize], w: &[((K, K), usize)], d: &[(K, usize)], q: usize, ins: &[(usize, usize)]) -> Vec<(usize, Vec<f32>, bool)> {
    let out = std::sync::Arc::new(std::sync::Mutex::new(vec![]));
    let (o2, e2, t2, w2, d2, i2) = (out.clone(), edges.to_vec(), eit.to_vec(), w.to_vec(), d.to_vec(), ins.to_vec());
    let sys = System::new();
    sys.block_on(async move {
        let c = Collect { out: o2, n: i2.len() }.start();
        let a = SyncArbiter::start(1, move || helper(&e2, &t2, &w2, &d2, q, c.clone().recipient()));
        for (start, length) in i2 { a.do_send(ScoringHelperInstruction { start, length }); }
    });
    sys.run().unwrap();
    let r = out.lock().unwrap().clone();
    r
}
