use super::*;
use crate::data_store::materialize::Materialize;
use crate::data_store::node::IndependentNode;
use crate::training::verif as tv;
use actix::prelude::*;
use std::sync::{Arc, Mutex};
//@block ac_ask
pub type K = (usize, usize);
pub struct Got(Arc<Mutex<Vec<Vec<Vec<f32>>>>>); impl Actor for Got { type Context = Context<Self>; }
impl Handler<QueryClusterContributionResponse> for Got { type Result = (); fn handle(&mut self, m: QueryClusterContributionResponse, _: &mut Self::Context) { self.0.lock().unwrap().push(m.contributions.iter().map(|x| x.to_vec()).collect()); } }
pub fn got(g: Arc<Mutex<Vec<Vec<Vec<f32>>>>>) -> Got { Got(g) }
pub fn node(k: &K) -> NodeRef { IndependentNode::new(k.0, k.1, 0).into_ref() }
/// the centers of one segment: coordinates and number of intersections of every cluster
pub fn centers(segment: usize, cs: &[(Vec<f32>, usize)]) -> ClusterCenterMessage {
    ClusterCenterMessage { cluster_centers: Array2::from_shape_vec((cs.len(), cs[0].0.len()), cs.iter().flat_map(|c| c.0.clone()).collect()).unwrap(), nodes: (0..cs.len()).map(|c| node(&(segment, c))).collect(), label_counts: cs.iter().map(|c| c.1).collect() }
}
/// every answer after the centers of the segments arrived and the windows were asked for; asked as often as there are rounds
pub fn ask(segments: &[(usize, Vec<(Vec<f32>, usize)>)], rounds: &[Vec<Vec<K>>]) -> Vec<Vec<Vec<f32>>> {
    let got = Arc::new(Mutex::new(vec![])); let g = got.clone(); let (segments, rounds) = (segments.to_vec(), rounds.to_vec());
    actix::System::new().block_on(async move {
        let r = Got(g.clone()).start(); let a = AnomalyContribution::start_default();
        for (s, cs) in &segments { a.do_send(centers(*s, cs)); }
        for (i, windows) in rounds.iter().enumerate() {
            for w in windows { a.do_send(QueryClusterContribution { nodes: w.iter().map(node).collect() }); }
            a.do_send(QueryClustercontributionDone { receiver: r.clone().recipient() });
            let t = std::time::Instant::now();
            while g.lock().unwrap().len() <= i && t.elapsed().as_secs() < 5 { tv::Yield::new().await; }
        }
        for _ in 0..3 { tv::Yield::new().await; }
    });
    let r = got.lock().unwrap().clone(); r
}
