use super::*;
use actix::prelude::*;
use std::sync::{Arc, Mutex};
use crate::training::verif as tv;
//@block k_cluster
pub struct Got(Arc<Mutex<Vec<(Vec<usize>, Vec<Vec<f32>>)>>>); impl Actor for Got { type Context = Context<Self>; }
impl Handler<ClusteringResponse<f32>> for Got { type Result = (); fn handle(&mut self, m: ClusteringResponse<f32>, _: &mut Self::Context) { self.0.lock().unwrap().push((m.labels, m.cluster_centers.outer_iter().map(|r| r.to_vec()).collect())); } }
/// every answer the clustering of the rows gives: labels and centers
pub fn cluster(rows: &[Vec<f32>], threads: usize) -> Vec<(Vec<usize>, Vec<Vec<f32>>)> {
    let got = Arc::new(Mutex::new(vec![])); let g = got.clone(); let data = Array2::from_shape_vec((rows.len(), rows[0].len()), rows.concat()).unwrap();
    actix::System::new().block_on(async move {
        let r = Got(g.clone()).start(); let a = MultiKDEActor::new(r.recipient(), threads).start(); a.do_send(MultiKDEMessage { data });
        let t = std::time::Instant::now();
        while g.lock().unwrap().is_empty() && t.elapsed().as_secs() < 5 && (a.connected() || t.elapsed().as_millis() < 200) { tv::Yield::new().await; }
        for _ in 0..3 { tv::Yield::new().await; }
    });
    let r = got.lock().unwrap().clone(); r
}
//@block k_estimate
pub struct Est(Arc<Mutex<Vec<Vec<f32>>>>); impl Actor for Est { type Context = Context<Self>; }
impl Handler<GaussianKDEResponse> for Est { type Result = (); fn handle(&mut self, m: GaussianKDEResponse, _: &mut Self::Context) { self.0.lock().unwrap().push(m.kernel_estimate.to_vec()); } }
/// the estimates of the columns, one after the other on one actor
pub fn estimates(columns: &[Vec<f32>], threads: usize, resolution: usize) -> Vec<Vec<f32>> {
    let got = Arc::new(Mutex::new(vec![])); let g = got.clone(); let columns = columns.to_vec();
    actix::System::new().block_on(async move {
        let r = Est(g.clone()).start(); let a = GaussianKDEActor::new(threads, resolution, r.recipient()).start();
        for (i, c) in columns.iter().enumerate() {
            a.do_send(GaussianKDEMessage { column: Array1::from(c.clone()).insert_axis(Axis(1)).into_shared() });
            let t = std::time::Instant::now();
            while g.lock().unwrap().len() <= i && t.elapsed().as_secs() < 5 && a.connected() { tv::Yield::new().await; }
            for _ in 0..3 { tv::Yield::new().await; }
        }
        a.do_send(PoisonPill); tv::Yield::new().await;
    });
    let r = got.lock().unwrap().clone(); r
}
