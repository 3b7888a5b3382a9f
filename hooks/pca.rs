use super::*;
use crate::utils::*; use crate::SyncInterface;
use crate::training::verif as tv;
//@block p_run
use std::sync::{Arc, Mutex};
#[derive(Message)] #[rtype(Result = "()")] pub struct RunPca(pub ArcArray2<f32>, pub Addr<Col>);
impl Handler<RunPca> for Training { type Result = (); fn handle(&mut self, m: RunPca, _: &mut Self::Context) { self.rotation.pca.clear(); self.rotation.pca.recipient = Some(m.1.recipient()); self.pca(m.0); } }
/// a node's results
pub struct Col { pub out: Arc<Mutex<Vec<(Vec<Vec<f32>>, Vec<f32>)>>> }
impl Actor for Col { type Context = Context<Self>; }
impl Handler<PCAComponents> for Col { type Result = (); fn handle(&mut self, m: PCAComponents, _: &mut Self::Context) { self.out.lock().unwrap().push((m.components.rows().into_iter().map(|r| r.to_vec()).collect(), m.means.to_vec())); } }
type Res = Vec<Vec<(Vec<Vec<f32>>, Vec<f32>)>>;
/// the analyses (each: rows of every node), one after the other, on n real nodes; `pick(k)` chooses among k things to do next (a pending message, or a node that can start its next analysis).
/// Result: per node its results
pub fn cluster(analyses: &[Vec<Vec<Vec<f32>>>], n_threads: usize, k: usize, mut pick: impl FnMut(usize) -> usize + 'static) -> Res {
    let n = analyses[0].len();
    let (all, mut cap) = tv::cap_all(n);
    let outs: Vec<_> = (0..n).map(|_| Arc::new(Mutex::new(vec![]))).collect();
    let o2 = outs.clone();
    let data: Vec<Vec<ArcArray2<f32>>> = analyses.iter().map(|a| a.iter().map(|d| Array2::from_shape_vec((d.len(), d[0].len()), d.iter().flatten().cloned().collect()).unwrap().to_shared()).collect()).collect();
    let sys = actix::System::new();
    sys.block_on(async move {
        let nodes: Vec<Addr<Training>> = all.into_iter().enumerate().map(|(i, c)| { let mut p = tv::params(100, n); p.n_threads = n_threads; let mut t = Training::init(p); t.cluster_nodes = c; t.rotation.pca = PCA::new(i, k); t.start() }).collect();
        let cols: Vec<Addr<Col>> = (0..n).map(|i| Col { out: o2[i].clone() }.start()).collect();
        let mut begun = vec![0; n]; let mut pending: Vec<tv::Sent> = vec![]; let mut quiet = std::time::Instant::now();
        loop {
            tv::settle(&nodes, 3).await;
            let new = cap.drain(); if !new.is_empty() { quiet = std::time::Instant::now(); } pending.extend(new);
            let ready: Vec<usize> = (0..n).filter(|i| begun[*i] < data.len() && o2[*i].lock().unwrap().len() >= begun[*i]).collect();
            let c = pending.len() + ready.len();
            if c == 0 {
                if o2.iter().all(|o| o.lock().unwrap().len() >= data.len()) || nodes.iter().any(|a| !a.connected()) || quiet.elapsed().as_millis() > (if n_threads > 1 { 3000 } else { 150 }) { break; }
                if n_threads > 1 { std::thread::sleep(std::time::Duration::from_micros(200)); }
                tv::settle(&nodes, 3).await;
                continue;
            }
            quiet = std::time::Instant::now();
            let x = pick(c);
            if x < ready.len() { let i = ready[x]; nodes[i].do_send(RunPca(data[begun[i]][i].clone(), cols[i].clone())); begun[i] += 1; }
            else {
                let s = pending.remove(x - ready.len());
                if let Some(m) = s.get::<PCAMeansMessage>() { nodes[s.to].do_send(m); }
                else if let Some(m) = s.get::<PCADecompositionMessage>() { nodes[s.to].do_send(m); }
                else if let Some(m) = s.get::<PCAComponents>() { nodes[s.to].do_send(m); }
            }
        }
    });
    outs.iter().map(|o| o.lock().unwrap().clone()).collect()
}
//@block p_next2
pub fn next2(n: usize) -> usize { tv::training(tv::params(100, n), 0).next_2_power() }
//@block p_norm
pub fn norm(v: &[Vec<f32>]) -> Vec<Vec<f32>> { let mut t = tv::training(tv::params(100, 1), 0); t.normalize(&Array2::from_shape_vec((v.len(), v[0].len()), v.iter().flatten().cloned().collect()).unwrap()).rows().into_iter().map(|r| r.to_vec()).collect() }
