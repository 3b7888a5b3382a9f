use super::*;
pub use super::pca::verif as pca;
use crate::training::verif as tv;
//@block r_apply
/// apply_rotation_matrix of node own of n on the reduced data (points x 3 x dims): (number, points as (id, coordinates, segment))
pub fn apply(n: usize, own: usize, total: usize, rate: usize, reduced: (usize, usize, Vec<f32>), matrix: Vec<f32>) -> (Option<usize>, Vec<(usize, Vec<f32>, usize)>) {
    let mut t = tv::training(tv::params(rate, n), own);
    t.dataset_stats = Some(crate::data_manager::DatasetStats { n: Some(total), ..Default::default() });
    t.rotation.reduced = Some(Array3::from_shape_vec((reduced.0, 3, reduced.1), reduced.2).unwrap());
    t.apply_rotation_matrix(Array3::from_shape_vec((3, 3, reduced.1), matrix).unwrap());
    (t.num_rotated, t.data_store.get_points().iter().map(|p| (p.get_id(), p.clone_coordinates().to_vec(), p.get_segment())).collect())
}
//@block r_matrix
/// get_rotation_matrix for reference vectors (3 x dims)
pub fn matrix(refs: &[[f32; 3]]) -> Vec<Vec<Vec<f32>>> {
    let mut t = tv::training(tv::params(100, 1), 0); let d = refs.len();
    t.rotation.reduced_ref = Some(Array3::from_shape_fn((3, 3, d), |(r, i, k)| if r == 0 { refs[k][i] } else { refs[k][(i + r) % 3] + r as f32 }));
    let m = t.get_rotation_matrix();
    (0..d).map(|k| (0..3).map(|i| (0..3).map(|j| m[[i, j, k]]).collect()).collect()).collect()
}
//@block r_stage
use std::sync::{Arc, Mutex};
use actix::prelude::*;
use crate::{training::*, SyncInterface};
#[derive(Message)] #[rtype(Result = "()")] pub struct Begin(pub Array3<f32>, pub Array3<f32>);
impl Handler<Begin> for Training { type Result = (); fn handle(&mut self, m: Begin, _: &mut Self::Context) { self.rotate(m.0.to_shared(), m.1.to_shared()); } }
#[derive(Clone, Default, Debug)] pub struct Snap { pub points: Vec<Vec<f32>>, pub num: Option<usize>, pub finished: bool, pub matrices: usize }
#[derive(Message)] #[rtype(Result = "()")] pub struct Look(pub Arc<Mutex<Vec<Snap>>>, pub usize);
impl Handler<Look> for Training { type Result = (); fn handle(&mut self, m: Look, _: &mut Self::Context) { m.0.lock().unwrap()[m.1] = Snap { points: self.data_store.get_points().iter().map(|p| p.clone_coordinates().to_vec()).collect(), num: self.num_rotated, finished: self.data_manager.is_none(), matrices: 0 }; } }
/// the whole stage on n real nodes: parts[i] (rows x window x dims) the phase space of node i, refs the reference (the same on every node); `pick(k)` chooses among k pending messages or nodes to start.
/// Per node: its points, and the number of matrices sent to it; None: it did not finish, or a node died
pub fn stage(parts: &[Vec<f32>], window: usize, dims: usize, refs: &[f32], mut pick: impl FnMut(usize) -> usize + 'static) -> Option<Vec<Snap>> {
    let n = parts.len(); let arr = |v: &[f32]| Array3::from_shape_vec((v.len() / window / dims, window, dims), v.to_vec()).unwrap();
    let parts: Vec<Array3<f32>> = parts.iter().map(|p| arr(p)).collect(); let refs = arr(refs); let total: usize = parts.iter().map(|p| p.shape()[0]).sum();
    let (all, mut cap) = tv::cap_all(n);
    let snaps = Arc::new(Mutex::new(vec![Snap::default(); n])); let o = snaps.clone(); let dead = Arc::new(Mutex::new(false)); let d2 = dead.clone();
    let sys = actix::System::new();
    sys.block_on(async move {
        let nodes: Vec<Addr<Training>> = all.into_iter().enumerate().map(|(i, c)| {
            let mut p = tv::params(100, n); p.n_threads = 1; p.self_correction = false; p.role = if i == 0 { Role::Main { data_path: None } } else { Role::Sub { mainhost: tv::peer_addr(0) } };
            let mut t = Training::init(p); t.cluster_nodes = c; t.dataset_stats = Some(crate::data_manager::DatasetStats { n: Some(total), ..Default::default() }); t.data_manager = Some(Context::<crate::data_manager::DataManager>::new().address()); t.start() }).collect();
        let mut begun = vec![false; n]; let mut sent = vec![0; n]; let mut pending: Vec<tv::Sent> = vec![]; let mut quiet = std::time::Instant::now();
        loop {
            tv::settle(&nodes, 3).await;
            let new = cap.drain(); if !new.is_empty() { quiet = std::time::Instant::now(); }
            for s in new { if let Some(m) = s.get::<RotationMatrixMessage>() { let _ = m; sent[s.to] += 1; pending.push(s); } else if s.get::<PCAMeansMessage>().is_some() || s.get::<PCADecompositionMessage>().is_some() || s.get::<PCAComponents>().is_some() { pending.push(s); } }
            let ready: Vec<usize> = (0..n).filter(|i| !begun[*i]).collect();
            let c = pending.len() + ready.len();
            if nodes.iter().any(|a| !a.connected()) { *d2.lock().unwrap() = true; break; }
            if c == 0 { for (i, a) in nodes.iter().enumerate() { a.do_send(Look(o.clone(), i)); } tv::settle(&nodes, 1).await; if o.lock().unwrap().iter().all(|s| s.finished) || quiet.elapsed().as_millis() > 150 { break; } continue; }
            quiet = std::time::Instant::now();
            let x = pick(c);
            if x < ready.len() { let i = ready[x]; nodes[i].do_send(Begin(parts[i].clone(), refs.clone())); begun[i] = true; }
            else {
                let s = pending.remove(x - ready.len());
                if let Some(m) = s.get::<PCAMeansMessage>() { nodes[s.to].do_send(m); }
                else if let Some(m) = s.get::<PCADecompositionMessage>() { nodes[s.to].do_send(m); }
                else if let Some(m) = s.get::<PCAComponents>() { nodes[s.to].do_send(m); }
                else if let Some(m) = s.get::<RotationMatrixMessage>() { nodes[s.to].do_send(m); }
            }
        }
        for (i, k) in sent.iter().enumerate() { o.lock().unwrap()[i].matrices = *k; }
    });
    let r = snaps.lock().unwrap().clone();
    if *dead.lock().unwrap() || !r.iter().all(|s| s.finished) { None } else { Some(r) }
}
