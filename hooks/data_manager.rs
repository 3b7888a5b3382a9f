use super::*;
use crate::training::verif as tv;
//@block d_load
use std::sync::{Arc, Mutex}; use actix::prelude::Message;
#[derive(Message)] #[rtype(Result = "()")] pub struct DPing(pub Arc<std::sync::atomic::AtomicUsize>);
impl Handler<DPing> for DataManager { type Result = (); fn handle(&mut self, m: DPing, _: &mut Self::Context) { m.0.fetch_add(1, std::sync::atomic::Ordering::SeqCst); } }
async fn settle(nodes: &[Addr<DataManager>], times: usize) {
    for _ in 0..times {
        let c = Arc::new(std::sync::atomic::AtomicUsize::new(0));
        for a in nodes { a.do_send(DPing(c.clone())); }
        let t = std::time::Instant::now();
        while c.load(std::sync::atomic::Ordering::SeqCst) < nodes.len() { if t.elapsed().as_secs() > 5 || nodes.iter().any(|a| !a.connected()) { return; } tv::Yield::new().await; }
    }
}
/// what a node's training is given
#[derive(Clone, Debug, PartialEq)]
pub struct Loaded { pub phase: Vec<Vec<Vec<f32>>>, pub reference: Vec<Vec<Vec<f32>>>, pub min: Vec<f32>, pub max: Vec<f32>, pub std: Vec<f32>, pub n: usize }
pub struct LCol { pub out: Arc<Mutex<Vec<Loaded>>> }
impl Actor for LCol { type Context = Context<Self>; }
fn v3(a: &ndarray::ArcArray<f32, ndarray::Ix3>) -> Vec<Vec<Vec<f32>>> { a.outer_iter().map(|x| x.outer_iter().map(|r| r.to_vec()).collect()).collect() }
impl Handler<DataLoadedAndProcessed> for LCol { type Result = (); fn handle(&mut self, m: DataLoadedAndProcessed, _: &mut Self::Context) { let s = m.dataset_stats; self.out.lock().unwrap().push(Loaded { phase: v3(&m.phase_space), reference: v3(&m.data_ref), min: s.min_col.unwrap().to_vec(), max: s.max_col.unwrap().to_vec(), std: s.std_col.unwrap().to_vec(), n: s.n.unwrap() }); } }
pub struct Conf { pub n: usize, pub pattern: usize, pub latent: usize, pub threads: usize, pub col_start: usize, pub col_end: isize }
fn params(c: &Conf, i: usize, path: Option<String>) -> Parameters {
    let mut p = tv::params(100, c.n);
    p.role = if i == 0 { Role::Main { data_path: path } } else { Role::Sub { mainhost: tv::peer_addr(0) } };
    p.local_host = tv::peer_addr(i); p.pattern_length = c.pattern; p.latent = c.latent; p.n_threads = c.threads; p.column_start = c.col_start; p.column_end = c.col_end;
    p
}
/// the file loaded by n real nodes; `pick(k)` chooses the next of k things to do (a pending message, or a node that is told to load)
pub fn load(path: &str, conf: Conf, mut pick: impl FnMut(usize) -> usize + 'static) -> Vec<Vec<Loaded>> {
    let n = conf.n;
    let (all, mut cap) = tv::cap_all(n);
    let outs: Vec<_> = (0..n).map(|_| Arc::new(Mutex::new(vec![]))).collect();
    let o2 = outs.clone(); let path = path.to_string();
    let sys = actix::System::new();
    sys.block_on(async move {
        let nodes: Vec<Addr<DataManager>> = (0..n).map(|i| { let r = LCol { out: o2[i].clone() }.start(); DataManager::new(ClusterNodes::new(), params(&conf, i, Some(path.clone())), r.recipient()).start() }).collect();
        let mut begun = vec![false; n]; let mut pending: Vec<tv::Sent> = vec![]; let mut quiet = std::time::Instant::now();
        loop {
            settle(&nodes, 3).await;
            let new = cap.drain(); if !new.is_empty() { quiet = std::time::Instant::now(); } pending.extend(new);
            let ready: Vec<usize> = (0..n).filter(|i| !begun[*i]).collect();
            let c = pending.len() + ready.len();
            if c == 0 {
                if o2.iter().all(|o| o.lock().unwrap().len() >= 1) || nodes.iter().any(|a| !a.connected()) || quiet.elapsed().as_millis() > 2000 { break; }
                std::thread::sleep(std::time::Duration::from_micros(100));
                continue;
            }
            quiet = std::time::Instant::now();
            let x = pick(c);
            if x < ready.len() { let i = ready[x]; begun[i] = true; nodes[i].do_send(LoadDataMessage { nodes: all[i].clone() }); }
            else {
                let s = pending.remove(x - ready.len());
                // the interface through which a message came is where answers go
                let ni = |a: &RemoteAddr| { let i = (0..n).find(|i| tv::peer_addr(*i) == a.node.socket_addr).unwrap(); all[if i == s.to { return None } else { s.to }].get(&i).unwrap().node.network_interface.clone() };
                if let Some(m) = s.get::<DataPartitionMessage>() { nodes[s.to].do_send(m); }
                else if let Some(mut m) = s.get::<MinMaxNodeMessage>() { if let Some(a) = ni(&m.source) { m.set_source(a); } nodes[s.to].do_send(m); }
                else if let Some(mut m) = s.get::<StdNodeMessage>() { if let Some(a) = ni(&m.source) { m.set_source(a); } nodes[s.to].do_send(m); }
                else if let Some(m) = s.get::<MinMaxDoneMessage>() { nodes[s.to].do_send(m); }
                else if let Some(m) = s.get::<StdDoneMessage>() { nodes[s.to].do_send(m); }
            }
        }
    });
    outs.iter().map(|o| o.lock().unwrap().clone()).collect()
}
//@block d_local
/// data given as an array, in row- or column-major order
pub fn load_array(rows: &[Vec<f32>], column_major: bool, conf: Conf) -> Vec<Loaded> {
    let d = rows[0].len(); let flat: Vec<f32> = rows.iter().flatten().cloned().collect();
    let a = Array2::from_shape_vec((rows.len(), d), flat).unwrap();
    let a = if column_major { let mut f = Array2::zeros(ndarray::ShapeBuilder::f((rows.len(), d))); f.assign(&a); f } else { a };
    let out = Arc::new(Mutex::new(vec![])); let o2 = out.clone();
    let sys = actix::System::new();
    sys.block_on(async move {
        let r = LCol { out: o2.clone() }.start(); let dm = DataManager::new(ClusterNodes::new(), params(&conf, 0, None), r.recipient()).start();
        dm.do_send(LocalReadDataMessage { data: a });
        let t = std::time::Instant::now();
        while o2.lock().unwrap().is_empty() && dm.connected() && t.elapsed().as_millis() < 2000 { settle(&[dm.clone()], 2).await; std::thread::sleep(std::time::Duration::from_micros(100)); }
    });
    let r = out.lock().unwrap().clone(); r
}
//@block d_phase
pub fn phase(rows: &[Vec<f32>], pattern: usize, latent: usize) -> Vec<Vec<Vec<f32>>> {
    let a = Array2::from_shape_vec((rows.len(), rows[0].len()), rows.iter().flatten().cloned().collect()).unwrap();
    let c = Conf { n: 1, pattern, latent, threads: 1, col_start: 0, col_end: 0 };
    v3(&PhaseSpacer::new(a.to_shared(), params(&c, 0, None)).build().to_shared())
}
//@block d_ref
pub fn reference(min: &[f32], max: &[f32], pattern: usize, latent: usize) -> Vec<Vec<Vec<f32>>> {
    let c = Conf { n: 1, pattern, latent, threads: 1, col_start: 0, col_end: 0 }; let a = |x: &[f32]| Array1::from(x.to_vec());
    v3(&ReferenceDatasetBuilder::new(DatasetStats::new(a(min), a(min), a(max), 10), params(&c, 0, None)).build().to_shared())
}
