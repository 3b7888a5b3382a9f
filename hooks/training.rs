pub(crate) use super::scoring::messages::SubScores as Probe;
pub use super::scoring::verif as scoring;
pub use super::segmentation::verif as segmentation;
pub use super::transposition::verif as transposition;
pub use super::edge_estimation::verif as edge_estimation;
pub use super::intersection_calculation::verif as intersection_calculation;
pub use super::node_estimation::verif as node_estimation;
pub use super::rotation::verif as rotation;
pub use super::anomaly_contribution::verif as anomaly_contribution;

//@block t_params
use super::*;
pub fn params(rate: usize, n: usize) -> Parameters {
    Parameters { rate, n_cluster_nodes: n, ..Default::default() }
}
/// cluster nodes as node `own` of `n` sees them
pub fn cluster(own: usize, n: usize) -> ClusterNodes {
    let mut m = std::collections::HashMap::new();
    for i in 0..n {
        if i != own {
            let s: std::net::SocketAddr = format!("127.0.0.1:{}", 20000 + i).parse().unwrap();
            m.insert(i, RemoteAddr::new_from_id(s, "Training"));
        }
    }
    ClusterNodes::from(m)
}
pub fn training(p: Parameters, own: usize) -> Training {
    let n = p.n_cluster_nodes;
    let mut t = Training::init(p);
    t.cluster_nodes = cluster(own, n);
    t
}

//@block t_assign
pub fn segment_id_to_assignment(rate: usize, n: usize, s: usize) -> usize {
    training(params(rate, n), 0).segment_id_to_assignment(s)
}
//@block t_diff
pub fn cluster_node_diff(n: usize, a: usize, b: usize) -> usize {
    training(params(1000, n), 0).cluster_node_diff(a, b)
}
//@block t_net
/// like training(), but its remote addresses accept (and lose) messages
pub fn training_net(p: Parameters, own: usize) -> Training {
    let n = p.n_cluster_nodes;
    let mut t = Training::init(p);
    t.cluster_nodes = cluster_net(own, n);
    t
}
pub fn cluster_net(own: usize, n: usize) -> ClusterNodes {
    let ni = Context::<NetworkInterface>::new().address();
    let mut m = std::collections::HashMap::new();
    for i in 0..n {
        if i != own {
            let s: std::net::SocketAddr = format!("127.0.0.1:{}", 20000 + i).parse().unwrap();
            let mut a = RemoteAddr::new_from_id(s, "Training");
            a.set_network_interface(ni.clone());
            m.insert(i, a);
        }
    }
    ClusterNodes::from(m)
}
//@block t_cap
/// a cluster whose remote nodes are sockets read here: what the node under test sends is seen byte by byte
pub struct Peer { sock: std::net::TcpStream, buf: Vec<u8>, ni: Addr<NetworkInterface> }
pub struct Cap { peers: std::sync::MutexGuard<'static, Vec<Peer>>, own: usize, n: usize }
pub struct Sent { pub to: usize, header: Vec<u8>, body: Vec<u8> }
impl Sent {
    pub fn has(&self, s: &str) -> bool { self.header.windows(s.len()).any(|w| w == s.as_bytes()) }
    pub fn is<T: RemoteMessage>(&self) -> bool { self.has(T::IDENTIFIER) }
    pub fn get<T: RemoteMessage + serde::de::DeserializeOwned>(&self) -> Option<T> { if self.is::<T>() { T::generate_serializer().deserialize(&self.body).ok() } else { None } }
}
pub const PEERS: usize = 8;
static POOL: std::sync::OnceLock<std::sync::Mutex<Vec<Peer>>> = std::sync::OnceLock::new();
pub fn peer_addr(i: usize) -> std::net::SocketAddr { format!("127.0.0.1:{}", 20000 + i).parse().unwrap() }
fn pool() -> &'static std::sync::Mutex<Vec<Peer>> {
    POOL.get_or_init(|| {
        // one thread runs the network interfaces for the whole process
        let (tx, rx) = std::sync::mpsc::channel();
        std::thread::spawn(move || {
            let sys = System::new();
            sys.block_on(async move {
                let l = std::net::TcpListener::bind("127.0.0.1:0").unwrap();
                for i in 0..PEERS {
                    let a = std::net::TcpStream::connect(l.local_addr().unwrap()).unwrap(); let (b, _) = l.accept().unwrap();
                    a.set_nonblocking(true).unwrap(); a.set_nodelay(true).unwrap();
                    let ni = NetworkInterface::from_stream(peer_addr(99), peer_addr(i), tokio::net::TcpStream::from_std(a).unwrap()).start();
                    tx.send(Peer { sock: b, buf: vec![], ni }).unwrap();
                }
            });
            sys.run().unwrap();
        });
        std::sync::Mutex::new((0..PEERS).map(|_| rx.recv().unwrap()).collect())
    })
}
/// the cluster as node own of n sees it, and what captures the messages to the others
pub fn cap_cluster(own: usize, n: usize) -> (ClusterNodes, Cap) {
    assert!(n <= PEERS);
    let peers = pool().lock().unwrap_or_else(|e| e.into_inner());
    let m = (0..n).filter(|i| *i != own).map(|i| { let mut r = RemoteAddr::new_from_id(peer_addr(i), "Training"); r.set_network_interface(peers[i].ni.clone()); (i, r) }).collect::<std::collections::HashMap<usize, RemoteAddr>>();
    let mut cap = Cap { peers, own, n };
    cap.drain();
    (ClusterNodes::from(m), cap)
}
impl Cap {
    /// everything sent since the last call, per receiver in the order of sending
    pub fn drain(&mut self) -> Vec<Sent> {
        use std::io::Read; use std::convert::TryInto;
        let mut out = vec![]; let (own, n) = (self.own, self.n);
        for (to, p) in self.peers.iter_mut().enumerate() {
            if to >= n || to == own { continue; }
            let mut s = RemoteAddr::new_from_id(peer_addr(to), "SENTINEL"); s.set_network_interface(p.ni.clone()); s.do_send(crate::training::scoring::messages::SubScores::default());
            'w: loop {
                while p.buf.len() >= 8 {
                    let size = u32::from_be_bytes(p.buf[0..4].try_into().unwrap()) as usize; let h = u32::from_be_bytes(p.buf[4..8].try_into().unwrap()) as usize;
                    if p.buf.len() < size + 8 { break; }
                    let f = Sent { to, header: p.buf[8..8 + h].to_vec(), body: p.buf[8 + h..8 + size].to_vec() };
                    p.buf.drain(0..8 + size);
                    if f.has("SENTINEL") { break 'w; }
                    out.push(f);
                }
                let mut t = [0u8; 65536];
                let k = p.sock.read(&mut t).unwrap(); assert!(k > 0, "connection closed"); p.buf.extend_from_slice(&t[..k]);
            }
        }
        out
    }
}
/// the cluster as each of n nodes sees it; all messages are captured
pub fn cap_all(n: usize) -> (Vec<ClusterNodes>, Cap) {
    let (_, cap) = cap_cluster(usize::MAX, n);
    let all = (0..n).map(|own| ClusterNodes::from((0..n).filter(|i| *i != own).map(|i| { let mut r = RemoteAddr::new_from_id(peer_addr(i), "Training"); r.set_network_interface(cap.peers[i].ni.clone()); (i, r) }).collect::<std::collections::HashMap<usize, RemoteAddr>>())).collect();
    (all, cap)
}
/// an actor answers this after what it already has in its mailbox
#[derive(Message)] #[rtype(Result = "()")] pub struct Ping(pub std::sync::Arc<std::sync::atomic::AtomicUsize>);
impl Handler<Ping> for Training { type Result = (); fn handle(&mut self, m: Ping, _: &mut Self::Context) { m.0.fetch_add(1, std::sync::atomic::Ordering::SeqCst); } }
pub struct Yield(bool); impl Yield { pub fn new() -> Self { Yield(false) } }
impl std::future::Future for Yield { type Output = (); fn poll(mut self: std::pin::Pin<&mut Self>, cx: &mut std::task::Context<'_>) -> std::task::Poll<()> { if self.0 { std::task::Poll::Ready(()) } else { self.0 = true; cx.waker().wake_by_ref(); std::task::Poll::Pending } } }
/// lets the actors of this thread handle what they have, `times` over
pub async fn settle(nodes: &[Addr<Training>], times: usize) {
    for _ in 0..times {
        let c = std::sync::Arc::new(std::sync::atomic::AtomicUsize::new(0));
        for a in nodes { a.do_send(Ping(c.clone())); }
        let t = std::time::Instant::now();
        while c.load(std::sync::atomic::Ordering::SeqCst) < nodes.len() { if t.elapsed().as_secs() > 5 || nodes.iter().any(|a| !a.connected()) { return; } Yield(false).await; }
    }
}
/// node `own` of n, its messages to the others captured
pub fn training_cap(p: Parameters, own: usize) -> (Training, Cap) {
    let (c, cap) = cap_cluster(own, p.n_cluster_nodes);
    let mut t = Training::init(p); t.cluster_nodes = c;
    (t, cap)
}
//@block t_stages
pub type K = (usize, usize);
pub struct Score1(std::sync::Arc<std::sync::Mutex<Vec<Vec<f32>>>>); impl Actor for Score1 { type Context = Context<Self>; }
impl Handler<DetectionResponse> for Score1 { type Result = (); fn handle(&mut self, m: DetectionResponse, _: &mut Self::Context) { self.0.lock().unwrap().push(m.anomaly_score.to_vec()); } }
/// from the nodes of the points (in the order of the intersections) to the end: node estimation is reported done, the real actor does the rest on its own.
/// All answers to the caller, and whether the actor ended
pub fn from_nodes(nodes: &[(usize, K)], points: usize, q: usize, threads: usize, rate: usize) -> (Vec<Vec<f32>>, bool) {
    use crate::data_store::node::IndependentNode;
    let got = std::sync::Arc::new(std::sync::Mutex::new(vec![])); let g = got.clone(); let nodes = nodes.to_vec();
    let ended = std::sync::Arc::new(std::sync::atomic::AtomicBool::new(false)); let e2 = ended.clone();
    System::new().block_on(async move {
        let mut p = params(rate, 1); p.query_length = q; p.n_threads = threads;
        let mut t = training(p, 0);
        for (i, k) in &nodes { t.data_store.add_independent_node(IndependentNode::new(k.0, k.1, *i)); }
        t.dataset_stats = Some(DatasetStats { n: Some(points), ..Default::default() });
        t.num_rotated = Some(points);
        t.sink = Some(Score1(g.clone()).start().recipient());
        let a = t.start();
        a.do_send(NodeEstimationDone);
        let c = std::time::Instant::now();
        while a.connected() && c.elapsed().as_secs() < 10 { Yield::new().await; }
        for _ in 0..3 { Yield::new().await; }
        e2.store(!a.connected(), std::sync::atomic::Ordering::SeqCst);
    });
    let r = got.lock().unwrap().clone(); (r, ended.load(std::sync::atomic::Ordering::SeqCst))
}
//@block t_told
pub fn told(t: &Training) -> (usize, Vec<(usize, usize)>) { let mut v: Vec<(usize, usize)> = t.cluster_nodes.iter().map(|(i, a)| (*i, a.node.socket_addr.port() as usize - 20000)).collect(); v.sort(); (t.cluster_nodes.get_own_idx(), v) }
pub fn alone(mut t: Training) -> Training { t.cluster_nodes = ClusterNodes::new(); t }
//@block t_cluster
/// as from_nodes, on n nodes: every node is given the graph nodes of its segments and where the path goes on elsewhere; messages are delivered as `pick` says (in order for each receiver).
/// The answers of each node, or None if one of them did not end
pub fn from_nodes_on(n: usize, path: &[(usize, K)], rows: usize, points: usize, q: usize, threads: usize, rate: usize, mut pick: impl FnMut(usize) -> usize + 'static) -> Option<Vec<Vec<Vec<f32>>>> {
    use crate::data_store::node::IndependentNode;
    let (all, mut cap) = cap_all(n); let path = path.to_vec();
    let got: Vec<_> = (0..n).map(|_| std::sync::Arc::new(std::sync::Mutex::new(vec![]))).collect(); let g = got.clone();
    let ok = std::sync::Arc::new(std::sync::atomic::AtomicBool::new(false)); let ok2 = ok.clone();
    System::new().block_on(async move {
        let nodes: Vec<Addr<Training>> = all.into_iter().enumerate().map(|(i, c)| {
            let mut p = params(rate, n); p.query_length = q; p.n_threads = threads;
            let mut t = Training::init(p); t.cluster_nodes = c;
            let owner = |s: usize| (s / (rate / n)).min(n - 1);
            // the nodes of a point come by segment
            for pt in 0..points { let mut l: Vec<K> = path.iter().filter(|x| x.0 == pt && owner((x.1).0) == i).map(|x| x.1).collect(); l.sort(); for k in l { t.data_store.add_independent_node(IndependentNode::new(k.0, k.1, pt)); } }
            for w in path.windows(2) { if owner((w[0].1).0) == i && owner((w[1].1).0) != i { t.node_estimation.next_foreign_node.insert((w[0].0, (w[0].1).0), (w[1].0, IndependentNode::new((w[1].1).0, (w[1].1).1, w[1].0))); } }
            t.dataset_stats = Some(DatasetStats { n: Some(rows), ..Default::default() });
            let part = rows / n; t.num_rotated = Some(if i == n - 1 { points - part * (n - 1) } else { part });
            t.sink = Some(Score1(g[i].clone()).start().recipient());
            t.start() }).collect();
        let mut begun = vec![false; n]; let mut pending: Vec<Sent> = vec![]; let mut quiet = std::time::Instant::now();
        loop {
            for _ in 0..3 { let up: Vec<Addr<Training>> = nodes.iter().filter(|a| a.connected()).cloned().collect(); settle(&up, 1).await; }
            let new = cap.drain(); if !new.is_empty() { quiet = std::time::Instant::now(); }
            pending.extend(new);
            if g.iter().all(|x| !x.lock().unwrap().is_empty()) { ok2.store(true, std::sync::atomic::Ordering::SeqCst); break; }
            let ready: Vec<usize> = (0..n).filter(|i| !begun[*i]).collect();
            // the first message of every receiver
            let firsts: Vec<usize> = (0..n).filter_map(|i| pending.iter().position(|s| s.to == i)).collect();
            let c = firsts.len() + ready.len();
            if c == 0 { if quiet.elapsed().as_millis() > 1500 { break; } Yield::new().await; continue; }
            quiet = std::time::Instant::now();
            let x = pick(c);
            if x < ready.len() { let i = ready[x]; nodes[i].do_send(NodeEstimationDone); begun[i] = true; continue; }
            let s = pending.remove(firsts[x - ready.len()]); let a = &nodes[s.to];
            if s.is::<TranspositionRotationMessage>() { a.do_send(s.get::<TranspositionRotationMessage>().unwrap()); }
            else if s.is::<NodeDegrees>() { a.do_send(s.get::<NodeDegrees>().unwrap()); }
            else if s.is::<EdgeWeights>() { a.do_send(s.get::<EdgeWeights>().unwrap()); }
            else if s.is::<OverlapRotation>() { a.do_send(s.get::<OverlapRotation>().unwrap()); }
            else if s.is::<SubScores>() { a.do_send(s.get::<SubScores>().unwrap()); }
        }
    });
    if !ok.load(std::sync::atomic::Ordering::SeqCst) { return None; }
    Some(got.iter().map(|x| x.lock().unwrap().clone()).collect())
}
