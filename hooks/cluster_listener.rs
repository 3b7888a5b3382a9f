use super::*;
use crate::training::verif as tv;
//@block cl_join
/// what happens to the listener of node own: a node is seen, or the main node's list arrives
#[derive(Clone, Debug)]
pub enum Op { Join(usize), List(Vec<usize>) }
/// after each step: the numbering the node works with; at the end the lists it sent
pub fn listen(n: usize, own: usize, main: usize, ops: &[Op]) -> (Vec<Vec<(usize, usize)>>, Vec<(usize, Vec<usize>)>) {
    let (c, mut cap) = tv::cap_cluster(own, n);
    let port = |i: usize| -> SocketAddr { format!("127.0.0.1:{}", 20000 + i).parse().unwrap() };
    let idx = |a: &SocketAddr| a.port() as usize - 20000;
    let mut p = tv::params(100, n); p.local_host = port(own);
    p.role = if own == main { Role::Main { data_path: None } } else { Role::Sub { mainhost: port(main) } };
    let mut l = ClusterMemberListener::new(p, Context::<Training>::new().address());
    let mut ctx = Context::<ClusterMemberListener>::new(); let mut out = vec![];
    for o in ops {
        match o {
            Op::Join(i) => l.handle(ClusterLog::NewMember(c.get(i).unwrap().node.clone()), &mut ctx),
            Op::List(v) => l.handle(SortedMembersMessage(v.iter().map(|i| port(*i)).collect()), &mut ctx),
        }
        let mut v: Vec<(usize, usize)> = l.sorted_nodes.iter().map(|(k, n)| (*k, idx(&n.socket_addr))).collect(); v.sort(); out.push(v);
    }
    let sent = cap.drain().iter().filter_map(|s| s.get::<SortedMembersMessage>().map(|x| (s.to, x.0.iter().map(idx).collect()))).collect();
    (out, sent)
}
//@block cl_start
#[derive(Message)] #[rtype(result = "()")] pub struct Told(pub std::sync::Arc<std::sync::Mutex<Vec<(usize, Vec<(usize, usize)>)>>>);
impl Handler<Told> for Training { type Result = (); fn handle(&mut self, m: Told, _: &mut Self::Context) { m.0.lock().unwrap().push(tv::told(self)); } }
/// after each step: the number of its node and the other nodes the training was started with (none: not started)
pub fn started(n: usize, own: usize, main: usize, ops: &[Op]) -> Vec<(usize, Vec<(usize, usize)>)> {
    let (c, _cap) = tv::cap_cluster(own, n); let ops = ops.to_vec();
    let out = std::sync::Arc::new(std::sync::Mutex::new(vec![])); let o2 = out.clone();
    System::new().block_on(async move {
        let port = |i: usize| -> SocketAddr { format!("127.0.0.1:{}", 20000 + i).parse().unwrap() };
        let mut p = tv::params(100, n); p.local_host = port(own);
        p.role = if own == main { Role::Main { data_path: None } } else { Role::Sub { mainhost: port(main) } };
        // the training itself only waits for data
        let mut pt = p.clone(); pt.role = Role::Sub { mainhost: port(main) };
        let t = tv::training(pt, 0); let t = Actor::start(tv::alone(t));
        let mut l = ClusterMemberListener::new(p, t.clone());
        let mut ctx = Context::<ClusterMemberListener>::new();
        for (k, o) in ops.iter().enumerate() {
            match o {
                Op::Join(i) => l.handle(ClusterLog::NewMember(c.get(i).unwrap().node.clone()), &mut ctx),
                Op::List(v) => l.handle(SortedMembersMessage(v.iter().map(|i| port(*i)).collect()), &mut ctx),
            }
            t.do_send(Told(o2.clone()));
            let q = std::time::Instant::now();
            while o2.lock().unwrap().len() <= k && t.connected() && q.elapsed().as_secs() < 5 { tv::Yield::new().await; }
        }
    });
    let r = out.lock().unwrap().clone(); r
}
