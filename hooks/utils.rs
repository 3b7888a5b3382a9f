use super::*;
use crate::training::verif::Probe as SubScores;
use super::rotation_protocol::RotationProtocol;
use super::direct_protocol::DirectProtocol;
//@block u_proto
/// what happens to a protocol object
#[derive(Clone, Copy, Debug)]
pub enum Op { Start(usize), Msg(usize), Sent, Resolve }
/// what is seen after it: answer of received(), is_running(), messages put back by resolve_buffer
#[derive(Clone, Debug, PartialEq)]
pub struct Seen { pub handled: Option<bool>, pub running: bool, pub back: Vec<usize> }
pub struct Sink { got: std::sync::Arc<std::sync::Mutex<Vec<usize>>> }
impl Actor for Sink { type Context = actix::Context<Self>; }
impl actix::Handler<SubScores> for Sink { type Result = (); fn handle(&mut self, m: SubScores, _: &mut Self::Context) { self.got.lock().unwrap().push(m.cluster_node_id); } }
macro_rules! drive { ($t:ty, $ops:expr) => {{
    let got = std::sync::Arc::new(std::sync::Mutex::new(vec![])); let g2 = got.clone(); let ops: Vec<Op> = $ops.to_vec();
    actix::System::new().block_on(async move {
        let a = Sink { got }.start();
        let mut p: $t = Default::default(); let mut out = vec![];
        for o in ops {
            let mut handled = None;
            match o {
                Op::Start(n) => p.start(n),
                Op::Msg(i) => handled = Some(p.received(&SubScores { cluster_node_id: i, ..Default::default() })),
                Op::Sent => p.sent(),
                Op::Resolve => { p.resolve_buffer(a.clone().recipient()); a.send(SubScores { cluster_node_id: usize::MAX, ..Default::default() }).await.unwrap(); }
            }
            let mut back: Vec<usize> = g2.lock().unwrap().drain(..).collect();
            if let Op::Resolve = o { back.pop(); }
            out.push(Seen { handled, running: p.is_running(), back });
        }
        out
    })
}} }
//@block u_rot
pub struct RSink { p: RotationProtocol<SubScores>, got: Vec<usize> }
impl Actor for RSink { type Context = actix::Context<Self>; }
impl actix::Handler<SubScores> for RSink { type Result = (); fn handle(&mut self, m: SubScores, _: &mut Self::Context) { self.got.push(m.cluster_node_id); } }
#[derive(actix::Message)] #[rtype(result = "(Option<bool>, bool)")] pub struct Step(Op);
impl actix::Handler<Step> for RSink { type Result = actix::MessageResult<Step>; fn handle(&mut self, m: Step, ctx: &mut Self::Context) -> Self::Result {
    use actix::AsyncContext;
    let mut handled = None;
    match m.0 {
        Op::Start(n) => self.p.start(n),
        Op::Msg(i) => handled = Some(self.p.received(&SubScores { cluster_node_id: i, ..Default::default() })),
        Op::Sent => self.p.sent(),
        // usize::MAX waits in the mailbox when the kept messages come back
        Op::Resolve => { ctx.address().do_send(SubScores { cluster_node_id: usize::MAX, ..Default::default() }); self.p.resolve_buffer(ctx); }
    }
    actix::MessageResult((handled, self.p.is_running()))
} }
#[derive(actix::Message)] #[rtype(result = "Vec<usize>")] pub struct Got;
impl actix::Handler<Got> for RSink { type Result = actix::MessageResult<Got>; fn handle(&mut self, _: Got, _: &mut Self::Context) -> Self::Result { actix::MessageResult(std::mem::take(&mut self.got)) } }
pub fn rotation(ops: &[Op]) -> Vec<Seen> {
    let ops: Vec<Op> = ops.to_vec();
    actix::System::new().block_on(async move {
        let a = RSink { p: Default::default(), got: vec![] }.start(); let mut out = vec![];
        for o in ops { let (handled, running) = a.send(Step(o)).await.unwrap(); let back = a.send(Got).await.unwrap(); out.push(Seen { handled, running, back }); }
        out
    })
}
//@block u_dir
pub fn direct(ops: &[Op]) -> Vec<Seen> { drive!(DirectProtocol<SubScores>, ops) }
//@block u_help
/// HelperProtocol: s = sent, r = received; is_running after each
pub fn helper(total: usize, ops: &[bool]) -> Vec<bool> {
    let mut p = HelperProtocol::default(); p.n_total = total;
    ops.iter().map(|s| { if *s { p.sent() } else { p.received() } p.is_running() }).collect()
}
//@block u_nodes
/// node own of n: (n, own, next, previous, per key 0..n the node and actor get_as leads to, next_as, prev_as, connected, ids after change_ids)
pub struct NodesView { pub n: usize, pub len: usize, pub own: usize, pub next: Option<usize>, pub prev: Option<usize>, pub main: Option<usize>, pub get: Vec<Option<usize>>, pub get_as: Vec<Option<(usize, String)>>, pub next_as: Option<(usize, String)>, pub prev_as: Option<(usize, String)>, pub all_connected: bool, pub not_connected: bool, pub iter: Vec<(usize, usize)>, pub changed: Vec<(usize, String)>, pub any: Vec<Option<(usize, String)>>, pub any_plain: Vec<Option<(usize, String)>>, pub any_len: usize }
fn rid(r: &RemoteAddr) -> (usize, String) { (r.node.socket_addr.port() as usize - 20000, { let d = format!("{:?}", r); let k = d.rfind("id: ").unwrap(); d[k..].split('"').nth(1).unwrap_or("?").to_string() }) }
pub fn nodes(own: usize, n: usize, from_nodes: bool) -> NodesView {
    let port = |i: usize| -> std::net::SocketAddr { format!("127.0.0.1:{}", 20000 + i).parse().unwrap() };
    let mut c = if from_nodes { ClusterNodes::from((0..n).filter(|i| *i != own).map(|i| (i, Node::new(port(i), None))).collect::<HashMap<usize, Node>>()) } else { ClusterNodes::from((0..n).filter(|i| *i != own).map(|i| (i, RemoteAddr::new_from_id(port(i), ""))).collect::<HashMap<usize, RemoteAddr>>()) };
    let a = actix::Context::<Sink>::new(); use actix::AsyncContext; let a = a.address();
    let anyv = |x: AnyAddr<Sink>| match x { AnyAddr::Local(_) => None, AnyAddr::Remote(r) => Some(rid(&r)) };
    let mut p = Parameters { n_cluster_nodes: n, ..Default::default() };
    let all_connected = c.all_connected(&p); p.n_cluster_nodes = n + 1; let not_connected = c.all_connected(&p);
    let mut v = NodesView { n: c.len_incl_own(), len: c.len(), own: c.get_own_idx(), next: c.get_next_idx(), prev: c.get_previous_idx(), main: c.get_main_node().map(|r| rid(r).0), get: (0..n + 2).map(|k| c.get(&k).map(|r| rid(r).0)).collect(), get_as: (0..n + 2).map(|k| c.get_as(&k, "X").map(|r| rid(&r))).collect(), next_as: c.get_next_as("Y").map(|r| rid(&r)), prev_as: c.get_prev_as("Z").map(|r| rid(&r)), all_connected, not_connected, iter: c.iter().map(|(k, r)| (*k, rid(r).0)).collect(), changed: vec![], any: c.iter_any_as(a.clone(), "W").map(anyv).collect(), any_plain: c.to_any(a.clone()).into_iter().map(anyv).collect(), any_len: c.to_any_as(a, "W").len() };
    c.change_ids("V"); v.changed = c.iter().map(|(_, r)| rid(r)).collect();
    v.iter.sort(); v.changed.sort();
    v
}
