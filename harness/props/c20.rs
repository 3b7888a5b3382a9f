use crate::*;
use s2gpp::verif::data_store as d;
use d::Op;
type N = (usize, usize, usize);
//@block c20_graph
pub fn c20_graph(cx: &mut Cx) {
    fn oracle(ops: &[Op], k: usize) -> d::Graph {
        let (mut nodes, mut cuts, mut edges, mut wiped): (Vec<N>, Vec<(usize, usize)>, Vec<(N, N)>, Vec<(N, N)>) = (vec![], vec![], vec![], vec![]);
        for o in ops { match o {
            Op::Node(n) => nodes.push(*n), Op::Mats(e) => for x in e { nodes.push(x.0); nodes.push(x.1); edges.push(*x); }, Op::Edges(e) => edges.extend(e.iter().cloned()),
            Op::Cut(c) => cuts.push(*c), Op::Cuts(c) => cuts.extend(c.iter().cloned()), Op::Sort => edges.sort_by_key(|e| (e.1 .2, e.0 .2)), Op::Wipe => { nodes.clear(); wiped = std::mem::take(&mut edges); } } }
        let some = |v: Vec<N>| if v.is_empty() { None } else { Some(v) };
        d::Graph { nodes: (0..k).map(|i| some(nodes.iter().filter(|n| n.2 == i).cloned().collect())).collect(),
            cuts: (0..k).map(|i| { let v: Vec<_> = cuts.iter().filter(|c| c.1 == i).cloned().collect(); if v.is_empty() { None } else { Some(v) } }).collect(), edges, wiped }
    }
    for _ in 0..cx.n(4000, 100000) {
        let k = cx.rng.r(1, 6); let r = &mut cx.rng;
        let node = |r: &mut rng::Rng| -> N { (r.r(0, 5), r.r(0, 2), r.r(0, k - 1)) };
        let n = r.r(0, 12);
        let ops: Vec<Op> = (0..n).map(|_| match r.r(0, 13) {
            0 | 1 | 2 => Op::Node(node(r)), 3 | 4 => { let m = r.r(0, 5); Op::Mats((0..m).map(|_| (node(r), node(r))).collect()) }, 5 | 6 => { let m = if r.r(0, 7) == 0 { r.r(20, 60) } else { r.r(0, 8) }; Op::Edges((0..m).map(|_| (node(r), node(r))).collect()) },
            7 | 8 => Op::Cut((r.r(0, 9), r.r(0, k - 1))), 9 | 10 => { let m = r.r(0, 5); Op::Cuts((0..m).map(|_| (r.r(0, 9), r.r(0, k - 1))).collect()) }, 11 | 12 => Op::Sort, _ => Op::Wipe }).collect();
        cx.case(format!("operations {ops:?}, looked up for points and segments below {k}"), || { let g = d::graph(&ops, k); let w = oracle(&ops, k);
            eq("nodes of each point", g.nodes, w.nodes)?; eq("intersections of each segment", g.cuts, w.cuts)?; eq("edges", g.edges, w.edges)?; eq("edges given back by the last wipe", g.wiped, w.wiped)?; Ok(n > 2) });
        if !cx.more() { break; }
    }
}
