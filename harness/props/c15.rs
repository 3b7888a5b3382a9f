use crate::*;
use s2gpp::verif::training::scoring as s;
//@block c15_chain
pub fn c15_chain(cx: &mut Cx) {
    for _ in 0..cx.n(400, 8000) {
        let n = cx.rng.r(2, 5); let q = cx.rng.r(1, 7); let dense = cx.rng.r(1, 4); let few = cx.rng.b();
        // points per node; the last one has room for a window; how many edges lead to each point
        let lens: Vec<usize> = (0..n).map(|k| if k == n - 1 { q + cx.rng.r(0, 4) } else { cx.rng.r(1, 6) }).collect();
        let mut pt = 0; let mut id = 0;
        let mut nodes: Vec<(Vec<s::E>, Vec<usize>)> = vec![]; let (mut ge, mut gc): (Vec<s::E>, Vec<usize>) = (vec![], vec![]);
        for l in &lens {
            let (mut e, mut c) = (vec![], vec![]);
            for _ in 0..*l { for _ in 0..if cx.rng.r(0, dense) == 0 { 0 } else { cx.rng.r(0, 2) } { e.push(if few { ((cx.rng.r(0, 1), 0), (1, 0), pt) } else { ((id % 7, 0), (id % 5, id % 3), pt) }); id += 1; } c.push(e.len()); pt += 1; }
            gc.extend(c.iter().map(|x| x + ge.len())); ge.extend(e.iter().cloned());
            nodes.push((e, c));
        }
        let early: Vec<bool> = (0..n).map(|_| cx.rng.b()).collect();
        cx.case(format!("query length {q}, (edges as from, to, point; edges up to each point) per node {nodes:?}, overlap early {early:?}"), || {
            let r = s::overlap(q, &nodes, &early);
            eq("nodes that were reached", r.len(), n)?;
            let mut at = 0;
            for k in 0..n {
                let o = &r[k];
                eq(&format!("messages of node {k} before it has its overlap"), o.before.len(), 0)?;
                eq(&format!("overlaps sent by node {k}, to"), o.sent.iter().map(|x| x.0).collect::<Vec<_>>(), vec![(k + n - 1) % n])?;
                eq(&format!("node {k} still waits, scores"), (o.running, o.helpers), (false, true))?;
                // windows: query length points, and the first edge after them
                let w = o.counts.len() + 1 - q;
                eq(&format!("windows of node {k}"), w, if k == n - 1 { lens[k] + 1 - q } else { lens[k] })?;
                for i in 0..w {
                    let got = o.edges.get(o.counts[i]..(o.counts[i + q - 1] + 1).min(o.edges.len())).map(|x| x.to_vec());
                    let exp = ge[gc[at + i]..(gc[at + i + q - 1] + 1).min(ge.len())].to_vec();
                    eq(&format!("edges of window {i} of node {k}"), got, Some(exp))?;
                }
                at += lens[k];
            }
            Ok(true)
        });
        if !cx.more() { break; }
    }
}
