use crate::*;
use s2gpp::verif::training::edge_estimation as e;
type N = (usize, usize, usize);
/// the path of one transition: segments entered in circle order, so after the gap first
fn path(l: &[N]) -> Vec<N> {
    for g in 1..l.len() { if l[g].0 != l[g - 1].0 + 1 { let mut v = l[g..].to_vec(); v.extend_from_slice(&l[..g]); return v; } }
    l.to_vec()
}
fn oracle(n: usize, nodes: &[(usize, Vec<(usize, usize)>)], foreign: &[((usize, usize), N)]) -> Vec<(N, N)> {
    let mut out = vec![]; let mut prev: Option<N> = None;
    for id in 0..n {
        if let Some((_, l)) = nodes.iter().find(|x| x.0 == id) {
            for x in path(&l.iter().map(|(s, c)| (*s, *c, id)).collect::<Vec<_>>()) {
                if let Some(p) = prev { out.push((p, x)); }
                prev = Some(x);
            }
            if let Some((_, f)) = foreign.iter().find(|f| f.0 == (id, prev.unwrap().0)) { out.push((prev.unwrap(), *f)); prev = None; }
        }
    }
    out
}
//@block c05_chain
pub fn c05_chain(cx: &mut Cx) {
    let chk = |n: usize, nodes: &Vec<(usize, Vec<(usize, usize)>)>, f: &Vec<((usize, usize), N)>| -> Result<bool, String> {
        let g = e::connect(n, nodes, f); let w = oracle(n, nodes, f); let nt = !w.is_empty();
        eq("edges", g, w)?; Ok(nt)
    };
    // one transition, with and without a predecessor: every start and length on a circle of 6
    for prev in [None, Some(0usize), Some(3), Some(5)] { for a in 0..6usize { for k in 1..=4usize {
        let mut segs: Vec<(usize, usize)> = (0..k).map(|i| ((a + i) % 6, i)).collect(); segs.sort();
        let mut nodes = vec![]; if let Some(p) = prev { nodes.push((0usize, vec![(p, 9usize)])); }
        nodes.push((1, segs));
        cx.case(format!("nodes (point,[(segment,cluster)])={nodes:?} of a dataset with 3 points"), || chk(3, &nodes, &vec![]));
    } } }
    for _ in 0..cx.n(4000, 100000) {
        let rate = cx.rng.r(3, 12); let n = cx.rng.r(1, 12); let mut nodes = vec![]; let mut f = vec![]; let mut cur = cx.rng.r(0, rate - 1);
        let same = cx.rng.b();
        for id in 0..n {
            if cx.rng.r(0, 3) == 0 { continue; }
            let k = cx.rng.r(1, rate / 2 + 1).min(rate - 1);
            let mut l: Vec<(usize, usize)> = (0..k).map(|i| ((cur + i) % rate, if same { 0 } else { cx.rng.r(0, 2) })).collect();
            let last = l[k - 1].0; cur = match cx.rng.r(0, 4) { 0 => last, 1 => cx.rng.r(0, rate - 1), _ => (last + 1) % rate };
            l.sort(); nodes.push((id, l));
            if cx.rng.r(0, 3) == 0 { f.push(((id, if cx.rng.r(0, 4) == 0 { cx.rng.r(0, rate - 1) } else { last }), (cx.rng.r(0, rate - 1), cx.rng.r(0, 3), id + 1 + cx.rng.r(0, 2)))); }
        }
        if cx.rng.b() { f.clear(); }
        cx.case(format!("points={n} nodes={nodes:?} answered={f:?}"), || chk(n, &nodes, &f));
        if !cx.more() { break; }
    }
}
