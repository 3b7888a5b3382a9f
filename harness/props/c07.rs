use crate::*;
use s2gpp::verif::training::scoring::hp as h;
use std::collections::BTreeMap;
type K = (usize, usize);
/// sorted random edges, cumulative counts, weights and degrees
fn world(cx: &mut Cx) -> (Vec<h::E>, Vec<usize>, Vec<((K, K), usize)>, Vec<(K, usize)>) {
    let pts = cx.rng.r(3, 25); let dens = cx.rng.r(0, 3); let mut edges: Vec<h::E> = vec![]; let mut eit = vec![];
    for p in 0..pts { let k = if cx.rng.r(0, 2) == 0 { cx.rng.r(0, 3) } else if dens > 0 && cx.rng.r(0, dens) == 0 { 1 } else { 0 };
        for _ in 0..k { edges.push(((cx.rng.r(0, 3), cx.rng.r(0, 1)), (cx.rng.r(0, 3), cx.rng.r(0, 1)), p)); } eit.push(edges.len()); }
    let mut w = BTreeMap::new(); let mut d = BTreeMap::new();
    for e in &edges { w.entry((e.0, e.1)).or_insert(cx.rng.r(1, 40)); for n in [e.0, e.1] { d.entry(n).or_insert(cx.rng.r(1, 9)); } }
    (edges, eit, w.into_iter().collect(), d.into_iter().collect())
}
/// the score of the window of q points starting at point i (None: it holds no edge); the window reaches one edge beyond its last point
fn window(edges: &[h::E], eit: &[usize], w: &[((K, K), usize)], d: &[(K, usize)], q: usize, i: usize) -> Option<f64> {
    let from = eit[i]; let to = (eit[i + q - 1] + 1).min(edges.len());
    if from >= to { return None; }
    let s: f64 = edges[from..to].iter().map(|e| (w.iter().find(|x| x.0 == (e.0, e.1)).unwrap().1 * (d.iter().find(|x| x.0 == e.0).unwrap().1 - 1)) as f64).sum();
    Some(-s / (1e-8 + (to - from) as f64))
}
//@block c07_window
pub fn c07_window(cx: &mut Cx) {
    for _ in 0..cx.n(300, 5000) {
        let (edges, eit, w, d) = world(cx); let q = cx.rng.r(1, eit.len()); let n = eit.len() - (q - 1);
        let start = cx.rng.r(0, n - 1); let len = cx.rng.r(0, n - start);
        cx.case(format!("edges={edges:?} edges_in_time={eit:?} weights={w:?} degrees={d:?} query_length={q} start={start} length={len}"), || {
            let a = h::answers(&edges, &eit, &w, &d, q, &[(start, len)]);
            eq("answers", a.len(), 1)?; eq("start", a[0].0, start)?; eq("number of scores", a[0].1.len(), len)?;
            let raw: Vec<Option<f64>> = (start..start + len).map(|i| window(&edges, &eit, &w, &d, q, i)).collect();
            eq("first window without edges", a[0].2, len > 0 && raw[0].is_none())?;
            let mut last = 0.0;
            for k in 0..len { if let Some(x) = raw[k] { last = x; } if !close(a[0].1[k] as f64, last, 1e-4) { return Err(format!("score of window {}: got {}, expected {}", start + k, a[0].1[k], last)); } }
            Ok(len > 0 && raw.iter().any(|x| x.is_some()))
        });
        if !cx.more() { break; }
    }
}
