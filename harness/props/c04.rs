use crate::*;
use s2gpp::verif::training::intersection_calculation as ic;
pub type In = (usize, usize, Vec<f32>, usize, usize, Vec<f32>);
pub fn adv(rate: usize, a: usize, b: usize) -> usize { (b + rate - a) % rate }
/// random point of given dimension (2, 4, 6) whose angle lies well inside segment s
pub fn pt(cx: &mut Cx, rate: usize, s: usize, dims: usize) -> Vec<f32> {
    let a = (s as f64 + 0.15 + 0.7 * cx.rng.f(0.0, 1.0) as f64) * 2.0 * std::f64::consts::PI / rate as f64;
    let r = cx.rng.f(0.8, 3.0) as f64;
    let mut v = vec![(r * a.cos()) as f32, (r * a.sin()) as f32];
    for _ in 2..dims { v.push(cx.rng.f(-3.0, 3.0)); }
    v
}
/// where the line from p to q meets the plane {x1 cos = x0 sin} at angle 2 pi s / rate; then the norms of coordinate pairs (j, j + d/2)
pub fn meet(rate: usize, p: &[f32], q: &[f32], s: usize) -> (Vec<f64>, f64) {
    let th = 2.0 * std::f64::consts::PI * s as f64 / rate as f64;
    let g = |x: &[f32]| -(x[0] as f64) * th.sin() + x[1] as f64 * th.cos();
    let t = g(p) / (g(p) - g(q));
    let x: Vec<f64> = p.iter().zip(q).map(|(a, b)| *a as f64 + t * (*b as f64 - *a as f64)).collect();
    let h = x.len() / 2;
    ((0..h).map(|j| (x[j] * x[j] + x[j + h] * x[j + h]).sqrt()).collect(), (g(p) - g(q)).abs())
}
fn check(rate: usize, ts: &[In]) -> Result<bool, String> {
    let got = ic::intersections(rate, ts);
    let mut want = vec![];
    for t in ts { for l in 1..=adv(rate, t.1, t.4) { want.push((t.clone(), (t.1 + l) % rate)); } }
    let mut g: Vec<_> = got.iter().map(|x| (x.0, x.1)).collect(); g.sort();
    let mut w: Vec<_> = want.iter().map(|(t, s)| ((t.0, t.1, t.3, t.4), *s)).collect(); w.sort();
    eq("(transition, entered segment) pairs", g, w)?;
    for (t, s) in &want {
        let r = got.iter().find(|x| x.0 .0 == t.0 && x.1 == *s).unwrap();
        let (m, cond) = meet(rate, &t.2, &t.5, *s);
        if cond < 0.2 || adv(rate, t.1, t.4) * 2 + 2 > rate { continue; }
        if r.2.len() != m.len() || r.2.iter().zip(&m).any(|(a, b)| !close(*a as f64, *b, 2e-3)) { return Err(format!("intersection of transition {:?} with segment {}: got {:?}, expected {:?}", t, s, r.2, m)); }
    }
    Ok(!want.is_empty())
}
//@block c04_pairs
pub fn c04_pairs(cx: &mut Cx) {
    // every valid (from, to) pair of segments
    for rate in 2..=13usize {
        let mut ts: Vec<In> = vec![];
        for a in 0..rate { for b in 0..rate { if a != b && adv(rate, a, b) <= rate / 2 {
            let i = ts.len() * 2; let (p, q) = (pt(cx, rate, a, 2), pt(cx, rate, b, 2)); ts.push((i, a, p, i + 1, b, q));
        } } }
        // points on one line through the origin make a singular system: one transition at a time near half a turn
        for t in &ts { let t = vec![t.clone()]; let r = rate; if adv(r, t[0].1, t[0].4) * 2 + 2 > r && false { continue; }
            cx.case(format!("rate={rate} transition={:?}", t[0]), || check(r, &t)); }
        if !cx.more() { break; }
    }
}
//@block c04_random
pub fn c04_random(cx: &mut Cx) {
    for _ in 0..cx.n(250, 4000) {
        let rate = cx.rng.r(4, 60); let dims = [2, 4, 6][cx.rng.r(0, 2)]; let n = cx.rng.r(1, 12);
        let mut ts: Vec<In> = vec![];
        for i in 0..n { let a = cx.rng.r(0, rate - 1); let m = if cx.rng.b() { rate / 2 } else { (rate / 2).min(4) }; let b = (a + cx.rng.r(1, m)) % rate; let (p, q) = (pt(cx, rate, a, dims), pt(cx, rate, b, dims)); ts.push((2 * i + 5, a, p, 2 * i + 6, b, q)); }
        cx.case(format!("rate={rate} dims={dims} transitions={ts:?}"), || check(rate, &ts));
        if !cx.more() { break; }
    }
}
