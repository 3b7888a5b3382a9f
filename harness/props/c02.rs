use crate::*;
use s2gpp::verif::data_store as d;
use s2gpp::verif::training::rotation as r;
/// exact share of the full turn, in segments; None within f32 rounding of a border
fn seg(x: f32, y: f32, n: usize) -> Option<usize> {
    let two = 2.0 * std::f64::consts::PI;
    let a = (y as f64).atan2(x as f64); let s = (a + two) / two * n as f64;
    let k = s.floor(); if (s - k) < 1e-5 * n as f64 || (k + 1.0 - s) < 1e-5 * n as f64 { return None; }
    Some(k as usize % n)
}
fn same(g: &[(usize, Vec<f32>, usize)], w: &[(usize, Vec<f32>)], n: usize, tol: f32) -> Result<bool, String> {
    eq("number of points", g.len(), w.len())?; let mut nt = false;
    for (a, b) in g.iter().zip(w) {
        eq("id", a.0, b.0)?; eq("coordinates", a.1.len(), b.1.len())?;
        for (p, q) in a.1.iter().zip(&b.1) { if (p - q).abs() > tol * (1.0 + q.abs()) { return Err(format!("point {}: coordinates {:?}, expected {:?}", a.0, a.1, b.1)); } }
        if a.2 >= n { return Err(format!("point {}: segment {} of {n}", a.0, a.2)); }
        if let Some(s) = seg(a.1[0], a.1[1], n) { nt = true; if a.2 != s { return Err(format!("point {} at {:?}: segment {} of {n}, expected {s}", a.0, a.1, a.2)); } }
    }
    Ok(nt)
}
//@block c02_points
pub fn c02_points(cx: &mut Cx) {
    for _ in 0..cx.n(3000, 60000) {
        let n = cx.rng.r(1, 150); let m = cx.rng.r(0, 3); let dims = cx.rng.r(2, 5); let k = cx.rng.r(1, 3); let grid = cx.rng.r(0, 3) == 0;
        let b: Vec<(usize, Vec<Vec<f32>>)> = (0..k).map(|_| { let o = cx.rng.r(0, 1000); let l = cx.rng.r(0, 6); (o, (0..l).map(|_| (0..dims).map(|_| if grid { cx.rng.r(0, 4) as f32 - 2.0 } else { cx.rng.f(-5.0, 5.0) }).collect()).collect()) }).collect();
        cx.case(format!("batches (first id, points) {b:?}, {n} segments, mirrored {m} times"), || {
            let g = d::points(&b, n, m);
            let w: Vec<(usize, Vec<f32>)> = b.iter().flat_map(|(o, l)| l.iter().enumerate().map(move |(i, c)| { let mut c = c.clone(); if m % 2 == 1 { c[0] = -c[0]; } (o + i, c) })).collect();
            same(&g, &w, n, 0.0)
        });
        if !cx.more() { break; }
    }
}
//@block c02_received
pub fn c02_received(cx: &mut Cx) {
    for _ in 0..cx.n(1000, 20000) {
        let t = |r: &mut rng::Rng| -> d::Tr { (r.r(0, 9), r.r(0, 9), r.r(0, 9), r.r(0, 9)) };
        let k = cx.rng.r(0, 5); let own: Vec<d::Tr> = (0..k).map(|_| t(&mut cx.rng)).collect(); let k = cx.rng.r(0, 3); let clear = cx.rng.r(0, 3) == 0;
        let b: Vec<Vec<d::Tr>> = (0..k).map(|_| { let l = cx.rng.r(0, 4); (0..l).map(|_| t(&mut cx.rng)).collect() }).collect();
        cx.case(format!("own transitions (from id, segment, to id, segment) {own:?}{}, received {b:?}", if clear { " (cleared)" } else { "" }), || {
            let g = d::received(&own, &b, clear); let all: Vec<d::Tr> = b.iter().flatten().cloned().collect();
            let w: Vec<d::Tr> = if clear { vec![] } else { own.clone() }.into_iter().chain(all.iter().cloned()).collect();
            eq("number of transitions", g.1, w.len())?; eq("transitions", g.0, w)?; eq("points", g.2, all.iter().flat_map(|t| vec![(t.0, t.1), (t.2, t.3)]).collect::<Vec<_>>())?; Ok(!all.is_empty())
        });
        if !cx.more() { break; }
    }
}
//@block c02_rotate
pub fn c02_rotate(cx: &mut Cx) {
    for _ in 0..cx.n(1000, 20000) {
        let n = cx.rng.r(1, 5); let own = cx.rng.r(0, n - 1); let total = cx.rng.r(n, 60); let rate = cx.rng.r(1, 100); let p = cx.rng.r(1, 8); let dims = cx.rng.r(1, 3);
        let red: Vec<f32> = (0..p * 3 * dims).map(|_| cx.rng.f(-3.0, 3.0)).collect(); let m: Vec<f32> = (0..9 * dims).map(|_| cx.rng.f(-1.0, 1.0)).collect();
        cx.case(format!("node {own} of {n}, {total} points in all, {rate} segments, reduced ({p} x 3 x {dims}) {red:?}, matrix {m:?}"), || {
            let g = r::apply(n, own, total, rate, (p, dims, red.clone()), m.clone());
            eq("number of rotated points", g.0, Some(p))?;
            let w: Vec<(usize, Vec<f32>)> = (0..p).map(|i| (total / n * own + i, (0..2).flat_map(|a| (0..dims).map(move |k| (a, k))).map(|(a, k)| (0..3).map(|b| m[(a * 3 + b) * dims + k] * red[(i * 3 + b) * dims + k]).sum()).collect())).collect();
            same(&g.1, &w, rate, 1e-4)
        });
        if !cx.more() { break; }
    }
}
