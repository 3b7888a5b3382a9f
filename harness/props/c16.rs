use crate::*;
use s2gpp::verif::training::rotation::pca as p;
/// eigenvalues of a symmetric matrix, largest first
pub fn eig(mut a: Vec<Vec<f64>>) -> Vec<f64> {
    let d = a.len();
    for _ in 0..60 { for i in 0..d { for j in i + 1..d {
        if a[i][j].abs() < 1e-300 { continue; }
        let th = (a[j][j] - a[i][i]) / (2.0 * a[i][j]); let t = (if th >= 0.0 { 1.0 } else { -1.0 }) / (th.abs() + (th * th + 1.0).sqrt()); let c = 1.0 / (t * t + 1.0).sqrt(); let s = t * c;
        for k in 0..d { let (x, y) = (a[k][i], a[k][j]); a[k][i] = c * x - s * y; a[k][j] = s * x + c * y; }
        for k in 0..d { let (x, y) = (a[i][k], a[j][k]); a[i][k] = c * x - s * y; a[j][k] = s * x + c * y; }
    } } }
    let mut e: Vec<f64> = (0..d).map(|i| a[i][i]).collect(); e.sort_by(|x, y| y.partial_cmp(x).unwrap()); e
}
/// the components are the first principal directions of all rows, the means their means
pub fn is_pca(rows: &[Vec<f32>], comp: &[Vec<f32>], means: &[f32]) -> Result<(), String> {
    let d = rows[0].len(); let n = rows.len() as f64;
    let m: Vec<f64> = (0..d).map(|j| rows.iter().map(|r| r[j] as f64).sum::<f64>() / n).collect();
    let scale = rows.iter().flatten().fold(1e-3f64, |a, x| a.max(x.abs() as f64));
    for j in 0..d { if !((means[j] as f64 - m[j]).abs() < 1e-3 * scale) { return Err(format!("means {means:?}, expected {m:?}")); } }
    let c: Vec<Vec<f64>> = (0..d).map(|i| (0..d).map(|j| rows.iter().map(|r| (r[i] as f64 - m[i]) * (r[j] as f64 - m[j])).sum()).collect()).collect();
    let e = eig(c.clone()); let tol = 3e-3 * e[0].max(1e-6 * scale * scale * n);
    for (a, v) in comp.iter().enumerate() {
        if !(v[0] >= 0.0) { return Err(format!("direction {a} is not normalised: {v:?}")); }
        for (b, w) in comp.iter().enumerate() { let dot: f64 = v.iter().zip(w).map(|(x, y)| *x as f64 * *y as f64).sum(); if !((dot - if a == b { 1.0 } else { 0.0 }).abs() < 1e-3) { return Err(format!("directions {a} and {b} are not orthonormal: {comp:?}")); } }
        for i in 0..d { let cv: f64 = (0..d).map(|j| c[i][j] * v[j] as f64).sum(); if !((cv - e[a] * v[i] as f64).abs() < tol) { return Err(format!("direction {a} is not principal direction {a} of all rows: {v:?} (scatter {c:?}, eigenvalues {e:?})")); } }
    }
    Ok(())
}
fn analysis(rng: &mut Rng, n: usize, max: usize, d: usize) -> Vec<Vec<Vec<f32>>> {
    let far = rng.b(); let scales: Vec<f32> = (0..d).map(|j| 5.0 / (1.0 + j as f32 * 1.4)).collect();
    let rows = (0..n).map(|i| (0..rng.r(1, max)).map(|_| { let u: Vec<f32> = (0..d).map(|j| rng.f(-1.0, 1.0) * scales[j] + if far { 3.0 * (i as f32) * (if j == 1 { 1.0 } else { 0.2 }) } else { 0.0 }).collect(); (0..d).map(|j| u[j] + 0.4 * u[(j + 1) % d]).collect() }).collect()).collect(); rows
}
pub fn check(an: &[Vec<Vec<Vec<f32>>>], k: usize, res: &[Vec<(Vec<Vec<f32>>, Vec<f32>)>]) -> Result<bool, String> {
    for (i, r) in res.iter().enumerate() { eq(&format!("analyses finished on node {i}"), r.len(), an.len())?; }
    for (a, data) in an.iter().enumerate() {
        for i in 1..res.len() { if res[i][a] != res[0][a] { return Err(format!("analysis {a}: node {i} has {:?}, node 0 {:?}", res[i][a], res[0][a])); } }
        eq("components", res[0][a].0.len(), k)?;
        let rows: Vec<Vec<f32>> = data.iter().flatten().cloned().collect();
        is_pca(&rows, &res[0][a].0, &res[0][a].1).map_err(|e| format!("analysis {a}: {e}"))?;
    }
    Ok(true)
}
//@block c16_cluster
pub fn c16_cluster(cx: &mut Cx) {
    for _ in 0..cx.n(150, 3000) {
        let n = cx.rng.r(1, 8); let d = cx.rng.r(3, 5); let m = cx.rng.r(2, 6);
        let an: Vec<_> = (0..cx.rng.r(1, 3)).map(|_| analysis(&mut cx.rng, n, m, d)).collect();
        let seed = cx.rng.r(0, 1 << 30);
        cx.case(format!("{n} nodes, schedule {seed}, analyses (rows per node) {an:?}"), || {
            let mut g = Rng(seed as u64);
            check(&an, 3, &p::cluster(&an, 1, 3, move |c| g.r(0, c - 1)))
        });
        if !cx.more() { break; }
    }
}
//@block c16_threads
pub fn c16_threads(cx: &mut Cx) {
    for _ in 0..cx.n(60, 1000) {
        let n = cx.rng.r(1, 3); let d = cx.rng.r(3, 4); let th = cx.rng.r(2, 7); let m = cx.rng.r(2, 20);
        let an: Vec<_> = (0..cx.rng.r(1, 2)).map(|_| analysis(&mut cx.rng, n, m, d)).collect();
        let seed = cx.rng.r(0, 1 << 30);
        cx.case(format!("{n} nodes with {th} threads, schedule {seed}, analyses (rows per node) {an:?}"), || {
            let mut g = Rng(seed as u64);
            check(&an, 3, &p::cluster(&an, th, 3, move |c| g.r(0, c - 1)))
        });
        if !cx.more() { break; }
    }
}
//@block c16_power
pub fn c16_power(cx: &mut Cx) {
    for n in 1..=cx.n(70, 1100) { cx.case(format!("{n} nodes"), || { eq("next power of two", p::next2(n), n.next_power_of_two())?; Ok(true) }); }
}
//@block c16_norm
pub fn c16_norm(cx: &mut Cx) {
    for _ in 0..cx.n(200, 2000) {
        let (r, c) = (cx.rng.r(1, 4), cx.rng.r(1, 4));
        let v: Vec<Vec<f32>> = (0..r).map(|_| (0..c).map(|_| cx.rng.f(-2.0, 2.0).round()).collect()).collect();
        cx.case(format!("directions {v:?}"), || {
            let exp: Vec<Vec<f32>> = v.iter().map(|x| if x[0] < 0.0 { x.iter().map(|y| -y).collect() } else { x.clone() }).collect();
            eq("normalised", p::norm(&v), exp)?; Ok(true)
        });
    }
}
