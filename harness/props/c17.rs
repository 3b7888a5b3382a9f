use crate::*;
use s2gpp::verif::training::rotation as r;
//@block c17_matrix
pub fn c17_matrix(cx: &mut Cx) {
    for _ in 0..cx.n(600, 20000) {
        let d = cx.rng.r(1, 4); let big = [0.01, 1.0, 100.0][cx.rng.r(0, 2)];
        let refs: Vec<[f32; 3]> = (0..d).map(|_| [cx.rng.f(-3.0, 3.0) * big, cx.rng.f(-3.0, 3.0) * big, cx.rng.f(-3.0, 3.0) * big]).collect();
        cx.case(format!("references {refs:?}"), || {
            let m = r::matrix(&refs); eq("dimensions", m.len(), d)?;
            for k in 0..d {
                let p: Vec<f64> = refs[k].iter().map(|x| *x as f64).collect(); let l = (p[0] * p[0] + p[1] * p[1] + p[2] * p[2]).sqrt();
                if (p[0] * p[0] + p[1] * p[1]).sqrt() < 0.1 * l || l < 1e-3 { continue; }
                for i in 0..3 { for j in 0..3 { let s: f64 = (0..3).map(|q| m[k][q][i] as f64 * m[k][q][j] as f64).sum(); if !((s - if i == j { 1.0 } else { 0.0 }).abs() < 2e-3) { return Err(format!("matrix {k} is not a rotation: {:?}", m[k])); } } }
                for i in 0..3 { let s: f64 = (0..3).map(|q| m[k][i][q] as f64 * p[q]).sum(); if !((s - if i == 2 { l } else { 0.0 }).abs() < 2e-3 * l) { return Err(format!("matrix {k} = {:?} takes {p:?} to {s} in coordinate {i}, not to the z axis", m[k])); } }
                let det: f64 = (0..3).map(|i| { let e = |a: usize, b: usize| m[k][a][b] as f64; e(0, i) * (e(1, (i + 1) % 3) * e(2, (i + 2) % 3) - e(1, (i + 2) % 3) * e(2, (i + 1) % 3)) }).sum();
                if !((det - 1.0).abs() < 5e-3) { return Err(format!("matrix {k} mirrors (determinant {det}): {:?}", m[k])); }
            }
            Ok(true)
        });
        if !cx.more() { break; }
    }
}
/// eigenvalues, largest first, with their directions (rows)
pub fn eigv(mut a: Vec<Vec<f64>>) -> Vec<(f64, Vec<f64>)> {
    let d = a.len(); let mut v: Vec<Vec<f64>> = (0..d).map(|i| (0..d).map(|j| if i == j { 1.0 } else { 0.0 }).collect()).collect();
    for _ in 0..60 { for i in 0..d { for j in i + 1..d {
        if a[i][j].abs() < 1e-300 { continue; }
        let th = (a[j][j] - a[i][i]) / (2.0 * a[i][j]); let t = (if th >= 0.0 { 1.0 } else { -1.0 }) / (th.abs() + (th * th + 1.0).sqrt()); let c = 1.0 / (t * t + 1.0).sqrt(); let s = t * c;
        for k in 0..d { let (x, y) = (a[k][i], a[k][j]); a[k][i] = c * x - s * y; a[k][j] = s * x + c * y; }
        for k in 0..d { let (x, y) = (a[i][k], a[j][k]); a[i][k] = c * x - s * y; a[j][k] = s * x + c * y; }
        for k in 0..d { let (x, y) = (v[i][k], v[j][k]); v[i][k] = c * x - s * y; v[j][k] = s * x + c * y; }
    } } }
    let mut e: Vec<(f64, Vec<f64>)> = (0..d).map(|i| (a[i][i], v[i].clone())).collect(); e.sort_by(|x, y| y.0.partial_cmp(&x.0).unwrap()); e
}
//@block c17_stage
pub fn c17_stage(cx: &mut Cx) {
    for _ in 0..cx.n(250, 4000) {
        let n = cx.rng.r(2, 4); let w = cx.rng.r(3, 5); let dims = cx.rng.r(1, 3); let far = cx.rng.b();
        // row r, window position j, dimension k
        let mut gen = |rows: usize, i: usize, g: &mut Rng| -> Vec<f32> { let mut o = vec![0.0; rows * w * dims]; for r in 0..rows { for k in 0..dims { let u: Vec<f32> = (0..w).map(|j| g.f(-1.0, 1.0) * 5.0 / (1.0 + j as f32 * 1.4) + if far { 2.0 * i as f32 * (if j == k % 2 { 1.0 } else { 0.3 }) } else { 0.0 }).collect(); for j in 0..w { o[(r * w + j) * dims + k] = u[j] + (0.3 + 0.3 * k as f32) * u[(j + 1) % w]; } } } o };
        let parts: Vec<Vec<f32>> = (0..n).map(|i| { let m = cx.rng.r(3, 6); gen(m, i, &mut cx.rng) }).collect();
        let rows = cx.rng.r(1, 3); let refs: Vec<f32> = gen(rows, 3, &mut cx.rng).iter().map(|x| x * 1.5 + 2.0).collect(); let seed = cx.rng.r(0, 1 << 30);
        cx.case(format!("{n} nodes, window {w}, {dims} dimensions, schedule {seed}, reference {refs:?}, parts {parts:?}"), || {
            let mut g = Rng(seed as u64);
            let got = match r::stage(&parts, w, dims, &refs, move |c| g.r(0, c - 1)) { Some(x) => x, None => return Err("the stage does not finish on every node".into()) };
            for i in 1..n { eq(&format!("matrices sent to node {i}"), got[i].matrices, 1)?; }
            for i in 0..n { eq(&format!("points of node {i}"), (got[i].points.len(), got[i].num), (parts[i].len() / w / dims, Some(parts[i].len() / w / dims)))?; }
            for k in 0..dims {
                let all: Vec<Vec<f64>> = parts.iter().flat_map(|p| p.chunks(w * dims).map(|r| (0..w).map(|j| r[j * dims + k] as f64).collect()).collect::<Vec<Vec<f64>>>()).collect();
                let m: Vec<f64> = (0..w).map(|j| all.iter().map(|r| r[j]).sum::<f64>() / all.len() as f64).collect();
                let e = eigv((0..w).map(|i| (0..w).map(|j| all.iter().map(|r| (r[i] - m[i]) * (r[j] - m[j])).sum()).collect()).collect());
                // only where the directions and their signs are well determined
                if (0..3).any(|a| e[a].1[0].abs() < 0.05 || (a + 1 < w && e[a].0 - e[a + 1].0 < 0.08 * e[0].0)) { continue; }
                let dirs: Vec<Vec<f64>> = (0..3).map(|a| e[a].1.iter().map(|x| x * e[a].1[0].signum()).collect()).collect();
                let proj = |r: &[f64]| -> Vec<f64> { (0..3).map(|a| (0..w).map(|j| (r[j] - m[j]) * dirs[a][j]).sum()).collect() };
                let p = proj(&(0..w).map(|j| refs[j * dims + k] as f64).collect::<Vec<_>>()); let l = (p[0] * p[0] + p[1] * p[1] + p[2] * p[2]).sqrt();
                let (x, y, z) = (p[0] / l, p[1] / l, p[2] / l); if l < 0.3 || x * x + y * y < 0.05 { continue; }
                let f = (1.0 - z) / (x * x + y * y);
                let mut at = 0;
                for i in 0..n { for q in 0..got[i].points.len() {
                    let c = proj(&all[at]); at += 1;
                    let exp = [c[0] * (1.0 - x * x * f) - c[1] * x * y * f - c[2] * x, -c[0] * x * y * f + c[1] * (1.0 - y * y * f) - c[2] * y];
                    let size = c.iter().fold(1.0f64, |a, b| a.max(b.abs()));
                    for b in 0..2 { let v = got[i].points[q][b * dims + k] as f64; if !((v - exp[b]).abs() < 0.03 * size) { return Err(format!("node {i}, point {q}, dimension {k}, coordinate {b}: {v}, expected {}", exp[b])); } }
                } }
            }
            Ok(true)
        });
        if !cx.more() { break; }
    }
}
