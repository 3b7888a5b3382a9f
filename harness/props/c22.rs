use crate::*;
use s2gpp::verif::training::node_estimation::{multi_kde as k, multi_kde_actors as a};
/// the Gaussian kernel estimate (Scott's rule) of the values on the grid of 20% more than their range; None: no spread
fn kde(v: &[f32], res: usize) -> (Vec<f64>, Option<Vec<f64>>) {
    let v: Vec<f64> = v.iter().map(|x| *x as f64).collect(); let n = v.len() as f64; let m = v.iter().sum::<f64>() / n;
    let (lo, hi) = v.iter().fold((f64::MAX, f64::MIN), |a, x| (a.0.min(*x), a.1.max(*x))); let p = (hi - lo) * 0.1;
    let grid: Vec<f64> = (0..res).map(|i| lo - p + (hi - lo + 2.0 * p) * i as f64 / (res - 1) as f64).collect();
    if lo == hi { return (grid, None); }
    let h2 = v.iter().map(|x| (x - m) * (x - m)).sum::<f64>() / (n - 1.0) * n.powf(-0.2).powi(2);
    let e = grid.iter().map(|g| v.iter().map(|x| (-(x - g) * (x - g) / 2.0 / h2).exp()).sum::<f64>() / n / (2.0 * std::f64::consts::PI * h2).sqrt()).collect();
    (grid, Some(e))
}
/// so little spread that rounding counts
fn close(v: &[f32]) -> bool { let (lo, hi) = v.iter().fold((f32::MAX, f32::MIN), |a, x| (a.0.min(*x), a.1.max(*x))); lo != hi && hi - lo < 0.1 }
fn column(n: usize, g: &mut Rng) -> Vec<f32> { let modes = g.r(1, 3); let c: Vec<f32> = (0..modes).map(|_| g.f(-6.0, 6.0)).collect(); let w = g.f(0.1, 1.5); match g.r(0, 9) { 0 => vec![g.f(-6.0, 6.0); n], 1 => vec![0.5; n], _ => (0..n).map(|_| c[g.r(0, modes - 1)] + g.f(-1.0, 1.0) * w).collect() } }
//@block c22_parts
pub fn c22_parts(cx: &mut Cx) {
    for _ in 0..cx.n(20000, 300000) {
        let n = cx.rng.r(3, 12); let order = cx.rng.r(1, 2); let e: Vec<f32> = (0..n).map(|_| cx.rng.r(0, 3) as f32).collect();
        let (lo, hi) = (cx.rng.f(-3.0, 0.0), cx.rng.f(0.0, 4.0));
        cx.case(format!("estimate {e:?}, order {order}, values {lo} to {hi}"), || {
            let exp: Vec<usize> = (0..n).filter(|i| (1..=order).all(|s| e[*i] > e[(i + s).min(n - 1)] && e[*i] > e[i.saturating_sub(s)])).collect();
            eq("peaks", k::peak_index(&e, order), exp.clone())?;
            let v = k::peak_values(&e, order, lo, hi); let p = (hi - lo) as f64 * 0.1;
            eq("number of peak values", v.len(), exp.len())?;
            for (x, i) in v.iter().zip(exp.iter()) { let w = lo as f64 - p + ((hi - lo) as f64 + 2.0 * p) * *i as f64 / (n - 1) as f64; if (*x as f64 - w).abs() > 1e-4 { return Err(format!("value of the peak at {i}: {x}, expected {w}")); } }
            Ok(!exp.is_empty())
        });
        if !cx.more() { break; }
    }
    for _ in 0..cx.n(20000, 300000) {
        let n = cx.rng.r(1, 10); let m = cx.rng.r(1, 5); let p: Vec<f32> = (0..n).map(|_| cx.rng.r(0, 40) as f32 * 0.25 - 5.0).collect(); let q: Vec<f32> = (0..m).map(|_| cx.rng.r(0, 10) as f32 - 5.0).collect();
        cx.case(format!("values {p:?}, peaks {q:?}"), || { let exp: Vec<f32> = p.iter().map(|x| { let mut b = q[0]; for y in q.iter() { if (y - x).abs() < (b - x).abs() { b = *y; } } b }).collect(); eq("closest peaks", k::assign(&p, &q), exp)?; Ok(m > 1) });
        let d = cx.rng.r(1, 3); let rows: Vec<Vec<f32>> = (0..n).map(|_| (0..d).map(|_| [0.0f32, 0.003, -1.5, 2.0, 1e-4][cx.rng.r(0, 4)]).collect()).collect();
        cx.case(format!("peaks per row {rows:?}"), || { let mut c: Vec<Vec<f32>> = vec![]; let exp: Vec<usize> = rows.iter().map(|r| match c.iter().position(|x| x == r) { Some(i) => i, None => { c.push(r.clone()); c.len() - 1 } }).collect(); let (l, g) = k::labels(&rows); eq("labels", l, exp)?; eq("centers", g, c)?; Ok(n > 1) });
        if !cx.more() { break; }
    }
}
//@block c22_estimate
pub fn c22_estimate(cx: &mut Cx) {
    for _ in 0..cx.n(3000, 40000) {
        let t = cx.rng.r(1, 5); let res = [30, 100, 250][cx.rng.r(0, 2)]; let cols: Vec<Vec<f32>> = (0..cx.rng.r(1, 3)).map(|_| { let n = cx.rng.r(2, 14); column(n, &mut cx.rng) }).collect();
        cx.case(format!("{t} threads, resolution {res}, columns {cols:?}"), || {
            let got = a::estimates(&cols, t, res);
            eq("number of estimates", got.len(), cols.len())?;
            for (g, c) in got.iter().zip(cols.iter()) { eq("length", g.len(), res)?; if close(c) { continue; }
                match kde(c, res).1 { Some(e) => { let top = e.iter().cloned().fold(0.0, f64::max); for i in 0..res { if !((g[i] as f64 - e[i]).abs() <= 2e-3 * top) { return Err(format!("estimate of {c:?} at {i}: {}, expected {}", g[i], e[i])); } } }
                    None => if g.iter().any(|x| *x != g[0]) { return Err(format!("estimate of {c:?} has peaks: {g:?}")); } } }
            Ok(true)
        });
        if !cx.more() { break; }
    }
}
//@block c22_cluster
pub fn c22_cluster(cx: &mut Cx) {
    for _ in 0..cx.n(3000, 40000) {
        let t = cx.rng.r(1, 5); let n = cx.rng.r(2, 14); let d = cx.rng.r(1, 4); let cols: Vec<Vec<f32>> = (0..d).map(|_| column(n, &mut cx.rng)).collect();
        let rows: Vec<Vec<f32>> = (0..n).map(|i| cols.iter().map(|c| c[i]).collect()).collect();
        cx.case(format!("{t} threads, rows {rows:?}"), || {
            let got = a::cluster(&rows, t);
            eq("number of answers", got.len(), 1)?; let (l, c) = &got[0];
            eq("labels given", l.len(), n)?;
            // peaks per row; only where rounding cannot move a peak or an assignment
            let mut peaks = vec![vec![0.0f64; d]; n];
            for j in 0..d { if close(&cols[j]) { return Ok(false); } let (grid, e) = kde(&cols[j], 250); let e = match e { Some(e) => e, None => continue };
                if e.windows(2).any(|w| (w[0] - w[1]).abs() < 3e-5 * w[0].max(w[1])) { return Ok(false); }
                let p: Vec<f64> = (1..249).filter(|i| e[*i] > e[i - 1] && e[*i] > e[i + 1]).map(|i| grid[i]).collect();
                if p.is_empty() { continue; }
                for i in 0..n { let mut ds: Vec<(f64, f64)> = p.iter().map(|x| ((x - cols[j][i] as f64).abs(), *x)).collect(); ds.sort_by(|a, b| a.0.partial_cmp(&b.0).unwrap()); if ds.len() > 1 && ds[1].0 - ds[0].0 < 1e-3 { return Ok(false); } peaks[i][j] = ds[0].1; } }
            let mut cs: Vec<Vec<f64>> = vec![]; let exp: Vec<usize> = peaks.iter().map(|r| match cs.iter().position(|x| x == r) { Some(i) => i, None => { cs.push(r.clone()); cs.len() - 1 } }).collect();
            eq("labels", l.clone(), exp)?; eq("number of centers", c.len(), cs.len())?;
            for (x, y) in c.iter().zip(cs.iter()) { for j in 0..d { if (x[j] as f64 - y[j]).abs() > 1e-3 { return Err(format!("center {x:?}, expected {y:?}")); } } }
            Ok(true)
        });
        if !cx.more() { break; }
    }
}
