use crate::*;
use s2gpp::verif::data_manager as d;
use crate::files::*;
fn near(name: &str, a: &[f32], b: &[f64], tol: f64) -> Result<(), String> {
    eq(&format!("{name}: length"), a.len(), b.len())?;
    for c in 0..a.len() { if !((a[c] as f64 - b[c]).abs() <= tol * (1.0 + b[c].abs())) { return Err(format!("{name} of column {c} is {}, expected {}", a[c], b[c])); } }
    Ok(())
}
fn stats(rows: &[Vec<f32>]) -> (Vec<f64>, Vec<f64>, Vec<f64>) {
    let n = rows.len() as f64; let d = rows[0].len(); let col = |c: usize| rows.iter().map(move |r| r[c] as f64);
    ((0..d).map(|c| col(c).fold(f64::MAX, f64::min)).collect(), (0..d).map(|c| col(c).fold(f64::MIN, f64::max)).collect(),
     (0..d).map(|c| { let m = col(c).sum::<f64>() / n; (col(c).map(|x| (x - m) * (x - m)).sum::<f64>() / (n - 1.0)).sqrt() }).collect())
}
fn lines(min: &[f64], max: &[f64], width: usize, latent: usize) -> Vec<Vec<Vec<f32>>> { (0..100).map(|i| vec![(0..min.len()).map(|c| (latent as f64 * (min[c] + i as f64 * (max[c] - min[c]) / 99.0)) as f32).collect(); width]).collect() }
fn check(who: &str, l: &d::Loaded, rows: &[Vec<f32>], pattern: usize, latent: usize) -> Result<(), String> {
    let (min, max, std) = stats(rows);
    near(&format!("{who}: minimum"), &l.min, &min, 1e-6)?; near(&format!("{who}: maximum"), &l.max, &max, 1e-6)?; near(&format!("{who}: standard deviation"), &l.std, &std, 2e-3)?;
    eq(&format!("{who}: number of rows"), l.n, rows.len())?;
    close3(&format!("{who}: reference"), &l.reference, &lines(&min, &max, pattern - latent, latent))
}
//@block c21_load
pub fn c21_load(cx: &mut Cx) {
    for k in 0..cx.n(300, 5000) {
        let mut c = case(&mut cx.rng, if k % 3 == 0 { 5 } else { 40 });
        if c.rows.len() < 2 { continue; }
        // a far away row in one place: each node's rows differ
        if k % 2 == 0 { let i = cx.rng.r(0, c.rows.len() - 1); let j = cx.rng.r(0, c.rows[0].len() - 1); c.rows[i][j] = if cx.rng.b() { 500.0 } else { -500.0 }; let r = c.rows.clone(); c.text = csv(&mut cx.rng, &r, c.before, c.after, false); }
        cx.case(c.desc(), || { let l = c.load()?; for (i, x) in l.iter().enumerate() { check(&format!("node {i}"), x, &c.rows, c.pattern, c.latent)?; } Ok(c.n > 1) });
        if !cx.more() { break; }
    }
}
//@block c21_array
pub fn c21_array(cx: &mut Cx) {
    for _ in 0..cx.n(60, 1000) {
        let pattern = cx.rng.r(2, 10); let latent = cx.rng.r(1, pattern - 1); let m = cx.rng.r(pattern.max(2), pattern + 30); let w = cx.rng.r(1, 4);
        let r = rows(&mut cx.rng, m, w); let f = cx.rng.b();
        cx.case(format!("array (column-major: {f}) {r:?}, pattern length {pattern}, latent {latent}"), || { let l = d::load_array(&r, f, d::Conf { n: 1, pattern, latent, threads: 2, col_start: 0, col_end: 0 }); eq("times the data came", l.len(), 1)?; check("node 0", &l[0], &r, pattern, latent)?; Ok(true) });
        if !cx.more() { break; }
    }
}
//@block c21_ref
pub fn c21_ref(cx: &mut Cx) {
    for _ in 0..cx.n(200, 3000) {
        let pattern = cx.rng.r(2, 20); let latent = cx.rng.r(1, pattern - 1); let w = cx.rng.r(1, 5);
        let a = rows(&mut cx.rng, 2, w); let min: Vec<f32> = (0..w).map(|c| a[0][c].min(a[1][c])).collect(); let max: Vec<f32> = (0..w).map(|c| a[0][c].max(a[1][c])).collect();
        cx.case(format!("minima {min:?}, maxima {max:?}, pattern length {pattern}, latent {latent}"), || { let f = |v: &[f32]| v.iter().map(|x| *x as f64).collect::<Vec<_>>(); close3("reference", &d::reference(&min, &max, pattern, latent), &lines(&f(&min), &f(&max), pattern - latent, latent))?; Ok(true) });
        if !cx.more() { break; }
    }
}
