use crate::*;
use s2gpp::verif::training::scoring as s;
fn norm(v: &[f32]) -> Vec<f64> {
    let (lo, hi) = v.iter().fold((f64::MAX, f64::MIN), |a, x| (a.0.min(*x as f64), a.1.max(*x as f64)));
    v.iter().map(|x| if hi > lo { (*x as f64 - lo) / (hi - lo) } else { 0.0 }).collect()
}
fn scores(cx: &mut Cx, n: usize) -> Vec<f32> {
    let kind = cx.rng.r(0, 3);
    (0..n).map(|_| match kind { 0 => -(cx.rng.r(0, 3) as f32), 1 => cx.rng.f(-100.0, 0.0), 2 => -1e6 * cx.rng.f(0.0, 1.0), _ => -5.5 }).collect()
}
fn check(raw: &[f32], got: &[f32]) -> Result<(), String> {
    eq("number of scores", got.len(), raw.len())?;
    let e = norm(raw);
    for i in 0..raw.len() {
        if !(got[i] >= 0.0 && got[i] <= 1.0) { return Err(format!("score {i} is {} (raw {})", got[i], raw[i])); }
        if (got[i] as f64 - e[i]).abs() > 1e-5 { return Err(format!("score {i}: got {}, expected {} (raw {})", got[i], e[i], raw[i])); }
        for j in 0..i { if (raw[i] < raw[j] && got[i] > got[j]) || (raw[i] > raw[j] && got[i] < got[j]) { return Err(format!("scores {i} and {j} change order: {} {} -> {} {}", raw[i], raw[j], got[i], got[j])); } }
    }
    Ok(())
}
//@block c10_normalise
pub fn c10_normalise(cx: &mut Cx) {
    for _ in 0..cx.n(1500, 20000) {
        let n = cx.rng.r(1, 30); let v = scores(cx, n);
        cx.case(format!("raw scores {v:?}"), || { check(&v, &s::normalize(&v))?; Ok(n > 1) });
        if !cx.more() { break; }
    }
}
//@block c10_finalise
pub fn c10_finalise(cx: &mut Cx) {
    let dir = std::env::temp_dir().join(format!("s2gpp_verif_{}", std::process::id())); std::fs::create_dir_all(&dir).unwrap();
    let path = dir.join("scores.csv");
    for _ in 0..cx.n(300, 4000) {
        let n = cx.rng.r(1, 5);
        // per node: scores, number of leading windows without edges
        let subs: Vec<(Vec<f32>, usize)> = (0..n).map(|_| { let l = cx.rng.r(1, 8); let e = if cx.rng.b() { 0 } else { cx.rng.r(1, l) }; ((0..l).map(|k| if k < e { 0.0 } else { -(cx.rng.r(1, 90) as f32) }).collect(), e) }).collect();
        cx.case(format!("subscores (leading windows without edges) per node: {subs:?}"), || {
            let (got, lines) = s::finalize(&subs.iter().map(|x| (x.0.clone(), x.1 > 0)).collect::<Vec<_>>(), path.to_str().unwrap());
            let mut raw: Vec<f32> = vec![];
            for (v, e) in &subs { for (k, x) in v.iter().enumerate() { let y = if k < *e { raw.last().copied().unwrap_or(0.0) } else { *x }; raw.push(y); } }
            check(&raw, &got)?;
            eq("lines of the output", lines.len(), got.len())?;
            for i in 0..got.len() { let y: f32 = lines[i].parse().map_err(|_| format!("line {i} is {:?}", lines[i]))?; if y != got[i] { return Err(format!("line {i} of the output is {y}, the score {}", got[i])); } }
            Ok(n > 1)
        });
        if !cx.more() { break; }
    }
    std::fs::remove_dir_all(&dir).ok();
}
