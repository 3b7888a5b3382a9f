use crate::*;
use s2gpp::verif::training::scoring as s;
use s2gpp::verif::training::anomaly_contribution as ac;
type K = (usize, usize);
type Seg = (usize, Vec<(Vec<f32>, usize)>);
/// per cluster and dimension: 1 - share of the intersections in clusters with the same coordinate of the center
fn unique(cs: &[(Vec<f32>, usize)]) -> Vec<Vec<f64>> {
    let all: usize = cs.iter().map(|c| c.1).sum();
    cs.iter().map(|c| (0..c.0.len()).map(|d| 1.0 - cs.iter().filter(|o| o.0[d] == c.0[d]).map(|o| o.1).sum::<usize>() as f64 / all as f64).collect()).collect()
}
fn segments(cx: &mut Cx, dims: usize) -> Vec<Seg> {
    let n = cx.rng.r(1, 4); let few = cx.rng.b();
    (0..n).map(|i| { let k = cx.rng.r(1, 5); (i * 7 + 3, (0..k).map(|_| ((0..dims).map(|_| if few { cx.rng.r(0, 2) as f32 * 0.5 } else { cx.rng.f(-3.0, 3.0) }).collect(), cx.rng.r(1, 20))).collect()) }).collect()
}
fn window(segs: &[Seg], dims: usize, nodes: &[K]) -> Vec<f64> {
    let mut v = vec![0.0; dims];
    for (sg, c) in nodes { let u = unique(&segs.iter().find(|x| x.0 == *sg).unwrap().1); for d in 0..dims { v[d] += u[*c][d] / nodes.len() as f64; } }
    v
}
fn some_node(cx: &mut Cx, segs: &[Seg]) -> K { let i = cx.rng.r(0, segs.len() - 1); (segs[i].0, cx.rng.r(0, segs[i].1.len() - 1)) }
//@block c24_nodes
pub fn c24_nodes(cx: &mut Cx) {
    for _ in 0..cx.n(300, 4000) {
        let dims = cx.rng.r(1, 4); let segs = segments(cx, dims);
        let nr = cx.rng.r(1, 2);
        let rounds: Vec<Vec<Vec<K>>> = (0..nr).map(|_| (0..cx.rng.r(1, 6)).map(|_| (0..cx.rng.r(0, 5)).map(|_| some_node(cx, &segs)).collect()).collect()).collect();
        cx.case(format!("centers with their numbers of intersections per segment {segs:?}, the nodes of the windows {rounds:?}"), || {
            let got = ac::ask(&segs, &rounds);
            eq("number of answers", got.len(), rounds.len())?;
            for (g, r) in got.iter().zip(&rounds) {
                eq("number of windows", g.len(), r.len())?;
                for (i, w) in r.iter().enumerate() {
                    let e = window(&segs, dims, w);
                    eq("dimensions of a window", g[i].len(), dims)?;
                    for d in 0..dims { if !close(g[i][d] as f64, e[d], 1e-4) { return Err(format!("window {i} (nodes {w:?}) dimension {d}: got {}, expected {}", g[i][d], e[d])); } }
                }
            }
            Ok(dims > 1)
        });
        if !cx.more() { break; }
    }
    // no node at all
    cx.case("no centers, three windows without nodes".to_string(), || { let got = ac::ask(&[], &[vec![vec![], vec![], vec![]]]); eq("number of answers", got.len(), 1)?; eq("number of windows", got[0].len(), 3)?; for w in &got[0] { if w.iter().any(|x| *x != 0.0) { return Err(format!("a window without nodes is {w:?}")); } } Ok(true) });
}
fn dir() -> std::path::PathBuf { let d = std::env::temp_dir().join(format!("s2gpp_verif_{}", std::process::id())); std::fs::create_dir_all(&d).unwrap(); d }
fn parse(lines: &[String]) -> Result<Vec<Vec<f64>>, String> { lines.iter().enumerate().map(|(i, l)| l.split(',').filter(|x| !x.is_empty() && *x != "\"\"").map(|x| x.parse().map_err(|_| format!("line {i} is {l:?}"))).collect()).collect() }
fn fill(c: &[Vec<f64>]) -> Vec<Vec<f64>> {
    let mut last: Option<Vec<f64>> = None;
    c.iter().map(|x| { if x.iter().sum::<f64>() == 0.0 { last.clone().unwrap_or_else(|| x.clone()) } else { last = Some(x.clone()); x.clone() } }).collect()
}
/// the middle one of the values as they are ordered to 1/80
fn median(v: &[f64]) -> f64 { let mut v = v.to_vec(); v.sort_by_key(|x| (*x * 80.0).trunc() as i64); v[v.len() / 2] }
//@block c24_file
pub fn c24_file(cx: &mut Cx) {
    let d = dir(); let path = d.join("contribution.csv");
    for _ in 0..cx.n(400, 5000) {
        let (n, dims) = (cx.rng.r(1, 9), cx.rng.r(1, 4)); let lead = if cx.rng.b() { cx.rng.r(0, n) } else { 0 }; let wide = cx.rng.b();
        // multiples of 1/64: no rounding, and no two of them fall together to 1/80
        let c: Vec<Vec<f32>> = (0..n).map(|i| if i < lead || cx.rng.r(0, 3) == 0 { vec![0.0; dims] } else { (0..dims).map(|_| if wide { cx.rng.r(0, 64) } else { cx.rng.r(0, 2) } as f32 / 64.0).collect() }).collect();
        cx.case(format!("contributions of the windows {c:?}"), || {
            let got = parse(&s::explain_file(&c, path.to_str().unwrap()))?;
            eq("number of lines", got.len(), n)?;
            let c: Vec<Vec<f64>> = c.iter().map(|x| x.iter().map(|y| *y as f64).collect()).collect();
            let mut y = fill(&c);
            for k in 0..dims { let m = median(&y.iter().map(|x| x[k]).collect::<Vec<_>>()); for x in y.iter_mut() { x[k] -= m; } }
            for i in 0..n {
                let e = if i > 0 && y[i].iter().sum::<f64>() == 0.0 { y[i - 1].clone() } else { y[i].clone() };
                if e != got[i] { return Err(format!("line {i}: got {:?}, expected {e:?}", got[i])); }
                y[i] = e;
            }
            Ok(n > 1)
        });
        if !cx.more() { break; }
    }
    std::fs::remove_dir_all(&d).ok();
}
//@block c24_windows
pub fn c24_windows(cx: &mut Cx) {
    let d = dir(); let path = d.join("windows.csv");
    for round in 0..cx.n(250, 3000) {
        let dims = cx.rng.r(1, 3); let segs = segments(cx, dims); let q = cx.rng.r(1, 4);
        // the points and the edges that lead to them; points without an edge in between
        let rows = q + cx.rng.r(0, 12); let ne = if round % 20 == 0 { 0 } else { cx.rng.r(0, 14) };
        let mut ids: Vec<usize> = (0..ne).map(|_| cx.rng.r(1, rows)).collect(); ids.sort();
        if round % 3 == 0 { for i in ids.iter_mut() { *i = (*i).max(rows / 2 + 1); } }
        let edges: Vec<(K, K, usize)> = ids.iter().map(|i| (some_node(cx, &segs), some_node(cx, &segs), *i)).collect();
        let eit: Vec<usize> = (1..=rows).map(|p| ids.iter().filter(|i| **i <= p).count()).collect();
        let segs = if ne == 0 && cx.rng.b() { vec![] } else { segs };
        cx.case(format!("centers with their numbers of intersections per segment {segs:?}, edges {edges:?}, edges up to each point {eit:?}, query length {q}"), || {
            let lines = s::explain(&segs, &edges, &eit, q, path.to_str().unwrap());
            let n = rows - (q - 1);
            if segs.is_empty() { eq("number of lines", lines.len(), n)?; return Ok(false); }
            let got = parse(&lines)?;
            eq("number of lines", got.len(), n)?;
            let c: Vec<Vec<f64>> = (0..n).map(|i| { let w: Vec<K> = edges[eit[i].min(ne)..(eit[i + q - 1] + 1).min(ne).max(eit[i].min(ne))].iter().map(|e| e.0).collect(); let v = window(&segs, dims, &w); if v.iter().all(|x| x.abs() < 1e-12) { vec![0.0; dims] } else { v } }).collect();
            let f = fill(&c);
            let med: Vec<f64> = (0..dims).map(|k| median(&f.iter().map(|x| x[k]).collect::<Vec<_>>())).collect();
            // rounding may exchange values that agree to 1/80: the subtracted value is one of those, the same in all rows
            let mut sub: Option<Vec<f64>> = None;
            for i in 0..n {
                let y: Vec<f64> = (0..dims).map(|k| f[i][k] - med[k]).collect();
                let near = |a: &[f64], b: &[f64], t: f64| a.len() == b.len() && a.iter().zip(b).all(|(p, q)| (p - q).abs() <= t);
                if i > 0 && y.iter().sum::<f64>().abs() < 0.08 && near(&got[i], &got[i - 1], 0.0) { continue; }
                if !near(&got[i], &y, 0.03) { return Err(format!("line {i}: got {:?}, expected {y:?} (windows {c:?})", got[i])); }
                let m: Vec<f64> = (0..dims).map(|k| f[i][k] - got[i][k]).collect();
                match &sub { None => sub = Some(m), Some(s) => if !near(s, &m, 1e-4) { return Err(format!("line {i}: {m:?} subtracted, {s:?} before (windows {c:?})")); } }
            }
            Ok(n > 1 && ne > 1)
        });
        if !cx.more() { break; }
    }
    std::fs::remove_dir_all(&d).ok();
}
//@block c24_labels
/// the share of a cluster is that of the intersections with its label
pub fn c24_labels(cx: &mut Cx) {
    use s2gpp::verif::training::node_estimation as ne;
    for _ in 0..cx.n(200, 3000) {
        let dims = cx.rng.r(1, 3); let n = cx.rng.r(1, 3);
        let segs: Vec<(usize, Vec<usize>, Vec<Vec<f32>>)> = (0..n).map(|i| {
            let k = cx.rng.r(1, 4); let mut l: Vec<usize> = (0..k).chain((0..cx.rng.r(0, 8)).map(|_| cx.rng.r(0, k - 1))).collect(); cx.rng.shuffle(&mut l);
            (i * 5 + 2, l, (0..k).map(|_| (0..dims).map(|_| cx.rng.r(0, 2) as f32 * 0.5).collect()).collect()) }).collect();
        let windows: Vec<Vec<K>> = segs.iter().flat_map(|s| (0..s.2.len()).map(move |c| vec![(s.0, c)])).collect();
        cx.case(format!("segments (number, labels of its intersections, centers) {segs:?}"), || {
            let got = ne::centers(&segs, &windows);
            eq("number of answers", got.len(), 1)?; eq("number of windows", got[0].len(), windows.len())?;
            let with: Vec<Seg> = segs.iter().map(|s| (s.0, s.2.iter().enumerate().map(|(c, x)| (x.clone(), s.1.iter().filter(|l| **l == c).count())).collect())).collect();
            for (i, w) in windows.iter().enumerate() { let e = window(&with, dims, w); for d in 0..dims { if !close(got[0][i][d] as f64, e[d], 1e-4) { return Err(format!("node {w:?} dimension {d}: got {}, expected {}", got[0][i][d], e[d])); } } }
            Ok(n > 1)
        });
        if !cx.more() { break; }
    }
}
