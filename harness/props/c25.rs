use crate::*;
use s2gpp::verif::training as t;
use std::collections::BTreeMap;
type K = (usize, usize);
/// the nodes a point is given in, by segment; the path takes the ones after the gap first
fn path(l: &[(usize, K)]) -> Vec<(usize, K)> {
    for g in 1..l.len() { if (l[g].1).0 != (l[g - 1].1).0 + 1 { let mut v = l[g..].to_vec(); v.extend_from_slice(&l[..g]); return v; } }
    l.to_vec()
}
/// the normalised score of the graph of the path
fn score(nodes: &[(usize, K)], points: usize, q: usize) -> (Vec<f64>, bool) {
    let mut all: Vec<(usize, K)> = vec![];
    for p in 0..points { all.extend(path(&nodes.iter().filter(|n| n.0 == p).cloned().collect::<Vec<_>>())); }
    let edges: Vec<(K, K, usize)> = all.windows(2).map(|w| (w[0].1, w[1].1, w[1].0)).collect();
    let mut weight: BTreeMap<(K, K), usize> = BTreeMap::new(); for e in &edges { *weight.entry((e.0, e.1)).or_insert(0) += 1; }
    let mut degree: BTreeMap<K, usize> = BTreeMap::new(); for e in weight.keys() { *degree.entry(e.0).or_insert(0) += 1; *degree.entry(e.1).or_insert(0) += 1; }
    let eit: Vec<usize> = (0..points - 1).map(|p| edges.iter().filter(|e| e.2 <= p).count()).collect();
    let mut raw: Vec<f64> = vec![];
    for i in 0..eit.len() - (q - 1) {
        let (a, b) = (eit[i], (eit[i + q - 1] + 1).min(edges.len()));
        raw.push(if a >= b { raw.last().copied().unwrap_or(0.0) } else { -edges[a..b].iter().map(|e| (weight[&(e.0, e.1)] * (degree[&e.0] - 1)) as f64).sum::<f64>() / ((b - a) as f64 + 1e-8) });
    }
    let (lo, hi) = raw.iter().fold((f64::MAX, f64::MIN), |a, x| (a.0.min(*x), a.1.max(*x)));
    // a range within the rounding of the scores is not comparable
    (raw.iter().map(|x| if hi > lo { (x - lo) / (hi - lo) } else { 0.0 }).collect(), hi == lo || hi - lo > 1e-3 * lo.abs().max(1.0))
}
//@block c25_graph
pub fn c25_graph(cx: &mut Cx) {
    for round in 0..cx.n(200, 3000) {
        let rate = cx.rng.r(4, 12); let points = cx.rng.r(4, 40); let q = cx.rng.r(1, points - 2); let threads = cx.rng.r(1, 4); let cl = cx.rng.r(0, 2);
        let mut nodes = vec![]; let mut cur = cx.rng.r(0, rate - 1); let idle = cx.rng.r(1, 4);
        for p in (if round % 4 == 0 { cx.rng.r(0, points / 2) } else { 0 })..points - 1 {
            if cx.rng.r(0, idle) == 0 { continue; }
            let k = cx.rng.r(1, (rate / 2).max(1)).min(rate - 1);
            let mut l: Vec<(usize, K)> = (1..=k).map(|i| (p, ((cur + i) % rate, cx.rng.r(0, cl)))).collect();
            cur = (cur + k) % rate; l.sort(); nodes.extend(l);
        }
        cx.case(format!("rate {rate}, {points} points, query length {q}, {threads} threads, nodes of the graph (point, (segment, cluster)) {nodes:?}"), || {
            let (got, ended) = t::from_nodes(&nodes, points, q, threads, rate);
            eq("number of answers to the caller", got.len(), 1)?; eq("the actor ended", ended, true)?;
            let (e, comparable) = score(&nodes, points, q);
            eq("number of scores", got[0].len(), e.len())?;
            if !comparable { return Ok(false); }
            for i in 0..e.len() { if !close(got[0][i] as f64, e[i], 2e-3) { return Err(format!("score {i}: got {}, expected {} (all: got {:?}, expected {e:?})", got[0][i], e[i], got[0])); } }
            Ok(nodes.len() > 3)
        });
        if !cx.more() { break; }
    }
}
//@block c25_cluster
/// the same graph on several nodes has the same score
pub fn c25_cluster(cx: &mut Cx) {
    for _ in 0..cx.n(60, 800) {
        let n = cx.rng.r(2, 4); let rate = cx.rng.r((2 * n).max(4), 14); let q = cx.rng.r(1, 6); let part = q + cx.rng.r(0, 8); let rows = part * n + cx.rng.r(0, n - 1);
        // a pattern takes some rows off the end; the last node keeps enough points for a window
        let points = rows - cx.rng.r(0, (rows - part * (n - 1) - q).min(3)); let threads = cx.rng.r(1, 3); let cl = cx.rng.r(0, 2);
        if points < part * (n - 1) + q + 1 { continue; }
        let mut path = vec![]; let mut cur = cx.rng.r(0, rate - 1); let idle = cx.rng.r(1, 4);
        for p in (if cx.rng.b() { 0 } else { cx.rng.r(0, points / 2) })..points - 1 {
            if cx.rng.r(0, idle) == 0 { continue; }
            // the order of the edges of one transition is not defined across nodes; only at the start of the path would it show
            let k = if path.is_empty() { 1 } else { cx.rng.r(1, rate / 2) };
            for i in 1..=k { path.push((p, ((cur + i) % rate, cx.rng.r(0, cl)))); }
            cur = (cur + k) % rate;
        }
        let order: Vec<usize> = (0..64).map(|_| cx.rng.r(0, 1000)).collect();
        cx.case(format!("{n} nodes, rate {rate}, {rows} rows, {points} points, query length {q}, {threads} threads, path through the graph nodes (point, (segment, cluster)) {path:?}, deliveries {order:?}"), || {
            let mut i = 0; let o = order.clone();
            let got = t::from_nodes_on(n, &path, rows, points, q, threads, rate, move |c| { i += 1; o[i % 64] % c }).ok_or("not every node got to the score")?;
            let mut sorted = path.clone(); sorted.sort();
            let (e, comparable) = score(&sorted, points, q);
            for (k, g) in got.iter().enumerate() {
                eq("answers of a node", g.len(), 1)?;
                eq("number of scores", g[0].len(), e.len())?;
                if !comparable { continue; }
                for i in 0..e.len() { if !close(g[0][i] as f64, e[i], 2e-3) { return Err(format!("node {k}, score {i}: got {}, expected {} (all: got {:?}, expected {e:?})", g[0][i], e[i], g[0])); } }
            }
            Ok(comparable && path.len() > 3)
        });
        if !cx.more() { break; }
    }
}
//@block c25_fit
/// the public function: data in, score out, whatever the number of threads; the file holds the same score
pub fn c25_fit(cx: &mut Cx) {
    let dir = std::env::temp_dir().join(format!("s2gpp_verif_{}", std::process::id())); std::fs::create_dir_all(&dir).unwrap();
    let path = dir.join("scores.csv");
    for round in 0..cx.n(16, 80) {
        let (rows, d) = (cx.rng.r(150, 320), cx.rng.r(1, 3)); let (p, l, q) = (cx.rng.r(12, 20), cx.rng.r(3, 6), cx.rng.r(21, 40));
        let period = cx.rng.f(20.0, 60.0); let noise = cx.rng.f(0.01, 0.2);
        let data: Vec<f32> = (0..rows * d).map(|i| { let (r, c) = ((i / d) as f32, (i % d) as f32); (r * 6.2832 / period + c).sin() * (1.0 + c) + cx.rng.f(-noise, noise) }).collect();
        let threads = cx.rng.r(1, 4); let correct = round % 4 == 3;
        cx.case(format!("{rows} rows of {d} columns (period {period}, noise {noise}), pattern {p}, latent {l}, query {q}, {threads} threads, self-correction {correct}"), || {
            let par = s2gpp::Parameters { pattern_length: p, latent: l, query_length: q, n_threads: threads, self_correction: correct, score_output_path: Some(path.to_str().unwrap().to_string()), ..Default::default() };
            let got = s2gpp::s2gpp(par, Some(ndarray::Array2::from_shape_vec((rows, d), data.clone()).unwrap())).map_err(|e| e.to_string())?.ok_or("no score")?.to_vec();
            if got.is_empty() || got.iter().any(|x| !(*x >= 0.0 && *x <= 1.0)) { return Err(format!("scores {got:?}")); }
            let lines: Vec<f32> = std::fs::read_to_string(&path).unwrap().lines().map(|x| x.parse().unwrap()).collect();
            eq("the file holds the score", lines, got.clone())?;
            eq("number of scores", got.len(), rows - (p - 1) - 1 - (q - 1))?;
            // the same series from a file
            if round % 2 == 0 {
                let text: String = std::iter::once((0..d).map(|c| format!("c{c}")).collect::<Vec<_>>().join(",")).chain(data.chunks(d).map(|r| r.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","))).collect::<Vec<_>>().join("\n");
                let file = dir.join("series.csv"); std::fs::write(&file, text).unwrap(); std::fs::remove_file(&path).unwrap();
                let par = s2gpp::Parameters { role: s2gpp::Role::Main { data_path: Some(file.to_str().unwrap().to_string()) }, column_start: 0, column_end: d as isize, pattern_length: p, latent: l, query_length: q, n_threads: threads, self_correction: correct, score_output_path: Some(path.to_str().unwrap().to_string()), ..Default::default() };
                s2gpp::s2gpp(par, None).map_err(|e| e.to_string())?;
                let lines: Vec<f32> = std::fs::read_to_string(&path).unwrap().lines().map(|x| x.parse().unwrap()).collect();
                eq("number of scores of the series from a file", lines.len(), got.len())?;
                let far = lines.iter().zip(&got).filter(|(a, b)| (*a - *b).abs() > 1e-3).count();
                // threads may add up in another order
                if far * 5 > got.len() { return Err(format!("{far} of {} scores of the same series from a file differ", got.len())); }
            }
            // with self-correction the direction of the series does not matter: neither it nor its reverse is without transitions
            if correct {
                let rev: Vec<f32> = data.chunks(d).rev().flatten().copied().collect();
                let par = s2gpp::Parameters { pattern_length: p, latent: l, query_length: q, n_threads: threads, self_correction: true, ..Default::default() };
                let back = s2gpp::s2gpp(par, Some(ndarray::Array2::from_shape_vec((rows, d), rev).unwrap())).map_err(|e| e.to_string())?.ok_or("no score")?.to_vec();
                eq("number of scores of the reversed series", back.len(), got.len())?;
                for (n, v) in [("series", &got), ("reversed series", &back)] { if v.iter().all(|x| *x == v[0]) { return Err(format!("all scores of the {n} are {}", v[0])); } }
            }
            Ok(true)
        });
        if !cx.more() { break; }
    }
    std::fs::remove_dir_all(&dir).ok();
}
