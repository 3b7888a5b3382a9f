use crate::*;
use s2gpp::verif::data_store::node_questions as nq;
use s2gpp::verif::training::node_estimation as ne;
use std::collections::BTreeMap;
fn owner(s: usize, rate: usize, n: usize) -> usize { (s / (rate / n)).min(n - 1) }
//@block c19_ask
pub fn c19_ask(cx: &mut Cx) {
    for _ in 0..cx.n(20000, 400000) {
        let n = cx.rng.r(2, 5); let rate = cx.rng.r(2 * n, 5 * n + 3); let k = cx.rng.r(1, 4);
        let mut calls = vec![]; let mut exp: BTreeMap<(usize, usize), Vec<(usize, usize, usize, usize)>> = BTreeMap::new();
        let mut add = |prev: (usize, usize), at: (usize, usize)| { let (a, b) = (owner(at.1, rate, n), owner(prev.1, rate, n)); if a != b { let v = exp.entry((a, b)).or_default(); let q = (prev.0, prev.1, at.0, at.1); if v.last() != Some(&q) { v.push(q); } } };
        let mut prev: Option<(usize, usize, usize, usize)> = None; let mut id = cx.rng.r(0, 5);
        for _ in 0..k {
            let s = if cx.rng.b() { match prev { Some(p) => p.3, None => cx.rng.r(0, rate - 1) } } else { cx.rng.r(0, rate - 1) };
            let d = cx.rng.r(1, (rate - 1) / 2); let t = (id, s, id + 1, (s + d) % rate);
            let p = if cx.rng.r(0, 5) == 0 { None } else { prev };
            if let Some(p) = p { if owner(p.3, rate, n) != owner(s, rate, n) || cx.rng.r(0, 4) == 0 { calls.push((t, Some(p), false, 1)); add((p.0, p.3), (t.0, (s + 1) % rate)); } }
            let (f, g) = (owner(s, rate, n), owner(t.3, rate, n));
            if f != g { calls.push((t, p, true, (g + n - f) % n));
                // every segment it enters whose owner is not that of the segment before
                for l in 1..=d { let (b, a) = ((s + l - 1) % rate, (s + l) % rate); if owner(a, rate, n) != owner(b, rate, n) { match p { Some(p) if l == 1 => add((p.0, p.3), (t.0, a)), _ => add((t.0, b), (t.0, a)) } } } }
            prev = Some(t); id += cx.rng.r(1, 3);
        }
        cx.case(format!("{n} nodes, {rate} segments, calls (transition, previous, within, span) {calls:?}"), || { let g = nq::ask(&calls, rate, n); eq("questions (answering, asking)", g, exp.clone())?; Ok(!exp.is_empty()) });
        if !cx.more() { break; }
    }
}
//@block c19_exchange
pub fn c19_exchange(cx: &mut Cx) {
    for round in 0..cx.n(600, 6000) {
        let n = cx.rng.r(1, 4); let rate = cx.rng.r(2 * n, 3 * n + 3); let points = 8; let mut starts = vec![ne::Start::default(); n];
        // most runs: one intersection per segment (no clustering), sometimes several
        let many = round % 8 == 0; let first = if cx.rng.b() { 0 } else { cx.rng.r(0, rate - 1) };
        for s in 0..rate { let k = if many { cx.rng.r(0, 4) } else { cx.rng.r(0, 1) }; for _ in 0..k { let id = cx.rng.r(0, points - 1); let xy = [cx.rng.f(-5.0, 5.0), cx.rng.f(-5.0, 5.0)]; starts[owner(s, rate, n)].cuts.push((id, s, xy)); } }
        let askable: Vec<(usize, usize)> = starts.iter().flat_map(|x| x.cuts.iter().filter(|c| c.1 >= first).map(|c| (c.0, c.1)).collect::<Vec<_>>()).collect();
        let mut used = std::collections::BTreeSet::new();
        if !askable.is_empty() && n > 1 { for _ in 0..cx.rng.r(0, 12) {
            let (id, s) = askable[cx.rng.r(0, askable.len() - 1)]; let a = owner(s, rate, n); let mut b = cx.rng.r(0, n - 2); if b >= a { b += 1; }
            // the point and segment before, on the asking node
            let own: Vec<usize> = (0..rate).filter(|x| owner(*x, rate, n) == b).collect(); let key = (cx.rng.r(0, points - 1), own[cx.rng.r(0, own.len() - 1)]);
            if used.insert(key) { let h = cx.rng.r(0, n - 1); starts[h].questions.push((a, b, [key.0, key.1, id, s])); }
        } }
        let seed = cx.rng.r(0, 1 << 30);
        cx.case(format!("{n} nodes, {rate} segments from {first}, schedule {seed}, {starts:?}"), || {
            let mut g = Rng(seed as u64);
            let got = match ne::exchange(&starts, rate, first, points, move |c| g.r(0, c - 1)) { Some(x) => x, None => return Err("node estimation does not finish on every node".into()) };
            for i in 0..n {
                eq(&format!("node {i} finishes"), got[i].done, 1)?;
                // one node per intersection, by segment and then in their order
                let mut all: Vec<(usize, usize)> = vec![]; for s in first..rate { all.extend(starts[i].cuts.iter().filter(|c| c.1 == s).map(|c| (c.0, c.1))); }
                for p in 0..points { eq(&format!("node {i}: (segment, point) of the nodes of point {p}"), got[i].nodes[p].iter().map(|x| (x.0, x.2)).collect::<Vec<_>>(), all.iter().filter(|x| x.0 == p).map(|x| (x.1, x.0)).collect())?; }
                // labels: numbered from 0 by their first appearance
                for s in first..rate { let ids: Vec<usize> = starts[i].cuts.iter().filter(|c| c.1 == s).map(|c| c.0).collect(); if ids.len() == 1 { eq("label of the only intersection of a segment", got[i].nodes[ids[0]].iter().filter(|x| x.0 == s).map(|x| x.1).collect::<Vec<_>>(), vec![0])?; } }
            }
            for i in 0..n {
                let exp: BTreeMap<(usize, usize), (usize, (usize, usize, usize))> = starts.iter().flat_map(|x| x.questions.iter()).filter(|q| q.1 == i).map(|q| ((q.2[0], q.2[1]), (q.2[2], *got[q.0].nodes[q.2[2]].iter().find(|x| x.0 == q.2[3]).unwrap()))).collect();
                eq(&format!("answers node {i} has"), got[i].next.clone(), exp)?;
            }
            Ok(starts.iter().any(|s| !s.questions.is_empty()))
        });
        if !cx.more() { break; }
    }
}
