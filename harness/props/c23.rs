use crate::*;
use crate::c04::{adv, pt, meet, In};
use s2gpp::verif::training::intersection_calculation as ic;
use std::collections::BTreeMap;
type M = BTreeMap<usize, Vec<usize>>;
fn owner(s: usize, rate: usize, n: usize) -> usize { (s / (rate / n)).min(n - 1) }
fn put(own: &mut M, kept: &mut M, s: usize, ids: &[usize], rate: usize, n: usize, me: usize) { if ids.is_empty() { return; } if owner(s, rate, n) == me { own } else { kept }.entry(s).or_default().extend(ids); }
fn v(m: &M) -> Vec<(usize, Vec<usize>)> { m.iter().map(|(k, v)| (*k, v.clone())).collect() }
//@block c23_assign
pub fn c23_assign(cx: &mut Cx) {
    for _ in 0..cx.n(3000, 40000) {
        let n = cx.rng.r(1, 5); let rate = cx.rng.r(n, 4 * n + 3); let me = cx.rng.r(0, n - 1); let k = cx.rng.r(0, 12);
        let rs: Vec<(usize, usize)> = (0..k).map(|_| (cx.rng.r(0, 6), cx.rng.r(0, rate - 1))).collect();
        cx.case(format!("node {me} of {n}, {rate} segments, (point, segment) {rs:?}"), || {
            let (mut a, mut b) = (M::new(), M::new()); for (id, s) in &rs { put(&mut a, &mut b, *s, &[*id], rate, n, me); }
            let (x, y) = ic::assign(rate, n, me, &rs); eq("own intersections by segment", x, v(&a))?; eq("kept for others", y, v(&b))?; Ok(!rs.is_empty())
        });
        if !cx.more() { break; }
    }
}
//@block c23_receive
pub fn c23_receive(cx: &mut Cx) {
    for _ in 0..cx.n(1500, 20000) {
        let n = cx.rng.r(2, 5); let rate = cx.rng.r(n, 4 * n + 3); let me = cx.rng.r(0, n - 1); let k = cx.rng.r(0, n - 1); let started = cx.rng.r(0, 3) > 0;
        let own: Vec<usize> = (0..rate).filter(|s| owner(*s, rate, n) == me).collect();
        let msgs: Vec<Vec<(usize, Vec<usize>)>> = (0..k).map(|_| { let mut m = M::new(); for _ in 0..cx.rng.r(0, 3) { let s = own[cx.rng.r(0, own.len() - 1)]; m.insert(s, (0..cx.rng.r(1, 3)).map(|_| cx.rng.r(0, 6)).collect()); } v(&m) }).collect();
        cx.case(format!("node {me} of {n}, {rate} segments, started {started}, messages {msgs:?}"), || {
            let (mut a, mut b) = (M::new(), M::new()); if started { for m in &msgs { for (s, ids) in m { put(&mut a, &mut b, *s, ids, rate, n, me); } } }
            let (x, y, run) = ic::receive(rate, n, me, &msgs, started);
            eq("own intersections by segment", x, v(&a))?; eq("kept for others", y, v(&b))?; eq("still running", run, started && k < n - 1)?; Ok(started && k > 0)
        });
        if !cx.more() { break; }
    }
}
//@block c23_exchange
pub fn c23_exchange(cx: &mut Cx) {
    for _ in 0..cx.n(200, 3000) {
        let n = cx.rng.r(1, 4); let rate = cx.rng.r((3 * n).max(6), 8 * n + 8); let dims = [2, 4][cx.rng.r(0, 1)]; let mut id = 0;
        let starts: Vec<Vec<In>> = (0..n).map(|_| (0..if cx.rng.r(0, 4) == 0 { 0 } else { cx.rng.r(1, 6) }).map(|_| { let a = cx.rng.r(0, rate - 1); let b = (a + cx.rng.r(1, (rate / 2 - 1).min(9))) % rate; id += 2; let (p, q) = (pt(cx, rate, a, dims), pt(cx, rate, b, dims)); (id - 2, a, p, id - 1, b, q) }).collect()).collect();
        let seed = cx.rng.r(0, 1 << 30);
        cx.case(format!("{n} nodes, {rate} segments, schedule {seed}, transitions per node {starts:?}"), || {
            let mut g = Rng(seed as u64);
            let got = match ic::exchange(rate, id.max(1), &starts, move |c| g.r(0, c - 1)) { Some(x) => x, None => return Err("a node died".into()) };
            let mut exp: Vec<Vec<(usize, usize)>> = vec![vec![]; n]; let mut all = 0;
            for t in starts.iter().flatten() { for l in 1..=adv(rate, t.1, t.4) { let s = (t.1 + l) % rate; exp[owner(s, rate, n)].push((t.0, s)); all += 1; } }
            for i in 0..n {
                exp[i].sort(); let mut have: Vec<(usize, usize)> = got[i].cuts.iter().map(|x| (x.0, x.1)).collect(); have.sort();
                eq(&format!("node {i}: (point, segment) of its intersections"), have, exp[i].clone())?;
                eq(&format!("node {i}: left for others"), got[i].kept, 0)?; eq(&format!("node {i} still waits"), got[i].running, false)?;
                // the next stage makes one graph node of every intersection: it began once, and after all had come
                let mut nodes = got[i].nodes.clone(); nodes.sort(); eq(&format!("node {i}: (point, segment) of its graph nodes"), nodes, exp[i].clone())?;
                for (p, s, c) in &got[i].cuts { let t = starts.iter().flatten().find(|t| t.0 == *p).unwrap(); let (m, cond) = meet(rate, &t.2, &t.5, *s);
                    if cond < 0.2 || adv(rate, t.1, t.4) * 2 + 2 > rate { continue; }
                    if c.len() != m.len() || c.iter().zip(&m).any(|(a, b)| !close(*a as f64, *b, 5e-3)) { return Err(format!("node {i}: intersection of point {p} in segment {s}: got {c:?}, expected {m:?}")); } }
            }
            Ok(n > 1 && all > 0)
        });
        if !cx.more() { break; }
    }
}
