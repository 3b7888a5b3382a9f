use crate::*;
use s2gpp::verif::training::segmentation as s;
use std::collections::BTreeMap;
pub type Tr = (usize, usize, usize, usize);
fn owner(rate: usize, n: usize, s: usize) -> usize { let k = rate / n; (0..n).rev().find(|c| s >= c * k).unwrap() }
/// advance of a step around the circle; valid iff it crosses and advances at most half a turn
fn adv(rate: usize, a: usize, b: usize) -> usize { (b + rate - a) % rate }
fn valid(rate: usize, a: usize, b: usize) -> bool { a != b && adv(rate, a, b) <= rate / 2 }
fn oracle(rate: usize, n: usize, own: usize, corr: bool, pts: &[(usize, usize)]) -> s::Out {
    let mut o = s::Out::default();
    o.points = pts.to_vec();
    let mut all: Vec<Tr> = vec![];
    for w in pts.windows(2) {
        let t = (w[0].0, w[0].1, w[1].0, w[1].1);
        if valid(rate, t.1, t.3) { all.push(t) } else if t.1 != t.3 && corr { o.invalid += 1 }
    }
    for t in &all { o.per_node.entry(owner(rate, n, t.1)).or_insert(vec![]).push(*t); if owner(rate, n, t.1) == own { o.own.push(*t) } }
    o.last_point = pts.last().map(|p| p.0);
    o.last_transition = all.last().cloned();
    o.send_point = if own != 0 { pts.first().map(|p| p.0) } else { None };
    o.send_transition = all.first().cloned();
    o
}
fn pts(cx: &mut Cx, rate: usize, len: usize, mode: usize) -> Vec<(usize, usize)> {
    let mut v = vec![]; let mut cur = cx.rng.r(0, rate - 1); let off = cx.rng.r(0, 3) * 7;
    for i in 0..len {
        v.push((off + i, cur));
        cur = match mode { 0 => cx.rng.r(0, rate - 1), 1 => (cur + cx.rng.r(0, (rate / 2 + 1).min(rate))) % rate, 2 => (cur + rate / 2 + cx.rng.r(0, 1)) % rate, _ => (cur + rate - cx.rng.r(0, 2).min(rate)) % rate };
    }
    v
}
fn nq(mut o: s::Out) -> s::Out { o.questions.clear(); o }
type Qs = BTreeMap<(usize, usize), Vec<(usize, usize, usize, usize)>>;
fn sorted(mut q: Qs) -> Qs { for v in q.values_mut() { v.sort(); v.dedup(); } q }
/// (answering, asking) -> (previous node, node): wherever the path of the data passes from one owner to another; a first transition that starts with such a step is asked from its start segment. Of the transitions from `within` on, only the step to their first segment.
fn questions(rate: usize, n: usize, ts: &[Tr], within: usize) -> Qs {
    let mut q = Qs::new(); let mut last: Option<(usize, usize)> = None;
    for (i, t) in ts.iter().enumerate() {
        for k in 1..=(if i < within { adv(rate, t.1, t.3) } else { 1 }) {
            let node = (t.0, (t.1 + k) % rate); let prev = if k == 1 && last.is_none() { (t.0, t.1) } else { last.unwrap() };
            let (a, b) = (owner(rate, n, node.1), owner(rate, n, prev.1));
            if a != b && !(last.is_none() && i >= within) { q.entry((a, b)).or_default().push((prev.0, prev.1, node.0, node.1)); }
            last = Some(node);
        }
    }
    sorted(q)
}
//@block c03_build
pub fn c03_build(cx: &mut Cx) {
    for rate in 1..=9usize { for a in 0..rate { for b in 0..rate { for corr in [false, true] {
        let p = vec![(3, a), (4, b)];
        cx.case(format!("rate={rate} points(id,segment)={p:?} self_correction={corr} local"), || {
            let g = nq(s::build(rate, 1, 0, corr, &p)); eq("segmentation result", g, oracle(rate, 1, 0, corr, &p))?; Ok(a != b)
        });
    } } } }
    for _ in 0..cx.n(1500, 60000) {
        let rate = cx.rng.r(2, 30); let n = cx.rng.r(1, rate.min(5)); let own = cx.rng.r(0, n - 1); let corr = cx.rng.b();
        let len = cx.rng.r(0, 25); let mode = cx.rng.r(0, 3); let p = pts(cx, rate, len, mode);
        cx.case(format!("rate={rate} n={n} own={own} points={p:?} self_correction={corr}"), || {
            let g = nq(s::build(rate, n, own, corr, &p)); let w = oracle(rate, n, own, corr, &p); let nt = !w.per_node.is_empty();
            eq("segmentation result", g, w)?; Ok(nt)
        });
        if !cx.more() { break; }
    }
}
//@block c03_first
pub fn c03_first(cx: &mut Cx) {
    for _ in 0..cx.n(1500, 40000) {
        let rate = cx.rng.r(4, 30); let n = cx.rng.r(2, 4.min(rate)); let own = cx.rng.r(0, n - 2);
        let len = cx.rng.r(1, 12); let mode = cx.rng.r(0, 3); let p = pts(cx, rate, len, mode);
        let base = oracle(rate, n, own, false, &p);
        let f = (p.last().unwrap().0 + 1, cx.rng.r(0, rate - 1)); let m = (f.1 + 1 + cx.rng.r(0, rate / 2 - 1)) % rate;
        let tr = if cx.rng.r(0, 4) == 0 { None } else { Some((f.0, f.1, f.0 + 1, m)) };
        cx.case(format!("rate={rate} n={n} own={own} points={p:?} next partition starts with point {f:?} and transition {tr:?}"), || {
            let g = s::first_point(rate, n, own, &p, f, tr);
            let l = *p.last().unwrap();
            let mut own_w = base.own.clone();
            if valid(rate, l.1, f.1) && owner(rate, n, l.1) == own { own_w.push((l.0, l.1, f.0, f.1)) }
            eq("own transitions after the spanning transition", g.own, own_w)?;
            let mut all = p.clone(); all.push(f); let mut ts: Vec<Tr> = all.windows(2).map(|w| (w[0].0, w[0].1, w[1].0, w[1].1)).filter(|t| valid(rate, t.1, t.3)).collect();
            let within = ts.len(); ts.extend(tr); eq("questions", sorted(g.questions), questions(rate, n, &ts, within))?;
            Ok(valid(rate, l.1, f.1))
        });
        if !cx.more() { break; }
    }
}
//@block c03_local
pub fn c03_local(cx: &mut Cx) {
    for _ in 0..cx.n(1200, 20000) {
        let rate = cx.rng.r(3, 40); let len = cx.rng.r(0, 20); let dir = [1.0f32, -1.0, 0.0][cx.rng.r(0, 2)];
        let mut ang = cx.rng.f(0.0, 6.28); let mut v = vec![];
        for _ in 0..len { let r = cx.rng.f(0.5, 3.0); v.push(vec![r * ang.cos(), r * ang.sin()]); ang += if dir == 0.0 { cx.rng.f(-2.0, 2.0) } else { dir * cx.rng.f(0.1, 2.0) }; }
        let seg = |p: &Vec<f32>| -> usize { let mut a = (p[1] as f64).atan2(p[0] as f64); if a < 0.0 { a += 2.0 * std::f64::consts::PI; } (a * rate as f64 / (2.0 * std::f64::consts::PI)) as usize % rate };
        cx.case(format!("local self correction rate={rate} points={v:?}"), || {
            let (nv, ni, o) = s::correct_local(rate, &v);
            // the segments in the result are those of the (possibly mirrored) points
            let p0: Vec<(usize, usize)> = v.iter().enumerate().map(|(i, p)| (i, seg(p))).collect();
            let vm: Vec<Vec<f32>> = v.iter().map(|p| vec![-p[0], p[1]]).collect();
            let p1: Vec<(usize, usize)> = vm.iter().enumerate().map(|(i, p)| (i, seg(p))).collect();
            let near = v.iter().chain(vm.iter()).any(|p| { let mut a = (p[1] as f64).atan2(p[0] as f64); if a < 0.0 { a += 2.0 * std::f64::consts::PI; } let x = a * rate as f64 / (2.0 * std::f64::consts::PI); (x - x.round()).abs() < 1e-3 });
            if near { return Ok(false); }
            let w0 = oracle(rate, 1, 0, true, &p0);
            eq("(valid, clockwise) before correction", (nv, ni), (w0.own.len(), w0.invalid))?;
            let mirrored = w0.invalid > w0.own.len();
            let want = if mirrored { &p1 } else { &p0 };
            let w = oracle(rate, 1, 0, true, want);
            eq("points after correction", o.points, want.clone())?;
            eq("transitions after correction", o.own, w.own)?;
            Ok(mirrored)
        });
        if !cx.more() { break; }
    }
}
//@block c03_count
pub fn c03_count(cx: &mut Cx) {
    for _ in 0..cx.n(800, 20000) {
        let rate = cx.rng.r(4, 30); let n = cx.rng.r(2, 4); let own = cx.rng.r(0, n - 1); let len = cx.rng.r(2, 20); let mode = cx.rng.r(0, 3);
        let p = pts(cx, rate, len, mode);
        cx.case(format!("distributed self correction count rate={rate} n={n} own={own} points={p:?}"), || {
            let w = oracle(rate, n, own, true, &p);
            eq("(valid transitions, clockwise transitions) this node contributes", s::count_distributed(rate, n, own, &p), (w.per_node.values().map(|v| v.len()).sum::<usize>(), w.invalid))?;
            Ok(!w.own.is_empty())
        });
        if !cx.more() { break; }
    }
}
