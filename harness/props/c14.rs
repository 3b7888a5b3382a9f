use crate::*;
use s2gpp::verif::training::segmentation as s;
type Tr = (usize, usize, usize, usize);
fn owner(rate: usize, n: usize, s: usize) -> usize { let k = rate / n; (0..n).rev().find(|c| s >= c * k).unwrap() }
fn valid(rate: usize, a: usize, b: usize) -> bool { a != b && (b + rate - a) % rate <= rate / 2 }
fn steps(rate: usize, p: &[(usize, usize)]) -> (Vec<Tr>, usize) {
    let all: Vec<Tr> = p.windows(2).map(|w| (w[0].0, w[0].1, w[1].0, w[1].1)).filter(|t| t.1 != t.3).collect();
    let v: Vec<Tr> = all.iter().filter(|t| valid(rate, t.1, t.3)).cloned().collect(); let k = all.len() - v.len(); (v, k)
}
fn walk(r: &mut rng::Rng, rate: usize, len: usize, dir: usize) -> Vec<(usize, usize)> {
    let mut v = vec![]; let mut cur = r.r(0, rate - 1); let off = r.r(0, 3) * 7;
    for i in 0..len { v.push((off + i, cur)); cur = match dir { 0 => r.r(0, rate - 1), 1 => (cur + r.r(0, rate / 2)) % rate, _ => (cur + rate - r.r(0, 2).min(rate)) % rate }; }
    v
}
//@block c14_exchange
pub fn c14_exchange(cx: &mut Cx) {
    for _ in 0..cx.n(700, 20000) {
        let rate = cx.rng.r(4, 30); let n = cx.rng.r(2, 5.min(rate)); let own = cx.rng.r(0, n - 1);
        let len = cx.rng.r(1, 12); let dir = cx.rng.r(0, 2); let p = walk(&mut cx.rng, rate, len, dir);
        let (base, _) = steps(rate, &p);
        let l = *p.last().unwrap();
        let f = (l.0 + 1, cx.rng.r(0, rate - 1)); let tr = if cx.rng.r(0, 4) == 0 { None } else { Some((f.0, f.1, f.0 + 1, (f.1 + 1 + cx.rng.r(0, rate / 2 - 1)) % rate)) };
        let first = if own < n - 1 { Some((f, tr)) } else { None };
        let early_first = cx.rng.b(); let early = cx.rng.r(0, n - 1);
        let segs: Vec<Vec<Tr>> = (1..n).map(|_| { let k = cx.rng.r(0, 3); (0..k).map(|i| (100 + i, cx.rng.r(0, rate - 1), 101 + i, cx.rng.r(0, rate - 1))).collect() }).collect();
        cx.case(format!("rate={rate} node {own} of {n}, points (id, segment)={p:?}, first point and transition of the next node={first:?} (early={early_first}), transitions received={segs:?}, {early} of them early"), || {
            let o = s::exchange(rate, n, own, &p, first, early_first, &segs, early);
            let mut all = base.clone();
            if first.is_some() && valid(rate, l.1, f.1) { all.push((l.0, l.1, f.0, f.1)) }
            let prev = (own + n - 1) % n;
            // without an own transition, it is known with the first point of the next node
            let now = !base.is_empty() || own == n - 1;
            eq("first point and transition sent (to, point, transition) at once", o.first, if own > 0 && now { vec![(prev, p[0].0, base.first().cloned())] } else { vec![] })?;
            eq("first point and transition sent after the next node's", o.first_later, if own > 0 && !now { vec![(prev, p[0].0, all.first().cloned().or(tr))] } else { vec![] })?;
            let sel = |k: usize| all.iter().filter(|t| owner(rate, n, t.1) == k).cloned().collect::<Vec<_>>();
            let parts: Vec<(usize, Vec<Tr>)> = (0..n).filter(|k| *k != own).map(|k| (k, sel(k))).collect();
            eq("transitions sent before the first point of the next node came", o.before, if own < n - 1 { vec![] } else { parts.clone() })?;
            eq("transitions sent with it", o.seg, if own < n - 1 { parts } else { vec![] })?;
            eq("exchange runs after each message", o.running, (0..n).map(|i| i < n - 1).collect::<Vec<_>>())?;
            let mut own_w = sel(own); for m in &segs { own_w.extend(m.iter().cloned()) }
            eq("transitions in the end", o.own, own_w)?;
            Ok(early_first || early > 0)
        });
        if !cx.more() { break; }
    }
}
//@block c14_ring
pub fn c14_ring(cx: &mut Cx) {
    for _ in 0..cx.n(500, 10000) {
        let rate = cx.rng.r(8, 30); let n = cx.rng.r(2, 5); let own = cx.rng.r(0, n - 1);
        let len = cx.rng.r(2, 12); let dir = cx.rng.r(0, 2); let p = walk(&mut cx.rng, rate, len, dir);
        let (v, i) = steps(rate, &p); if v.is_empty() { continue; }
        let msgs: Vec<(usize, usize)> = (1..n).map(|_| (cx.rng.r(0, 6), cx.rng.r(0, 6))).collect(); let early = cx.rng.r(0, n - 1);
        cx.case(format!("self-correction, rate={rate} node {own} of {n}, points={p:?}, (valid, clockwise) of the others={msgs:?}, {early} of them early"), || {
            let (sent, run, last, pts, first, seg) = s::ring(rate, n, own, &p, &msgs, early);
            let nx = (own + 1) % n;
            let mut w = vec![(nx, v.len(), i)]; for m in &msgs[..n - 2] { w.push((nx, m.0, m.1)) }
            eq("counts sent to the next node", sent, w)?;
            eq("round runs before each message and at the end", run, (0..n).map(|k| k < n - 1).collect::<Vec<_>>())?;
            let tot = (v.len() + msgs.iter().map(|m| m.0).sum::<usize>(), i + msgs.iter().map(|m| m.1).sum::<usize>());
            eq("counts over the cluster", last, tot)?;
            // the points lie at a quarter of their segment
            let mir = p.iter().map(|x| (x.0, (rate + rate - (rate + 1) / 2 - x.1) % rate)).map(|x| (x.0, if rate % 2 == 0 { (x.1 + rate - 1) % rate } else { x.1 })).collect::<Vec<_>>();
            let now = if tot.1 > tot.0 { mir } else { p.clone() };
            eq("mirrored iff the clockwise ones outnumber the valid ones", &pts, &now)?;
            let (all, _) = steps(rate, &now);
            eq("first point and transition sent (to, point, transition)", first, if own > 0 && (!all.is_empty() || own == n - 1) { vec![((own + n - 1) % n, now[0].0, all.first().cloned())] } else { vec![] })?;
            eq("transitions sent", seg, if own == n - 1 { (0..n).filter(|k| *k != own).map(|k| (k, all.iter().filter(|t| owner(rate, n, t.1) == k).cloned().collect())).collect() } else { vec![] })?;
            Ok(tot.1 > tot.0)
        });
        if !cx.more() { break; }
    }
}
