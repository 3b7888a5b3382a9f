use crate::*;
use s2gpp::verif::training::transposition as tp;
type N = (usize, usize, usize);
//@block c13_transpose
pub fn c13_transpose(cx: &mut Cx) {
    let dest = |n: usize, points: usize, e: &(N, N)| (e.1 .2 / (points / n)).min(n - 1);
    let chk = |n: usize, own: usize, points: usize, es: &Vec<(N, N)>, msgs: &Vec<Vec<(N, N)>>, early: usize| -> Result<bool, String> {
        let o = tp::transpose(n, own, points, es, msgs, early);
        eq("first point of the node", o.start, Some(points / n * own))?;
        let sel = |k: usize| es.iter().filter(|e| dest(n, points, e) == k).cloned().collect::<Vec<_>>();
        eq("edges kept", o.kept.clone(), sel(own))?;
        let mut sent = o.sent; sent.sort_by_key(|x| x.0);
        eq("edges sent (node, edges)", sent, (0..n).filter(|k| *k != own).map(|k| (k, sel(k))).collect::<Vec<_>>())?;
        eq("exchange runs, after each message", o.running, (0..n).map(|i| i < n - 1).collect::<Vec<_>>())?;
        let mut all = sel(own); for m in msgs { all.extend(m.iter().cloned()); }
        all.sort_by_key(|e| (e.1 .2, e.0 .2));
        eq("edges at the end", o.done, all)?;
        Ok(!es.is_empty())
    };
    for _ in 0..cx.n(1500, 40000) {
        let n = cx.rng.r(2, 5); let own = cx.rng.r(0, n - 1); let points = cx.rng.r(n, 30);
        let edge = |r: &mut rng::Rng, lo: usize, hi: usize| -> (N, N) { let to = r.r(lo, hi); ((r.r(0, 5), r.r(0, 2), r.r(0, points)), (r.r(0, 5), r.r(0, 2), to)) };
        let k = if cx.rng.r(0, 7) == 0 { cx.rng.r(20, 80) } else { cx.rng.r(0, 12) }; let es: Vec<(N, N)> = (0..k).map(|_| edge(&mut cx.rng, 0, points)).collect();
        let lo = points / n * own; let hi = if own == n - 1 { points } else { lo + points / n - 1 };
        let msgs: Vec<Vec<(N, N)>> = (1..n).map(|_| { let k = if cx.rng.r(0, 7) == 0 { cx.rng.r(20, 50) } else { cx.rng.r(0, 4) }; (0..k).map(|_| edge(&mut cx.rng, lo, hi)).collect() }).collect();
        let early = cx.rng.r(0, n - 1);
        cx.case(format!("node {own} of {n}, {points} points, edges={es:?}, received={msgs:?}, {early} of them before it starts"), || chk(n, own, points, &es, &msgs, early));
        if !cx.more() { break; }
    }
}
