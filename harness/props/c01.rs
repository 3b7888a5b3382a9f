use crate::*;
use s2gpp::verif::training as t;
// oracle: node c of n owns segments [c*k, (c+1)*k), k = floor(rate/n); the last node also the remainder
fn owner(rate: usize, n: usize, s: usize) -> usize {
    let k = rate / n;
    (0..n).rev().find(|c| s >= c * k).unwrap()
}
//@block c01_owner
pub fn c01_owner(cx: &mut Cx) {
    let chk = |rate: usize, n: usize, s: usize| -> Result<bool, String> {
        let want = owner(rate, n, s);
        let p = t::params(rate, n);
        eq("parameters.segment_id_to_assignment", p.segment_id_to_assignment(s), want)?;
        eq("training.segment_id_to_assignment", t::segment_id_to_assignment(rate, n, s), want)?;
        Ok(n > 1)
    };
    for rate in 1..=24 { for n in 1..=rate { for s in 0..rate {
        cx.case(format!("owner rate={rate} n={n} segment={s}"), || chk(rate, n, s));
    } } }
    for _ in 0..cx.n(4000, 200000) {
        let rate = cx.rng.r(1, 5000); let n = cx.rng.r(1, rate.min(300)); 
        let s = if cx.rng.b() { cx.rng.r(0, rate - 1) } else { let k = rate / n; let c = cx.rng.r(0, n - 1); (c * k + cx.rng.r(0, 2)).saturating_sub(1).min(rate - 1) };
        cx.case(format!("owner rate={rate} n={n} segment={s}"), || chk(rate, n, s));
        if !cx.more() { break; }
    }
}
//@block c01_next
pub fn c01_next(cx: &mut Cx) {
    let chk = |rate: usize, n: usize, s: usize, i: usize| -> Result<bool, String> {
        let c = (owner(rate, n, s) + i) % n;
        let first = (0..rate).find(|x| owner(rate, n, *x) == c).unwrap();
        eq("first segment of the i-next node", t::params(rate, n).first_segment_of_i_next_cluster_node(s, i), first)?;
        Ok(n > 1)
    };
    for rate in 1..=14 { for n in 1..=rate { for s in 0..rate { for i in 0..=n {
        cx.case(format!("first_segment_of_i_next rate={rate} n={n} segment={s} i={i}"), || chk(rate, n, s, i));
    } } } }
    for _ in 0..cx.n(2000, 20000) {
        let rate = cx.rng.r(1, 400); let n = cx.rng.r(1, rate.min(40)); let s = cx.rng.r(0, rate - 1); let i = cx.rng.r(0, n);
        cx.case(format!("first_segment_of_i_next rate={rate} n={n} segment={s} i={i}"), || chk(rate, n, s, i));
    }
}
//@block c01_diff
pub fn c01_diff(cx: &mut Cx) {
    for n in 1..=20usize { for a in 0..n { for b in 0..n {
        cx.case(format!("cluster_node_diff n={n} from={a} to={b}"), || {
            eq("distance", t::cluster_node_diff(n, a, b), (b + n - a) % n)?; Ok(a != b)
        });
    } } }
}
