use crate::*;
use s2gpp::verif::training::scoring as s;
use std::collections::{BTreeMap, BTreeSet};
type K = (usize, usize);
fn key(cx: &mut Cx, m: usize) -> K { (cx.rng.r(0, m), cx.rng.r(0, 2)) }
fn table(cx: &mut Cx) -> (Vec<((K, K), usize)>, Vec<(K, usize)>) {
    let (mut w, mut d) = (BTreeMap::new(), BTreeMap::new());
    for _ in 0..cx.rng.r(0, 6) { w.insert((key(cx, 2), key(cx, 2)), cx.rng.r(1, 9)); d.insert(key(cx, 3), cx.rng.r(1, 9)); }
    (w.into_iter().collect(), d.into_iter().collect())
}
//@block c08_count
pub fn c08_count(cx: &mut Cx) {
    let chk = |e: &Vec<s::E>| -> Result<bool, String> {
        let (w, d) = s::weights(e);
        let (mut ew, mut ed) = (BTreeMap::new(), BTreeMap::new());
        for x in e { *ew.entry((x.0, x.1)).or_insert(0) += 1; }
        for (a, b) in e.iter().map(|x| (x.0, x.1)).collect::<BTreeSet<_>>() { *ed.entry(a).or_insert(0) += 1; *ed.entry(b).or_insert(0) += 1; }
        eq("edge weights", w, ew)?; eq("node degrees", d, ed)?;
        Ok(e.len() > 1)
    };
    // every list of up to 3 edges over 3 nodes
    let ks = [(0, 0), (0, 1), (1, 0)];
    for len in 0..=3u32 { for code in 0..9usize.pow(len) {
        let e: Vec<s::E> = (0..len).map(|i| { let c = code / 9usize.pow(i) % 9; (ks[c / 3], ks[c % 3], i as usize) }).collect();
        cx.case(format!("edges {e:?}"), || chk(&e));
    } }
    for _ in 0..cx.n(2000, 40000) {
        let m = cx.rng.r(1, 6); let e: Vec<s::E> = (0..cx.rng.r(0, 40)).map(|i| (key(cx, m), key(cx, m), i)).collect();
        cx.case(format!("edges {e:?}"), || chk(&e));
        if !cx.more() { break; }
    }
}
//@block c08_merge
pub fn c08_merge(cx: &mut Cx) {
    for _ in 0..cx.n(150, 1500) {
        let n = cx.rng.r(2, 4); let own = cx.rng.r(0, n - 1); let (w0, d0) = table(cx); let msgs: Vec<_> = (0..n - 1).map(|_| table(cx)).collect(); let early = cx.rng.r(0, n - 1);
        cx.case(format!("node {own} of {n}, own weights {w0:?} degrees {d0:?}, received {msgs:?}, {early} of them before the start"), || {
            let (w, d, done, sw, sd) = s::merged(n, own, &w0, &d0, &msgs, early);
            let (mut ew, mut ed): (BTreeMap<_, usize>, BTreeMap<_, usize>) = (w0.iter().cloned().collect(), d0.iter().cloned().collect());
            for m in &msgs { for (k, v) in &m.0 { *ew.entry(*k).or_insert(0) += v; } for (k, v) in &m.1 { *ed.entry(*k).or_insert(0) += v; } }
            eq("edge weights", w, ew)?; eq("node degrees", d, ed)?; eq("done", done, true)?;
            let next = (own + 1) % n;
            // its own table, then every received one but the last, to the next node
            let mut xw = vec![(next, w0.iter().cloned().collect::<BTreeMap<_, _>>())]; let mut xd = vec![(next, d0.iter().cloned().collect::<BTreeMap<_, _>>())];
            for m in &msgs[..n - 2] { xw.push((next, m.0.iter().cloned().collect())); xd.push((next, m.1.iter().cloned().collect())); }
            eq("weights passed on", sw, xw)?; eq("degrees passed on", sd, xd)?;
            Ok(true)
        });
        if !cx.more() { break; }
    }
}
