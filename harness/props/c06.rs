use crate::*;
use s2gpp::verif::training::scoring as s;
//@block c06_count
pub fn c06_count(cx: &mut Cx) {
    let chk = |n: usize, own: usize, start: Option<usize>, rot: usize, ids: &Vec<usize>| -> Result<bool, String> {
        let g = s::eit(n, own, start, rot, ids); let st = start.unwrap_or(0);
        let res = rot - if own == n - 1 { 1 } else { 0 };
        let len = res.max(ids.iter().map(|x| x - st + 1).max().unwrap_or(0));
        let w: Vec<usize> = (0..len).map(|p| ids.iter().filter(|x| **x <= st + p).count()).collect();
        eq("edges up to each point", g, w)?; Ok(!ids.is_empty())
    };
    // all sorted id lists over {0..3} up to length 5
    for len in 0..=5u32 { for code in 0..4usize.pow(len) {
        let ids: Vec<usize> = (0..len).map(|i| code / 4usize.pow(i) % 4).collect();
        if ids.windows(2).any(|w| w[0] > w[1]) { continue; }
        for rot in [1usize, 3, 6] { for start in [None, Some(0usize), Some(5)] { let ids: Vec<usize> = ids.iter().map(|x| x + start.unwrap_or(0)).collect();
            cx.case(format!("edges lead to points {ids:?}, partition starts at {start:?}, {rot} points, local"), || chk(1, 0, start, rot, &ids)); } }
    } }
    for _ in 0..cx.n(3000, 60000) {
        let n = cx.rng.r(1, 4); let own = cx.rng.r(0, n - 1); let start = if cx.rng.b() { Some(cx.rng.r(0, 50)) } else { None }; let rot = cx.rng.r(1, 40);
        let st = start.unwrap_or(0); let k = cx.rng.r(0, 30); let hi = rot.saturating_sub(cx.rng.r(1, 4)).max(0);
        let mut ids: Vec<usize> = (0..k).map(|_| st + cx.rng.r(0, hi)).collect(); ids.sort();
        cx.case(format!("edges lead to points {ids:?}, node {own} of {n}, partition starts at {start:?}, {rot} points"), || chk(n, own, start, rot, &ids));
        if !cx.more() { break; }
    }
}
