use crate::*;
use s2gpp::verif::training::scoring as s;
/// windows: None = no edges; legit zeros only where no window without edges came before
fn windows(cx: &mut Cx, len: usize) -> Vec<Option<f32>> {
    let zeros = cx.rng.r(0, 2); let p = cx.rng.r(1, 4);
    (0..len).map(|i| if i < zeros && zeros < len { Some(0.0) } else if cx.rng.r(0, p) == 0 || (zeros == 0 && i == 0 && cx.rng.b()) { None } else { Some(-(cx.rng.r(1, 50) as f32)) }).collect()
}
fn carry(w: &[Option<f32>], mut last: f32) -> Vec<f32> { w.iter().map(|x| { if let Some(v) = x { last = *v; } last }).collect() }
//@block c09_chunks
pub fn c09_chunks(cx: &mut Cx) {
    for len in 1..=cx.n(24, 80) { for t in 1..=cx.n(10, 24) {
        cx.case(format!("{len} windows, {t} threads"), || {
            let (v, total) = s::parallel(len, t);
            eq("answers waited for", total, v.len())?;
            let mut at = 0;
            for (a, l) in &v { if *a != at { return Err(format!("chunks {v:?} do not tile: {a} instead of {at}")); } at += l; }
            eq("end", at, len)?;
            // whatever the order of the answers, all of them are used
            let w: Vec<Option<f32>> = (0..len).map(|i| if i % 3 == 1 { None } else { Some(-1.0 - i as f32) }).collect();
            let mut ans: Vec<(usize, Vec<f32>, bool)> = v.iter().map(|c| (c.0, carry(&w[c.0..c.0 + c.1], 0.0), c.1 > 0 && w[c.0].is_none())).collect();
            for turn in 0..2 {
                ans.reverse();
                let (got, _, left) = s::assemble(total, &ans, |_| 0);
                if left != 0 || got != carry(&w, 0.0) { return Err(format!("answers {ans:?} in this order: got {got:?}, {left} (1000: not finished) left over")); }
            }
            Ok(v.len() > 1)
        });
    } if !cx.more() { break; } }
}
//@block c09_assemble
pub fn c09_assemble(cx: &mut Cx) {
    for _ in 0..cx.n(300, 4000) {
        let len = cx.rng.r(1, 16); let k = cx.rng.r(1, len.min(5)); let w = windows(cx, len);
        let mut cuts: Vec<usize> = (1..len).collect(); cx.rng.shuffle(&mut cuts); cuts.truncate(k - 1); cuts.push(0); cuts.push(len); cuts.sort();
        let mut ans: Vec<(usize, Vec<f32>, bool)> = cuts.windows(2).map(|c| (c[0], carry(&w[c[0]..c[1]], 0.0), w[c[0]].is_none())).collect();
        cx.rng.shuffle(&mut ans); let order: Vec<usize> = (0..40).map(|_| cx.rng.r(0, 1000)).collect();
        cx.case(format!("windows {w:?}, answers in this order {ans:?}"), || {
            let mut i = 0;
            let (got, first, left) = s::assemble(ans.len(), &ans, |n| { i += 1; if i <= ans.len() { 0 } else { order[i % 40] % n } });
            eq("left over", left, 0)?; eq("first window without edges", first, w[0].is_none())?; eq("scores", got, carry(&w, 0.0))?;
            Ok(ans.len() > 1)
        });
        if !cx.more() { break; }
    }
}
