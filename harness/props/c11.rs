use crate::*;
use s2gpp::verif::utils as u;
use s2gpp::verif::utils::{Op, Seen};
fn expect(ops: &[Op], ring: bool) -> Vec<Seen> {
    let (mut total, mut rec, mut sent, mut kept) = (0usize, 0usize, 0usize, vec![]); let mut out = vec![];
    for o in ops {
        let (mut handled, mut back) = (None, vec![]);
        match o {
            Op::Start(n) => total = *n,
            Op::Msg(i) => { let run = rec < total || sent < total; handled = Some(run); if run { rec += 1 } else { kept.push(*i) } }
            Op::Sent => sent += 1,
            // in a ring they also come before what waits in the mailbox (usize::MAX)
            Op::Resolve => { back = std::mem::take(&mut kept); if ring { back.push(usize::MAX) } }
        }
        out.push(Seen { handled, running: rec < total || sent < total, back });
    }
    out
}
fn gen(cx: &mut Cx) -> Vec<Op> {
    // messages before the start, start, resolution, rest in any mix
    let n = cx.rng.r(0, 7); let early = cx.rng.r(0, n); let mut ops = vec![]; let mut id = 0;
    for _ in 0..early { ops.push(Op::Msg(id)); id += 1; if cx.rng.r(0, 4) == 0 { ops.push(Op::Sent); } }
    ops.push(Op::Start(n));
    if cx.rng.r(0, 3) > 0 { ops.push(Op::Resolve); }
    for _ in 0..cx.rng.r(0, 16) { match cx.rng.r(0, 6) { 0 | 1 => ops.push(Op::Sent), 2 if cx.rng.b() => ops.push(Op::Resolve), 3 if cx.rng.r(0, 4) == 0 => ops.push(Op::Start(cx.rng.r(0, 9))), _ => { ops.push(Op::Msg(id)); id += 1; } } }
    ops
}
fn all(cx: &mut Cx, f: fn(&[Op]) -> Vec<Seen>, ring: bool) {
    for _ in 0..cx.n(1500, 20000) {
        let ops = gen(cx);
        cx.case(format!("{ops:?}"), || { eq("seen", f(&ops), expect(&ops, ring))?; Ok(ops.len() > 2) });
        if !cx.more() { break; }
    }
}
//@block c11_rotation
pub fn c11_rotation(cx: &mut Cx) { all(cx, u::rotation, true) }
//@block c11_direct
pub fn c11_direct(cx: &mut Cx) { all(cx, u::direct, false) }
//@block c11_helper
pub fn c11_helper(cx: &mut Cx) {
    for _ in 0..cx.n(2000, 20000) {
        let total = cx.rng.r(0, 6); let mut out = 0; let mut ops = vec![];
        for _ in 0..cx.rng.r(0, 14) { if out > 0 && cx.rng.b() { out -= 1; ops.push(false) } else { out += 1; ops.push(true) } }
        cx.case(format!("{total} answers expected, {ops:?} (true: sent, false: received)"), || {
            let mut r = 0; let e: Vec<bool> = ops.iter().map(|s| { if !*s { r += 1 } r < total }).collect();
            eq("running", u::helper(total, &ops), e)?; Ok(ops.len() > 1)
        });
    }
}
