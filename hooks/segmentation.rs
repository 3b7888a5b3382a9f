use super::*;
use crate::data_store::verif as ds;
use crate::data_store::node_questions::verif as nq;
use crate::training::verif as tv;
pub use ds::Tr;
//@block s_out
#[derive(Debug, Clone, PartialEq, Default)]
pub struct Out {
    pub per_node: std::collections::BTreeMap<usize, Vec<Tr>>,
    pub own: Vec<Tr>,
    pub points: Vec<(usize, usize)>,
    pub invalid: usize,
    pub last_point: Option<usize>,
    pub last_transition: Option<Tr>,
    pub send_point: Option<usize>,
    pub send_transition: Option<Tr>,
    pub questions: std::collections::BTreeMap<(usize, usize), Vec<(usize, usize, usize, usize)>>,
}
pub fn snap(t: &Training) -> Out {
    let s = &t.segmentation;
    Out {
        per_node: s.transitions_for_nodes.iter().map(|(k, v)| (*k, v.iter().map(|x| ds::trv(x)).collect())).collect(),
        own: ds::transitions(&t.data_store),
        points: t.data_store.get_points().iter().map(|p| (p.get_id(), p.get_segment())).collect(),
        invalid: s.invalid_transition_directions,
        last_point: s.last_point.as_ref().map(|p| p.get_id()),
        last_transition: s.last_transition.as_ref().map(|x| ds::trv(x)),
        send_point: s.send_point.as_ref().map(|p| p.get_id()),
        send_transition: s.send_transition.as_ref().map(|x| ds::trv(x)),
        questions: nq::view(&s.node_questions),
    }
}
//@block s_build
/// build_segments on points (id, segment)
pub fn build(rate: usize, n: usize, own: usize, corr: bool, pts: &[(usize, usize)]) -> Out {
    let mut p = tv::params(rate, n);
    p.self_correction = corr;
    let mut t = tv::training(p, own);
    for (id, s) in pts { t.data_store.add_point(ds::point(*id, &[1.0, 1.0], *s)); }
    let m = t.build_segments();
    let mut o = snap(&t);
    o.per_node = m.iter().map(|(k, v)| (*k, v.iter().map(|x| ds::trv(x)).collect())).collect();
    o
}
//@block s_local
/// the whole local segmentation of real points: segment(ctx)
pub fn segment_local(rate: usize, corr: bool, pts: &[Vec<f32>]) -> Out {
    let mut p = tv::params(rate, 1);
    p.self_correction = corr;
    let mut t = tv::training(p, 0);
    t.data_store.add_points_with_offset(pts.iter().map(|v| ndarray::Array1::from(v.clone())).collect(), 0, rate);
    let mut ctx = Context::<Training>::new();
    t.own_addr = Some(ctx.address());
    t.segment(&mut ctx);
    snap(&t)
}
//@block s_corr
/// local self-correction decision on given segments: (mirrored?, state)
pub fn correct_local(rate: usize, pts: &[Vec<f32>]) -> (usize, usize, Out) {
    let mut p = tv::params(rate, 1);
    p.self_correction = true;
    let mut t = tv::training(p, 0);
    t.data_store.add_points_with_offset(pts.iter().map(|v| ndarray::Array1::from(v.clone())).collect(), 0, rate);
    let mut ctx = Context::<Training>::new();
    t.own_addr = Some(ctx.address());
    let m = t.build_segments();
    let before = (t.data_store.count_transitions(), t.segmentation.invalid_transition_directions);
    t.self_correction(m, &mut ctx);
    (before.0, before.1, snap(&t))
}
//@block s_first
/// node `own` of `n` has segmented `pts`, then the first point and first transition of the next partition arrive
pub fn first_point(rate: usize, n: usize, own: usize, pts: &[(usize, usize)], first: (usize, usize), tr: Option<Tr>) -> Out {
    let mut t = tv::training_net(tv::params(rate, n), own);
    for (id, s) in pts { t.data_store.add_point(ds::point(*id, &[1.0, 1.0], *s)); }
    let m = t.build_segments();
    t.distribute_or_wait_for_segments(m, &mut Context::<Training>::new());
    let mut ctx = Context::<Training>::new();
    t.own_addr = Some(ctx.address());
    let msg = SendFirstPointMessage { point: ds::point(first.0, &[1.0, 1.0], first.1), transition: tr.map(|tr| ds::tr(tr.0, tr.1, tr.2, tr.3).materialize()) };
    t.handle(msg, &mut ctx);
    snap(&t)
}
//@block s_count
/// distributed self-correction: the state a node contributes: (count added to the global count, clockwise)
pub fn count_distributed(rate: usize, n: usize, own: usize, pts: &[(usize, usize)]) -> (usize, usize) {
    let mut p = tv::params(rate, n);
    p.self_correction = true;
    let mut t = tv::training_net(p, own);
    for (id, s) in pts { t.data_store.add_point(ds::point(*id, &[1.0, 1.0], *s)); }
    let m = t.build_segments();
    let mut ctx = Context::<Training>::new();
    t.own_addr = Some(ctx.address());
    t.self_correction(m, &mut ctx);
    (t.segmentation.global_transition_count, t.segmentation.invalid_transition_directions)
}
//@block s_exchange
#[derive(Debug, Clone, PartialEq, Default)]
pub struct Ex { pub first: Vec<(usize, usize, Option<Tr>)>, pub first_later: Vec<(usize, usize, Option<Tr>)>, pub before: Vec<(usize, Vec<Tr>)>, pub seg: Vec<(usize, Vec<Tr>)>, pub running: Vec<bool>, pub own: Vec<Tr>, pub buffered: bool, pub late_first_kept: bool }
/// node own of n segments its points; the next node's first point and the others' transitions come in, some of them early
pub fn exchange(rate: usize, n: usize, own: usize, pts: &[(usize, usize)], first: Option<((usize, usize), Option<Tr>)>, early_first: bool, segs: &[Vec<Tr>], early: usize) -> Ex {
    let (mut t, mut cap) = tv::training_cap(tv::params(rate, n), own);
    let mut ctx = Context::<Training>::new(); t.own_addr = Some(ctx.address());
    for (id, s) in pts { t.data_store.add_point(ds::point(*id, &[1.0, 1.0], *s)); }
    let fm = |f: &((usize, usize), Option<Tr>)| SendFirstPointMessage { point: ds::point(f.0 .0, &[1.0, 1.0], f.0 .1), transition: f.1.map(|t| ds::tr(t.0, t.1, t.2, t.3).materialize()) };
    let sm = |v: &Vec<Tr>| SegmentMessage { segments: v.iter().map(|t| ds::tr(t.0, t.1, t.2, t.3).materialize()).collect() };
    let mut o = Ex::default();
    if early_first { if let Some(f) = &first { t.handle(fm(f), &mut ctx); } }
    for m in &segs[..early] { t.handle(sm(m), &mut ctx); }
    t.segment(&mut ctx);
    let seen = |cap: &mut tv::Cap, o: &mut Ex| { let mut r = vec![]; for s in cap.drain() { if let Some(m) = s.get::<SendFirstPointMessage>() { o.first.push((s.to, m.point.get_id(), m.transition.as_ref().map(|x| ds::trv(x)))) } if let Some(m) = s.get::<SegmentMessage>() { r.push((s.to, m.segments.iter().map(|x| ds::trv(x)).collect())) } } r.sort(); r };
    o.before = seen(&mut cap, &mut o); let sent_first = std::mem::take(&mut o.first);
    // what came early comes back through the mailbox
    if let Some(f) = &first { t.handle(fm(f), &mut ctx); }
    o.seg = seen(&mut cap, &mut o); o.first_later = std::mem::replace(&mut o.first, sent_first);
    o.running.push(t.segmentation.direct_protocol.is_running());
    for m in segs { t.handle(sm(m), &mut ctx); o.running.push(t.segmentation.direct_protocol.is_running()); }
    o.own = ds::transitions(&t.data_store);
    o
}
//@block s_ring
/// the counting round of the self-correction: (counts sent, mirrored?, (valid, clockwise) in the end)
pub fn ring(rate: usize, n: usize, own: usize, pts: &[(usize, usize)], msgs: &[(usize, usize)], early: usize) -> (Vec<(usize, usize, usize)>, Vec<bool>, (usize, usize), Vec<(usize, usize)>, Vec<(usize, usize, Option<Tr>)>, Vec<(usize, Vec<Tr>)>) {
    let mut p = tv::params(rate, n); p.self_correction = true;
    let (mut t, mut cap) = tv::training_cap(p, own);
    let mut ctx = Context::<Training>::new(); t.own_addr = Some(ctx.address());
    for (id, s) in pts { t.data_store.add_point({ let a = (*s as f32 + 0.25) / rate as f32 * 2.0 * std::f32::consts::PI; ds::point(*id, &[2.0 * a.cos(), 2.0 * a.sin()], *s) }); }
    let m = |x: &(usize, usize)| TransitionCountMessage { count: x.0, clockwise_count: x.1 };
    for x in &msgs[..early] { t.handle(m(x), &mut ctx); }
    t.segment(&mut ctx);
    let mut run = vec![]; let mut last = (0, 0);
    for (i, x) in msgs.iter().enumerate() { run.push(t.segmentation.transition_count_protocol.is_running()); if i + 1 == msgs.len() { last = (t.segmentation.global_transition_count + x.0, t.segmentation.invalid_transition_directions + x.1); } t.handle(m(x), &mut ctx); }
    run.push(t.segmentation.transition_count_protocol.is_running());
    let all = cap.drain();
    let sent = all.iter().filter_map(|s| s.get::<TransitionCountMessage>().map(|m| (s.to, m.count, m.clockwise_count))).collect();
    let first = all.iter().filter_map(|s| s.get::<SendFirstPointMessage>().map(|m| (s.to, m.point.get_id(), m.transition.as_ref().map(|x| ds::trv(x))))).collect();
    let mut seg: Vec<(usize, Vec<Tr>)> = all.iter().filter_map(|s| s.get::<SegmentMessage>().map(|m| (s.to, m.segments.iter().map(|x| ds::trv(x)).collect()))).collect(); seg.sort();
    (sent, run, last, t.data_store.get_points().iter().map(|p| (p.get_id(), p.get_segment())).collect(), first, seg)
}
