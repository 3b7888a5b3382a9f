use crate::*;
use s2gpp::verif::data_manager as d;
use crate::files::*;
//@block c18_load
pub fn c18_load(cx: &mut Cx) {
    for k in 0..cx.n(400, 6000) {
        let c = case(&mut cx.rng, if k % 3 == 0 { 5 } else { 40 });
        cx.case(c.desc(), || {
            let l = c.load()?;
            let all = windows(&c.rows, c.pattern, c.latent); let per = c.rows.len() / c.n;
            for i in 0..c.n { let end = if i + 1 == c.n { all.len() } else { (i + 1) * per }; eq(&format!("windows of node {i}"), l[i].phase.len(), end - i * per)?; close3(&format!("windows of node {i}"), &l[i].phase, &all[i * per..end])?; }
            let joined: Vec<_> = l.iter().flat_map(|x| x.phase.clone()).collect();
            close3("windows of all nodes in turn", &joined, &all)?;
            Ok(true)
        });
        if !cx.more() { break; }
    }
}
//@block c18_array
pub fn c18_array(cx: &mut Cx) {
    for _ in 0..cx.n(60, 1000) {
        let pattern = cx.rng.r(2, 10); let latent = cx.rng.r(1, pattern - 1); let m = cx.rng.r(pattern, pattern + 30); let w = cx.rng.r(1, 4);
        let r = rows(&mut cx.rng, m, w); let f = cx.rng.b();
        cx.case(format!("array (column-major: {f}) {r:?}, pattern length {pattern}, latent {latent}"), || {
            let l = d::load_array(&r, f, d::Conf { n: 1, pattern, latent, threads: 2, col_start: 0, col_end: 0 });
            eq("times the data came", l.len(), 1)?;
            close3("windows", &l[0].phase, &windows(&r, pattern, latent))?;
            Ok(true)
        });
        if !cx.more() { break; }
    }
}
//@block c18_phase
pub fn c18_phase(cx: &mut Cx) {
    for _ in 0..cx.n(400, 10000) {
        let pattern = cx.rng.r(2, 15); let latent = cx.rng.r(1, pattern - 1); let m = cx.rng.r(pattern, pattern + 30); let w = cx.rng.r(1, 4);
        let r = rows(&mut cx.rng, m, w);
        cx.case(format!("{r:?}, pattern length {pattern}, latent {latent}"), || { close3("windows", &d::phase(&r, pattern, latent), &windows(&r, pattern, latent))?; Ok(true) });
        if !cx.more() { break; }
    }
}
