use crate::*;
use s2gpp::verif::utils as ut;
use s2gpp::verif::cluster_listener as cl;
//@block c12_nodes
pub fn c12_nodes(cx: &mut Cx) {
    for n in 1..cx.n(9, 40) { for own in 0..n { for fr in [false, true] {
        cx.case(format!("node {own} of {n}"), || {
            let v = ut::nodes(own, n, fr);
            let o = |k: usize| if k < n && k != own { Some(k) } else { None };
            let s = |k: usize, id: &str| o(k).map(|k| (k, id.to_string()));
            eq("len_incl_own", v.n, n)?; eq("len", v.len, n - 1)?; eq("own index", v.own, own)?;
            let (nx, pv) = ((own + 1) % n, (own + n - 1) % n);
            eq("next", v.next, o(nx))?; eq("previous", v.prev, o(pv))?; eq("main node", v.main, o(0))?;
            eq("get", v.get, (0..n + 2).map(o).collect::<Vec<_>>())?; eq("get_as", v.get_as, (0..n + 2).map(|k| s(k, "X")).collect::<Vec<_>>())?;
            eq("get_next_as", v.next_as, s(nx, "Y"))?; eq("get_prev_as", v.prev_as, s(pv, "Z"))?;
            eq("all_connected", (v.all_connected, v.not_connected), (true, false))?;
            eq("iter", v.iter, (0..n).filter_map(o).map(|k| (k, k)).collect::<Vec<_>>())?;
            eq("change_ids", v.changed, (0..n).filter_map(|k| s(k, "V")).collect::<Vec<_>>())?;
            eq("every node in order, itself at its index", v.any, (0..n).map(|k| s(k, "W")).collect::<Vec<_>>())?;
            eq("every node in order, as they are", v.any_plain, (0..n).map(|k| s(k, "")).collect::<Vec<_>>())?;
            eq("nodes", v.any_len, n)?;
            Ok(n > 1)
        });
        if !cx.more() { return; }
    } } }
}
//@block c12_listen
pub fn c12_listen(cx: &mut Cx) {
    let shuffle = |r: &mut rng::Rng, v: &mut Vec<usize>| { for i in (1..v.len()).rev() { let j = r.r(0, i); v.swap(i, j); } };
    for _ in 0..cx.n(400, 8000) {
        let n = cx.rng.r(2, 6); let own = cx.rng.r(0, n - 1); let is_main = cx.rng.b();
        let main = if is_main { own } else { (own + cx.rng.r(1, n - 1)) % n };
        let mut order: Vec<usize> = (0..n).filter(|i| *i != own).collect(); shuffle(&mut cx.rng, &mut order);
        let mut list: Vec<usize> = (0..n).filter(|i| *i != main).collect(); shuffle(&mut cx.rng, &mut list); list.insert(0, main);
        let mut ops: Vec<cl::Op> = order.iter().map(|i| cl::Op::Join(*i)).collect();
        if !is_main { let at = cx.rng.r(0, n - 1); ops.insert(at, cl::Op::List(list.clone())); }
        let (ops2, l2) = (ops.clone(), list.clone());
        cx.case(format!("node {own} of {n}, main node {main}: {ops:?}"), || {
            let (seen, mut sent) = cl::listen(n, own, main, &ops2);
            for s in &seen[..seen.len() - 1] { eq("numbering before everybody is known", s.clone(), vec![])?; }
            let table = |l: &Vec<usize>| l.iter().enumerate().filter(|x| *x.1 != own).map(|(i, a)| (i, *a)).collect::<Vec<_>>();
            let last = seen.last().unwrap().clone();
            if is_main {
                sent.sort();
                eq("the list goes once to everyone", sent.iter().map(|x| x.0).collect::<Vec<_>>(), (0..n).filter(|k| *k != own).collect::<Vec<_>>())?;
                let l = sent[0].1.clone();
                for s in &sent { eq("the same list for everyone", s.1.clone(), l.clone())?; }
                let mut m = l.clone(); m.sort(); eq("every member once", m, (0..n).collect::<Vec<_>>())?; eq("the main node is first", l[0], own)?;
                eq("own numbering", last, table(&l))?;
            } else {
                eq("lists sent", sent, vec![])?; eq("own numbering", last, table(&l2))?;
            }
            Ok(true)
        });
        if !cx.more() { break; }
    }
}
//@block c12_start
/// training starts when everybody is known and the numbering is there, with that numbering
pub fn c12_start(cx: &mut Cx) {
    for _ in 0..cx.n(60, 1000) {
        let n = cx.rng.r(2, 5); let own = cx.rng.r(0, n - 1); let is_main = cx.rng.b();
        let main = if is_main { own } else { (own + cx.rng.r(1, n - 1)) % n };
        let mut order: Vec<usize> = (0..n).filter(|i| *i != own).collect(); cx.rng.shuffle(&mut order);
        let mut list: Vec<usize> = (0..n).filter(|i| *i != main).collect(); cx.rng.shuffle(&mut list); list.insert(0, main);
        let mut ops: Vec<cl::Op> = order.iter().map(|i| cl::Op::Join(*i)).collect();
        if !is_main { let at = cx.rng.r(0, n - 1); ops.insert(at, cl::Op::List(list.clone())); }
        cx.case(format!("node {own} of {n}, main node {main}: {ops:?}"), || {
            let seen = cl::started(n, own, main, &ops);
            eq("steps", seen.len(), ops.len())?;
            for s in &seen[..seen.len() - 1] { eq("started before everybody is known", s.1.clone(), vec![])?; }
            let (me, others) = seen.last().unwrap().clone();
            let l: Vec<usize> = if is_main { let mut v: Vec<usize> = others.iter().map(|x| x.1).collect(); v.insert(0, own); v } else { list.clone() };
            eq("the other nodes training was started with", others, l.iter().enumerate().filter(|x| *x.1 != own).map(|(i, a)| (i, *a)).collect::<Vec<_>>())?;
            eq("own number", me, l.iter().position(|x| *x == own).unwrap())?;
            eq("nodes", l.len(), n)?;
            Ok(true)
        });
        if !cx.more() { break; }
    }
}
