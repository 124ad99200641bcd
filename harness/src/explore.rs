//! One configuration against the reference: compile it with the tool, load the circuit, run the engines.
use crate::circom::Circuit;
use crate::engine::*;
use crate::refm::*;
use crate::subject;

#[derive(Clone, Copy, Debug)]
pub struct Plan {
    /// messages per exhaustive enumeration (length is the largest that fits)
    pub cap: usize,
    /// product search for `out`: bytes beyond the enumeration, and its state cap (0 = no product search)
    pub extra: usize,
    pub states: usize,
    /// transition-cover words: 0 = none, 1 = class representatives, 2 = every byte
    pub contexts: u8,
    pub max_len: usize,
}

pub fn fnd(kind: Kind, detail: String) -> Finding { Finding { kind, msg: vec![], detail } }

pub struct Loaded { pub r: Ref, pub p: subject::Parsed, pub alpha: Vec<u8>, pub classes: Vec<Vec<u8>>, pub reducible: bool }

/// compile and link; None when there is nothing to judge (the reference does not define the config, or the tool refuses it)
pub fn load(s: &Spec, strict: bool, st: &mut Stats) -> Result<Option<Loaded>, Finding> {
    let Ok(r) = Ref::build(s) else { st.skipped += 1; return Ok(None) };
    st.configs += 1;
    let t = match subject::circom_text(&s.config(), "T", Some(true)) {
        subject::Out::Ok(t) => t,
        _ => { st.rejected += 1; return Ok(None); }
    };
    if r.supported() { st.supported += 1; }
    load_text(r, &t, "T", strict, st)
}
pub fn load_text(r: Ref, text: &str, name: &str, strict: bool, st: &mut Stats) -> Result<Option<Loaded>, Finding> {
    let strict = strict && r.supported();
    let p = match subject::link(text, name) { Ok(p) => p, Err(e) => { if strict { return Err(fnd(Kind::Interface, format!("the generated circuit is malformed: {e}"))); } st.skipped += 1; return Ok(None); } };
    let c0 = match subject::instance(&p, 2) { Ok(c) => c, Err(e) => { if strict { return Err(fnd(Kind::Interface, format!("the generated circuit is malformed: {e}"))); } st.skipped += 1; return Ok(None); } };
    let fp = fingerprint(&c0);
    if !fp.reducible { st.unreduced += 1; }
    let classes = joint_classes(&[&fp.class_of, &r.class_of]);
    let alpha = classes.iter().map(|c| rep(c)).collect();
    Ok(Some(Loaded { r, p, alpha, classes, reducible: fp.reducible }))
}

pub fn make(l: &Loaded, n: usize, j: &Judge, strict: bool, st: &mut Stats) -> Result<Option<(Circuit, Layout)>, Finding> {
    let strict = strict && l.r.supported();
    let mut c = match subject::instance(&l.p, n) { Ok(c) => c, Err(e) => { if strict { return Err(fnd(Kind::Interface, format!("msg_bytes={n}: {e}"))); } st.skipped += 1; return Ok(None); } };
    let lay = match layout(&c, n, l.r.n_public) { Ok(x) => x, Err(e) => { if strict { return Err(fnd(Kind::Interface, format!("msg_bytes={n}: {e}"))); } st.skipped += 1; return Ok(None); } };
    let mut keep = vec![lay.out];
    if j.reveals() { for r in &lay.reveals { keep.extend(r); } }
    c.restrict(&keep);
    st.circuits += 1;
    Ok(Some((c, lay)))
}

pub fn fit(alpha: usize, cap: usize, top: usize) -> usize { let mut n = 1; while n < top && alpha.saturating_pow(n as u32 + 1) <= cap { n += 1; } n }

/// every engine the plan asks for
pub fn explore(s: &Spec, j: &Judge, plan: &Plan, st: &mut Stats) -> Result<(), Finding> {
    let strict = j.complete || j.rexact;
    let Some(l) = load(s, strict, st)? else { return Ok(()) };
    explore_loaded(&l, j, plan, strict, st)
}
pub fn explore_loaded(l: &Loaded, j: &Judge, plan: &Plan, strict: bool, st: &mut Stats) -> Result<(), Finding> {
    let strict_w = strict;
    let a = l.alpha.len();
    let n = fit(a, plan.cap, 9);
    let mut sizes = vec![n];
    if n > 1 { sizes.push(1); }
    if n > 2 { sizes.push(2); }
    sizes.sort();
    for n in sizes {
        let Some((c, lay)) = make(l, n, j, strict, st)? else { return Ok(()) };
        enumerate(&c, &lay, &l.alpha, n, &l.r, j, strict_w, st)?;
    }
    let shortest = shortest(&l.r);
    if plan.states > 0 && (j.sound || j.complete) {
        let n2 = (n + plan.extra).max(shortest + 2);
        let Some((c, lay)) = make(l, n2, &Judge::default(), strict, st)? else { return Ok(()) };
        if let Search::Capped = product_out(&c, &lay, &l.alpha, n2, &l.r, j, plan.states, strict_w, st)? { st.capped += 1; }
    }
    if plan.contexts > 0 {
        let words = context_words(&l.r, &l.classes, plan.contexts > 1, plan.max_len);
        run_contexts(l, &words, j, strict, st)?;
    }
    Ok(())
}
/// evaluate the words: padded, and those of the two most frequent lengths without padding
pub fn run_contexts(l: &Loaded, words: &[Vec<u8>], j: &Judge, strict: bool, st: &mut Stats) -> Result<(), Finding> {
    let top = words.iter().map(|w| w.len()).max().unwrap_or(1).max(1);
    let mut count = vec![0usize; top + 1];
    for w in words { count[w.len()] += 1; }
    let mut by: Vec<usize> = (1..top).collect();
    by.sort_by_key(|k| std::cmp::Reverse(count[*k]));
    let mut runs: Vec<(usize, bool)> = vec![(top, false)];
    runs.extend(by.into_iter().take(2).filter(|k| count[*k] > 0).map(|k| (k, true)));
    for (n, exact) in runs {
        let Some((c, lay)) = make(l, n, j, strict, st)? else { return Ok(()) };
        let ws: Vec<Vec<u8>> = words.iter().filter(|w| if exact { w.len() == n } else { w.len() <= n }).cloned().collect();
        let mut js = Stats::default();
        run_words(&c, &lay, n, &ws, &mut |m, res| match res {
            Ok((out, rv)) => judge(&l.r, m, out, &rv, j, &mut js),
            Err(f) => if strict { Err(Finding { kind: Kind::NoWitness, msg: m.to_vec(), detail: format!("no witness ({f:?})") }) } else { Ok(()) },
        }, st)?;
        if st.sample.is_none() { st.sample = js.sample.clone(); }
        st.add(&js);
    }
    Ok(())
}
/// length of the shortest match in message bytes
pub fn shortest(r: &Ref) -> usize {
    let d = &r.det;
    let mut dist = vec![usize::MAX; d.acc.len()];
    dist[0] = 0;
    let mut q = std::collections::VecDeque::from([0u32]);
    while let Some(s) = q.pop_front() {
        if d.acc[s as usize] { return dist[s as usize]; }
        for b in 0..256 { let t = d.trans[s as usize][b]; if t != DEAD && dist[t as usize] == usize::MAX { dist[t as usize] = dist[s as usize] + 1; q.push_back(t); } }
    }
    0
}

/// long messages for an instance of n bytes: a match at every place, back to back, and with every loop pumped to
/// around the powers of two; each alone, and with the content ending right behind it
pub fn long_words(r: &Ref, classes: &[Vec<u8>], n: usize) -> Vec<Vec<u8>> {
    let d = &r.det;
    let k = d.acc.len();
    let syms: Vec<u8> = classes.iter().map(|c| rep(c)).filter(|b| *b != 0 && *b != SOM).collect();
    let bfs = |from: u32| { let mut a: Vec<Option<Vec<u8>>> = vec![None; k]; a[from as usize] = Some(vec![]); let mut q = vec![from]; let mut i = 0; while i < q.len() { let s = q[i]; i += 1; for b in &syms { let t = d.trans[s as usize][*b as usize]; if t != DEAD && a[t as usize].is_none() { let mut w = a[s as usize].clone().unwrap(); w.push(*b); a[t as usize] = Some(w); q.push(t); } } } a };
    let som = d.trans[0][SOM as usize];
    let mut fin: Vec<Option<Vec<u8>>> = (0..k).map(|s| if d.acc[s] { Some(vec![]) } else { None }).collect();
    loop {
        let mut ch = false;
        for s in 0..k { for b in &syms { let t = d.trans[s][*b as usize]; if t == DEAD { continue; } if let Some(f) = fin[t as usize].clone() { if fin[s].as_ref().map(|o| o.len() > f.len() + 1).unwrap_or(true) { let mut w = vec![*b]; w.extend(f); fin[s] = Some(w); ch = true; } } } }
        if !ch { break; }
    }
    let kill = syms.iter().copied().find(|b| d.trans[0][*b as usize] == DEAD);
    let mut out: Vec<Vec<u8>> = vec![vec![]];
    let mut put = |w: Vec<u8>| if w.len() <= n { if let Some(x) = kill { let mut v = w.clone(); v.resize(n, x); out.push(v); } out.push(w) };
    for (from, anchored) in [(0u32, false), (som, true)] {
        if from == DEAD { continue; }
        let acc = bfs(from);
        let Some(full) = fin[from as usize].clone() else { continue };
        if full.is_empty() || full.len() > n { continue; }
        if let Some(x) = kill { for i in 0..=n - full.len() { let mut w = vec![x; i]; w.extend(&full); put(w); if anchored && i > 2 { break; } } }
        for m in 1..=n / full.len() { if full.len() * m < 20 || m % (1 + 8 / full.len()) == 0 || m == n / full.len() { put(full.repeat(m)); } }
        for s in 0..k {
            let (Some(a), Some(f)) = (&acc[s], &fin[s]) else { continue };
            for b in &syms {
                let t = d.trans[s][*b as usize];
                if t == DEAD { continue; }
                // shortest way back to s
                let back = bfs(t)[s].clone();
                let Some(back) = back else { continue };
                let mut lp = vec![*b];
                lp.extend(back);
                let room = n.saturating_sub(a.len() + f.len());
                for len in [125usize, 127, 128, 129, 253, 254, 255, 256, 257, 258, room] { let m = len / lp.len(); if m == 0 || m * lp.len() > room { continue; } let mut w = a.clone(); w.extend(lp.repeat(m)); put(w.clone()); w.extend(f); put(w.clone()); if let (Some(x), false) = (kill, anchored) { let mut v = vec![x; 3]; v.extend(w); put(v); } }
            }
        }
    }
    out.sort();
    out.dedup();
    out
}
pub fn explore_long(s: &Spec, n: usize, j: &Judge, st: &mut Stats) -> Result<(), Finding> {
    let strict = j.complete || j.rexact;
    let Some(l) = load(s, strict, st)? else { return Ok(()) };
    let words = long_words(&l.r, &l.classes, n);
    let Some((c, lay)) = make(&l, n, j, strict, st)? else { return Ok(()) };
    let mut js = Stats::default();
    run_words(&c, &lay, n, &words, &mut |m, res| match res {
        Ok((out, rv)) => judge(&l.r, m, out, &rv, j, &mut js),
        Err(f) => if strict { Err(Finding { kind: Kind::NoWitness, msg: m.to_vec(), detail: format!("no witness ({f:?})") }) } else { Ok(()) },
    }, st)?;
    st.add(&js);
    Ok(())
}
