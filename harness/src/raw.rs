//! Raw mode: the circuit and tables of a raw regex, and substring definitions given as state transitions.
use crate::checks::*;
use crate::engine::*;
use crate::explore::*;
use crate::families as fam;
use crate::refm::*;
use crate::report::{Check, Job};
use crate::subject::{self, Out, Table};
use std::collections::BTreeSet;

type Pairs = Vec<Vec<(usize, usize)>>;
fn json(p: &Pairs) -> String { serde_json::json!({ "transitions": p.iter().map(|l| l.iter().map(|(a, b)| vec![*a, *b]).collect::<Vec<_>>()).collect::<Vec<_>>() }).to_string() }

/// circuit and table of a raw regex without substring definitions
fn plain(s: &Spec, plan: &Plan, st: &mut Stats) -> Result<(), Finding> {
    let Ok(r) = Ref::build(s) else { st.skipped += 1; return Ok(()) };
    st.configs += 1;
    let re = &s.config()[0].1;
    let must = r.supported() && r.secs.last().unwrap().n_acc() == 1 && !re.starts_with("(^)");
    let (res, f) = subject::gen_raw(re, None, "T", Some(false), true, true);
    match res { Out::Ok(()) => {} o => { st.rejected += 1; if must { return Err(fnd(Kind::Compile, format!("refused: {}", o.kind()))); } return Ok(()); } }
    if r.supported() { st.supported += 1; }
    let t = f.halo2.get("allstr.txt").ok_or(fnd(Kind::Interface, "allstr.txt was not written".into()))?;
    let t = subject::parse_allstr(t).map_err(|e| fnd(Kind::Interface, e))?;
    let exact = r.supported();
    if exact { crate::tables::shape(&t, s.caret != Caret::None)?; }
    crate::tables::product(&r, &t, exact, st)?;
    let text = f.circom.ok_or(fnd(Kind::Interface, "no circuit written".into()))?;
    let Some(l) = load_text(r, &text, "T", true, st)? else { return Ok(()) };
    explore_loaded(&l, &Judge { sound: true, complete: true, ..Default::default() }, plan, true, st)
}

/// the substring definitions tried for a table: each pair, all pairs, every subset of a small table, several lists at once
fn definitions(e: &[(usize, usize)], thorough: bool) -> Vec<Pairs> {
    let mut v: Vec<Pairs> = vec![vec![], vec![vec![]], vec![e.to_vec()]];
    if e.len() <= if thorough { 6 } else { 4 } {
        for m in 1u32..1 << e.len() { v.push(vec![(0..e.len()).filter(|i| m >> i & 1 == 1).map(|i| e[i]).collect()]); }
    } else {
        for x in e { v.push(vec![vec![*x]]); v.push(vec![e.iter().copied().filter(|y| y != x).collect()]); }
    }
    // every pair of transitions as two lists, in both orders
    for x in e.iter().take(6) { for y in e.iter().take(6) { v.push(vec![vec![*x], vec![*y]]); } }
    v.push(e.iter().map(|x| vec![*x]).collect());
    // listed backwards, and twice
    v.push(vec![e.iter().rev().copied().collect()]);
    v.push(vec![e.iter().chain(e).copied().collect()]);
    let mut seen = std::collections::HashSet::new();
    v.retain(|p| seen.insert(p.clone()));
    v
}
fn ids(v: &BTreeSet<usize>) -> String { format!("{:?}", v.iter().collect::<Vec<_>>()) }
fn defined(s: &Spec, cap: usize, thorough: bool, st: &mut Stats) -> Result<(), Finding> {
    let Ok(r) = Ref::build(s) else { st.skipped += 1; return Ok(()) };
    if !r.supported() { st.skipped += 1; return Ok(()); }
    let re = s.config()[0].1.clone();
    let (res, f) = subject::gen_raw(&re, None, "T", Some(false), true, true);
    if !res.is_ok() { st.rejected += 1; return Ok(()); }
    let Some(a) = f.halo2.get("allstr.txt") else { return Err(fnd(Kind::Interface, "allstr.txt was not written".into())) };
    let t = subject::parse_allstr(a).map_err(|e| fnd(Kind::Interface, e))?;
    // only with a correct table the numbering of its states means anything
    if crate::tables::product(&r, &t, true, &mut Stats::default()).is_err() { st.skipped += 1; return Ok(()); }
    let pairs: BTreeSet<(usize, usize)> = t.edges.iter().filter(|((_, b), _)| *b != 0).flat_map(|((s, _), v)| v.iter().map(move |x| (*s, *x))).collect();
    let pairs: Vec<(usize, usize)> = pairs.into_iter().collect();
    for d in definitions(&pairs, thorough) {
        st.configs += 1;
        let js = json(&d);
        let (res, f) = subject::gen_raw(&re, Some(&js), "T", Some(true), true, true);
        let at = |x: Finding| Finding { detail: format!("substring definitions {js}: {}", x.detail), ..x };
        if !res.is_ok() { return Err(at(fnd(Kind::Compile, format!("refused: {}", res.kind())))); }
        st.supported += 1;
        one(&r, &t, &d, &f, cap, st).map_err(at)?;
        // definitions are given to be revealed: also when nothing is said about it
        let (res, g) = subject::gen_raw(&re, Some(&js), "T", None, true, true);
        if !res.is_ok() || g.circom != f.circom || g.halo2 != f.halo2 { return Err(at(fnd(Kind::Other, "the output differs when reveal generation is left to its default".into()))); }
    }
    Ok(())
}
fn one(r: &Ref, t: &Table, d: &Pairs, f: &subject::Files, cap: usize, st: &mut Stats) -> Result<(), Finding> {
    let a = f.halo2.get("allstr.txt").ok_or(fnd(Kind::Interface, "allstr.txt was not written".into()))?;
    let t2 = subject::parse_allstr(a).map_err(|e| fnd(Kind::Interface, e))?;
    if (t2.start, t2.accept, t2.max, &t2.edges) != (t.start, t.accept, t.max, &t.edges) { return Err(fnd(Kind::Other, "the substring definitions change the transition table".into())); }
    if f.halo2.len() != d.len() + 1 { return Err(fnd(Kind::Interface, format!("{} substring definitions, tables written: {:?}", d.len(), f.halo2.keys().collect::<Vec<_>>()))); }
    for (i, l) in d.iter().enumerate() {
        let name = format!("substr_{i}.txt");
        let sub = f.halo2.get(&name).ok_or(fnd(Kind::Interface, format!("{name} was not written")))?;
        let sub = subject::parse_substr(sub).map_err(|e| fnd(Kind::Interface, format!("{name}: {e}")))?;
        let set: BTreeSet<(usize, usize)> = l.iter().copied().collect();
        if sub.edges != set { return Err(fnd(Kind::RevealInexact, format!("{name} lists {:?} instead of {set:?}", sub.edges))); }
        // where runs of listed transitions begin and end in the table
        let (mut entered, mut left) = (BTreeSet::from([t.start]), BTreeSet::from([t.accept]));
        for ((s, b), ts) in &t.edges { if *b == 0 { continue; } for x in ts { if !set.contains(&(*s, *x)) { left.insert(*s); entered.insert(*x); } } }
        let starts: BTreeSet<usize> = set.iter().map(|p| p.0).filter(|s| entered.contains(s)).collect();
        let ends: BTreeSet<usize> = set.iter().map(|p| p.1).filter(|s| left.contains(s)).collect();
        if sub.starts != starts { return Err(fnd(Kind::Other, format!("{name}: start states {}, the substring begins in {}", ids(&sub.starts), ids(&starts)))); }
        if sub.ends != ends { return Err(fnd(Kind::Other, format!("{name}: end states {}, the substring ends in {}", ids(&sub.ends), ids(&ends)))); }
    }
    let text = f.circom.as_ref().ok_or(fnd(Kind::Interface, "no circuit written".into()))?;
    let p = subject::link(text, "T").map_err(|e| fnd(Kind::Interface, format!("the generated circuit is malformed: {e}")))?;
    let fp = fingerprint(&subject::instance(&p, 2).map_err(|e| fnd(Kind::Interface, e))?);
    let alpha: Vec<u8> = joint_classes(&[&fp.class_of, &r.class_of]).iter().map(|c| rep(c)).collect();
    let n = fit(alpha.len(), cap, 7);
    let c = subject::instance(&p, n).map_err(|e| fnd(Kind::Interface, format!("msg_bytes={n}: {e}")))?;
    let lay = layout(&c, n, d.len()).map_err(|e| fnd(Kind::Interface, format!("msg_bytes={n}: {e}")))?;
    st.circuits += 1;
    let mut words: Vec<Vec<u8>> = vec![vec![]];
    for _ in 0..n { words = words.iter().flat_map(|w| alpha.iter().map(move |b| { let mut x = w.clone(); x.push(*b); x })).collect(); }
    let mut js = Stats::default();
    run_words(&c, &lay, n, &words, &mut |m, res| {
        let bad = |k: Kind, d: String| Err(Finding { kind: k, msg: m.to_vec(), detail: d });
        let (out, rv) = match res { Ok(x) => x, Err(e) => return bad(Kind::NoWitness, format!("no witness ({e:?})")) };
        js.messages += 1;
        if r.spec.dollar && Ref::content_len(m).is_none() { return Ok(()); }
        let chosen = r.chosen(m);
        if out != !chosen.is_empty() as i64 { return bad(if out == 1 { Kind::OutUnsound } else { Kind::OutMissed }, format!("out = {out}, the scan finds {} matches", chosen.len())); }
        let mut want = vec![vec![0i64; n]; d.len()];
        for (s, e) in &chosen {
            let mut q = t.start;
            for k in *s..*e {
                let b = if k == 0 { SOM } else { m[k - 1] };
                let Some(x) = t.edges.get(&(q, b)).and_then(|v| v.iter().next()) else { return bad(Kind::Other, "the match does not run through the table".into()) };
                if k > 0 { for (i, l) in d.iter().enumerate() { if l.contains(&(q, *x)) { want[i][k - 1] = b as i64; } } }
                q = *x;
            }
        }
        js.accepting += out as u64;
        if want.iter().flatten().any(|x| *x != 0) { js.revealing += 1; if js.sample.is_none() { js.sample = Some(format!("\"{}\" with {}: reveals {want:?}", crate::util::bytes_show(m), json(d))); } }
        for i in 0..d.len() { if rv[i] != want[i] { return bad(Kind::RevealInexact, format!("reveal{i} = {:?}, expected {:?}", rv[i], want[i])); } }
        Ok(())
    }, st)?;
    if st.sample.is_none() { st.sample = js.sample.clone(); }
    st.add(&js);
    Ok(())
}

/// raw texts: every regex up to a size with every anchor, classes, Unicode, long ones, and the parts of every family joined
fn pool(size: usize, classes: bool) -> Vec<Spec> {
    let mut v = vec![];
    let l = fam::languages(&["a", "b", "c"], size);
    for (x, _) in &l {
        let g = if x.contains('|') { format!("({x})") } else { x.clone() };
        for c in [Caret::None, Caret::Pure, Caret::Alt("c".into()), Caret::Alt("ab".into())] { for d in [false, true] {
            if !matches!(c, Caret::Alt(_)) && !fam::canonical(&[x]) { continue; }
            if matches!(c, Caret::Alt(_)) && x.len() > 3 { continue; }
            let y = if c == Caret::None && !d { x } else { &g };
            v.push(fam::spec(&[(false, y)], c.clone(), d));
        } }
    }
    for x in [fam::lookalikes(), fam::unicode(), fam::large(), if classes { fam::classes() } else { vec![] }] {
        for s in x {
            let p: String = s.parts.iter().map(|p| if p.1.contains('|') { format!("({})", p.1) } else { p.1.clone() }).collect();
            let mut t = fam::spec(&[(false, &p)], s.caret.clone(), s.dollar);
            if s.given.is_some() { t.given = Some(vec![(false, s.config().iter().map(|p| p.1.clone()).collect())]); }
            v.push(t);
        }
    }
    unmasked(v)
}

pub fn check(thorough: bool) -> Check {
    let size = if thorough { 6 } else { 4 };
    let plan = Plan { cap: if thorough { 8000 } else { 600 }, extra: 2, states: if thorough { 40000 } else { 4000 }, contexts: 0, max_len: 0 };
    let mut jobs: Vec<Job> = pool(size, true).into_iter().map(|s| Job::new(format!("raw {}", s.config()[0].1), move |st| plain(&s, &plan, st))).collect();
    let cap = if thorough { 3000 } else { 250 };
    let d = pool(if thorough { 4 } else { 3 }, thorough);
    for s in d { let big = Ref::build(&s).map(|r| r.det.acc.len() > 12).unwrap_or(true); if !big { jobs.push(Job::new(format!("substrings of {}", s.config()[0].1), move |st| defined(&s, cap, thorough, st))); } }
    jobs.extend(crate::places::raws(thorough));
    Check { id: "C15".into(), jobs, bounds: vec![
        format!("raw texts as written: every text of up to {} tokens out of a, b, [ab], space, line feed, (, (?:, ), |, *, ^, $, (?i): refused exactly when it is refused as the only part of a definition, else judged by a regex engine on every message over a, A, b, line feed, space up to 4 bytes", if thorough { 5 } else { 4 }),
        format!("every regex up to size {size} over {{a,b,c}} (one per language), alone and behind ^, (c|^) and (ab|^), with and without $; class pairs, Unicode, size and look-alike texts: the whole product of table and reference, every message over the joint byte classes up to {} messages per circuit", plan.cap),
        format!("substring definitions for each of the smaller ones: each transition, each set of transitions of a table of up to {} of them (else each and all but each), every two transitions as two lists, all as separate lists, reversed and repeated; every message up to {cap} per circuit", if thorough { 6 } else { 4 })],
        assumptions: vec![ASSUME_CIRCOM.into(), ASSUME_REF.into(), ASSUME_CLASS.into()] }
}
