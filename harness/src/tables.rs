//! halo2 tables against the reference automaton.
use crate::engine::*;
use crate::explore::fnd;
use crate::families as fam;
use crate::refm::*;
use crate::report::{Check, Job};
use crate::subject::{self, Table};
use std::collections::{BTreeMap, BTreeSet, HashSet, VecDeque};

/// what a table says, with transitions that lead nowhere removed
pub struct Live<'a> { pub t: &'a Table, pub alive: BTreeSet<usize> }
impl<'a> Live<'a> {
    pub fn new(t: &'a Table) -> Live<'a> {
        let mut alive = BTreeSet::from([t.accept]);
        loop {
            let n = alive.len();
            for ((s, _), ts) in &t.edges { if ts.iter().any(|x| alive.contains(x)) { alive.insert(*s); } }
            if alive.len() == n { break; }
        }
        Live { t, alive }
    }
    pub fn step(&self, s: usize, b: u8) -> Vec<usize> { self.t.edges.get(&(s, b)).map(|v| v.iter().copied().filter(|x| self.alive.contains(x)).collect()).unwrap_or_default() }
}

/// product of table and reference from their start states: equality when `exact`, inclusion in the reference otherwise.
/// Returns the visited pairs (table state, reference state).
pub fn product(r: &Ref, t: &Table, exact: bool, st: &mut Stats) -> Result<BTreeSet<(usize, u32)>, Finding> {
    let l = Live::new(t);
    let bad = |w: &[u8], d: String| Err(Finding { kind: Kind::OutUnsound, msg: w.to_vec(), detail: d });
    let miss = |w: &[u8], d: String| Err(Finding { kind: Kind::OutMissed, msg: w.to_vec(), detail: d });
    let mut seen = BTreeSet::from([(t.start, 0u32)]);
    let mut q: VecDeque<((usize, u32), Vec<u8>)> = VecDeque::from([((t.start, 0), vec![])]);
    while let Some(((s, d), w)) = q.pop_front() {
        st.states += 1;
        st.messages += 1;
        let (ta, da) = (s == t.accept, r.det.acc[d as usize]);
        if ta && !da { return bad(&w, "the table accepts this string, which does not match".into()); }
        if exact && da && !ta { return miss(&w, "the table does not accept this string, which matches".into()); }
        if ta { st.accepting += 1; if st.sample.is_none() { st.sample = Some(format!("string \"{}\" is accepted in table state {s}", crate::util::bytes_show(&w))); } }
        for b in 1..=255u8 {
            let ts = l.step(s, b);
            let dt = r.det.trans[d as usize][b as usize];
            if ts.is_empty() && dt == DEAD { continue; }
            let mut w2 = w.clone();
            w2.push(b);
            if exact && ts.len() > 1 { return bad(&w2, format!("state {s} has {} transitions on byte {b}", ts.len())); }
            if exact && ts.is_empty() { return miss(&w2, format!("the table has no way to continue after this prefix of a match (state {s}, byte {b})")); }
            if !ts.is_empty() && dt == DEAD { return bad(&w2, format!("the table goes on (state {s}, byte {b}) after a string that is no prefix of a match")); }
            for x in ts {
                st.transitions += 1;
                if seen.insert((x, dt)) { q.push_back(((x, dt), w2.clone())); }
            }
        }
    }
    Ok(seen)
}

/// facts about the file itself
pub fn shape(t: &Table, caret: bool) -> Result<(), Finding> {
    let mut top = 0;
    let mut states = BTreeSet::new();
    for ((s, b), ts) in &t.edges {
        states.insert(*s);
        for x in ts { states.insert(*x); }
        if *b == 255 && !caret { return Err(fnd(Kind::Interface, format!("transition on byte 255 out of state {s} without a start anchor"))); }
    }
    if let Some(m) = states.iter().max() { top = *m; }
    if t.max != top.max(t.accept) { return Err(fnd(Kind::Interface, format!("maximal state index given as {}, the largest state is {top}", t.max))); }
    if !states.contains(&t.start) { return Err(fnd(Kind::Interface, format!("start state {} has no transition", t.start))); }
    Ok(())
}

/// compile for halo2; None if refused
pub fn tables(s: &Spec, substrs: bool, st: &mut Stats) -> Result<Option<(Ref, Table, BTreeMap<String, String>)>, Finding> {
    let Ok(r) = Ref::build(s) else { st.skipped += 1; return Ok(None) };
    st.configs += 1;
    if r.supported() { st.supported += 1; }
    let (res, f) = subject::gen_files(&s.config(), "T", Some(substrs), true, false);
    if !res.is_ok() { st.rejected += 1; return Ok(None); }
    let Some(a) = f.halo2.get("allstr.txt") else { return Err(fnd(Kind::Interface, "allstr.txt was not written".into())) };
    let t = subject::parse_allstr(a).map_err(|e| fnd(Kind::Interface, e))?;
    Ok(Some((r, t, f.halo2)))
}

pub fn check_table(s: &Spec, st: &mut Stats) -> Result<(), Finding> {
    let Some((r, t, _)) = tables(s, false, st)? else { return Ok(()) };
    if r.supported() { shape(&t, s.caret != Caret::None)?; }
    if let Some(((q, b), ts)) = t.edges.iter().find(|(_, ts)| ts.len() > 1) { return Err(fnd(Kind::Other, format!("state {q} has {} transitions on byte {b}: {ts:?}", ts.len()))); }
    product(&r, &t, r.supported(), st)?;
    Ok(())
}

/// section that consumes byte b in a reference state
fn label(r: &Ref, d: u32, b: u8) -> Option<usize> {
    let mut l = BTreeSet::new();
    for x in &r.sets[d as usize] { let (m, q) = r.sec_of(*x); if r.secs[m].trans[q as usize][b as usize] != DEAD { l.insert(m); } }
    if l.len() == 1 { l.into_iter().next() } else { None }
}
fn ids(v: &BTreeSet<usize>) -> String { format!("{:?}", v.iter().collect::<Vec<_>>()) }

pub fn check_substrs(s: &Spec, st: &mut Stats) -> Result<(), Finding> {
    let Some((r, t, files)) = tables(s, true, st)? else { return Ok(()) };
    let names: Vec<String> = files.keys().filter(|k| *k != "allstr.txt").cloned().collect();
    let want: Vec<String> = (0..r.n_public).map(|i| format!("substr_{i}.txt")).collect();
    if names.len() != want.len() || !want.iter().all(|w| names.contains(w)) { return Err(fnd(Kind::Interface, format!("{} public parts, substring tables written: {names:?}", r.n_public))); }
    if !r.supported() { return Ok(()); }
    let Ok(pairs) = product(&r, &t, true, st) else { return Ok(()) };
    let l = Live::new(&t);
    let secs: Vec<usize> = (0..r.secs.len()).filter(|m| r.public[*m].is_some()).collect();
    for (i, m) in secs.iter().enumerate() {
        let sub = subject::parse_substr(&files[&format!("substr_{i}.txt")]).map_err(|e| fnd(Kind::Interface, format!("substr_{i}.txt: {e}")))?;
        let (mut edges, mut starts, mut ends) = (BTreeSet::new(), BTreeSet::new(), BTreeSet::new());
        for (ts, d) in &pairs {
            for b in 1..=255u8 {
                let x = l.step(*ts, b);
                if x.is_empty() { continue; }
                match label(&r, *d, b) { Some(k) if k == *m => { edges.insert((*ts, x[0])); } Some(_) => {} None => return Ok(()) }
            }
            let set = &r.sets[*d as usize];
            let at = |m: usize, set: &Vec<u32>| set.iter().any(|x| { let (k, q) = r.sec_of(*x); k == m && r.secs[k].acc[q as usize] });
            if at(*m, set) { ends.insert(*ts); }
            if if *m == 0 { *ts == t.start } else { at(m - 1, set) } { starts.insert(*ts); }
        }
        let f = |k: Kind, d: String| Err(fnd(k, format!("substring table {i} (part {m}): {d}")));
        if let Some(e) = edges.iter().find(|e| !sub.edges.contains(e)) { return f(Kind::RevealInexact, format!("transition {} -> {} consumes the part but is not listed", e.0, e.1)); }
        if let Some(e) = sub.edges.iter().find(|e| !edges.contains(e)) {
            // transitions that no string of the automaton uses are harmless only if they do not exist
            let exists = (0..=255u8).any(|b| t.edges.get(&(e.0, b)).map(|v| v.contains(&e.1)).unwrap_or(false));
            return f(Kind::RevealUnsound, format!("transition {} -> {} is listed but {}", e.0, e.1, if exists { "consumes another part" } else { "does not exist" }));
        }
        if sub.starts != starts { return f(Kind::Other, format!("start states {}, the part begins in {}", ids(&sub.starts), ids(&starts))); }
        if sub.ends != ends { return f(Kind::Other, format!("end states {}, the part ends in {}", ids(&sub.ends), ids(&ends))); }
        st.validated += edges.len() as u64;
        st.revealing += 1;
        if st.sample.is_none() || i == 0 { st.sample = Some(format!("substring table {i}: starts {}, ends {}, transitions {edges:?}", ids(&starts), ids(&ends))); }
    }
    Ok(())
}

fn dedup(v: Vec<Spec>) -> Vec<Spec> { let mut seen = HashSet::new(); v.into_iter().filter(|s| seen.insert(crate::checks::key_of(s))).collect() }

pub fn pool(thorough: bool, masks: bool) -> Vec<Spec> {
    let b = if thorough { fam::AstBounds { single: 6, pair: 4, triple: 2, quad: true, anchored: 4, anchored_pair: 3 } } else { fam::AstBounds { single: 5, pair: 3, triple: 2, quad: true, anchored: 3, anchored_pair: 2 } };
    let b = if masks && !thorough { fam::AstBounds { single: 5, pair: 3, triple: 1, quad: true, anchored: 2, anchored_pair: 1 } } else { b };
    let mut v = fam::ast(&b);
    if masks { let a = ["a", "b", "c", "a?", "a*", "b+", "(a|b)", "ab", "(ab)*", "a?b"]; for x in a { for y in a { for z in a { if fam::canonical(&[x, y, z]) { for m in fam::masks(3) { v.push(fam::spec(&[(m[0], x), (m[1], y), (m[2], z)], Caret::None, false)); } } } } } }
    v.extend(fam::classes());
    v.extend(fam::class_asts(if thorough { 6 } else { 4 }));
    v.extend(fam::beside_anchors(true));
    v.extend(fam::beside_anchors(false));
    v.extend(fam::unicode());
    v.extend(fam::large());
    v.extend(fam::empties());
    v.extend(fam::lookalikes());
    v.extend(fam::repo_configs());
    if masks { dedup(v) } else { crate::checks::unmasked(v) }
}

pub fn check(id: &str, thorough: bool) -> Check {
    let all = id == "C09";
    let v = pool(thorough, !all);
    let jobs = v.into_iter().map(|s| { let k = crate::checks::key_of(&s); Job::new(k, move |st: &mut Stats| if all { check_table(&s, st) } else { check_substrs(&s, st) }) }).collect();
    Check { id: id.into(), jobs, bounds: vec![
        "configurations: every regex over {a,b,c} up to a size as one to four parts with every choice of public parts and anchors, class pairs, Unicode, size, look-alike and repository configurations".into(),
        "per configuration: the whole product of table and reference automaton, all non-zero bytes and the start marker 255, no bound on string length".into()],
        assumptions: vec![crate::checks::ASSUME_REF.into()] }
}
