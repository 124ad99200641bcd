//! The checks: which jobs decide which property.
use crate::engine::*;
use crate::explore::*;
use crate::families as fam;
use crate::refm::*;
use crate::report::{Check, Job};
use std::collections::HashSet;

pub fn key_of(s: &Spec) -> String { serde_json::to_string(&s.config().iter().map(|(p, r)| format!("{}{}", if *p { "pub:" } else { "" }, r)).collect::<Vec<_>>()).unwrap() }

fn dedup(v: Vec<Spec>) -> Vec<Spec> { let mut seen = HashSet::new(); v.into_iter().filter(|s| seen.insert(key_of(s))).collect() }
/// one representative per configuration text without the public marks
pub fn unmasked(v: Vec<Spec>) -> Vec<Spec> { let mut seen = HashSet::new(); v.into_iter().filter(|s| seen.insert(s.config().iter().map(|p| p.1.clone()).collect::<Vec<_>>())).collect() }

fn jobs(v: Vec<Spec>, tag: &str, j: Judge, plan: Plan) -> Vec<Job> {
    v.into_iter().map(|s| { let k = format!("{tag} {}", key_of(&s)); Job::new(k, move |st| explore(&s, &j, &plan, st)) }).collect()
}
/// the same with the transition-cover words split over several jobs
fn context_jobs(v: Vec<Spec>, j: Judge, all_bytes: bool, max_len: usize, chunk: usize) -> Vec<Job> {
    let mut out = vec![];
    for s in v {
        let Ok(r) = Ref::build(&s) else { continue };
        // classes of the reference alone: the words must not depend on the circuit
        let classes = joint_classes(&[&r.class_of]);
        let words = std::sync::Arc::new(context_words(&r, &classes, all_bytes, max_len));
        let n = words.len().div_ceil(chunk).max(1);
        for k in 0..n {
            let (s, words) = (s.clone(), words.clone());
            out.push(Job::new(format!("contexts {}/{n} {}", k + 1, key_of(&s)), move |st| {
                let strict = j.complete || j.rexact;
                let Some(l) = load(&s, strict, st)? else { return Ok(()) };
                run_contexts(&l, &words[k * chunk..((k + 1) * chunk).min(words.len())], &j, strict, st)
            }));
        }
    }
    out
}

/// instances with more bytes than a byte can count
fn long_jobs(v: Vec<Spec>, j: Judge, thorough: bool) -> Vec<Job> {
    let sizes: &[usize] = if thorough { &[130, 260, 300, 520] } else { &[300] };
    sizes.iter().flat_map(|n| v.iter().map(move |s| { let (s, n) = (s.clone(), *n); Job::new(format!("{n} bytes {}", key_of(&s)), move |st| explore_long(&s, n, &j, st)) })).collect()
}
pub const LONG: &str = "instances of 300 bytes (thorough: 130, 260, 300, 520): a shortest match at every place, matches back to back up to the whole message, every loop of the reference pumped to lengths around 128, 256 and the whole message; content ending right behind it and filled with junk";

pub const ASSUME_CIRCOM: &str = "generated circuits are executed by this harness's circom evaluator (circomlib's IsZero and LessThan taken with their documented meaning); it reproduces the expectations of the repository's circom tests";
pub const ASSUME_REF: &str = "regex-automata compiles a single part to an anchored DFA correctly (used through its API, never through the text the tool parses)";
pub const ASSUME_CLASS: &str = "bytes that neither the circuit nor the reference can tell apart are represented by one byte; the circuit's classes are computed by data-flow from every comparison it makes";

pub fn accept(id: &str, thorough: bool) -> Check {
    let sound = id == "C01";
    let j = Judge { sound, complete: !sound, ..Default::default() };
    let b = if thorough { fam::AstBounds { single: 5, pair: 4, triple: 2, quad: true, anchored: 4, anchored_pair: 3 } } else { fam::AstBounds { single: 4, pair: 3, triple: 2, quad: true, anchored: 2, anchored_pair: 1 } };
    let (cap, states) = if thorough { (20000, 60000) } else { (700, 6000) };
    let mut v = jobs(unmasked(fam::ast(&b)), "ast", j, Plan { cap, extra: 2, states, contexts: 0, max_len: 0 });
    let mut rest = fam::lookalikes();
    rest.extend(fam::repo_configs());
    rest.extend(fam::unicode());
    rest.extend(fam::large());
    rest.extend(fam::empties());
    rest.extend(fam::classes());
    rest.extend(fam::class_asts(if thorough { 6 } else { 5 }));
    v.extend(jobs(unmasked(rest), "pool", j, Plan { cap: if thorough { 40000 } else { 1500 }, extra: 3, states: if thorough { 200000 } else { 20000 }, contexts: 0, max_len: 0 }));
    v.extend(long_jobs(unmasked(fam::long_pool(true)), j, thorough));
    v.extend(crate::places::flags(j, thorough));
    Check { id: id.into(), jobs: v, bounds: vec![LONG.into(),
        format!("inline flags: every text of up to {} tokens out of a, b, parentheses, |, ^, ., (?i), (?-i), (?m), (?s), alone and before a part b, every message over a, A, b, line feed up to 4 bytes, judged by a regex engine on the whole text", if thorough { 5 } else { 4 }),
        format!("every regex up to size {} over {{a,b,c}} (one per language, letters up to renaming) as one part, every pair up to size {}, every triple up to size {}, quadruples over 8 shapes; every anchor combination up to sizes {}/{}; class, Unicode, size, look-alike and repository configurations", b.single, b.pair, b.triple, b.anchored, b.anchored_pair),
        format!("per circuit: every message over the joint byte classes of length 1, 2 and the largest length with at most {cap} messages; beyond it an explicit-state product search of the out slice with the reference covers every message of a larger length (state cap {states})") ],
        assumptions: vec![ASSUME_CIRCOM.into(), ASSUME_REF.into(), ASSUME_CLASS.into()] }
}

pub fn reveal(id: &str, thorough: bool) -> Check {
    let sound = id == "C03";
    let j = Judge { rsound: sound, rexact: !sound, ..Default::default() };
    let b = if thorough { fam::AstBounds { single: 5, pair: 3, triple: 2, quad: true, anchored: 4, anchored_pair: 2 } } else { fam::AstBounds { single: 4, pair: 3, triple: 1, quad: false, anchored: 2, anchored_pair: 1 } };
    let cap = if thorough { 20000 } else { 500 };
    let mut v = jobs(dedup(fam::ast(&b)), "ast", j, Plan { cap, extra: 0, states: 0, contexts: 0, max_len: 0 });
    let mut pool = fam::lookalikes();
    pool.extend(fam::unicode());
    pool.extend(fam::empties());
    v.extend(jobs(pool, "pool", j, Plan { cap: if thorough { 20000 } else { 1500 }, extra: 0, states: 0, contexts: 0, max_len: 0 }));
    let mut pool = fam::unicode();
    pool.extend(fam::large());
    pool.extend(fam::lookalikes());
    pool.extend(fam::repo_configs());
    v.extend(context_jobs(dedup(pool), j, thorough, 160, 4000));
    v.extend(jobs(fam::classes(), "classes", j, Plan { cap: if thorough { 20000 } else { 600 }, extra: 0, states: 0, contexts: 0, max_len: 0 }));
    v.extend(long_jobs(fam::long_pool(thorough), j, thorough));
    Check { id: id.into(), jobs: v, bounds: vec![LONG.into(),
        format!("every regex up to size {} over {{a,b,c}} as one part, pairs up to size {}, triples up to size {}{} with every choice of public parts; every anchor combination up to sizes {}/{}; class, Unicode, size, look-alike and repository configurations", b.single, b.pair, b.triple, if b.quad { ", quadruples over 8 shapes" } else { "" }, b.anchored, b.anchored_pair),
        format!("per circuit: every message over the joint byte classes of length 1, 2 and the largest length with at most {cap} messages"),
        "Unicode, size, look-alike and repository configurations: transition cover, i.e. every reference state x every byte class x {nothing, junk, an earlier match, an aborted match} before x {nothing, shortest completion, junk, junk and a further match, completion and a further match} after, padded and unpadded".into() ],
        assumptions: vec![ASSUME_CIRCOM.into(), ASSUME_REF.into(), ASSUME_CLASS.into()] }
}

pub fn anchors(id: &str, thorough: bool) -> Check {
    let start = id == "C05";
    let j = Judge { sound: true, complete: true, rsound: true, rexact: true };
    let (a, p) = if thorough { (4, 3) } else { (3, 2) };
    let all = fam::anchored(a, p);
    let v: Vec<Spec> = all.into_iter().chain(fam::lookalikes()).chain(fam::empties()).chain(fam::repo_configs()).chain(fam::beside_anchors(start)).filter(|s| if start { s.caret != Caret::None } else { s.dollar }).collect();
    let mut v = dedup(v);
    if !start { v.extend(fam::lookalikes().into_iter().filter(|s| s.show().contains('$') && !s.dollar)); } else { v.extend(fam::lookalikes().into_iter().filter(|s| s.show().contains('^') && s.caret == Caret::None)); }
    let v = dedup(v);
    let small: Vec<Spec> = v.iter().filter(|s| shortest_of(s) < 6).cloned().collect();
    let cap = if thorough { 20000 } else { 900 };
    let mut js = jobs(small, "anchored", j, Plan { cap, extra: 2, states: if thorough { 50000 } else { 4000 }, contexts: 0, max_len: 0 });
    let big: Vec<Spec> = v.iter().filter(|s| shortest_of(s) >= 6).cloned().collect();
    js.extend(jobs(big.clone(), "anchored", j, Plan { cap: 500, extra: 2, states: 20000, contexts: 0, max_len: 0 }));
    js.extend(context_jobs(big, j, false, 60, 4000));
    js.extend(long_jobs(fam::long_pool(false).into_iter().filter(|s| if start { s.caret != Caret::None } else { s.dollar }).collect(), j, thorough));
    js.extend(crate::places::anchors(start, thorough));
    Check { id: id.into(), jobs: js, bounds: vec![LONG.into(),
        format!("anchors anywhere: every text of up to {} tokens out of a, b, parentheses, |, *, ^, $ and of up to {} tokens also out of (?:, (?m), \\b, \\A, \\z and byte-oriented word boundaries {}, as the only part, before a part b and behind a part a: refused, or judged by a regex engine on the whole text for every message over a, b, space up to 4 bytes", if thorough { 7 } else { 6 }, if thorough { 5 } else { 4 }, if start { "that contain ^ or \\A" } else { "without ^ and \\A" }),
        format!("every {} over 9 alternatives before the caret, every regex up to size {a} as one part and every pair up to size {p} with either part public; escaped, bracketed and nested anchor look-alikes; anchored repository configurations", if start { "start-anchor form (^, (x|^))" } else { "end-anchored configuration" }), format!("every message over the joint byte classes of length 1, 2 and the largest length with at most {cap} messages, plus the product search for out")],
        assumptions: vec![ASSUME_CIRCOM.into(), ASSUME_REF.into(), ASSUME_CLASS.into()] }
}
fn shortest_of(s: &Spec) -> usize { Ref::build(s).map(|r| shortest(&r)).unwrap_or(0) }

pub fn build(id: &str, thorough: bool) -> Option<Check> {
    Some(match id {
        "C01" | "C02" => accept(id, thorough),
        "C03" | "C04" => reveal(id, thorough),
        "C05" | "C06" => anchors(id, thorough),
        "C07" => crate::classes::check(thorough),
        "C08" => crate::misc::c08(thorough),
        "C11" => crate::misc::c11(thorough),
        "C12" => crate::misc::c12(thorough),
        "C13" => crate::misc::c13(thorough),
        "C14" => crate::misc::c14(thorough),
        "C15" => crate::raw::check(thorough),
        "C16" => crate::extract::c16(thorough),
        "C17" => crate::extract::c17(thorough),
        "C18" => crate::extract::c18(thorough),
        "C19" => crate::shipped::c19(thorough),
        "C20" => crate::misc::c20(thorough),
        "C21" => crate::js::c21(thorough),
        "C22" => crate::misc::c22(thorough),
        "C23" => crate::conc::c23(thorough),
        "C09" | "C10" => crate::tables::check(id, thorough),
        _ => return None,
    })
}
