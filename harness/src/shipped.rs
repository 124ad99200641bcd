//! The circuits shipped in circuits/common against the definitions they are shipped with.
use crate::checks::*;
use crate::circom::{self, Program};
use crate::engine::*;
use crate::explore::*;
use crate::families as fam;
use crate::refm::*;
use crate::report::{Check, Job};
use crate::subject::{self, Parsed};
use std::collections::BTreeSet;
use std::path::{Path, PathBuf};

fn dir() -> PathBuf { subject::repo().join("packages/circom/circuits/common") }
fn read(p: &Path) -> Result<String, String> { std::fs::read_to_string(p).map_err(|e| format!("{}: {e}", p.display())) }
/// a file and everything it includes; the helpers come with the harness's gates
fn gather(p: &Path, seen: &mut BTreeSet<PathBuf>, out: &mut Program) -> Result<(), String> {
    let p = p.canonicalize().map_err(|e| format!("{}: {e}", p.display()))?;
    if !seen.insert(p.clone()) { return Ok(()); }
    if p.file_name().map(|n| n == "regex_helpers.circom").unwrap_or(false) { return out.merge(subject::helpers()?); }
    let q = circom::parse(&read(&p)?).map_err(|e| format!("{}: {e}", p.display()))?;
    out.merge(&q)?;
    out.order.extend(q.order.iter().cloned());
    for i in &q.includes {
        let t = match i.strip_prefix("@zk-email/zk-regex-circom/") { Some(r) => subject::repo().join("packages/circom").join(r), None => p.parent().unwrap().join(i) };
        gather(&t, seen, out).map_err(|e| format!("{}: include {i}: {e}", p.display()))?;
    }
    Ok(())
}
fn program(stem: &str) -> Result<(Parsed, String), Finding> {
    let p = dir().join(format!("{stem}_regex.circom"));
    let e = |e: String| fnd(Kind::Interface, e);
    let text = read(&p).map_err(e)?;
    let own = circom::parse(&text).map_err(|x| e(format!("{}: {x}", p.display())))?;
    let [name] = &own.order[..] else { return Err(e(format!("{}: templates {:?}", p.display(), own.order))) };
    let want: String = stem.split('_').map(|w| format!("{}{}", w[..1].to_uppercase(), &w[1..])).collect::<String>() + "Regex";
    if *name != want { return Err(e(format!("{}: template {name}, expected {want}", p.display()))); }
    let mut prog = Program { templates: Default::default(), includes: vec![], order: vec![] };
    gather(&p, &mut BTreeSet::new(), &mut prog).map_err(e)?;
    Ok((Parsed { prog, name: want.clone() }, text))
}
/// all outputs of a template in a file for each message
pub fn outputs(p: &Path, name: &str, n: usize, msgs: &[Vec<i64>]) -> Result<Vec<Option<Vec<i64>>>, String> {
    let mut prog = Program { templates: Default::default(), includes: vec![], order: vec![] };
    gather(p, &mut BTreeSet::new(), &mut prog)?;
    let c = subject::instance(&Parsed { prog, name: name.into() }, n)?;
    Ok(msgs.iter().map(|m| c.eval(m, None).ok().map(|v| c.outs(&v).concat())).collect())
}
/// the repository's own circuit tests, with this harness's evaluator in the place of the circom compiler
pub fn own_tests(file: &str, st: &mut Stats) -> Result<(), Finding> {
    st.configs += 1;
    let d = subject::fresh("own");
    let o = std::process::Command::new("bash").args(["-c", "ulimit -S -v unlimited; exec node \"$@\"", "bash"]).arg(crate::report::verif().join("harness/js/own.js")).arg(subject::repo()).arg(file).arg(&d)
        .env("ZKMC_JSPKG", crate::report::verif().join("harness/target/jspkg")).env("ZKMC_BIN", std::env::current_exe().unwrap()).output().map_err(|e| fnd(Kind::Interface, format!("node: {e}")))?;
    let v: serde_json::Value = serde_json::from_slice(&o.stdout).map_err(|_| fnd(Kind::Interface, format!("{file}: {}", String::from_utf8_lossy(&o.stderr))))?;
    let n = v["witnesses"].as_u64().unwrap_or(0);
    st.messages += n; st.states += n; st.transitions += n; st.validated += v["expects"].as_u64().unwrap_or(0);
    st.accepting += v["passed"].as_u64().unwrap_or(0);
    st.sample = Some(format!("{file}: {} tests pass", v["passed"]));
    if let Some(f) = v["failed"].as_array().and_then(|f| f.first()) { return Err(fnd(Kind::Other, format!("{file}: {f}"))); }
    Ok(())
}
const LOCAL: &str = "[A-Za-z0-9!#$%&'*+=?\\-\\^_`{|}~./@]+";
/// the definition a circuit is shipped with: its JSON file; one circuit has only a comment that gives its regex
fn spec(stem: &str) -> Result<Spec, Finding> {
    if stem == "reversed_email_addr_with_name" { return Ok(fam::structure(stem, &[(false, ">".into()), (true, format!("[a-zA-Z0-9.\\-]+@{LOCAL}")), (false, "<.*".into())])); }
    let p = dir().join(format!("{stem}.json"));
    Ok(fam::structure(stem, &fam::read_json_parts(&read(&p).map_err(|e| fnd(Kind::Interface, e))?).map_err(|e| fnd(Kind::Interface, e))?))
}
fn loaded(stem: &str) -> Result<Loaded, Finding> {
    let mut r = Ref::build(&spec(stem)?).map_err(|e| fnd(Kind::Interface, e))?;
    r.force = true;
    let (p, _) = program(stem)?;
    let c0 = subject::instance(&p, 2).map_err(|e| fnd(Kind::Interface, e))?;
    let fp = fingerprint(&c0);
    let classes = joint_classes(&[&fp.class_of, &r.class_of]);
    let alpha = classes.iter().map(|c| rep(c)).collect();
    Ok(Loaded { r, p, alpha, classes, reducible: fp.reducible })
}
const ALL: Judge = Judge { sound: true, complete: true, rsound: true, rexact: true };
fn single(stem: &str, plan: &Plan, st: &mut Stats) -> Result<(), Finding> {
    let l = loaded(stem)?;
    st.configs += 1;
    if l.r.supported() { st.supported += 1; }
    if !l.reducible { st.unreduced += 1; }
    explore_loaded(&l, &ALL, plan, true, st)
}
/// Two definitions let a tag be read as the tag looked for or as any tag.  Headers with that tag twice, which DKIM
/// forbids and where greedy and lazy matching differ (a documented limitation), are judged for soundness only.
fn twice(stem: &str, w: &[u8]) -> bool {
    let tag: &[u8] = match stem { "body_hash" => b"; bh=", "timestamp" => b"; t=", _ => return false };
    let at = |t: &[u8]| -> Vec<usize> { w.windows(t.len()).enumerate().filter(|x| x.1 == t).map(|x| x.0).collect() };
    let (tags, heads) = (at(tag), at(b"dkim-signature:"));
    tags.windows(2).any(|p| !heads.iter().any(|h| p[0] < *h && *h < p[1]))
}
fn contexts(stem: &str, all: bool, max: usize, k: usize, n: usize, st: &mut Stats) -> Result<(), Finding> {
    let mut l = loaded(stem)?;
    st.configs += 1;
    let w = context_words(&l.r, &joint_classes(&[&l.r.class_of]), all, max);
    let c = w.len().div_ceil(n).max(1);
    let (bad, good): (Vec<Vec<u8>>, Vec<Vec<u8>>) = w[(k * c).min(w.len())..((k + 1) * c).min(w.len())].iter().cloned().partition(|w| twice(stem, w));
    run_contexts(&l, &good, &ALL, true, st)?;
    if bad.is_empty() { return Ok(()); }
    l.r.force = false;
    run_contexts(&l, &bad, &Judge { sound: true, rsound: true, ..Default::default() }, false, st)
}
fn words_job(stem: &str, w: &str, st: &mut Stats) -> Result<(), Finding> {
    let l = loaded(stem)?;
    st.configs += 1;
    run_contexts(&l, &[w.as_bytes().to_vec()], &ALL, true, st)
}
/// shipped definitions as words: the header's name with short values, alone and behind or before other lines
fn values(stem: &str, alpha: &[&str], len: usize, head: &str, tail: &str) -> Vec<Vec<u8>> {
    let _ = stem;
    let mut v = vec![String::new()];
    let mut last = v.clone();
    for _ in 0..len { last = last.iter().flat_map(|t| alpha.iter().map(move |c| format!("{t}{c}"))).collect(); v.extend(last.clone()); }
    let mut o = vec![];
    for x in v { for (a, b) in [("", ""), ("x:y\r\n", ""), ("", "z:\r\n")] { o.push(format!("{a}{head}{x}{tail}{b}").into_bytes()); } }
    o
}
// ---------------------------------------------------------------- wrappers
#[derive(Clone, Debug, PartialEq)]
enum Exp { None, Out(bool, Vec<i64>) }
struct Refs { all: Ref, addr: Ref, bracket: Ref }
fn masked(m: &[u8], r: &[bool]) -> Vec<u8> { m.iter().zip(r).map(|(b, k)| if *k { *b } else { 0 }).collect() }
fn with_name(r: &Ref, m: &[u8]) -> (bool, Vec<u8>) {
    let rev: Vec<u8> = m.iter().rev().copied().collect();
    let (o, v) = r.expect(&rev);
    let mut x = if o { masked(&rev, &v[0]) } else { vec![0; m.len()] };
    x.reverse();
    (o, x)
}
fn address(r: &Refs, m: &[u8]) -> Exp {
    let (o, v) = r.all.expect(m);
    if !o { return Exp::None; }
    let field = masked(m, &v[0]);
    let (no, nv) = with_name(&r.bracket, &field);
    let (ao, av) = r.addr.expect(&field);
    let x = if no { nv } else if ao { masked(&field, &av[0]) } else { vec![0; m.len()] };
    Exp::Out(no || ao, x.into_iter().map(|b| b as i64).collect())
}
fn wrapper(stem: &str, words: &[Vec<u8>], st: &mut Stats) -> Result<(), Finding> {
    let (p, _) = program(stem)?;
    st.configs += 1;
    let mk = |s: &str| -> Result<Ref, Finding> { Ref::build(&spec(s)?).map_err(|e| fnd(Kind::Interface, e)) };
    let r = Refs { all: mk(if stem.starts_with("to") { "to_all" } else { "from_all" })?, addr: mk("email_addr")?, bracket: mk("reversed_bracket")? };
    let top = words.iter().map(|w| w.len()).max().unwrap_or(1);
    let mut sizes: Vec<usize> = vec![top];
    let mut count = vec![0usize; top + 1];
    for w in words { count[w.len()] += 1; }
    let mut by: Vec<usize> = (1..top).collect();
    by.sort_by_key(|k| std::cmp::Reverse(count[*k]));
    sizes.extend(by.into_iter().take(1));
    for (i, n) in sizes.into_iter().enumerate() {
        let mut c = subject::instance(&p, n).map_err(|e| fnd(Kind::Interface, format!("msg_bytes={n}: {e}")))?;
        let lay = layout(&c, n, 1).map_err(|e| fnd(Kind::Interface, e))?;
        let mut keep = vec![lay.out];
        keep.extend(&lay.reveals[0]);
        c.restrict(&keep);
        st.circuits += 1;
        let ws: Vec<Vec<u8>> = words.iter().filter(|w| if i == 0 { w.len() <= n } else { w.len() == n }).cloned().collect();
        let mut js = Stats::default();
        run_words(&c, &lay, n, &ws, &mut |m, res| {
            let m = { let mut m = m.to_vec(); m.resize(n, 0); m };
            js.messages += 1;
            let got = match res { Ok((o, v)) => { if o != 0 && o != 1 { return Err(Finding { kind: Kind::OutNotBool, msg: m, detail: format!("out = {o}") }); } Exp::Out(o == 1, v[0].clone()) } Err(Fail::NoWitness) => Exp::None, Err(f) => return Err(Finding { kind: Kind::Other, msg: m, detail: format!("{f:?}") }) };
            let want = if stem == "email_addr_with_name" { let (o, x) = with_name(&r.bracket, &m); Exp::Out(o, x.into_iter().map(|b| b as i64).collect()) } else { address(&r, &m) };
            if let Exp::Out(true, v) = &want { js.accepting += 1; if v.iter().any(|x| *x != 0) { js.revealing += 1; if js.sample.is_none() { js.sample = Some(format!("\"{}\": reveals \"{}\"", crate::util::bytes_show(&m), crate::util::bytes_show(&v.iter().map(|x| *x as u8).collect::<Vec<_>>()))); } } }
            let same = match (&got, &want) { (Exp::Out(false, a), Exp::Out(false, _)) => a.iter().all(|x| *x == 0), (a, b) => a == b };
            if !same { return Err(Finding { kind: Kind::Other, msg: m, detail: format!("{stem}: {}, the circuits it combines give {}", show(&got), show(&want)) }); }
            Ok(())
        }, st)?;
        if st.sample.is_none() { st.sample = js.sample.clone(); }
        st.add(&js);
    }
    Ok(())
}
use crate::circom::Fail;
fn show(e: &Exp) -> String { match e { Exp::None => "no witness".into(), Exp::Out(o, v) => format!("out = {}, reveals \"{}\"", *o as u8, crate::util::bytes_show(&v.iter().map(|x| *x as u8).collect::<Vec<_>>())) } }
pub fn c19(thorough: bool) -> Check {
    let mut jobs = vec![];
    let mut stems: Vec<String> = vec![];
    if let Ok(rd) = std::fs::read_dir(dir()) { for e in rd.flatten() { if let Some(s) = e.file_name().to_string_lossy().strip_suffix("_regex.circom") { stems.push(s.to_string()); } } }
    stems.sort();
    // the circuits that exist today must stay
    for s in ["body_hash", "email_addr", "email_addr_with_name", "email_domain", "from_addr", "from_all", "message_id", "reversed_bracket", "reversed_email_addr_with_name", "subject_all", "timestamp", "to_addr", "to_all"] { if !stems.iter().any(|x| x == s) { stems.push(s.to_string()); } }
    let wrappers = ["email_addr_with_name", "from_addr", "to_addr"];
    let (cap, states) = if thorough { (100000, 300000) } else { (10000, 60000) };
    let chunks = 4;
    for s in stems {
        if wrappers.contains(&s.as_str()) {
            let head: &'static str = if s == "to_addr" { "to:" } else { "from:" };
            let len = if thorough { 6 } else { 5 };
            let alpha: &'static [&'static str] = &["a", "@", "<", ">", ".", " "];
            for x in alpha { let s = s.clone(); jobs.push(Job::new(format!("{s}: values that begin with {x:?}"), move |st| wrapper(&s, &values(&s, alpha, len, &format!("{head}{x}"), "\r\n"), st))); }
            let s2 = s.clone();
            jobs.push(Job::new(format!("{s}: unusual blocks"), move |st| {
                let mut w: Vec<Vec<u8>> = vec![];
                for a in ["", "\r\n", "x:\r\n", "to:q@r\r\n", "from:u@v\r\n"] { for h in ["from:", "to:", "From:", "xfrom:", ""] { for v in ["a@b", "<a@b>", "N <a@b>", "<x@y> <a@b>", "a@b <c>", "a@b,c@d", "<>", "a@b>", "<a@b", "\u{e9} <a@b.c>", "a b", "N <a@b> x"] { for t in ["", "\r\n", "\r\nsubject:z@z\r\n", "\r\n\r\nfrom:s@t\r\n"] { w.push(format!("{a}{h}{v}{t}").into_bytes()); } } } }
                w.push(vec![1; 40]);
                wrapper(&s2, &w, st)
            }));
            continue;
        }
        let plan = Plan { cap, extra: 2, states, contexts: 0, max_len: 0 };
        let s1 = s.clone();
        jobs.push(Job::new(format!("{s}: messages"), move |st| single(&s1, &plan, st)));
        for k in 0..chunks { let s = s.clone(); jobs.push(Job::new(format!("{s}: contexts {}/{chunks}", k + 1), move |st| contexts(&s, thorough, 110, k, chunks, st))); }
    }
    for (s, w) in [("body_hash", "dkim-signature:v=1; bh=a b; bh=Z9=;"), ("timestamp", "dkim-signature:v=1; t=1x; t=17;")] { jobs.push(Job::new(format!("{s}: {w:?}"), move |st| words_job(s, w, st))); }
    Check { id: "C19".into(), jobs, bounds: vec![
        format!("every shipped circuit with a definition: every message over the joint byte classes of length 1, 2 and the largest with at most {cap} messages, a product search of out beyond it up to a length with a match (state cap {states}), and words through every transition of the reference{} in every context up to 110 bytes", if thorough { ", every byte" } else { "" }),
        "the three wrappers: every value up to 6 (thorough: 7) characters of six behind their header name, and 1200 unusual blocks".into()],
        assumptions: vec![ASSUME_CIRCOM.into(), ASSUME_REF.into(), ASSUME_CLASS.into()] }
}
