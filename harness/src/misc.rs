//! Witness uniqueness, well-formedness, refusals, front ends, histories, padding, helper gates.
use crate::checks::*;
use crate::circom::{self, Circuit};
use crate::engine::*;
use crate::explore::*;
use crate::families as fam;
use crate::refm::*;
use crate::report::{Check, Job};
use crate::subject::{self, Files, Out};
use std::collections::{BTreeMap, BTreeSet};

// ------------------------------------------------------------------ C08
/// prover choices: every alternative value of every free signal on every enumerated message
fn choices(c: &Circuit, msgs: &[Vec<i64>], st: &mut Stats) -> Result<(), Finding> {
    if let Some(e) = c.degree_errors.first() { return Err(fnd(Kind::Interface, format!("not a quadratic constraint system: {e}"))); }
    if c.outputs.iter().any(|(_, s)| s.iter().any(|x| x.is_none())) { return Err(fnd(Kind::Interface, "an output element is never constrained".into())); }
    for m in msgs {
        st.messages += 1;
        st.states += 1;
        let Ok(base) = c.eval(m, None) else { continue };
        let want = c.outs(&base);
        st.accepting += (want[0][0] == 1) as u64;
        for (slot, name) in &c.choices {
            for x in [0i64, 1, 2, 255, -1, base[*slot as usize] + 1] {
                if x == base[*slot as usize] { continue; }
                st.transitions += 1;
                st.states += 1;
                if let Ok(v) = c.eval(m, Some((*slot, x))) {
                    if c.outs(&v) != want { return Err(Finding { kind: Kind::Nondet, msg: m.iter().map(|x| *x as u8).collect(), detail: format!("the prover may set {name} to {x} instead of {}: outputs {:?} instead of {want:?}", base[*slot as usize], c.outs(&v)) }); }
                }
            }
        }
    }
    Ok(())
}
fn all_msgs(alpha: &[u8], n: usize) -> Vec<Vec<i64>> {
    let mut v: Vec<Vec<i64>> = vec![vec![]];
    for _ in 0..n { v = v.into_iter().flat_map(|m| alpha.iter().map(move |b| { let mut x = m.clone(); x.push(*b as i64); x })).collect(); }
    v
}
/// values no byte has
fn foreign() -> Vec<i64> {
    let mut v: Vec<i64> = (255..=1100).collect();
    for k in 11..48 { for d in [-256i64, -255, -1, 0, 1, 97, 254, 255, 256] { v.push((1i64 << k) + d); } }
    for k in 2..600 { v.push(-k); }
    for k in 10..48 { for d in [-97i64, -1, 0, 1, 97, 255] { v.push(-(1i64 << k) + d); } }
    v
}
fn witness(s: &Spec, n_choice: usize, n_range: usize, st: &mut Stats) -> Result<(), Finding> {
    let Some(l) = load(s, true, st)? else { return Ok(()) };
    let n = fit(l.alpha.len(), n_choice, 4);
    let c = subject::instance(&l.p, n).map_err(|e| fnd(Kind::Interface, e))?;
    st.circuits += 1;
    choices(&c, &all_msgs(&l.alpha, n), st)?;
    for n in 1..=n_range {
        let c = subject::instance(&l.p, n).map_err(|e| fnd(Kind::Interface, e))?;
        st.circuits += 1;
        for k in 0..n {
            for fill in if n == 1 { &l.alpha[..1] } else { &l.alpha[..] } {
                for b in 0..=254i64 { let mut m = vec![*fill as i64; n]; m[k] = b; st.messages += 1; st.states += 1; st.transitions += 1; if let Err(e) = c.eval(&m, None) { return Err(Finding { kind: Kind::NoWitness, msg: m.iter().map(|x| *x as u8).collect(), detail: format!("no witness ({e:?})") }); } }
                for b in foreign() { let mut m = vec![*fill as i64; n]; m[k] = b; st.states += 1; st.transitions += 1; if c.eval(&m, None).is_ok() { return Err(Finding { kind: Kind::Other, msg: vec![], detail: format!("message element {k} of {n} may be {b}: {m:?} has a witness") }); } }
            }
        }
    }
    if st.sample.is_none() { st.sample = Some(format!("{} signals, {} free choices", c.signals, c.choices.len())); }
    Ok(())
}
/// the field element -1: the comparison used as range check lets it pass
fn minus_one(s: &Spec, st: &mut Stats) -> Result<(), Finding> {
    let Some(l) = load(s, true, st)? else { return Ok(()) };
    for n in 1..=2usize {
        let c = subject::instance(&l.p, n).map_err(|e| fnd(Kind::Interface, e))?;
        for k in 0..n { let mut m = vec![97i64; n]; m[k] = -1; st.states += 1; st.messages += 1; if c.eval(&m, None).is_ok() { return Err(Finding { kind: Kind::Other, msg: vec![], detail: format!("message element {k} of {n} may be -1 (the field element p-1)") }); } }
    }
    Ok(())
}
pub fn c08(thorough: bool) -> Check {
    let b = if thorough { fam::AstBounds { single: 5, pair: 3, triple: 2, quad: true, anchored: 3, anchored_pair: 2 } } else { fam::AstBounds { single: 4, pair: 2, triple: 1, quad: true, anchored: 2, anchored_pair: 1 } };
    let mut v = fam::ast(&b);
    for x in [fam::classes(), fam::unicode(), fam::large(), fam::empties(), fam::lookalikes(), fam::repo_configs()] { v.extend(x); }
    let mut seen = std::collections::HashSet::new();
    v.retain(|s| seen.insert(key_of(s)));
    // the range check is the same code in every circuit: exhaustive positions and values on the first of each shape
    let mut jobs: Vec<Job> = v.into_iter().enumerate().map(|(i, s)| { let r = if i % if thorough { 3 } else { 16 } == 0 { 2 } else { 0 }; Job::new(key_of(&s), move |st| witness(&s, if thorough { 2000 } else { 150 }, r, st)) }).collect();
    let s = fam::spec(&[(true, "a")], Caret::None, false);
    jobs.push(Job::new("element -1", move |st| minus_one(&s, st)));
    jobs.extend(helper_jobs(thorough, true));
    Check { id: "C08".into(), jobs, bounds: vec![format!("every message over the joint byte classes up to {} messages per circuit, with every other value (0, 1, 2, 255, -1, honest+1) of every signal the constraints leave to the prover", if thorough { 2000 } else { 150 }), "every byte 0..254 and every value 255..1100, around every power of two up to 2^48 and every negative value down to -600 at every position of circuits of 1 and 2 bytes".into()],
        assumptions: vec![ASSUME_CIRCOM.into(), "circomlib's IsZero and LessThan admit exactly one output for every input (LessThan only where its bit decomposition exists)".into(), "free signals are varied one at a time".into()] }
}

// ------------------------------------------------------------------ C22
/// every gate of the helper library that takes 0/1 inputs
pub fn helper_jobs(thorough: bool, unique_only: bool) -> Vec<Job> {
    let top = if thorough { 14 } else { 10 };
    let mut jobs = vec![];
    let tag = if unique_only { "helper choices " } else { "helper " };
    let gate = |name: &'static str, n: Option<usize>, k: usize, f: Box<dyn Fn(&[i64]) -> i64 + Send + Sync>| -> Job {
        Job::new(format!("{tag}{name}{}", n.map(|n| format!("({n})")).unwrap_or_default()), move |st| {
            let h = subject::helpers().map_err(|e| fnd(Kind::Interface, e))?;
            // a helper nothing uses any more may go
            if !h.templates.contains_key(name) { st.skipped += 1; return Ok(()); }
            st.configs += 1;
            let args: Vec<i64> = n.into_iter().map(|x| x as i64).collect();
            let c = circom::elaborate(h, name, &args).map_err(|e| fnd(Kind::Interface, format!("{name}: {e}")))?;
            if c.n_inputs != k || c.outputs.len() != 1 { return Err(fnd(Kind::Interface, format!("{name}: {} inputs, {} outputs", c.n_inputs, c.outputs.len()))); }
            st.circuits += 1;
            let msgs: Vec<Vec<i64>> = if k <= top { (0..1u32 << k).map(|m| (0..k).map(|i| (m >> i & 1) as i64).collect()).collect() } else {
                // only the number of ones and their places matter to a sum: none, each one, each pair, all but one, all
                let mut v = vec![vec![0; k], vec![1; k]];
                for i in 0..k { let mut m = vec![0; k]; m[i] = 1; v.push(m); let mut m = vec![1; k]; m[i] = 0; v.push(m); v.push((0..k).map(|x| (x <= i) as i64).collect()); for j in i + 1..if k > 130 { 0 } else { k } { let mut m = vec![0; k]; m[i] = 1; m[j] = 1; v.push(m); } }
                v
            };
            if unique_only { return choices(&c, &msgs, st); }
            for m in &msgs {
                st.messages += 1;
                st.states += 1;
                st.transitions += k as u64;
                let v = c.eval(m, None).map_err(|e| fnd(Kind::NoWitness, format!("{name} has no witness for {m:?} ({e:?})")))?;
                let got = c.outs(&v)[0][0];
                if got != f(m) { return Err(fnd(Kind::OutUnsound, format!("{name}{m:?} = {got}, expected {}", f(m)))); }
                st.accepting += (got == 1) as u64;
            }
            st.sample = Some(format!("{name} over {} assignments of {k} inputs", msgs.len()));
            Ok(())
        })
    };
    for n in (1..=top).chain([16, 31, 64, 120, 127, 128, 129, 255, 256, 257, 258, 513]) {
        jobs.push(gate("MultiOR", Some(n), n, Box::new(|m| m.iter().any(|x| *x == 1) as i64)));
        jobs.push(gate("MultiNOR", Some(n), n, Box::new(|m| !m.iter().any(|x| *x == 1) as i64)));
    }
    jobs.push(gate("ORAnd", None, 3, Box::new(|m| ((m[0] == 1 || m[1] == 1) && m[2] == 1) as i64)));
    // accumulator: counts non-zero inputs of any value
    if !unique_only {
        jobs.push(Job::new("helper IsNotZeroAcc", move |st| {
            let h = subject::helpers().map_err(|e| fnd(Kind::Interface, e))?;
            if !h.templates.contains_key("IsNotZeroAcc") { st.skipped += 1; return Ok(()); }
            st.configs += 1;
            let c = circom::elaborate(h, "IsNotZeroAcc", &[]).map_err(|e| fnd(Kind::Interface, e))?;
            for acc in 0..300i64 { for x in 0..=255i64 {
                st.messages += 1; st.states += 1; st.transitions += 1;
                let v = c.eval(&[acc, x], None).map_err(|e| fnd(Kind::NoWitness, format!("{e:?}")))?;
                let got = c.outs(&v)[0][0];
                let want = acc + (x != 0) as i64;
                if got != want { return Err(fnd(Kind::OutUnsound, format!("IsNotZeroAcc(acc={acc}, in={x}) = {got}, expected {want}"))); }
            } }
            st.sample = Some("IsNotZeroAcc over acc 0..299 and in 0..255".into());
            Ok(())
        }));
    }
    jobs
}
pub fn c22(thorough: bool) -> Check {
    Check { id: "C22".into(), jobs: helper_jobs(thorough, false).into_iter().chain(helper_jobs(thorough, true)).collect(), bounds: vec![format!("every assignment of 0/1 inputs up to {} inputs; none, each, each pair, all but each, the first few and all of 16 to 513 inputs; IsNotZeroAcc over acc 0..299 and every byte", if thorough { 14 } else { 10 })], assumptions: vec![ASSUME_CIRCOM.into()] }
}

// ------------------------------------------------------------------ C12
fn last_single(r: &Ref) -> bool { let d = r.secs.last().unwrap(); !d.nullable() && d.n_acc() == 1 }
fn wellformed(text: &str, np: usize, sizes: &[usize], st: &mut Stats) -> Result<(), Finding> {
    let p = subject::link(text, "T").map_err(|e| fnd(Kind::Interface, format!("the generated circuit is malformed: {e}")))?;
    for n in sizes {
        let c = subject::instance(&p, *n).map_err(|e| fnd(Kind::Interface, format!("msg_bytes={n}: {e}")))?;
        st.circuits += 1;
        st.states += 1;
        st.transitions += c.instrs.len() as u64;
        st.validated += 1;
        layout(&c, *n, np).map_err(|e| fnd(Kind::Interface, format!("msg_bytes={n}: {e}")))?;
        if let Some(e) = c.degree_errors.first() { return Err(fnd(Kind::Interface, format!("msg_bytes={n}: not a quadratic constraint: {e}"))); }
        if c.eval(&vec![0; *n], None).is_err() { return Err(fnd(Kind::NoWitness, format!("msg_bytes={n}: no witness for the empty message"))); }
    }
    Ok(())
}
fn compiles(s: &Spec, thorough: bool, st: &mut Stats) -> Result<(), Finding> {
    let Ok(r) = Ref::build(s) else { st.skipped += 1; return Ok(()) };
    st.configs += 1;
    // a group around nothing but the caret is not a form the documentation gives
    let must = r.unambiguous && last_single(&r) && !s.config()[0].1.starts_with("(^)");
    if must { st.supported += 1; }
    for sub in [true, false] {
        if !sub && !thorough && s.config().iter().any(|p| !p.0) { continue; }
        let (res, f) = subject::gen_files(&s.config(), "T", Some(sub), true, true);
        match res {
            Out::Ok(()) => {
                let Some(t) = f.circom else { return Err(fnd(Kind::Interface, "no circuit written".into())) };
                wellformed(&t, if sub { r.n_public } else { 0 }, if thorough { &[1, 2, 3, 5] } else if sub { &[1, 3] } else { &[2] }, st)?;
                let a = f.halo2.get("allstr.txt").ok_or(fnd(Kind::Interface, "no allstr.txt written".into()))?;
                subject::parse_allstr(a).map_err(|e| fnd(Kind::Interface, e))?;
                st.accepting += 1;
                if st.sample.is_none() { st.sample = Some(format!("{} bytes of circuit, {} tables", t.len(), f.halo2.len())); }
            }
            o => { st.rejected += 1; if must { return Err(fnd(Kind::Compile, format!("refused: {}", o.kind()))); } if let Out::Panic(e) = o { return Err(fnd(Kind::Compile, format!("panic: {e}"))); } }
        }
    }
    Ok(())
}
pub fn c12(thorough: bool) -> Check {
    let v = crate::tables::pool(thorough, true);
    let mut extra = vec![];
    // nesting, counted repetition, every operator on every shape
    let base = ["a", "ab", "(a|b)", "[a-c]", "(ab|c)", "é", "\\d", "a?b"];
    for x in base { for o in ["+", "*", "?", "{2}", "{1,2}", "{2,}", "{0,2}", "{3}", "+?", "*?"] { for t in ["x", "[x-z]", "\\."] { extra.push(fam::spec(&[(true, &format!("({x}){o}")), (false, t)], Caret::None, false)); extra.push(fam::spec(&[(true, &format!("({x}){o}{t}"))], Caret::Pure, false)); extra.push(fam::spec(&[(true, &format!("({x}){o}{t}"))], Caret::None, true)); } } }
    let mut seen = std::collections::HashSet::new();
    let jobs = v.into_iter().chain(extra).filter(|s| seen.insert(key_of(s))).map(|s| Job::new(key_of(&s), move |st: &mut Stats| compiles(&s, thorough, st))).collect();
    Check { id: "C12".into(), jobs, bounds: vec!["configurations: every regex over {a,b,c} up to a size as one to four parts with every choice of public parts and anchors, class pairs, Unicode, size, look-alike and repository configurations, every operator on eight shapes; both back ends, with and without reveals; circuits of 1 and 3 bytes (without reveals, all parts public: 2 bytes; thorough: 1, 2, 3 and 5) elaborated in full".into()], assumptions: vec![ASSUME_CIRCOM.into(), ASSUME_REF.into()] }
}

// ------------------------------------------------------------------ C20
fn padding(s: &Spec, cap: usize, st: &mut Stats) -> Result<(), Finding> {
    let Some(l) = load(s, false, st)? else { return Ok(()) };
    let alpha: Vec<u8> = l.alpha.iter().copied().filter(|b| *b != 0).collect();
    let n = fit(alpha.len(), cap, 7);
    let (Ok(c0), sizes) = (subject::instance(&l.p, n), [n + 1, n + 2, n + 5]) else { st.skipped += 1; return Ok(()) };
    let lay0 = match layout(&c0, n, l.r.n_public) { Ok(x) => x, Err(_) => { st.skipped += 1; return Ok(()) } };
    let words: Vec<Vec<u8>> = (1..=n).flat_map(|k| all_msgs(&alpha, k)).map(|m| m.into_iter().map(|x| x as u8).collect()).collect();
    type Res = BTreeMap<Vec<u8>, Option<(i64, Vec<Vec<i64>>)>>;
    let run = |c: &Circuit, lay: &Layout, n: usize, st: &mut Stats| -> Result<Res, Finding> {
        let mut m: Res = BTreeMap::new();
        run_words(c, lay, n, &words, &mut |w, r| { let k = w.iter().rposition(|b| *b != 0).map(|i| i + 1).unwrap_or(0); m.insert(w[..k].to_vec(), r.ok()); Ok(()) }, st)?;
        Ok(m)
    };
    let want = run(&c0, &lay0, n, st)?;
    st.circuits += 1;
    for k in sizes {
        let c = subject::instance(&l.p, k).map_err(|e| fnd(Kind::Interface, format!("msg_bytes={k}: {e}")))?;
        let lay = layout(&c, k, l.r.n_public).map_err(|e| fnd(Kind::Interface, format!("msg_bytes={k}: {e}")))?;
        st.circuits += 1;
        let got = run(&c, &lay, k, st)?;
        for (w, g) in &got {
            st.messages += 1;
            let f = |d: String| Err(Finding { kind: Kind::Other, msg: w.clone(), detail: d });
            match (g, &want[w]) {
                (None, None) => {}
                (Some((o, rv)), Some((o0, rv0))) => {
                    if o != o0 { return f(format!("out = {o0} in a circuit of {n} bytes, {o} in one of {k} bytes")); }
                    st.accepting += (*o == 1) as u64;
                    for (i, (a, b)) in rv.iter().zip(rv0).enumerate() { if a[..n] != b[..] || a[n..].iter().any(|x| *x != 0) { return f(format!("reveal{i} = {b:?} in a circuit of {n} bytes, {a:?} in one of {k} bytes")); } if a.iter().any(|x| *x != 0) { st.revealing += 1; } }
                }
                (a, b) => return f(format!("witness in a circuit of {n} bytes: {}, of {k} bytes: {}", b.is_some(), a.is_some())),
            }
        }
    }
    if st.sample.is_none() { st.sample = Some(format!("{} texts up to {n} bytes in circuits of {n}, {}, {} and {} bytes", words.len(), n + 1, n + 2, n + 5)); }
    Ok(())
}
fn pad_string(len: usize, st: &mut Stats) -> Result<(), Finding> {
    let chars = ["a", "\u{0}", "é", "あ", "😀", "\n", "\u{7f}"];
    let mut texts = vec![String::new()];
    for _ in 0..len { texts = texts.iter().flat_map(|t| chars.iter().map(move |c| format!("{t}{c}"))).collect(); }
    for t in texts {
        st.configs += 1;
        for size in 0..=t.len() + 9 {
            st.states += 1; st.transitions += 1; st.messages += 1;
            let r = subject::guarded(|| Ok(zk_regex_apis::padding::pad_string(&t, size)));
            match r {
                Out::Ok(v) => {
                    let mut w = t.as_bytes().to_vec();
                    if size < w.len() { return Err(fnd(Kind::Other, format!("padding {t:?} to {size} bytes gives {} bytes without an error", v.len()))); }
                    w.resize(size, 0);
                    if v != w { return Err(fnd(Kind::Other, format!("padding {t:?} to {size} bytes gives {v:?}"))); }
                }
                o => if size >= t.len() { return Err(fnd(Kind::Other, format!("padding {t:?} to {size} bytes: {}", o.kind()))); }
            }
        }
    }
    st.sample = Some(format!("every text of {len} characters of 1 to 4 bytes, every size"));
    Ok(())
}
fn pad_long(st: &mut Stats) -> Result<(), Finding> {
    for len in (0..300usize).chain([511, 512, 1023, 1024, 4096, 32767, 32768, 65535, 65536, 65537, 131072]) { for extra in [0usize, 1, 2, 63, 64, 65, 255, 256, 1000, 65536] {
        let t: String = (0..len).map(|i| (b'a' + (i % 26) as u8) as char).collect();
        st.states += 1; st.transitions += 1; st.messages += 1;
        let v = zk_regex_apis::padding::pad_string(&t, len + extra);
        let mut w = t.into_bytes(); w.resize(len + extra, 0);
        if v != w { return Err(fnd(Kind::Other, format!("padding {len} bytes to {}", len + extra))); }
    } }
    Ok(())
}
pub fn c20(thorough: bool) -> Check {
    let b = if thorough { fam::AstBounds { single: 5, pair: 3, triple: 2, quad: true, anchored: 4, anchored_pair: 2 } } else { fam::AstBounds { single: 4, pair: 2, triple: 1, quad: true, anchored: 3, anchored_pair: 1 } };
    let mut v = fam::ast(&b);
    for x in [fam::unicode(), fam::lookalikes()] { v.extend(x); }
    let mut seen = std::collections::HashSet::new();
    v.retain(|s| seen.insert(key_of(s)));
    let cap = if thorough { 4000 } else { 300 };
    let mut jobs: Vec<Job> = v.into_iter().map(|s| Job::new(key_of(&s), move |st| padding(&s, cap, st))).collect();
    for k in 0..=if thorough { 4 } else { 3 } { jobs.push(Job::new(format!("pad {k}"), move |st| pad_string(k, st))); }
    jobs.push(Job::new("pad long", pad_long));
    Check { id: "C20".into(), jobs, bounds: vec![format!("circuits of four sizes compared on every text of non-zero joint byte classes up to the length with at most {cap} texts"), "pad_string: every text of up to 3 (thorough 4) characters of 1 to 4 bytes with every size up to 9 beyond it, and lengths 0..299".into()], assumptions: vec![ASSUME_CIRCOM.into(), ASSUME_CLASS.into()] }
}

// ------------------------------------------------------------------ C11
/// outcome of one request must be clean
fn clean(what: &str, r: &Out<()>, f: &Files, asked: (bool, bool), n_sub: Option<usize>, np: Option<usize>, st: &mut Stats) -> Result<(), Finding> {
    st.states += 1;
    st.transitions += 1;
    st.messages += 1;
    let bad = |d: String| Err(fnd(Kind::Other, format!("{what}: {d}")));
    match r {
        Out::Panic(e) => bad(format!("panic: {e}")),
        Out::Ok(()) => {
            st.accepting += 1;
            if asked.0 { match f.halo2.get("allstr.txt") { None => return bad("reported success without writing the table".into()), Some(t) => { if let Err(e) = subject::parse_allstr(t) { return bad(e); } } } if let Some(n) = n_sub { for i in 0..n { match f.halo2.get(&format!("substr_{i}.txt")) { None => return bad(format!("reported success without writing substring table {i}")), Some(t) => { if let Err(e) = subject::parse_substr(t) { return bad(e); } } } } } }
            if asked.1 { match &f.circom { None => return bad("reported success without writing the circuit".into()), Some(t) => {
                let p = match subject::link(t, "T") { Ok(p) => p, Err(e) => return bad(format!("reported success, but the circuit is malformed: {e}")) };
                match subject::instance(&p, 1) { Err(e) => return bad(format!("reported success, but the circuit is malformed: {e}")), Ok(c) => { if let Some(np) = np { if let Err(e) = layout(&c, 1, np) { return bad(format!("reported success, but the circuit is malformed: {e}")); } } } }
            } } }
            Ok(())
        }
        Out::Err(e) => {
            st.rejected += 1;
            if e.is_empty() { return bad("empty error message".into()); }
            if let Some(t) = &f.circom { if subject::link(t, "T").and_then(|p| subject::instance(&p, 1)).is_err() { return bad("reported an error and left an incomplete circuit".into()); } }
            if let Some(t) = f.halo2.get("allstr.txt") { if subject::parse_allstr(t).is_err() { return bad("reported an error and left an incomplete table".into()); } }
            Ok(())
        }
    }
}
fn refuse_text(re: &str, st: &mut Stats) -> Result<(), Finding> {
    st.configs += 1;
    let one = vec![(true, re.to_string())];
    let (r, f) = subject::gen_files(&one, "T", Some(true), true, true);
    clean(&format!("part {re:?}"), &r, &f, (true, true), Some(1), Some(1), st)?;
    Ok(())
}
fn refuse_second(re: &str, st: &mut Stats) -> Result<(), Finding> {
    for parts in [vec![(false, "a".to_string()), (true, re.to_string())], vec![(true, re.to_string()), (false, "z".to_string())]] {
        st.configs += 1;
        let (r, f) = subject::gen_files(&parts, "T", Some(true), true, true);
        clean(&format!("parts {parts:?}"), &r, &f, (true, true), Some(1), Some(1), st)?;
    }
    let (r, f) = subject::gen_raw(re, None, "T", Some(false), true, true);
    clean(&format!("raw {re:?}"), &r, &f, (true, true), None, Some(0), st)
}
pub const SYNTAX: &[&str] = &["a", "b", "(", ")", "[", "]", "^", "$", "|", "*", "?", "\\", "-", ".", "{1}", "é"];
fn texts(k: usize) -> Vec<String> { let mut v = vec![String::new()]; for _ in 0..k { v = v.iter().flat_map(|t| SYNTAX.iter().map(move |c| format!("{t}{c}"))).collect(); } v }
fn definitions(st: &mut Stats) -> Result<(), Finding> {
    let docs = ["", " ", "{", "{}", "[]", "null", "0", "\"\"", "{\"parts\":null}", "{\"parts\":{}}", "{\"parts\":[]}", "{\"parts\":[{}]}", "{\"parts\":[null]}", "{\"parts\":[[]]}", "{\"parts\":[{\"is_public\":true}]}", "{\"parts\":[{\"regex_def\":\"a\"}]}", "{\"parts\":[{\"is_public\":1,\"regex_def\":\"a\"}]}", "{\"parts\":[{\"is_public\":true,\"regex_def\":1}]}", "{\"parts\":[{\"is_public\":true,\"regex_def\":null}]}", "{\"parts\":[{\"is_public\":true,\"regex_def\":\"a\"}", "{\"parts\":[{\"is_public\":true,\"regex_def\":\"a\"}]}x", "{\"part\":[{\"is_public\":true,\"regex_def\":\"a\"}]}", "{\"parts\":[{\"is_public\":true,\"regex_def\":\"\\ud800\"}]}", "{\"parts\":[{\"is_public\":true,\"regex_def\":\"\"}]}", "{\"parts\":[{\"is_public\":true,\"regex_def\":\"\"},{\"is_public\":true,\"regex_def\":\"\"}]}", "{\"parts\":[{\"is_public\":false,\"regex_def\":\"\"},{\"is_public\":true,\"regex_def\":\"a\"}]}", "{\"parts\":[{\"is_public\":true,\"regex_def\":\"^\"}]}", "{\"parts\":[{\"is_public\":true,\"regex_def\":\"$\"}]}", "{\"parts\":[{\"is_public\":true,\"regex_def\":\"^$\"}]}", "{\"parts\":[{\"is_public\":true,\"regex_def\":\"\\u0000\"}]}", "{\"parts\":[{\"is_public\":true,\"regex_def\":\"[^\\u0000-\\uffff]\"}]}", "{\"parts\":[{\"is_public\":true,\"regex_def\":\"a{400}\"}]}", "{\"parts\":[{\"is_public\":true,\"regex_def\":\"(((((((((((a)))))))))))\"}]}", "\u{feff}{\"parts\":[]}"];
    for d in docs {
        for (h, c, tmpl) in [(true, true, true), (true, false, true), (false, true, true), (false, false, true), (false, true, false), (true, true, false)] {
            let dir = subject::fresh("d");
            let j = dir.join("in.json");
            std::fs::write(&j, d).unwrap();
            let hd = dir.join("h2");
            std::fs::create_dir_all(&hd).unwrap();
            let cf = dir.join("o.circom");
            let r = subject::guarded(|| zk_regex_compiler::gen_from_decomposed(j.to_str().unwrap(), if h { hd.to_str() } else { None }, if c { cf.to_str() } else { None }, if tmpl { Some("T") } else { None }, Some(true)).map_err(|e| e.to_string()));
            let f = subject::collect(&cf, &hd);
            clean(&format!("definition {d:?}, halo2 {h}, circom {c}, template name {tmpl}"), &r, &f, (h, c), None, None, st)?;
            if c && !tmpl && r.is_ok() { return Err(fnd(Kind::Other, format!("definition {d:?}: a circuit without a template name"))); }
            // the same definition as raw substring definitions
            let r = subject::guarded(|| zk_regex_compiler::gen_from_raw("ab", Some(j.to_str().unwrap()), if h { hd.to_str() } else { None }, if c { cf.to_str() } else { None }, if tmpl { Some("T") } else { None }, Some(true)).map_err(|e| e.to_string()));
            let f = subject::collect(&cf, &hd);
            clean(&format!("substring definitions {d:?}, halo2 {h}, circom {c}, template name {tmpl}"), &r, &f, (h, c), None, None, st)?;
        }
    }
    // substring definitions of every shape
    for d in ["{\"transitions\":[]}", "{\"transitions\":[[]]}", "{\"transitions\":[[],[]]}", "{\"transitions\":[[[0,1]]]}", "{\"transitions\":[[[0,1]],[[1,2]],[[0,1],[1,2]]]}", "{\"transitions\":[[0,1]]}", "{\"transitions\":[[[0]]]}", "{\"transitions\":[[[0,1,2]]]}", "{\"transitions\":[[[-1,0]]]}", "{\"transitions\":null}", "{\"transitions\":[[[0,1.5]]]}"] {
        for sub in [None, Some(true), Some(false)] {
            let (r, f) = subject::gen_raw("ab", Some(d), "T", sub, true, true);
            clean(&format!("raw ab with {d}, reveals {sub:?}"), &r, &f, (true, true), None, None, st)?;
        }
    }
    for sub in [None, Some(true), Some(false)] { let (r, f) = subject::gen_raw("ab", None, "T", sub, true, true); clean(&format!("raw ab, reveals {sub:?}"), &r, &f, (true, true), None, None, st)?; if !r.is_ok() { return Err(fnd(Kind::Compile, format!("raw ab, reveals {sub:?}: {}", r.kind()))); } }
    st.configs += docs.len() as u64;
    st.sample = Some(format!("{} documents as definition and as substring definitions with every combination of outputs", docs.len()));
    Ok(())
}
fn paths(st: &mut Stats) -> Result<(), Finding> {
    // unusable paths: missing input, a directory as input, missing parent, a directory or a file in the way
    let good = subject::cfg_json(&[(true, "ab".to_string())]);
    for (i, kind) in ["no input", "input is a directory", "no parent of circuit", "circuit is a directory", "no halo2 directory", "halo2 directory is a file", "table is a directory", "substring table is a directory", "empty circuit path", "empty halo2 path", "circuit on a full disk", "table on a full disk", "substring table on a full disk"].iter().enumerate() {
        for (h, c) in [(true, true), (true, false), (false, true)] {
            for raw in [false, true] {
                let d = subject::fresh("p");
                let j = d.join("in.json");
                if i == 1 { std::fs::create_dir(&j).unwrap(); } else if i != 0 { std::fs::write(&j, if raw { "{\"transitions\":[[[0,1]]]}" } else { &good }).unwrap(); }
                let mut hd = d.join("h2");
                if i == 5 { std::fs::write(&hd, "x").unwrap(); } else if i != 4 { std::fs::create_dir_all(&hd).unwrap(); }
                if i == 6 { std::fs::create_dir_all(hd.join("allstr.txt")).unwrap(); }
                if i == 7 { std::fs::create_dir_all(hd.join("substr_0.txt")).unwrap(); }
                let mut cf = d.join("o.circom");
                if i == 2 { cf = d.join("no/such/o.circom"); }
                if i == 3 { std::fs::create_dir(&cf).unwrap(); }
                if i == 8 { cf = Default::default(); }
                if i == 9 { hd = d.join("h2/none"); }
                if let Some(f) = match i { 10 => Some(cf.clone()), 11 => Some(hd.join("allstr.txt")), 12 => Some(hd.join("substr_0.txt")), _ => None } { std::os::unix::fs::symlink("/dev/full", f).unwrap(); }
                let r = subject::guarded(|| {
                    let (hp, cp) = (if h { hd.to_str() } else { None }, if c { cf.to_str() } else { None });
                    if raw { zk_regex_compiler::gen_from_raw("ab", Some(j.to_str().unwrap()), hp, cp, Some("T"), Some(true)) } else { zk_regex_compiler::gen_from_decomposed(j.to_str().unwrap(), hp, cp, Some("T"), Some(true)) }.map_err(|e| e.to_string())
                });
                let f = subject::collect(&cf, &hd);
                let what = format!("{kind}, raw {raw}, halo2 {h}, circom {c}");
                let must_fail = match i { 0 | 1 => true, 2 | 3 | 8 | 10 => c, _ => h };
                if must_fail && r.is_ok() { return Err(fnd(Kind::Other, format!("{what}: reported success"))); }
                if must_fail { if let Out::Panic(e) = &r { return Err(fnd(Kind::Other, format!("{what}: panic: {e}"))); } st.rejected += 1; st.states += 1; st.transitions += 1; st.messages += 1; if let Some(t) = &f.circom { if subject::link(t, "T").is_err() { return Err(fnd(Kind::Other, format!("{what}: incomplete circuit left"))); } } } else { clean(&what, &r, &f, (h, c), None, None, st)?; }
            }
        }
    }
    st.configs += 1;
    st.sample = Some("thirteen kinds of unusable paths".into());
    Ok(())
}
/// substring definitions with states the regex may not have: every list of up to two pairs, and two lists of one pair
fn state_pairs(re: &str, top: usize, st: &mut Stats) -> Result<(), Finding> {
    let p: Vec<(usize, usize)> = (0..=top).chain([usize::MAX]).flat_map(|a| (0..=top).chain([usize::MAX]).map(move |b| (a, b))).collect();
    let mut defs: Vec<Vec<Vec<(usize, usize)>>> = vec![];
    for x in &p { defs.push(vec![vec![*x]]); for y in &p { if x < y { defs.push(vec![vec![*x, *y]]); } defs.push(vec![vec![*x], vec![*y]]); } }
    for d in defs {
        st.configs += 1;
        let j = serde_json::json!({ "transitions": d }).to_string();
        let (r, f) = subject::gen_raw(re, Some(&j), "T", Some(true), true, true);
        clean(&format!("raw {re:?} with {j}"), &r, &f, (true, true), Some(d.len()), Some(d.len()), st)?;
    }
    st.sample = Some(format!("raw {re:?} with pairs of states up to {top}"));
    Ok(())
}
/// every point at which the disk may be full: no file of a run may grow beyond `limit` bytes.  Either every output is complete or the run fails.
fn torn(args: &[&str], input: &str, first: usize, step: usize, st: &mut Stats) -> Result<(), Finding> {
    use std::os::unix::process::CommandExt;
    extern "C" { fn setrlimit(what: i32, lim: *const [u64; 2]) -> i32; fn signal(n: i32, h: usize) -> usize; }
    let run = |limit: Option<u64>| -> Result<(bool, String, Files), Finding> {
        let d = subject::fresh("torn");
        let (j, h, c) = (d.join("in.json"), d.join("h2"), d.join("o.circom"));
        std::fs::write(&j, input).unwrap();
        std::fs::create_dir_all(&h).unwrap();
        let mut cmd = std::process::Command::new(cli_bin());
        cmd.args(args).arg("-h").arg(&h).arg("-c").arg(&c).args(["-t", "T", "-g", "true"]);
        match args[0] { "decomposed" => { cmd.arg("-d").arg(&j); } _ => { cmd.arg("-s").arg(&j); } }
        // SAFETY: setrlimit and signal are async-signal-safe
        if let Some(l) = limit { unsafe { cmd.pre_exec(move || { signal(25, 1); let r = [l, l]; if setrlimit(1, &r) != 0 { return Err(std::io::Error::last_os_error()); } Ok(()) }); } }
        let o = cmd.output().map_err(|e| fnd(Kind::Other, format!("command line cannot be run: {e}")))?;
        Ok((o.status.success(), String::from_utf8_lossy(&o.stderr).to_string(), subject::collect(&c, &h)))
    };
    let (ok, err, full) = run(None)?;
    if !ok { return Err(fnd(Kind::Compile, err)); }
    st.configs += 1;
    let top = full.circom.iter().chain(full.halo2.values()).map(|t| t.len()).max().unwrap_or(0);
    for k in (first..=top).step_by(step) {
        let (ok, err, f) = run(Some(k as u64))?;
        st.states += 1; st.transitions += 1; st.messages += 1;
        let bad = |d: String| Err(fnd(Kind::Other, format!("{args:?} on {input}, files limited to {k} bytes: {d}")));
        if err.contains("panicked") { return bad(format!("panic: {err}")); }
        if ok && f != full { return bad("reported success, but the outputs are incomplete".into()); }
        if !ok && err.trim().is_empty() { return bad("failed without a message".into()); }
        if ok { st.accepting += 1; } else { st.rejected += 1; }
    }
    if st.sample.is_none() { st.sample = Some(format!("{args:?}: the largest output has {top} bytes")); }
    Ok(())
}
/// texts the tool must not accept: their meaning cannot be kept
fn must_refuse(st: &mut Stats) -> Result<(), Finding> {
    let bad: Vec<Vec<(bool, &str)>> = vec![
        vec![(true, "a$"), (false, "b")], vec![(false, "a"), (true, "b$"), (false, "c")], vec![(true, "$"), (false, "b")],
        vec![(true, "(")], vec![(true, "a)")], vec![(true, "[a")], vec![(true, "*a")], vec![(true, "a{2,1}")], vec![(true, "\\")], vec![(true, "(?=a)b")], vec![(true, "(?<!a)b")], vec![(true, "(a)\\1")], vec![(true, "a\\b")],
        vec![(true, "a|ab")], vec![(true, "ab?")], vec![(true, "a+(b|c+)?")], vec![(true, "a"), (false, "b|bc")], vec![(true, "[a-")], vec![(true, "\\p{Nope}")], vec![(true, "(?P<n>a")], vec![],
    ];
    for p in bad {
        let parts: Vec<(bool, String)> = p.iter().map(|(b, r)| (*b, r.to_string())).collect();
        for (h, c) in [(true, true), (true, false), (false, true)] {
            let (r, f) = subject::gen_files(&parts, "T", Some(true), h, c);
            clean(&format!("parts {parts:?}"), &r, &f, (h, c), None, None, st)?;
            if r.is_ok() { return Err(fnd(Kind::Other, format!("parts {parts:?} were compiled (halo2 {h}, circom {c}), but the tool cannot represent them"))); }
        }
        st.configs += 1;
    }
    st.sample = Some("21 definitions that must be refused".into());
    Ok(())
}
pub fn c11(thorough: bool) -> Check {
    let mut jobs = vec![];
    let top = if thorough { 5 } else { 4 };
    let chunk = 512;
    for k in 0..=top {
        let t = std::sync::Arc::new(texts(k));
        for i in 0..t.len().div_ceil(chunk) { let t = t.clone(); jobs.push(Job::new(format!("texts of {k} tokens, chunk {i}"), move |st| { for re in &t[i * chunk..((i + 1) * chunk).min(t.len())] { refuse_text(re, st)?; if k < top { refuse_second(re, st)?; } } if st.sample.is_none() { st.sample = Some(format!("part {:?}", t[i * chunk])); } Ok(()) })); }
    }
    jobs.push(Job::new("definitions", definitions));
    jobs.push(Job::new("paths", paths));
    jobs.push(Job::new("must refuse", must_refuse));
    let doc = subject::cfg_json(&[(true, "a+".to_string()), (false, "[0-9]".to_string()), (true, "(b|c)d".to_string())]);
    let step = if thorough { 1 } else { 4 };
    let lots = 16;
    for re in ["ab", "a|b", "^a", "a$", "ab+", "(ab|cd)e", "^ab$", "a"].into_iter().take(if thorough { 8 } else { 4 }) { jobs.push(Job::new(format!("states of {re}"), move |st: &mut Stats| state_pairs(re, if thorough { 7 } else { 3 }, st))); }
    for k in 0..lots {
        let d = doc.clone();
        jobs.push(Job::new(format!("full disk, decomposed, {k}"), move |st: &mut Stats| torn(&["decomposed"], &d, k * step, lots * step, st)));
        jobs.push(Job::new(format!("full disk, raw, {k}"), move |st: &mut Stats| torn(&["raw", "-r", "ab+c"], "{\"transitions\":[[[0,1]],[[1,2],[2,2],[2,3]],[[2,3]]]}", k * step, lots * step, st)));
    }
    for i in 0..4 { jobs.push(Job::new(format!("file calls of request {i}"), move |st: &mut Stats| crate::conc::faults(i, st))); }
    Check { id: "C11".into(), jobs, bounds: vec!["every open, read, write and directory call of four requests answered once with each error it can have (interrupted, refused, no descriptors, input/output error, disk full), with a short count, or with a disk that stays full".into(), format!("every text of up to {top} of {} syntax tokens as a part (up to {} as first part, as second part and as raw regex), both back ends with reveals", SYNTAX.len(), top - 1), "34 JSON documents as definition and as substring definitions, thirteen kinds of unusable paths, every combination of outputs; a full disk at every byte of every output file (a stride in the larger ones); substring definitions with every pair of states around the maximal one".into()], assumptions: vec![ASSUME_CIRCOM.into()] }
}

// ------------------------------------------------------------------ C13
fn cli_bin() -> std::path::PathBuf { std::env::current_exe().unwrap().with_file_name("zk-regex-cli") }
fn cli(args: &[String]) -> Result<(bool, String), Finding> {
    let o = std::process::Command::new(cli_bin()).args(args).output().map_err(|e| fnd(Kind::Other, format!("command line cannot be run: {e}")))?;
    Ok((o.status.success(), String::from_utf8_lossy(&o.stderr).to_string()))
}
fn same(what: &str, a: &Files, b: &Files) -> Result<(), Finding> {
    if a.circom != b.circom { return Err(fnd(Kind::Other, format!("{what}: different circuits"))); }
    if a.halo2 != b.halo2 { return Err(fnd(Kind::Other, format!("{what}: different tables"))); }
    Ok(())
}
fn frontends(parts: &[(bool, String)], st: &mut Stats) -> Result<(), Finding> {
    st.configs += 1;
    for sub in [Some(true), Some(false), None] {
        let (r0, f0) = subject::gen_files(parts, "T", sub, true, true);
        st.states += 1;
        let ok = r0.is_ok();
        if ok { st.supported += 1; st.accepting += 1; } else { st.rejected += 1; }
        // again
        let (r1, f1) = subject::gen_files(parts, "T", sub, true, true);
        if r1 != r0 { return Err(fnd(Kind::Nondet, format!("{} and then {}", r0.kind(), r1.kind()))); }
        same("the same request twice", &f0, &f1)?;
        // one output at a time
        let (rc, fc) = subject::gen_files(parts, "T", sub, false, true);
        let (rh, fh) = subject::gen_files(parts, "T", sub, true, false);
        if rc.is_ok() != ok || rh.is_ok() != ok { return Err(fnd(Kind::Other, format!("both outputs: {}, circuit alone: {}, tables alone: {}", r0.kind(), rc.kind(), rh.kind()))); }
        if fc.circom != f0.circom || fh.halo2 != f0.halo2 || (ok && (!fc.halo2.is_empty() || fh.circom.is_some())) { return Err(fnd(Kind::Other, "outputs differ when requested alone".into())); }
        // struct call
        let t = subject::circom_text(parts, "T", sub);
        match (&t, &f0.circom) { (Out::Ok(a), Some(b)) if ok => if a != b { return Err(fnd(Kind::Other, "the call on a configuration gives another circuit than the call on a file".into())); }, (Out::Err(_), _) if !ok => {}, _ => return Err(fnd(Kind::Other, format!("call on a configuration: {}, call on a file: {}", t.kind(), r0.kind()))) }
        // one configuration object, compiled again and again
        for (k, x) in subject::circom_again(parts, "T", sub, 3).iter().enumerate() { if x.is_ok() != t.is_ok() || x.clone().ok() != t.clone().ok() { return Err(fnd(Kind::Other, format!("call {} on the same configuration object gives {}", k + 1, if x.is_ok() { "another circuit".into() } else { x.kind() }))); } }
        // command line, long and short options
        for short in [true, false] {
            let d = subject::fresh("cli");
            let (j, h, c) = (d.join("in.json"), d.join("h2"), d.join("o.circom"));
            std::fs::write(&j, subject::cfg_json(parts)).unwrap();
            std::fs::create_dir_all(&h).unwrap();
            let o = |s: &str, l: &str| if short { s.to_string() } else { l.to_string() };
            let mut a = vec!["decomposed".into(), o("-d", "--decomposed-regex-path"), j.to_str().unwrap().into(), o("-h", "--halo2-dir-path"), h.to_str().unwrap().into(), o("-c", "--circom-file-path"), c.to_str().unwrap().into(), o("-t", "--template-name"), "T".into()];
            if let Some(s) = sub { a.push(o("-g", "--gen-substrs")); a.push(s.to_string()); }
            let (good, err) = cli(&a)?;
            if good != ok { return Err(fnd(Kind::Other, format!("command line: {good} {err:?}, library: {}", r0.kind()))); }
            if err.contains("panicked") { return Err(fnd(Kind::Other, format!("command line: {err}"))); }
            same("command line and library", &subject::collect(&c, &h), &f0)?;
            st.transitions += 1;
        }
        st.transitions += 5;
        st.messages += 1;
    }
    // reveals off: same `out`
    let (Some(a), Some(b)) = (subject::circom_text(parts, "T", Some(true)).ok(), subject::circom_text(parts, "T", Some(false)).ok()) else { return Ok(()) };
    let (pa, pb) = (subject::link(&a, "T").map_err(|e| fnd(Kind::Interface, e))?, subject::link(&b, "T").map_err(|e| fnd(Kind::Interface, format!("reveals off: {e}")))?);
    let np = parts.iter().filter(|p| p.0).count();
    let fp = fingerprint(&subject::instance(&pa, 2).map_err(|e| fnd(Kind::Interface, e))?);
    let fq = fingerprint(&subject::instance(&pb, 2).map_err(|e| fnd(Kind::Interface, e))?);
    let alpha: Vec<u8> = joint_classes(&[&fp.class_of, &fq.class_of]).iter().map(|c| rep(c)).collect();
    let n = fit(alpha.len(), 600, 6);
    for n in [1, n] {
        let (ca, cb) = (subject::instance(&pa, n).map_err(|e| fnd(Kind::Interface, e))?, subject::instance(&pb, n).map_err(|e| fnd(Kind::Interface, e))?);
        let (la, lb) = (layout(&ca, n, np).map_err(|e| fnd(Kind::Interface, e))?, layout(&cb, n, 0).map_err(|e| fnd(Kind::Interface, e))?);
        let ws: Vec<Vec<u8>> = all_msgs(&alpha, n).into_iter().map(|m| m.into_iter().map(|x| x as u8).collect()).collect();
        let mut m = BTreeMap::new();
        run_words(&ca, &la, n, &ws, &mut |w, r| { m.insert(w.to_vec(), r.ok().map(|x| x.0)); Ok(()) }, st)?;
        run_words(&cb, &lb, n, &ws, &mut |w, r| { let x = r.ok().map(|x| x.0); if m[w] != x { return Err(Finding { kind: Kind::Other, msg: w.to_vec(), detail: format!("out = {:?} with reveals, {x:?} without", m[w]) }); } Ok(()) }, st)?;
        st.circuits += 2;
        st.messages += ws.len() as u64;
    }
    if st.sample.is_none() { st.sample = Some(format!("{} bytes of circuit", a.len())); }
    Ok(())
}
fn raw_frontends(re: &str, subs: Option<&str>, st: &mut Stats) -> Result<(), Finding> {
    st.configs += 1;
    for sub in [Some(true), Some(false), None] {
        let (r0, f0) = subject::gen_raw(re, subs, "T", sub, true, true);
        let (r1, f1) = subject::gen_raw(re, subs, "T", sub, true, true);
        if r0 != r1 { return Err(fnd(Kind::Nondet, format!("{} and then {}", r0.kind(), r1.kind()))); }
        same("the same request twice", &f0, &f1)?;
        for short in [true, false] {
            let d = subject::fresh("cli");
            let (j, h, c) = (d.join("s.json"), d.join("h2"), d.join("o.circom"));
            std::fs::create_dir_all(&h).unwrap();
            let o = |s: &str, l: &str| if short { s.to_string() } else { l.to_string() };
            let mut a = vec!["raw".to_string(), if short { "-r".into() } else { "--raw-regex".into() }, re.to_string(), o("-h", "--halo2-dir-path"), h.to_str().unwrap().into(), o("-c", "--circom-file-path"), c.to_str().unwrap().into(), o("-t", "--template-name"), "T".into()];
            if let Some(s) = subs { std::fs::write(&j, s).unwrap(); a.push(o("-s", "--substrs-json-path")); a.push(j.to_str().unwrap().into()); }
            if let Some(s) = sub { a.push(o("-g", "--gen-substrs")); a.push(s.to_string()); }
            let (good, err) = cli(&a)?;
            if good != r0.is_ok() { return Err(fnd(Kind::Other, format!("command line: {good} {err:?}, library: {}", r0.kind()))); }
            if err.contains("panicked") { return Err(fnd(Kind::Other, format!("command line: {err}"))); }
            same("command line and library", &subject::collect(&c, &h), &f0)?;
            st.transitions += 1;
        }
        st.states += 1;
        st.messages += 1;
    }
    Ok(())
}
pub fn c13(thorough: bool) -> Check {
    let b = if thorough { fam::AstBounds { single: 4, pair: 2, triple: 1, quad: false, anchored: 3, anchored_pair: 1 } } else { fam::AstBounds { single: 3, pair: 1, triple: 1, quad: false, anchored: 1, anchored_pair: 1 } };
    let mut v: Vec<Vec<(bool, String)>> = fam::ast(&b).iter().map(|s| s.config()).collect();
    for x in [fam::lookalikes(), fam::repo_configs(), fam::unicode(), fam::large()] { v.extend(x.iter().map(|s| s.config())); }
    // the same without any public part
    let private: Vec<Vec<(bool, String)>> = v.iter().map(|p| p.iter().map(|x| (false, x.1.clone())).collect()).collect();
    v.extend(private);
    for bad in ["(", "a$b", "ab?", "a|^b", "", "\\b", "[^a"] { v.push(vec![(true, bad.to_string())]); v.push(vec![(false, bad.to_string()), (true, "a".into())]); }
    v.push(vec![]);
    let mut seen = BTreeSet::new();
    v.retain(|p| seen.insert(p.clone()));
    let mut jobs: Vec<Job> = v.into_iter().map(|p| Job::new(format!("decomposed {}", subject::cfg_json(&p)), move |st| frontends(&p, st))).collect();
    for re in ["a", "ab", "a|b", "a*b", "^a", "a$", "(a|b)c+", "é", "(", "ab?", "-a", "--help", "a b", "[^a]"] {
        for s in [None, Some("{\"transitions\":[[[0,1]]]}"), Some("{\"transitions\":[[[0,1],[1,2]],[[1,2]]]}"), Some("{")] {
            if re.starts_with('-') { continue; }
            jobs.push(Job::new(format!("raw {re} {}", s.unwrap_or("-")), move |st| raw_frontends(re, s, st)));
        }
    }
    Check { id: "C13".into(), jobs, bounds: vec!["every configuration of the family x {library on a file, library on a configuration, command line with long and short options} x {reveals on, off, default} x {circuit, tables, both}, each twice; out compared with and without reveals on every message over the joint byte classes".into()], assumptions: vec![ASSUME_CIRCOM.into()] }
}

// ------------------------------------------------------------------ C14
#[derive(Clone, Debug)]
pub enum Op { Dec(Vec<(bool, String)>, Option<bool>, usize, usize), Raw(String, Option<String>, Option<bool>, usize, usize), Struct(Vec<(bool, String)>, Option<bool>, usize) }
/// run one request; c, h = index of the circuit path and the table directory used (0 = none)
fn run_op(o: &Op, dir: &std::path::Path) -> Out<()> {
    let cp = |k: usize| dir.join(format!("c{k}.circom")).to_str().unwrap().to_string();
    let hp = |k: usize| dir.join(format!("h{k}")).to_str().unwrap().to_string();
    match o {
        Op::Dec(p, s, c, h) => { let j = dir.join("in.json"); std::fs::write(&j, subject::cfg_json(p)).unwrap(); let (c1, h1) = (cp(*c), hp(*h)); subject::guarded(|| zk_regex_compiler::gen_from_decomposed(j.to_str().unwrap(), if *h > 0 { Some(&h1) } else { None }, if *c > 0 { Some(&c1) } else { None }, Some("T"), *s).map_err(|e| e.to_string())) }
        Op::Raw(re, t, s, c, h) => { let j = dir.join("subs.json"); if let Some(t) = t { std::fs::write(&j, t).unwrap(); } let j = j.to_str().unwrap(); let (c1, h1) = (cp(*c), hp(*h)); subject::guarded(|| zk_regex_compiler::gen_from_raw(re, t.as_ref().map(|_| j), if *h > 0 { Some(&h1) } else { None }, if *c > 0 { Some(&c1) } else { None }, Some("T"), *s).map_err(|e| e.to_string())) }
        Op::Struct(p, s, c) => { let c1 = cp(*c); subject::guarded(|| { let mut x = subject::cfg(p); zk_regex_compiler::gen_circom_from_decomposed_regex(&mut x, Some(&c1), Some("T"), *s).map_err(|e| e.to_string()) }) }
    }
}
fn snapshot(dir: &std::path::Path) -> BTreeMap<String, String> {
    let mut m = BTreeMap::new();
    for k in 1..=2 { let f = dir.join(format!("c{k}.circom")); if let Ok(t) = std::fs::read_to_string(&f) { m.insert(format!("c{k}"), t); } for (n, t) in subject::collect(&f, &dir.join(format!("h{k}"))).halo2 { m.insert(format!("h{k}/{n}"), t); } }
    m
}
fn clean_dir(name: &str) -> std::path::PathBuf { let d = subject::fresh(name); for k in 1..=2 { std::fs::create_dir_all(d.join(format!("h{k}"))).unwrap(); } d }
/// the requests of the histories; the first of them also in every longer one
fn requests(thorough: bool) -> (Vec<Op>, usize) {
    let p = |v: &[(bool, &str)]| v.iter().map(|(b, r)| (*b, r.to_string())).collect::<Vec<_>>();
    let (x, y, z, bad) = (p(&[(true, "a"), (false, "[0-9]+"), (true, "(é|bc)d")]), p(&[(false, "^q"), (true, "[^;]+"), (false, ";")]), p(&[(true, "x$")]), p(&[(true, "a|ab")]));
    let more = vec![Op::Struct(bad.clone(), Some(true), 1), Op::Dec(z.clone(), Some(true), 0, 1), Op::Dec(y.clone(), None, 2, 0), Op::Raw("^a".into(), None, Some(false), 1, 2), Op::Raw("ab$".into(), None, Some(true), 1, 0)];
    let mut ops = vec![
        Op::Dec(x.clone(), Some(true), 1, 1), Op::Dec(y.clone(), Some(true), 1, 1), Op::Dec(y.clone(), Some(false), 1, 1), Op::Dec(z.clone(), Some(true), 1, 2), Op::Dec(x.clone(), None, 2, 1), Op::Dec(bad.clone(), Some(true), 1, 1),
        Op::Raw("(ab|cd)+e".into(), None, Some(true), 1, 1), Op::Raw("z".into(), None, None, 2, 2), Op::Raw("(".into(), None, None, 1, 1), Op::Struct(z.clone(), Some(true), 1), Op::Struct(x.clone(), Some(false), 2),
    ];
    if thorough { ops.extend(more.clone()); }
    let long = ops.len();
    if !thorough { ops.extend(more); }
    // requests that have something in common: the whole text with other parts, the parts with other public ones, the parts in another order, the length, the begin or the end
    let alike: &[&[(bool, &str)]] = &[
        &[(true, "a"), (false, "bc")], &[(false, "a"), (true, "bc")], &[(true, "a"), (true, "bc")], &[(true, "ab"), (false, "c")], &[(true, "abc")], &[(false, "abc")], &[(true, "a"), (true, "b"), (true, "c")], &[(false, "bc"), (true, "a")], &[(true, "abd")], &[(true, "xbc")],
        &[(true, "^abc")], &[(true, "abc$")], &[(true, "[a-c]+")], &[(true, "[a-d]+")], &[(true, "[^a-c]+")], &[(true, "a+"), (false, "b")], &[(true, "a*"), (false, "b")], &[(true, "a"), (false, "+b")], &[(true, "(a)"), (false, "bc")],
    ];
    for a in alike { for g in [Some(true), None] { ops.push(Op::Dec(p(a), g, 1, 1)); } ops.push(Op::Struct(p(a), Some(true), 1)); }
    for s in [None, Some("[]"), Some("[[[0,1]]]"), Some("[[[1,2]]]"), Some("[[[0,1],[1,2]]]"), Some("[[[0,1]],[[1,2]]]"), Some("[[[1,2]],[[0,1]]]"), Some("x")] { for r in ["abc", "abd"] { ops.push(Op::Raw(r.into(), s.map(|s| format!("{{\"transitions\":{s}}}")), Some(true), 1, 1)); } }
    (ops, long)
}
/// one request in this process: what it says and what it writes into an empty place
pub fn one(tier: &str, i: usize) -> String {
    let d = clean_dir("alone");
    let r = run_op(&requests(tier == "thorough").0[i], &d);
    let r = match r { Out::Ok(()) => [String::from("ok"), String::new()], Out::Err(e) => ["err".into(), e], Out::Panic(e) => ["panic".into(), e] };
    serde_json::to_string(&(r, snapshot(&d))).unwrap()
}
type Alone = Vec<(Out<()>, BTreeMap<String, String>)>;
/// every request in a process of its own
fn alone(thorough: bool, n: usize) -> &'static Alone {
    static A: std::sync::OnceLock<Alone> = std::sync::OnceLock::new();
    A.get_or_init(|| (0..n).map(|i| {
        let o = std::process::Command::new(std::env::current_exe().expect("own path")).args(["one", if thorough { "thorough" } else { "quick" }, &i.to_string()]).output().expect("own process");
        let (r, m): ([String; 2], BTreeMap<String, String>) = serde_json::from_slice(&o.stdout).unwrap_or_else(|e| panic!("request {i}: {e} {}", String::from_utf8_lossy(&o.stderr)));
        (match r[0].as_str() { "ok" => Out::Ok(()), "err" => Out::Err(r[1].clone()), _ => Out::Panic(r[1].clone()) }, m)
    }).collect())
}
fn history(ops: &[Op], first: usize, depth: usize, long: usize, alone: &Alone, st: &mut Stats) -> Result<(), Finding> {
    let mut seq = vec![first];
    fn rec(seq: &mut Vec<usize>, depth: usize, long: usize, ops: &[Op], alone: &Alone, st: &mut Stats) -> Result<(), Finding> {
        let d = clean_dir("hist");
        let mut want: BTreeMap<String, String> = BTreeMap::new();
        for (k, i) in seq.iter().enumerate() {
            let r = run_op(&ops[*i], &d);
            st.transitions += 1;
            if std::mem::discriminant(&r) != std::mem::discriminant(&alone[*i].0) { return Err(fnd(Kind::Other, format!("request {} of {:?}: {} after the others, {} alone", k + 1, seq.iter().map(|i| &ops[*i]).collect::<Vec<_>>(), r.kind(), alone[*i].0.kind()))); }
            for (n, t) in &alone[*i].1 { want.insert(n.clone(), t.clone()); }
        }
        let got = snapshot(&d);
        st.states += 1;
        st.messages += 1;
        if got != want {
            let n = want.keys().chain(got.keys()).find(|n| want.get(*n) != got.get(*n)).unwrap();
            return Err(fnd(Kind::Other, format!("after {:?} the file {n} is not what the last request that named it writes", seq.iter().map(|i| &ops[*i]).collect::<Vec<_>>())));
        }
        st.accepting += 1;
        if seq.len() < depth {
            // two of all requests and the first again; longer ones of the first requests only
            let n: Vec<usize> = match seq.len() { 1 => (0..ops.len()).collect(), _ if seq.iter().all(|i| *i < long) => (0..long).collect(), 2 => vec![seq[0]], _ => vec![] };
            for i in n { seq.push(i); rec(seq, depth, long, ops, alone, st)?; seq.pop(); }
        }
        Ok(())
    }
    st.configs += 1;
    rec(&mut seq, depth, long, ops, alone, st)?;
    st.sample = Some(format!("all sequences of up to {depth} requests beginning with {:?}", ops[first]));
    Ok(())
}
pub fn c14(thorough: bool) -> Check {
    let (ops, long) = requests(thorough);
    let (n, depth) = (ops.len(), if thorough { 4 } else { 3 });
    let jobs = (0..n).map(|i| { let ops = ops.clone(); Job::new(format!("histories from {i}"), move |st: &mut Stats| history(&ops, i, depth, long, alone(thorough, n), st)) }).collect();
    Check { id: "C14".into(), jobs, bounds: vec![format!("every pair of {n} requests (definitions of different size, failing ones, raw and decomposed, with and without reveals, many that share their text, parts or public parts) with the first repeated, and every sequence of up to {depth} of {long} of them, over two circuit paths and two table directories; compared with each request in a process of its own")], assumptions: vec![] }
}
