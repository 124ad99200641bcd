//! Exhaustive exploration of one circuit instance against the reference.
use crate::circom::{Circuit, Fail, Instr};
use crate::refm::{Ref, DEAD, SOM};
use std::collections::HashMap;

#[derive(Clone, Debug, Default)]
pub struct Stats { pub states: u64, pub transitions: u64, pub messages: u64, pub accepting: u64, pub revealing: u64, pub configs: u64, pub rejected: u64, pub unreduced: u64, pub supported: u64, pub validated: u64, pub capped: u64, pub circuits: u64, pub skipped: u64, pub sample: Option<String> }
impl Stats {
    pub fn add(&mut self, o: &Stats) {
        self.states += o.states; self.transitions += o.transitions; self.messages += o.messages; self.accepting += o.accepting; self.revealing += o.revealing;
        self.configs += o.configs; self.rejected += o.rejected; self.unreduced += o.unreduced; self.supported += o.supported; self.validated += o.validated; self.capped += o.capped; self.circuits += o.circuits; self.skipped += o.skipped;
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Dep { None, One(u32), Many }
#[derive(Clone, Copy, PartialEq, Debug)]
enum Taint { Clean, Scaled(u32), Other }

/// partition of byte values the circuit itself can distinguish
pub struct Fp { pub class_of: [u16; 256], pub reducible: bool, pub rejects: Vec<u8> }

pub fn fingerprint(c: &Circuit) -> Fp {
    let n = c.instrs.len();
    let mut dep = vec![Dep::None; n];
    let mut taint = vec![Taint::Clean; n];
    let mut reducible = true;
    let j = |a: Dep, b: Dep| match (a, b) { (Dep::None, x) | (x, Dep::None) => x, (Dep::One(x), Dep::One(y)) if x == y => a, _ => Dep::Many };
    let mut tests: Vec<u32> = vec![];
    for i in 0..n {
        match c.instrs[i] {
            Instr::Const(_) | Instr::Free => {}
            Instr::Input(k) => { dep[i] = Dep::One(k); taint[i] = Taint::Scaled(k); }
            Instr::Add(a, b) | Instr::Sub(a, b) => {
                dep[i] = j(dep[a as usize], dep[b as usize]);
                taint[i] = if taint[a as usize] == Taint::Clean && taint[b as usize] == Taint::Clean { Taint::Clean } else { Taint::Other };
            }
            Instr::Mul(a, b) => {
                dep[i] = j(dep[a as usize], dep[b as usize]);
                taint[i] = match (taint[a as usize], taint[b as usize]) { (Taint::Clean, Taint::Clean) => Taint::Clean, (Taint::Scaled(k), Taint::Clean) | (Taint::Clean, Taint::Scaled(k)) => Taint::Scaled(k), _ => Taint::Other };
            }
            Instr::IsZero(a) => { dep[i] = dep[a as usize]; if taint[a as usize] != Taint::Clean { if dep[i] == Dep::Many { reducible = false; } tests.push(i as u32); } }
            Instr::LessThan(_, a, b) | Instr::AssertEq(a, b) => {
                dep[i] = j(dep[a as usize], dep[b as usize]);
                if taint[a as usize] != Taint::Clean || taint[b as usize] != Taint::Clean { if dep[i] == Dep::Many { reducible = false; } tests.push(i as u32); }
            }
            Instr::Hint(a) => { dep[i] = dep[a as usize]; taint[i] = taint[a as usize]; }
        }
    }
    for (_, o) in &c.outputs { for s in o.iter().flatten() { if taint[*s as usize] == Taint::Other { reducible = false; } } }
    // evaluate only single-input slots
    let sel: Vec<u32> = (0..n as u32).filter(|i| matches!(dep[*i as usize], Dep::None | Dep::One(_))).collect();
    let tests: Vec<u32> = tests.into_iter().filter(|i| matches!(dep[*i as usize], Dep::One(_))).collect();
    let mut m: HashMap<Vec<u8>, u16> = HashMap::new();
    let mut class_of = [0u16; 256];
    let mut rejects = vec![];
    let mut vals = vec![0i64; n];
    for b in 0..=255u8 {
        let msg = vec![b as i64; c.n_inputs];
        let mut failed: Vec<u32> = vec![];
        for i in &sel { if c.step(*i, &mut vals, &msg, None).is_err() { failed.push(*i); vals[*i as usize] = 0; } }
        let mut fp: Vec<u8> = tests.iter().map(|t| if failed.contains(t) { 7 } else { vals[*t as usize] as u8 }).collect();
        if !failed.is_empty() { rejects.push(b); fp.push(9); }
        if b == 0 { fp.push(1); }
        if b == 255 { fp.push(2); }
        let k = m.len() as u16;
        class_of[b as usize] = *m.entry(fp).or_insert(k);
    }
    Fp { class_of, reducible, rejects }
}

/// joint classes of circuit and reference over bytes 0..=254; representative = smallest non-zero byte that prints, else smallest
pub fn joint_classes(fps: &[&[u16; 256]]) -> Vec<Vec<u8>> {
    let mut m: HashMap<Vec<u16>, usize> = HashMap::new();
    let mut out: Vec<Vec<u8>> = vec![];
    for b in 0..255usize {
        let key: Vec<u16> = fps.iter().map(|f| f[b]).collect();
        let n = out.len();
        let k = *m.entry(key).or_insert(n);
        if k == n { out.push(vec![]); }
        out[k].push(b as u8);
    }
    out
}
pub fn rep(c: &[u8]) -> u8 { c.iter().copied().find(|b| b.is_ascii_alphanumeric()).or_else(|| c.iter().copied().find(|b| (32..127).contains(b))).unwrap_or(c[0]) }

#[derive(Clone, Debug)]
pub struct Layout { pub out: u32, pub reveals: Vec<Vec<u32>> }
/// interface of a generated template: `out`, then reveal0.. each of length msg_bytes
pub fn layout(c: &Circuit, n: usize, n_public: usize) -> Result<Layout, String> {
    if c.n_inputs != n { return Err(format!("{} inputs for msg_bytes={n}", c.n_inputs)); }
    let mut out = None;
    let mut reveals = vec![];
    for (k, (name, slots)) in c.outputs.iter().enumerate() {
        let s: Option<Vec<u32>> = slots.iter().copied().collect();
        let Some(s) = s else { return Err(format!("output {name} is not assigned")) };
        if name == "out" { if s.len() != 1 || k != 0 { return Err("output out malformed".into()); } out = Some(s[0]); }
        else if *name == format!("reveal{}", reveals.len()) { if s.len() != n { return Err(format!("output {name} has {} elements, msg_bytes={n}", s.len())); } reveals.push(s); }
        else { return Err(format!("unexpected output {name}")); }
    }
    if reveals.len() != n_public { return Err(format!("{} reveal outputs, {n_public} public parts", reveals.len())); }
    Ok(Layout { out: out.ok_or("no output out")?, reveals })
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum Kind { NoWitness, OutNotBool, OutUnsound, OutMissed, RevealUnsound, RevealInexact, RevealWithoutMatch, RevealValue, Interface, Compile, Nondet, NotFirst, Headers, Other }
#[derive(Clone, Debug)]
pub struct Finding { pub kind: Kind, pub msg: Vec<u8>, pub detail: String }

#[derive(Clone, Copy, Default, Debug)]
pub struct Judge { pub sound: bool, pub complete: bool, pub rsound: bool, pub rexact: bool }
impl Judge {
    pub fn reveals(&self) -> bool { self.rsound || self.rexact }
}

/// compare one evaluated message with the reference
pub fn judge(r: &Ref, msg: &[u8], out: i64, reveals: &[Vec<i64>], j: &Judge, st: &mut Stats) -> Result<(), Finding> {
    let f = |kind, detail: String| Err(Finding { kind, msg: msg.to_vec(), detail });
    st.messages += 1;
    if out != 0 && out != 1 { return f(Kind::OutNotBool, format!("out = {out}")); }
    if out == 1 { st.accepting += 1; if st.sample.is_none() { st.sample = Some(format!("message \"{}\": out = 1, reveals {:?}", crate::util::bytes_show(msg), reveals.iter().map(|v| crate::util::bytes_show(&v.iter().map(|x| *x as u8).collect::<Vec<_>>())).collect::<Vec<_>>())); } }
    if j.sound && out == 1 && !r.contains(msg) { return f(Kind::OutUnsound, "out = 1 but no substring of the message matches".into()); }
    let nulfree = Ref::content_len(msg).is_some();
    let defined = r.supported() && (nulfree || !r.spec.dollar);
    let mut exp: Option<(bool, Vec<Vec<bool>>)> = None;
    if defined && (j.complete || (j.rexact && out == 1)) {
        let e = r.expect(msg);
        if j.complete && e.0 && out == 0 { return f(Kind::OutMissed, "out = 0 but the left-to-right scan matches".into()); }
        exp = Some(e);
    }
    if j.reveals() {
        let any = reveals.iter().any(|v| v.iter().any(|x| *x != 0));
        if any { st.revealing += 1; }
        if j.rsound {
            if out == 0 && any { return f(Kind::RevealWithoutMatch, format!("out = 0 but reveals {reveals:?}")); }
            if any { for (i, rv) in reveals.iter().enumerate() { for k in 0..msg.len() { if rv[k] != 0 && rv[k] != msg[k] as i64 { return f(Kind::RevealValue, format!("reveal{i}[{k}] = {} but msg[{k}] = {}", rv[k], msg[k])); } } } }
            if any && out == 1 && !r.nullable && !(r.spec.dollar && !nulfree) {
                let may = r.may_reveal(msg);
                for (i, rv) in reveals.iter().enumerate() {
                    for k in 0..msg.len() {
                        if rv[k] != 0 && !may[i][k] { return f(Kind::RevealUnsound, format!("reveal{i}[{k}] = {:?} lies in no match of public part {i}", rv[k] as u8 as char)); }
                    }
                }
            }
        }
        if j.rexact && out == 1 {
            if let Some((true, er)) = &exp {
                for (i, rv) in reveals.iter().enumerate() {
                    let want: Vec<i64> = er[i].iter().zip(msg).map(|(e, b)| if *e { *b as i64 } else { 0 }).collect();
                    if &want != rv { return f(Kind::RevealInexact, format!("reveal{i} = {rv:?}, expected {want:?}")); }
                }
            }
        }
    }
    Ok(())
}

/// all messages over `alpha`^n through the circuit, depth first, re-using the evaluated prefix
pub fn enumerate(c: &Circuit, l: &Layout, alpha: &[u8], n: usize, r: &Ref, j: &Judge, strict: bool, st: &mut Stats) -> Result<(), Finding> {
    enumerate_filtered(c, l, alpha, n, r, j, strict, st, &mut |_| true)
}
pub fn enumerate_filtered(c: &Circuit, l: &Layout, alpha: &[u8], n: usize, r: &Ref, j: &Judge, strict: bool, st: &mut Stats, keep: &mut dyn FnMut(&[u8]) -> bool) -> Result<(), Finding> {
    let mut vals = vec![0i64; c.instrs.len()];
    let mut msg = vec![0i64; n];
    let mut bytes: Vec<u8> = vec![];
    let nw = |b: &[u8], f: Fail| Finding { kind: Kind::NoWitness, msg: b.to_vec(), detail: format!("no witness for a message of bytes 0..254 ({f:?})") };
    if let Err(f) = c.run_group(0, &mut vals, &msg) { return if strict { Err(nw(&[], f)) } else { Ok(()) }; }
    fn rec(d: usize, c: &Circuit, l: &Layout, alpha: &[u8], n: usize, vals: &mut Vec<i64>, msg: &mut Vec<i64>, bytes: &mut Vec<u8>, r: &Ref, j: &Judge, strict: bool, st: &mut Stats, keep: &mut dyn FnMut(&[u8]) -> bool) -> Result<(), Finding> {
        st.states += 1;
        if d == n {
            let out = vals[l.out as usize];
            let rv: Vec<Vec<i64>> = if !j.reveals() { vec![] } else { l.reveals.iter().map(|v| v.iter().map(|s| vals[*s as usize]).collect()).collect() };
            return judge(r, bytes, out, &rv, j, st);
        }
        for b in alpha {
            bytes.push(*b);
            if !keep(bytes) { bytes.pop(); continue; }
            msg[d] = *b as i64;
            st.transitions += 1;
            if let Err(f) = c.run_group(d + 1, vals, msg) { if !strict { bytes.pop(); continue; } return Err(Finding { kind: Kind::NoWitness, msg: bytes.clone(), detail: format!("no witness for a message of bytes 0..254 ({f:?})") }); }
            rec(d + 1, c, l, alpha, n, vals, msg, bytes, r, j, strict, st, keep)?;
            bytes.pop();
        }
        Ok(())
    }
    rec(0, c, l, alpha, n, &mut vals, &mut msg, &mut bytes, r, j, strict, st, keep)
}

pub fn eval_msg(c: &Circuit, l: &Layout, msg: &[u8]) -> Result<(i64, Vec<Vec<i64>>), Fail> {
    let m: Vec<i64> = msg.iter().map(|b| *b as i64).collect();
    let v = c.eval(&m, None)?;
    Ok((v[l.out as usize], l.reveals.iter().map(|r| r.iter().map(|s| v[*s as usize]).collect()).collect()))
}

// ------------------------------------------------------------------ explicit-state product search for `out`
/// reference state stepped alongside: scanner attempt, thread set, sticky verdicts
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
struct RS { cur: u32, set: Vec<u32>, hit: bool, any: bool, ended: bool, acc_end: bool, any_end: bool }

fn rs_step(r: &Ref, s: &RS, b: u8, first: bool) -> RS {
    let mut n = s.clone();
    let d = &r.det;
    if r.spec.dollar && b == 0 && !first {
        if !s.ended {
            n.ended = true;
            n.acc_end = s.cur != DEAD && d.acc[s.cur as usize];
            n.any_end = s.set.iter().any(|q| d.acc[*q as usize]);
            n.cur = DEAD;
            n.set.clear();
        }
        return n;
    }
    let mut nx = if s.cur != DEAD { d.trans[s.cur as usize][b as usize] } else { DEAD };
    if nx == DEAD { nx = d.trans[0][b as usize]; }
    n.cur = nx;
    let mut set: Vec<u32> = s.set.iter().map(|q| d.trans[*q as usize][b as usize]).filter(|q| *q != DEAD).collect();
    let t = d.trans[0][b as usize];
    if t != DEAD { set.push(t); }
    set.sort();
    set.dedup();
    n.set = set;
    if !r.spec.dollar {
        n.hit |= nx != DEAD && d.acc[nx as usize];
        n.any |= n.set.iter().any(|q| d.acc[*q as usize]);
        if n.any { n.set.clear(); }
    }
    n
}

pub enum Search { Done, Capped }

/// Layered breadth-first search over (values the rest of the circuit still needs, reference state); every message
/// over `alpha` of length n is covered.  Only the slice of the circuit that determines `out` and the assertions runs.
pub fn product_out(c: &Circuit, l: &Layout, alpha: &[u8], n: usize, r: &Ref, j: &Judge, cap: usize, strict: bool, st: &mut Stats) -> Result<Search, Finding> {
    let ni = c.instrs.len();
    // backward slice
    let mut need = vec![false; ni];
    need[l.out as usize] = true;
    for i in 0..ni { if matches!(c.instrs[i], Instr::AssertEq(..)) { need[i] = true; } }
    let ops = |i: usize| Circuit::operands(&c.instrs[i]).into_iter().flatten();
    let mut pos = vec![0usize; ni];
    for (k, i) in c.order.iter().enumerate() { pos[*i as usize] = k; }
    for k in (0..c.order.len()).rev() { let i = c.order[k] as usize; if need[i] { for o in ops(i) { need[o as usize] = true; } } }
    let mut grp = vec![0usize; ni];
    for g in 0..c.group.len() - 1 { for k in c.group[g]..c.group[g + 1] { grp[c.order[k] as usize] = g; } }
    // last group using each slot
    let mut last = vec![0usize; ni];
    for i in 0..ni { if need[i] { for o in ops(i) { let o = o as usize; if grp[i] > last[o] { last[o] = grp[i]; } } } }
    last[l.out as usize] = usize::MAX;
    let run: Vec<Vec<u32>> = (0..=n).map(|g| c.order[c.group[g]..c.group[g + 1]].iter().copied().filter(|i| need[*i as usize]).collect()).collect();
    let mut base = vec![0i64; ni];
    let zero = vec![0i64; n];
    for i in &run[0] { if let Err(f) = c.step(*i, &mut base, &zero, None) { return if strict { Err(Finding { kind: Kind::NoWitness, msg: vec![], detail: format!("{f:?}") }) } else { Ok(Search::Done) }; } }
    let frontier: Vec<Vec<u32>> = (0..=n).map(|g| (0..ni as u32).filter(|i| { let i = *i as usize; need[i] && grp[i] >= 1 && grp[i] <= g && last[i] > g }).collect()).collect();
    let mut rs0 = RS { cur: DEAD, set: vec![], hit: false, any: false, ended: false, acc_end: false, any_end: false };
    rs0 = rs_step(r, &rs0, SOM, true);
    let mut layer: Vec<(Vec<i64>, RS, Vec<u8>)> = vec![(vec![], rs0, vec![])];
    st.states += 1;
    let mut msg = vec![0i64; n];
    for g in 1..=n {
        let mut seen: HashMap<(Vec<i64>, RS), ()> = HashMap::new();
        let mut next = vec![];
        for (fv, rs, path) in &layer {
            for (s, v) in frontier[g - 1].iter().zip(fv) { base[*s as usize] = *v; }
            for b in alpha {
                if r.spec.dollar && rs.ended && *b != 0 { continue; }
                msg[g - 1] = *b as i64;
                st.transitions += 1;
                let mut p = path.clone();
                p.push(*b);
                let mut none = false;
                for i in &run[g] { if let Err(f) = c.step(*i, &mut base, &msg, None) { if !strict { none = true; break; } return Err(Finding { kind: Kind::NoWitness, msg: p, detail: format!("{f:?}") }); } }
                if none { continue; }
                let nr = rs_step(r, rs, *b, false);
                if g == n {
                    let out = base[l.out as usize];
                    let fin = |cur: &RS| -> (bool, bool) {
                        if !r.spec.dollar { return (cur.hit, cur.any || r.nullable); }
                        if cur.ended { (cur.acc_end, cur.any_end) } else { (cur.cur != DEAD && r.det.acc[cur.cur as usize], cur.set.iter().any(|q| r.det.acc[*q as usize])) }
                    };
                    let (hit, any) = fin(&nr);
                    st.messages += 1;
                    if out == 1 { st.accepting += 1; }
                    if out != 0 && out != 1 { return Err(Finding { kind: Kind::OutNotBool, msg: p, detail: format!("out = {out}") }); }
                    if j.sound && out == 1 && !any && !r.nullable { return Err(Finding { kind: Kind::OutUnsound, msg: p, detail: "out = 1 but no substring of the message matches".into() }); }
                    if j.complete && r.supported() && hit && out == 0 { return Err(Finding { kind: Kind::OutMissed, msg: p, detail: "out = 0 but the left-to-right scan matches".into() }); }
                    continue;
                }
                let key: Vec<i64> = frontier[g].iter().map(|s| base[*s as usize]).collect();
                if seen.insert((key.clone(), nr.clone()), ()).is_none() { st.states += 1; next.push((key, nr, p)); if next.len() > cap { return Ok(Search::Capped); } }
            }
        }
        layer = next;
    }
    Ok(Search::Done)
}


// ------------------------------------------------------------------ contexts: every reference transition in every context
/// Conformance words in the manner of a transition cover: for every state of the reference DFA and every byte
/// class, the shortest way there, that byte, and a set of continuations; each behind a set of prefixes.
pub fn context_words(r: &Ref, classes: &[Vec<u8>], all_bytes: bool, max_len: usize) -> Vec<Vec<u8>> {
    let d = &r.det;
    let n = d.acc.len();
    let syms: Vec<u8> = classes.iter().map(|c| rep(c)).filter(|b| *b != 0 && *b != SOM).collect();
    // access words: from the start, and from behind the beginning of the message
    let bfs = |from: u32, w0: Vec<u8>| -> Vec<Option<Vec<u8>>> {
        let mut a: Vec<Option<Vec<u8>>> = vec![None; n];
        a[from as usize] = Some(w0);
        let mut q = vec![from];
        let mut k = 0;
        while k < q.len() {
            let s = q[k]; k += 1;
            for b in &syms { let t = d.trans[s as usize][*b as usize]; if t != DEAD && a[t as usize].is_none() { let mut w = a[s as usize].clone().unwrap(); w.push(*b); a[t as usize] = Some(w); q.push(t); } }
        }
        a
    };
    let plain = bfs(0, vec![]);
    let som = d.trans[0][SOM as usize];
    let after_som = if som != DEAD { bfs(som, vec![]) } else { vec![None; n] };
    // shortest accepting continuation of every state, over the representatives
    let mut fin: Vec<Option<Vec<u8>>> = (0..n).map(|s| if d.acc[s] { Some(vec![]) } else { None }).collect();
    loop {
        let mut ch = false;
        for s in 0..n { for b in &syms { let t = d.trans[s][*b as usize]; if t == DEAD { continue; } if let Some(f) = fin[t as usize].clone() { if fin[s].as_ref().map(|o| o.len() > f.len() + 1).unwrap_or(true) { let mut w = vec![*b]; w.extend(f); fin[s] = Some(w); ch = true; } } } }
        if !ch { break; }
    }
    let full: Vec<u8> = fin[0].clone().unwrap_or_default();
    let half: Vec<u8> = full[..full.len() / 2].to_vec();
    let kill = syms.iter().copied().find(|b| d.trans[0][*b as usize] == DEAD);
    let mut prefixes: Vec<Vec<u8>> = vec![vec![]];
    if let Some(k) = kill { prefixes.push(vec![k]); let mut p = full.clone(); p.push(k); prefixes.push(p); let mut p = half.clone(); p.push(k); prefixes.push(p); }
    prefixes.push(full.clone());
    let mut out: Vec<Vec<u8>> = vec![];
    for s in 0..n {
        let mut heads: Vec<Vec<u8>> = vec![];
        if let Some(w) = &plain[s] { for p in &prefixes { let mut h = p.clone(); h.extend(w); heads.push(h); } }
        if let Some(w) = &after_som[s] { heads.push(w.clone()); }
        for h in heads {
            for c in classes {
                let bytes: Vec<u8> = if all_bytes { c.clone() } else { vec![rep(c)] };
                for b in bytes {
                    if b == 0 || b == SOM { continue; }
                    let mut w = h.clone();
                    w.push(b);
                    let t = d.trans[s][b as usize];
                    let t2 = if t != DEAD { t } else { d.trans[0][b as usize] };
                    out.push(w.clone());
                    if t2 != DEAD {
                        if let Some(f) = &fin[t2 as usize] {
                            let mut x = w.clone(); x.extend(f);
                            if !f.is_empty() { out.push(x.clone()); }
                            if let Some(k) = kill { let mut y = x.clone(); y.push(k); y.extend(&full); out.push(y); }
                            let mut y = x.clone(); y.extend(&full); out.push(y);
                        }
                    }
                    if let Some(k) = kill { let mut x = w.clone(); x.push(k); out.push(x.clone()); x.extend(&full); out.push(x); }
                }
            }
        }
    }
    out.retain(|w| w.len() <= max_len && !w.contains(&0));
    out.sort_by(|a, b| a.len().cmp(&b.len()).then(a.cmp(b)));
    out.dedup();
    out
}

/// evaluate words (zero-padded to n), sharing the evaluated prefix of neighbouring words
pub fn run_words(c: &Circuit, l: &Layout, n: usize, words: &[Vec<u8>], f: &mut dyn FnMut(&[u8], Result<(i64, Vec<Vec<i64>>), Fail>) -> Result<(), Finding>, st: &mut Stats) -> Result<(), Finding> {
    let mut sorted: Vec<&Vec<u8>> = words.iter().filter(|w| w.len() <= n).collect();
    sorted.sort();
    let mut vals = vec![0i64; c.instrs.len()];
    let mut msg = vec![0i64; n];
    if let Err(e) = c.run_group(0, &mut vals, &msg) { return f(&[], Err(e)); }
    let mut done: Vec<u8> = vec![]; // bytes whose groups are valid in vals
    for w in sorted {
        let mut m = w.clone();
        m.resize(n, 0);
        let k = done.iter().zip(&m).take_while(|(a, b)| a == b).count();
        done.truncate(k);
        let mut res = Ok(());
        for i in k..n {
            msg[i] = m[i] as i64;
            st.transitions += 1;
            if let Err(e) = c.run_group(i + 1, &mut vals, &msg) { res = Err(e); break; }
            done.push(m[i]);
        }
        st.states += 1;
        let r = match res { Ok(()) => Ok((vals[l.out as usize], l.reveals.iter().map(|v| v.iter().map(|s| vals[*s as usize]).collect()).collect())), Err(e) => Err(e) };
        f(&m, r)?;
    }
    Ok(())
}
