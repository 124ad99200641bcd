//! Character classes: every byte value against arithmetic, in circuits and in halo2 tables.
use crate::checks::*;
use crate::engine::*;
use crate::explore::*;
use crate::families as fam;
use crate::refm::*;
use crate::report::{Check, Job};
use crate::subject;

/// a class written as regex text, and the ASCII bytes it denotes; `only` = it denotes no other character
#[derive(Clone)]
pub struct Class { pub re: String, pub set: Vec<bool>, pub only: bool }

fn set(f: impl Fn(u8) -> bool) -> Vec<bool> { (0..128u8).map(|b| b != 0 && f(b)).collect() }
fn hx(b: u8) -> String { format!("\\x{b:02x}") }

pub fn family(thorough: bool) -> Vec<Class> {
    let mut v: Vec<Class> = vec![];
    let mut add = |re: String, s: Vec<bool>, only: bool| v.push(Class { re, set: s, only });
    // every interval of ASCII
    for lo in 1..128u8 { for hi in lo..128u8 { add(format!("[{}-{}]", hx(lo), hx(hi)), set(|b| b >= lo && b <= hi), true); } }
    // every negated byte, and negated intervals
    for b0 in 1..128u8 { add(format!("[^{}]", hx(b0)), set(|b| b != b0), false); }
    let step = if thorough { 1 } else { 7 };
    for lo in (1..128u8).step_by(step) { for hi in (lo..128u8).step_by(step) { if hi > lo { add(format!("[^{}-{}]", hx(lo), hx(hi)), set(|b| !(b >= lo && b <= hi)), false); } } }
    // every literal in every spelling
    for c in 1..128u8 {
        let s = set(|b| b == c);
        let ch = c as char;
        if (32..127).contains(&c) {
            let plain = if "\\.+*?()|[]{}^$#&-~/".contains(ch) || ch == ' ' { format!("\\{ch}") } else { ch.to_string() };
            let plain = if ch == ' ' || ch == '/' { ch.to_string() } else { plain };
            add(plain.clone(), s.clone(), true);
            if ch.is_ascii_punctuation() && ch != '<' && ch != '>' { add(format!("(\\{ch})"), s.clone(), true); add(format!("[\\{ch}]"), s.clone(), true); }
            if ch.is_ascii_punctuation() { add(format!("[{}]", if "\\]^-[&~".contains(ch) { format!("\\{ch}") } else { ch.to_string() }), s.clone(), true); }
        } else { add(ch.to_string(), s.clone(), true); }
        add(hx(c), s.clone(), true);
        add(format!("\\x{{{c:x}}}"), s.clone(), true);
        add(format!("\\u{{{c:04X}}}"), s.clone(), true);
        add(format!("[{}]", hx(c)), s.clone(), true);
        add(format!("({}|{})", hx(c), hx(if c == 127 { 1 } else { c + 1 })), set(|b| b == c || b == if c == 127 { 1 } else { c + 1 }), true);
    }
    for (e, c) in [("\\n", b'\n'), ("\\r", b'\r'), ("\\t", b'\t'), ("\\f", 12), ("\\v", 11), ("\\a", 7)] { add(e.into(), set(|b| b == c), true); add(format!("[{e}]"), set(|b| b == c), true); add(format!("[^{e}]"), set(|b| b != c), false); }
    // predefined
    let word = |b: u8| b.is_ascii_alphanumeric() || b == b'_';
    let space = |b: u8| matches!(b, 9..=13 | 32);
    for (e, f) in [("\\d", &(|b: u8| b.is_ascii_digit()) as &dyn Fn(u8) -> bool), ("\\w", &word), ("\\s", &space)] {
        add(e.into(), set(f), false);
        add(e.to_uppercase(), set(|b| !f(b)), false);
        add(format!("[{e}]"), set(f), false);
        add(format!("[^{e}]"), set(|b| !f(b)), false);
        add(format!("(?-u:{e})"), set(f), true);
    }
    add(".".into(), set(|b| b != b'\n'), false);
    add("(?s:.)".into(), set(|_| true), false);
    for (n, f) in [("alpha", &(|b: u8| b.is_ascii_alphabetic()) as &dyn Fn(u8) -> bool), ("digit", &|b: u8| b.is_ascii_digit()), ("alnum", &|b: u8| b.is_ascii_alphanumeric()), ("upper", &|b: u8| b.is_ascii_uppercase()), ("lower", &|b: u8| b.is_ascii_lowercase()), ("punct", &|b: u8| b.is_ascii_punctuation()), ("space", &space), ("xdigit", &|b: u8| b.is_ascii_hexdigit()), ("cntrl", &|b: u8| b.is_ascii_control()), ("graph", &|b: u8| b.is_ascii_graphic()), ("print", &|b: u8| (32..127).contains(&b)), ("blank", &|b: u8| b == 9 || b == 32)] {
        add(format!("[[:{n}:]]"), set(f), true);
    }
    for c in b'a'..=b'z' { if c != b'k' && c != b's' { add(format!("(?i){}", c as char), set(|b| b.to_ascii_lowercase() == c), true); } }
    // every subset of a window of eight bytes, and of eight bytes at borders
    for w in [[b'a', b'b', b'c', b'd', b'e', b'f', b'g', b'h'], [1, 2, 9, 31, 32, 126, 127, b'@']] {
        for m in 1..256u32 { let t: Vec<u8> = (0..8).filter(|i| m >> i & 1 == 1).map(|i| w[i]).collect(); let tt = t.clone(); add(format!("[{}]", t.iter().map(|b| hx(*b)).collect::<String>()), set(move |b| tt.contains(&b)), true); }
    }
    // two and three intervals, with and without gaps
    let ends: &[u8] = if thorough { &[1, 2, 31, 32, 33, 47, 48, 57, 58, 64, 65, 90, 91, 97, 122, 123, 126, 127] } else { &[1, 32, 47, 48, 57, 65, 90, 97, 122, 127] };
    for (i, a) in ends.iter().enumerate() { for (j, b) in ends.iter().enumerate().skip(i) { for (k, c) in ends.iter().enumerate().skip(j + 1) { for d in ends.iter().skip(k) {
        let (a, b, c, d) = (*a, *b, *c, *d);
        add(format!("[{}-{}{}-{}]", hx(a), hx(b), hx(c), hx(d)), set(|x| (a..=b).contains(&x) || (c..=d).contains(&x)), true);
    } } } }
    let mut seen = std::collections::HashSet::new();
    v.retain(|c| seen.insert(c.re.clone()));
    v
}

/// two classes leading to different states: [first class] then a mark
fn fork(a: &Class, b: &Class) -> Spec { fam::spec(&[(true, &format!("({}x|{}y)", a.re, b.re))], Caret::None, false) }

fn one(c: &Class, st: &mut Stats) -> Result<(), Finding> {
    st.configs += 1;
    let parts = vec![(true, c.re.clone())];
    let text = match subject::circom_text(&parts, "T", Some(true)) {
        subject::Out::Ok(t) => t,
        o => return Err(fnd(Kind::Compile, format!("a character class is refused: {}", o.kind()))),
    };
    st.supported += 1;
    let p = subject::link(&text, "T").map_err(|e| fnd(Kind::Interface, e))?;
    for n in [1usize, 2] {
        let circ = subject::instance(&p, n).map_err(|e| fnd(Kind::Interface, e))?;
        let lay = layout(&circ, n, 1).map_err(|e| fnd(Kind::Interface, e))?;
        st.circuits += 1;
        let other: Vec<u8> = if n == 1 { vec![0] } else {
            let inside = (1..128u8).find(|b| c.set[*b as usize]);
            let outside = (1..128u8).find(|b| !c.set[*b as usize]);
            inside.into_iter().chain(outside).collect()
        };
        for o in other {
            for b in 0..255u8 {
                // bytes above ASCII only stand for themselves in classes without other characters
                if b >= 128 && n == 2 { continue; }
                let msg = if n == 1 { vec![b] } else { vec![o, b] };
                st.states += 1;
                st.transitions += n as u64;
                st.messages += 1;
                let (out, rv) = eval_msg(&circ, &lay, &msg).map_err(|f| Finding { kind: Kind::NoWitness, msg: msg.clone(), detail: format!("no witness ({f:?})") })?;
                let is = |b: u8| b < 128 && c.set[b as usize];
                let want = msg.iter().any(|b| is(*b));
                if (out == 1) != want { return Err(Finding { kind: if want { Kind::OutMissed } else { Kind::OutUnsound }, msg: msg.clone(), detail: format!("out = {out} for {}", c.re) }); }
                let wr: Vec<i64> = msg.iter().map(|b| if is(*b) { *b as i64 } else { 0 }).collect();
                if rv[0] != wr { return Err(Finding { kind: Kind::RevealInexact, msg: msg.clone(), detail: format!("reveal0 = {:?}, expected {wr:?} for {}", rv[0], c.re) }); }
                if out == 1 { st.accepting += 1; st.revealing += 1; }
            }
        }
    }
    // the table
    let (res, f) = subject::gen_files(&parts, "T", Some(false), true, false);
    if !res.is_ok() { return Err(fnd(Kind::Compile, format!("halo2 tables are refused: {}", res.kind()))); }
    let t = subject::parse_allstr(f.halo2.get("allstr.txt").map(|s| s.as_str()).unwrap_or("")).map_err(|e| fnd(Kind::Interface, e))?;
    let l = crate::tables::Live::new(&t);
    for b in 1..=255u8 {
        let to = l.step(t.start, b);
        st.transitions += 1;
        let want = b < 128 && c.set[b as usize];
        let got = to.contains(&t.accept);
        if got != want { return Err(Finding { kind: if want { Kind::OutMissed } else { Kind::OutUnsound }, msg: vec![b], detail: format!("halo2 table: byte {b} {} {}", if got { "matches" } else { "does not match" }, c.re) }); }
        if c.only && !want && !to.is_empty() { return Err(Finding { kind: Kind::OutUnsound, msg: vec![b], detail: format!("halo2 table: byte {b} begins a match of {}", c.re) }); }
    }
    if st.sample.is_none() { st.sample = Some(format!("{}: {} ASCII bytes", c.re, c.set.iter().filter(|x| **x).count())); }
    Ok(())
}

pub fn check(thorough: bool) -> Check {
    let fam0 = family(thorough);
    let mut jobs: Vec<Job> = vec![];
    // hundreds of tiny configurations per job would hide the failing one: one job each
    for c in fam0.iter().cloned() { jobs.push(Job::new(format!("class {}", c.re), move |st| one(&c, st))); }
    // classes that share comparators: two of them into different states
    let pick: Vec<Class> = ["[\\x61-\\x6f]", "[\\x61-\\x70]", "[\\x61-\\x71]", "[\\x62-\\x71]", "[\\x30-\\x39]", "[\\x01-\\x7f]", "[\\x41-\\x5a]", "[\\x20-\\x7e]", "\\x61", "[^\\x61]"].iter().filter_map(|r| fam0.iter().find(|c| c.re == *r).cloned()).collect();
    let j = Judge { sound: true, complete: true, rsound: true, rexact: true };
    for a in &pick { for b in &pick {
        let s = fork(a, b);
        jobs.push(Job::new(format!("fork {}", key_of(&s)), move |st| { let Some(l) = load(&s, true, st)? else { return Ok(()) }; let w = context_words(&l.r, &joint_classes(&[&l.r.class_of]), true, 8); run_contexts(&l, &w, &j, true, st) }));
    } }
    // Unicode intervals between all borders of the UTF-8 lengths
    let borders: &[u32] = &[0x41, 0x7f, 0x80, 0xbf, 0xc0, 0x7ff, 0x800, 0xfff, 0x1000, 0xcfff, 0xd7ff, 0xe000, 0xffff, 0x10000, 0x3ffff, 0x40000, 0xfffff, 0x100000, 0x10ffff];
    for (i, lo) in borders.iter().enumerate() { for hi in &borders[i..] {
        for neg in ["", "^"] {
            if neg == "^" && !thorough && (i % 3 != 0) { continue; }
            let s = fam::spec(&[(true, &format!("[{neg}\\x{{{lo:x}}}-\\x{{{hi:x}}}]"))], Caret::None, false);
            let s2 = s.clone();
            jobs.push(Job::new(format!("unicode table {}", key_of(&s)), move |st| crate::tables::check_table(&s2, st)));
            if thorough || neg.is_empty() {
                jobs.push(Job::new(format!("unicode {}", key_of(&s)), move |st| { let Some(l) = load(&s, true, st)? else { return Ok(()) }; let w = context_words(&l.r, &joint_classes(&[&l.r.class_of]), true, 5); run_contexts(&l, &w, &j, true, st) }));
            }
        }
    } }
    for s in fam::unicode().into_iter().chain(fam::CLASS_POOL.iter().filter(|x| **x != "\\w").map(|x| fam::spec(&[(true, x)], Caret::None, false))) {
        jobs.push(Job::new(format!("contexts {}", key_of(&s)), move |st| { let Some(l) = load(&s, true, st)? else { return Ok(()) }; let w = context_words(&l.r, &joint_classes(&[&l.r.class_of]), true, 12); run_contexts(&l, &w, &j, true, st) }));
    }
    let n = fam0.len();
    Check { id: "C07".into(), jobs, bounds: vec![
        format!("{n} class texts: all 8128 intervals of ASCII, every negated byte, negated intervals, every literal in every spelling, predefined and POSIX classes, every subset of two windows of eight bytes, unions of two intervals over {} borders; every byte 0..254 as message and behind a member and a non-member; every byte in the halo2 table", if thorough { 18 } else { 10 }),
        "Unicode intervals between all borders of UTF-8 lengths: the whole product of the halo2 table with the reference automaton; circuits on a cover of every reference state and every byte".into()],
        assumptions: vec![ASSUME_CIRCOM.into(), "ASCII members of a class are computed by the harness itself; non-ASCII members by regex-automata".into()] }
}
