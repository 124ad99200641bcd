//! Anchors and inline flags wherever a text can have them: every text of a few tokens, judged by what a regex engine says about the whole text.
use crate::engine::*;
use crate::explore::*;
use crate::report::Job;
use crate::subject;
use regex_automata::{meta::Regex, Anchored, Input};

/// every text of at most k of the tokens, with balanced parentheses and nothing a regex parser refuses
fn texts(tokens: &[&str], k: usize) -> Vec<String> {
    fn go(tokens: &[&str], left: usize, depth: usize, s: &mut String, out: &mut Vec<String>) {
        if depth == 0 && !s.is_empty() { out.push(s.clone()); }
        if left == 0 { return; }
        for t in tokens {
            let d = match *t { "(" | "(?:" => depth + 1, ")" => { if depth == 0 { continue; } depth - 1 } _ => depth };
            if d > left - 1 { continue; }
            if (*t == "*" || *t == "?") && (s.is_empty() || s.ends_with(['(', '|', '*', '^', '$', '?'])) { continue; }
            let n = s.len();
            s.push_str(t);
            go(tokens, left - 1, d, s, out);
            s.truncate(n);
        }
    }
    let mut out = vec![];
    go(tokens, k, 0, &mut String::new(), &mut out);
    out.retain(|x| regex_automata::util::syntax::parse(x).is_ok());
    out
}

fn show(parts: &[(bool, String)]) -> String { serde_json::to_string(&parts.iter().map(|(p, r)| format!("{}{}", if *p { "pub:" } else { "" }, r)).collect::<Vec<_>>()).unwrap() }

/// j: judge out = 1 against any match, out = 0 against a match that a left-to-right scan cannot miss
fn one(parts: &[(bool, String)], alpha: &[u8], cap: usize, j: Judge, raw: bool, st: &mut Stats) -> Result<(), Finding> {
    // a caret that begins the first part anchors all of it, a dollar that ends the last part ends all of it
    let pattern: String = parts.iter().enumerate().map(|(i, p)| {
        let (t, a) = match p.1.strip_prefix('^') { Some(t) if i == 0 => (t, "^"), _ => (p.1.as_str(), "") };
        let (t, z) = match t.strip_suffix('$') { Some(t) if i + 1 == parts.len() => (t, "$"), _ => (t, "") };
        format!("{a}(?:{t}){z}")
    }).collect();
    let Ok(re) = Regex::new(&pattern) else { st.skipped += 1; return Ok(()) };
    let end = Regex::new(&format!("(?:{pattern})\\z")).map_err(|e| fnd(Kind::Other, e.to_string()))?;
    st.configs += 1;
    let given = match subject::circom_text(parts, "T", Some(true)) { subject::Out::Ok(t) => Some(t), subject::Out::Panic(e) => return Err(fnd(Kind::Compile, format!("panic: {e}"))), _ => None };
    let text = if raw {
        let (res, f) = subject::gen_raw(&parts[0].1, None, "T", Some(false), false, true);
        match res {
            subject::Out::Ok(()) if given.is_none() => return Err(fnd(Kind::Other, "compiled as a raw regex, refused as the only part of a definition".into())),
            subject::Out::Ok(()) => f.circom,
            o if given.is_some() || matches!(o, subject::Out::Panic(_)) => return Err(fnd(Kind::Compile, format!("refused: {}", o.kind()))),
            _ => None,
        }
    } else { given };
    let Some(text) = text else { st.rejected += 1; return Ok(()) };
    st.supported += 1;
    let p = subject::link(&text, "T").map_err(|e| fnd(Kind::Interface, format!("the generated circuit is malformed: {e}")))?;
    let dot = pattern.contains(['.', JUNK as char]);
    let n = fit(alpha.len() + 1, cap, 7);
    let c = subject::instance(&p, n).map_err(|e| fnd(Kind::Interface, e))?;
    let lay = layout(&c, n, if raw { 0 } else { parts.iter().filter(|p| p.0).count() }).map_err(|e| fnd(Kind::Interface, e))?;
    st.circuits += 1;
    let mut words: Vec<Vec<u8>> = vec![vec![]];
    let mut all = words.clone();
    for _ in 0..n { words = words.iter().flat_map(|w| alpha.iter().map(move |b| { let mut x = w.clone(); x.push(*b); x })).collect(); all.extend(words.iter().cloned()); }
    let mut js = Stats::default();
    run_words(&c, &lay, n, &all, &mut |m, res| {
        let bad = |k: Kind, d: String| Err(Finding { kind: k, msg: m.to_vec(), detail: d });
        let out = match res { Ok(x) => x.0, Err(e) => return bad(Kind::NoWitness, format!("no witness ({e:?})")) };
        js.messages += 1;
        js.accepting += out as u64;
        let len = m.iter().position(|b| *b == 0).unwrap_or(m.len());
        let m = &m[..len];
        let any = re.is_match(Input::new(m));
        if j.sound && out == 1 && !any { return bad(Kind::OutUnsound, format!("out = 1, but {pattern} matches nothing in it")); }
        // nothing but bytes outside of every regex before a match that ends the content: a scan cannot miss it
        let k = if dot { 0 } else { m.iter().take_while(|b| **b == JUNK).count() };
        if j.complete && parts.len() == 1 && out == 0 && k < len && end.is_match(Input::new(m).range(k..).anchored(Anchored::Yes)) { return bad(Kind::OutMissed, format!("out = 0, but {pattern} matches")); }
        Ok(())
    }, st)?;
    st.add(&js);
    Ok(())
}
const JUNK: u8 = b' ';
/// anchors and other assertions where they are supported and where they are not
pub fn anchors(start: bool, thorough: bool) -> Vec<Job> {
    let (k, k2, cap) = if thorough { (7, 5, 400) } else { (6, 4, 400) };
    let j = Judge { sound: true, complete: true, ..Default::default() };
    let mut v = texts(&["a", "b", "(", ")", "|", "^", "$", "*"], k);
    v.extend(texts(&["a", "b", "(", ")", "|", "^", "$", "(?:", "(?m)", "\\b", "(?-u:\\b)", "(?-u:\\B)", "\\A", "\\z"], k2));
    let mut seen = std::collections::HashSet::new();
    v.retain(|t| seen.insert(t.clone()));
    let begin = |t: &str| t.contains('^') || t.contains("\\A");
    let mut jobs = vec![];
    for t in v {
        if if start { !begin(&t) } else { begin(&t) || !(t.contains(['$', '\\'])) } { continue; }
        for parts in [vec![(true, t.clone())], vec![(false, t.clone()), (true, "b".to_string())], vec![(true, "a".to_string()), (false, t.clone())]] {
            jobs.push(Job::new(format!("as written {}", show(&parts)), move |st| one(&parts, b"ab ", cap, j, false, st)));
        }
    }
    jobs
}
/// inline flags wherever a group can have them
pub fn flags(j: Judge, thorough: bool) -> Vec<Job> {
    let (k, cap) = if thorough { (5, 800) } else { (4, 800) };
    let mut jobs = vec![];
    for t in texts(&["a", "b", "(", ")", "|", "^", "(?i)", "(?m)", "(?s)", "(?-i)", "."], k) {
        if !t.contains("(?") { continue; }
        for parts in [vec![(true, t.clone())], vec![(false, t.clone()), (true, "b".to_string())]] {
            jobs.push(Job::new(format!("as written {}", show(&parts)), move |st| one(&parts, b"aAb\n", cap, j, false, st)));
        }
    }
    jobs
}
/// raw texts, groups and flags at their beginning and end
pub fn raws(thorough: bool) -> Vec<Job> {
    let j = Judge { sound: true, complete: true, ..Default::default() };
    texts(&["a", "b", "(", "(?:", ")", "|", "*", "^", "$", "(?i)", " ", "\n", "[ab]"], if thorough { 5 } else { 4 }).into_iter().map(|t| Job::new(format!("as written {t:?}"), move |st| one(&[(true, t.clone())], b"aAb\n ", 700, j, true, st))).collect()
}
