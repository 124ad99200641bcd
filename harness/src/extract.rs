//! Extraction: against a matcher of our own, against the circuits, and against what e-mail headers say.
use crate::bt::{self, Parser, Re};
use crate::checks::*;
use crate::engine::*;
use crate::explore::*;
use crate::families as fam;
use crate::refm::*;
use crate::report::{Check, Job};
use crate::subject::{self, Out};
use std::collections::BTreeSet;
use zk_regex_apis::extract_substrs as ex;

pub type Spans = Vec<(usize, usize)>;
fn config(parts: &[(bool, String)]) -> ex::DecomposedRegexConfig { ex::DecomposedRegexConfig { parts: parts.iter().map(|(p, r)| ex::RegexPartConfig { is_public: *p, regex_def: r.clone() }).collect() } }
fn spans(text: &str, c: &ex::DecomposedRegexConfig, all: bool) -> Out<Spans> { subject::guarded(|| ex::extract_substr_idxes(text, c, all).map_err(|e| e.to_string())) }
fn texts(alpha: &[&str], n: usize) -> Vec<String> {
    let mut v = vec![String::new()];
    let mut last = v.clone();
    for _ in 0..n { last = last.iter().flat_map(|t| alpha.iter().map(move |c| format!("{t}{c}"))).collect(); v.extend(last.clone()); }
    v
}
fn bad(t: &str, d: String) -> Finding { Finding { kind: Kind::Other, msg: t.as_bytes().to_vec(), detail: d } }

/// one definition on a list of texts: spans of all parts, then of every choice of public parts
fn against(parts: &[&str], res: &[Re], texts: &[String], masks_upto: usize, st: &mut Stats) -> Result<(), Finding> {
    st.configs += 1;
    let n = parts.len();
    let mk = |m: usize| config(&(0..n).map(|i| (m >> i & 1 == 1, parts[i].to_string())).collect::<Vec<_>>());
    let confs: Vec<_> = (0..1 << n).map(mk).collect();
    let mut later: Option<Finding> = None;
    for (k, t) in texts.iter().enumerate() {
        let mut want = bt::find(res, t);
        // a match other than the first one is a violation of its own kind; whatever else is wrong is still looked for
        if let (Some(w), Out::Ok(g)) = (&want, spans(t, &confs[(1 << n) - 1], true)) {
            if &g != w && g.len() == n && n > 0 && g[0].0 > w[0].0 {
                if let Some(x) = bt::find_from(res, t, g[0].0) { if x == g {
                    if later.is_none() { later = Some(Finding { kind: Kind::NotFirst, msg: t.as_bytes().to_vec(), detail: format!("parts {parts:?}: {g:?}, but the first match is {w:?}") }); }
                    want = Some(g);
                } }
            }
        }
        // short texts with every choice of public parts, private parts shown or not; the others with one choice each in turn
        let runs: Vec<(usize, bool)> = if t.chars().count() <= masks_upto { (0..1 << n).flat_map(|m| [(m, false), (m, true)]).collect() } else { vec![(k % (1 << n), k / (1 << n) % 2 == 0)] };
        for (m, all) in runs {
            st.messages += 1;
            st.states += 1;
            st.transitions += 1;
            let got = spans(t, &confs[m], all);
            let exp: Option<Spans> = want.as_ref().map(|w| w.iter().enumerate().filter(|(i, _)| all || m >> i & 1 == 1).map(|(_, s)| *s).collect());
            match (&got, &exp) {
                (Out::Panic(e), _) => return Err(bad(t, format!("panic: {e}"))),
                (Out::Ok(g), Some(e)) if g == e => { st.accepting += 1; if st.sample.is_none() && !e.is_empty() { st.sample = Some(format!("{t:?}: spans {e:?}")); } }
                (Out::Err(_), None) => st.rejected += 1,
                _ => return Err(bad(t, format!("parts {parts:?}: public {}, private parts {}: {:?}, expected {}", (0..n).map(|i| if m >> i & 1 == 1 { '1' } else { '0' }).collect::<String>(), if all { "shown" } else { "hidden" }, got, exp.map(|e| format!("{e:?}")).unwrap_or("an error".into())))),
            }
            if t.chars().count() <= masks_upto {
                let s = subject::guarded(|| ex::extract_substr(t, &confs[m], all).map_err(|e| e.to_string()));
                let exp: Option<Vec<String>> = exp.map(|e| e.iter().map(|(a, b)| t[*a..*b].to_string()).collect());
                let ok = match (&s, &exp) { (Out::Ok(g), Some(e)) => g == e, (Out::Err(_), None) => true, _ => false };
                if !ok { return Err(bad(t, format!("texts {s:?}, expected {exp:?}"))); }
            }
        }
    }
    match later { Some(f) => Err(f), None => Ok(()) }
}
pub const PARTS: &[&str] = &[
    "a", "b", "é", "ab", "aé", "a|b", "a|ab", "ab|a", "(a|ab)", "(ab|a)", "a*", "a+", "a?", "a*?", "a+?", "a??", "(é|a)*", ".", ".*", ".+", ".*?", ".+?", "[ab]", "[^a]", "[^a]*", "[^a]*?", "[ab]+", "[^\\n]+", "\\n", "(a)(b)", "(a)(b)?", "((a)|(b))+", "(?:a|b)+", "(?:a|b)+?", "(?:ab)?", "((a)b)?", "(a|(b))", "a{2}", "a{1,2}", "a{1,2}?", "(ab){1,}", "b{0,1}a",
    "\\(", "[(]", "\\)", "[)(]+", "\\\\", "a\\|b", "\\[a", "(?i)A", "a(?i)b", "((?i)a)b", "(?:(?i)a)B", "b|(?i)a", "a(?i)b|A", "(?i)a(?-i)b", "(?i)", "a(?s)\n?.", "a(?U)b*", "(?is)a.", "(?m)^a", "(?m)a$", "(?i)a|B", "(?i:A)b", "(?P<n>a)", "(?P<n>a|b)(b)", "(?=a)", "(?=a).", "(?!a).", "a(?!b)", "(?<=a)b", "(?<!a)b", "\\ba", "a\\b", "^", "$", "^a", "a$", "(^|b)", "(a|$)", "", "(?s).", "a|", "|a", "\\d", "\\w+", "\\s", "(a|b)(c|d)?", "(((a)))", "()a",
];
/// quick tier: pairs with one of these, and the pairs that are known findings
const CORE: &[&str] = &["a", "b", "a*", "a+?", "(a|b)", "ab|a", ".*?", "(a)(b)?", "[^a]", "é", "$", "(?i)a|B", "\\(", "(?:ab)?"];
const LONGER: &[&str] = &["aéba", "aé\na", "éaab", "(ab)a", "b(a)", "ab\nab", "éé", "Aab", "BbAa", "a.b-a"];
const TRIPLE: &[&str] = &["a", "b", "a*", "a+?", "a|ab", ".*?", ".+", "(a)(b)?", "[^a]", "$", "((a)|(b))*?", "(?i)B"];
const A1: &[&str] = &["a", "b", "é", "\n"];
const A2: &[&str] = &["a", "A", "(", ")"];
const A3: &[&str] = &["a", "b", "é", "("];
fn refuse(t: &str, st: &mut Stats) -> Result<(), Finding> {
    let inputs = ["", "a", "b", "ab", "éa", "aab-b.", "^a$", "a)|(b", "\n"];
    for parts in [vec![t], vec![t, "b"], vec!["a", t], vec!["a*", t, "b*"]] {
        st.configs += 1;
        let res: Result<Vec<Re>, String> = parts.iter().map(|p| Parser::parse(p)).collect();
        let unbalanced = parts.iter().any(|p| regex_automata::util::syntax::parse(p).is_err() && !p.contains("\\(") && bracket_error(p));
        let c = config(&parts.iter().enumerate().map(|(i, p)| (i % 2 == 0, p.to_string())).collect::<Vec<_>>());
        for x in inputs {
            st.messages += 1; st.states += 1; st.transitions += 1;
            let got = spans(x, &c, true);
            match &got {
                Out::Panic(e) => return Err(bad(x, format!("parts {parts:?}: panic: {e}"))),
                Out::Ok(g) => {
                    if unbalanced { return Err(bad(x, format!("parts {parts:?} gave {g:?}, but a part is not a regex"))); }
                    if g.len() != parts.len() || g.windows(2).any(|w| w[0].1 != w[1].0) || g.iter().any(|(a, b)| a > b || !x.is_char_boundary(*a) || *b > x.len() || !x.is_char_boundary(*b)) { return Err(bad(x, format!("parts {parts:?}: spans {g:?} are not adjacent spans of the text"))); }
                    st.accepting += 1;
                }
                Out::Err(_) => st.rejected += 1,
            }
            if let Ok(r) = &res {
                let w = bt::find(r, x);
                let ok = match (&got, &w) { (Out::Ok(g), Some(e)) => g == e, (Out::Err(_), None) => true, _ => false };
                if !ok { return Err(bad(x, format!("parts {parts:?}: {got:?}, expected {w:?}"))); }
            }
        }
    }
    Ok(())
}
/// parentheses or brackets that do not match, read without knowing anything else about regexes
fn bracket_error(p: &str) -> bool {
    let c: Vec<char> = p.chars().collect();
    let (mut d, mut i) = (0i32, 0);
    while i < c.len() {
        match c[i] {
            '\\' => i += 1,
            '[' => return false, // judged by others
            '(' => d += 1,
            ')' => { d -= 1; if d < 0 { return true; } }
            _ => {}
        }
        i += 1;
    }
    d != 0
}
fn json_forms(st: &mut Stats) -> Result<(), Finding> {
    for (p, r) in [("is_public", "regex_def"), ("isPublic", "regexDef"), ("is_public", "regexDef"), ("isPublic", "regex_def")] {
        for m in 0..4 {
            let j = format!("{{\"parts\":[{{\"{p}\":{},\"{r}\":\"a+\"}},{{\"{p}\":{},\"{r}\":\"b\"}}]}}", m & 1 == 1, m & 2 == 2);
            let c: ex::DecomposedRegexConfig = serde_json::from_str(&j).map_err(|e| fnd(Kind::Other, format!("{j}: {e}")))?;
            st.configs += 1;
            for t in texts(&["a", "b"], 5) {
                st.messages += 1; st.states += 1; st.transitions += 1;
                let w = bt::find(&[Parser::parse("a+").unwrap(), Parser::parse("b").unwrap()], &t).map(|w| w.into_iter().enumerate().filter(|(i, _)| m >> i & 1 == 1).map(|x| x.1).collect::<Spans>());
                let g = spans(&t, &c, false).ok();
                if g != w { return Err(bad(&t, format!("{j}: {g:?}, expected {w:?}"))); }
            }
        }
    }
    st.sample = Some("both spellings of the keys".into());
    Ok(())
}
/// (public text, its part, bytes before it): positions and lengths around the ends of the small integer types
pub fn long_cases() -> Vec<(String, String, usize)> {
    let ns = [0usize, 100, 126, 127, 128, 254, 255, 256, 1000, 32766, 32768, 65534, 65535, 65536, 70000, 131072];
    let mut v = vec![];
    for n in ns { for k in [1usize, 127, 128, 255, 256, 300] { if n <= 1000 || k <= 1 || k == 300 { v.push(("y".repeat(k), "y+".into(), n)); } } }
    for k in [32768usize, 65535, 65536, 70000] { v.push(("y".repeat(k), "y+".into(), 3)); v.push(("é".repeat(k / 2), "é+".into(), 5)); }
    v
}
fn long_texts(st: &mut Stats) -> Result<(), Finding> {
    for (x, y, n) in long_cases() {
        let t = format!("{}x{}z", "é".repeat(n / 2), x);
        let b = n / 2 * 2 + 1;
        let want = [(b - 1, b), (b, b + x.len()), (b + x.len(), b + x.len() + 1)];
        for m in 0..8usize { for all in [false, true] {
            st.configs += 1; st.messages += 1; st.states += 1; st.transitions += 1;
            let c = config(&(0..3).map(|i| (m >> i & 1 == 1, ["x", &y, "z"][i].to_string())).collect::<Vec<_>>());
            let w: Spans = (0..3).filter(|i| all || m >> i & 1 == 1).map(|i| want[i]).collect();
            let got = spans(&t, &c, all);
            if got.clone().ok().as_ref() != Some(&w) { return Err(bad("", format!("{n} bytes, x, {} bytes of {y}, z; public {m:03b}: {got:?}, expected {w:?}", x.len()))); }
            let s = subject::guarded(|| ex::extract_substr(&t, &c, all).map_err(|e| e.to_string())).ok();
            if s != Some(w.iter().map(|(a, b)| t[*a..*b].to_string()).collect()) { return Err(bad("", format!("{n} bytes, x, {} bytes of {y}, z; public {m:03b}: the texts are not those of the spans {w:?}", x.len()))); }
            st.accepting += 1;
        } }
    }
    st.sample = Some("texts up to 200000 bytes".into());
    Ok(())
}
/// definitions for which a backtracking matcher gives up on a text: an error, whatever the length
fn gives_up(parts: &[&str], st: &mut Stats) -> Result<(), Finding> {
    st.configs += 1;
    for unit in ["a", "ab", "aab", "é"] { for n in [0usize, 1, 2, 10, 20, 24, 30, 40, 100, 1000] { for all in [false, true] {
        let t = unit.repeat(n);
        let c = config(&parts.iter().enumerate().map(|(i, p)| (i % 2 == 0, p.to_string())).collect::<Vec<_>>());
        st.messages += 1; st.states += 1; st.transitions += 1;
        match spans(&t, &c, all) { Out::Err(_) => st.rejected += 1, Out::Panic(e) => return Err(bad("", format!("parts {parts:?} on {n} times {unit:?}: panic: {e}"))), Out::Ok(g) => return Err(bad("", format!("parts {parts:?} on {n} times {unit:?}: {g:?}, but there is no match"))) }
        if let Out::Panic(e) = subject::guarded(|| ex::extract_substr(&t, &c, all).map_err(|e| e.to_string())) { return Err(bad("", format!("parts {parts:?} on {n} times {unit:?}: panic: {e}"))); }
    } } }
    Ok(())
}
pub fn c16(thorough: bool) -> Check {
    let mut jobs = vec![];
    for parts in [&["(?=a)(a|b|ab)*", "c"][..], &["(a|b|ab)*", "(?=c)c"], &["(a+)+(?!b)", "c"], &["((a|b)+)+", "(?<=b)c"], &["(é|é)*(?=.)", "c"], &["(?:a?){9}(a|ab|b|é)*(?=c)", "c"], &["(a|b)*?(ab|a|b)*?", "(?=x)x", "y"], &["(.+)+(?!\\n)", "z"]] { jobs.push(Job::new(format!("{parts:?} on long texts without a match"), move |st| gives_up(parts, st))); }
    jobs.push(Job::new("long texts", long_texts));
    // every ASCII character and others that are easily taken for something else, at the borders of parts
    let special: BTreeSet<char> = (0u8..128).map(|b| b as char).chain("\u{80}\u{85}\u{a0}\u{ad}ßİıſ\u{212a}\u{300}\u{301}ÿĀ\u{7ff}\u{800}\u{200b}\u{200d}\u{2028}\u{2029}\u{3000}\u{d7ff}\u{e000}\u{feff}\u{fffd}\u{ffff}\u{10000}😀👨\u{10ffff}".chars()).collect();
    for c in special { jobs.push(Job::new(format!("texts with {c:?}"), move |st| {
        let c = c.to_string();
        let t = texts(&["a", "x", &c], if thorough { 5 } else { 4 });
        for parts in [&["[^x]+"][..], &["x", "[^x]+", "x"], &["x?", "[^x]+", "x?"], &["a", "(?s).*", "x"], &["(?s).+", "."], &["[^x]*?", "x"], &["a|[^a]", "[^x]", "x*"]] {
            let r: Vec<Re> = parts.iter().map(|p| Parser::parse(p).unwrap()).collect();
            against(parts, &r, &t, 2, st)?;
        }
        Ok(())
    })); }
    let (l1, l2, l3) = if thorough { (6, 5, 5) } else { (4, 3, 2) };
    for x in PARTS {
        jobs.push(Job::new(format!("[{x:?}]"), move |st| { let r = [Parser::parse(x).map_err(|e| fnd(Kind::Interface, e))?]; let mut t = texts(A1, l1); t.extend(texts(A2, l1)); against(&[x], &r, &t, 3, st) }));
        for y in PARTS {
            if x.contains("?P<") && y.contains("?P<") { continue; }
            if !thorough && !CORE.contains(x) && !CORE.contains(y) && ![("(é|a)*", "(ab|a)"), ("((a)b)?", "b")].contains(&(*x, *y)) { continue; }
            jobs.push(Job::new(format!("[{x:?}, {y:?}]"), move |st| {
                let r = [Parser::parse(x).unwrap(), Parser::parse(y).unwrap()];
                let upto = if x.len() + y.len() < 5 { 2 } else { 1 };
                let slow = if [x, y].iter().any(|p| p.contains("\\w") || p.contains("\\s") || p.contains("\\d")) { 1 } else { 0 };
                let mut t = texts(A1, l2 - 1 - slow); t.extend(texts(A2, l2 - 1 - slow)); t.extend(texts(&["a", "b"], l2 + 1 - slow)); t.extend(LONGER.iter().map(|x| x.to_string()));
                against(&[x, y], &r, &t, upto, st)
            }));
        }
    }
    for x in TRIPLE { for y in TRIPLE { for z in TRIPLE { jobs.push(Job::new(format!("[{x:?}, {y:?}, {z:?}]"), move |st| {
        let r = [Parser::parse(x).unwrap(), Parser::parse(y).unwrap(), Parser::parse(z).unwrap()];
        against(&[x, y, z], &r, &texts(A3, l3), 1, st)
    })); } } }
    let top = if thorough { 3 } else { 2 };
    let syn = crate::misc::SYNTAX;
    for k in 0..=top {
        let mut t = vec![String::new()];
        for _ in 0..k { t = t.iter().flat_map(|x| syn.iter().map(move |c| format!("{x}{c}"))).collect(); }
        let t = std::sync::Arc::new(t);
        for i in 0..t.len().div_ceil(256) { let t = t.clone(); jobs.push(Job::new(format!("texts of {k} tokens as parts, chunk {i}"), move |st| { for x in &t[i * 256..((i + 1) * 256).min(t.len())] { refuse(x, st)?; } Ok(()) })); }
    }
    jobs.push(Job::new("no parts", |st| { st.configs += 1; for t in texts(A1, 2) { for all in [false, true] { st.states += 1; st.messages += 1; st.transitions += 1; if let Out::Panic(e) = spans(&t, &config(&[]), all) { return Err(bad(&t, format!("no parts: panic: {e}"))); } } } Ok(()) }));
    jobs.push(Job::new("JSON forms", json_forms));
    Check { id: "C16".into(), jobs, bounds: vec![
        format!("{} parts alone on every text of up to {l1} characters over two alphabets of four, every two of them{} on texts of up to {} characters over the two alphabets, of up to {} over a and b, and on ten longer ones, every three of {} on texts of up to {l3}; every choice of public parts and of showing private ones on short texts, in turn on the others; seven definitions on every text of up to {} of a, x and one of 150 further characters", PARTS.len(), if thorough { "" } else { " with one of a core of 14" }, l2 - 1, l2 + 1, TRIPLE.len(), if thorough { 5 } else { 4 }),
        format!("every text of up to {top} syntax tokens as a part in four places, on nine texts")],
        assumptions: vec!["the harness's own backtracking matcher defines what extraction must find; it knows literals, classes, groups, alternation, greedy and lazy repetition of non-empty matches, anchors, word boundaries, look-around and flags".into()] }
}

// ------------------------------------------------------------------ C17
/// every (start, end) of a match in a text; symbols as in Ref: position 0 is the start marker
fn all_matches(r: &Ref, t: &[u8]) -> Vec<(usize, usize)> {
    let mut v = vec![];
    let sym = |p: usize| if p == 0 { SOM } else { t[p - 1] };
    for s in 0..=t.len() {
        let mut q = 0u32;
        for p in s..=t.len() {
            if p > 0 && sym(p) == 0 { break; }
            q = r.det.trans[q as usize][sym(p) as usize];
            if q == DEAD { break; }
            if r.det.acc[q as usize] && (!r.spec.dollar || p == t.len()) { v.push((s, p + 1)); }
        }
    }
    v
}
fn agree(s: &Spec, cap: usize, st: &mut Stats) -> Result<(), Finding> {
    // the section with a caret must be private (README); its head is never revealed
    if matches!(s.caret, Caret::Alt(_)) && s.config()[0].0 { st.skipped += 1; return Ok(()); }
    let Some(l) = load(s, true, st)? else { return Ok(()) };
    if !l.r.supported() { return Ok(()); }
    let alpha: Vec<u8> = l.alpha.iter().copied().filter(|b| *b != 0).collect();
    let n = fit(alpha.len(), cap, 7);
    let c = subject::instance(&l.p, n + 1).map_err(|e| fnd(Kind::Interface, e))?;
    let lay = layout(&c, n + 1, l.r.n_public).map_err(|e| fnd(Kind::Interface, e))?;
    st.circuits += 1;
    let mut words: Vec<Vec<u8>> = vec![];
    let mut last = vec![vec![]];
    for _ in 0..n { last = last.iter().flat_map(|w: &Vec<u8>| alpha.iter().map(move |b| { let mut x = w.clone(); x.push(*b); x })).collect(); words.extend(last.iter().filter(|w| std::str::from_utf8(w).is_ok()).cloned()); }
    words.push(vec![]);
    words.extend(context_words(&l.r, &l.classes, false, 60).into_iter().filter(|w| w.len() <= n + 1 && std::str::from_utf8(w).is_ok()));
    let conf = config(&s.config());
    let mut js = Stats::default();
    run_words(&c, &lay, n + 1, &words, &mut |m, res| compare(&l.r, &conf, m, res, &mut js), st)?;
    if st.sample.is_none() { st.sample = js.sample.clone(); }
    st.add(&js);
    Ok(())
}
fn compare(r: &Ref, conf: &ex::DecomposedRegexConfig, m: &[u8], res: Result<(i64, Vec<Vec<i64>>), crate::circom::Fail>, js: &mut Stats) -> Result<(), Finding> {
    let k = m.iter().rposition(|b| *b != 0).map(|i| i + 1).unwrap_or(0);
    let t = std::str::from_utf8(&m[..k]).unwrap();
    let f = |d: String| Err(bad(t, d));
    let Ok((out, rv)) = res else { return f("the padded text has no witness".into()) };
    js.messages += 1;
    let got = spans(t, conf, false);
    if let Out::Panic(e) = &got { return f(format!("extraction panics: {e}")); }
    let ms = all_matches(r, t.as_bytes());
    if out == 1 && !got.is_ok() { return f(format!("the circuit accepts, but extraction gives {}", got.kind())); }
    if got.is_ok() && ms.is_empty() { return f(format!("extraction finds {got:?}, but no part of the text matches")); }
    if !got.is_ok() && !ms.is_empty() { return f(format!("the text contains a match, but extraction gives {}", got.kind())); }
    if out == 1 { js.accepting += 1; }
    if ms.len() != 1 { return Ok(()); }
    let (s, e) = ms[0];
    let Some(lab) = r.labels(t.as_bytes(), s, e) else { return Ok(()) };
    let g = got.ok().unwrap();
    if g.len() != r.n_public { return f(format!("extraction gives {} spans for {} public parts", g.len(), r.n_public)); }
    for (i, (a, b)) in g.iter().enumerate() {
        let want: Vec<usize> = (s..e).filter(|p| *p > 0 && r.public[lab[p - s]] == Some(i)).map(|p| p - 1).collect();
        if (*a..*b).collect::<Vec<_>>() != want { return f(format!("public part {i}: extraction gives {a}..{b}, the only match has it at {want:?}")); }
        if out != 1 { continue; }
        let shown: Vec<usize> = (0..m.len()).filter(|p| rv[i][*p] != 0).collect();
        if shown != want || shown.iter().any(|p| rv[i][*p] != m[*p] as i64) { return f(format!("public part {i}: extraction gives {a}..{b}, the circuit reveals {shown:?}")); }
        if !shown.is_empty() { js.revealing += 1; if js.sample.is_none() { js.sample = Some(format!("{t:?}: extraction and circuit give {a}..{b}")); } }
    }
    Ok(())
}
pub fn c17(thorough: bool) -> Check {
    let b = if thorough { fam::AstBounds { single: 5, pair: 3, triple: 2, quad: true, anchored: 3, anchored_pair: 2 } } else { fam::AstBounds { single: 3, pair: 2, triple: 1, quad: false, anchored: 2, anchored_pair: 1 } };
    let cap = if thorough { 1500 } else { 200 };
    let mut v = fam::ast(&b);
    for x in [fam::lookalikes(), fam::unicode(), fam::large()] { v.extend(x); }
    v.extend(fam::classes().into_iter().filter(|s| thorough || s.parts.len() != 2 || s.parts.iter().any(|p| [".", "\\d", "\\s", "[^a]"].contains(&p.1.as_str()))));
    let mut seen = BTreeSet::new();
    v.retain(|s| seen.insert(key_of(s)));
    let mut jobs: Vec<Job> = v.into_iter().map(|s| Job::new(key_of(&s), move |st| agree(&s, cap, st))).collect();
    for s in fam::repo_configs() { let k = format!("shipped {} {}", s.name, key_of(&s)); let w = if thorough { 400 } else { 40 }; jobs.push(Job::new(k, move |st| shipped_words(&s, w, st))); }
    // the repository's own circuit tests, which compare witnesses with extraction, on this harness's evaluator
    if let Ok(rd) = std::fs::read_dir(subject::repo().join("packages/circom/tests")) {
        let mut f: Vec<String> = rd.flatten().map(|e| e.file_name().to_string_lossy().to_string()).filter(|f| f.ends_with(".test.js")).collect();
        f.sort();
        for f in f { jobs.push(Job::new(format!("own test {f}"), move |st| crate::shipped::own_tests(&f, st))); }
    }
    Check { id: "C17".into(), jobs, bounds: vec!["the repository's circuit tests (packages/circom/tests) on this harness's circom evaluator".into(), format!("configurations as for the circuits, smaller; every UTF-8 text over the joint byte classes up to {cap} texts, and the words that lead through every transition of the reference"), "the definitions checked in: the words that lead through every transition, as long as they are UTF-8".into()],
        assumptions: vec![ASSUME_CIRCOM.into(), ASSUME_REF.into(), ASSUME_CLASS.into()] }
}
fn shipped_words(s: &Spec, upto: usize, st: &mut Stats) -> Result<(), Finding> {
    let Some(l) = load(s, true, st)? else { return Ok(()) };
    if !l.r.supported() { return Ok(()); }
    let mut words: Vec<Vec<u8>> = context_words(&l.r, &l.classes, false, 90);
    words.retain(|w| std::str::from_utf8(w).is_ok());
    let mut n: Vec<usize> = words.iter().map(|w| w.len()).collect();
    n.sort();
    let Some(top) = n.get(n.len().saturating_sub(1).min(n.len() * 9 / 10)).copied() else { return Ok(()) };
    let step = (words.len() / (upto * 10)).max(1);
    let _ = step;
    words.retain(|w| w.len() <= top);
    let c = subject::instance(&l.p, top.max(1)).map_err(|e| fnd(Kind::Interface, e))?;
    let lay = layout(&c, top.max(1), l.r.n_public).map_err(|e| fnd(Kind::Interface, e))?;
    st.circuits += 1;
    let conf = config(&s.config());
    let mut js = Stats::default();
    run_words(&c, &lay, top.max(1), &words, &mut |m, res| compare(&l.r, &conf, m, res, &mut js), st)?;
    if st.sample.is_none() { st.sample = js.sample.clone(); }
    st.add(&js);
    Ok(())
}

// ------------------------------------------------------------------ C18
pub type Named = (&'static str, fn(&str) -> Result<Spans, ex::ExtractSubstrssError>, fn(&str) -> Want);
/// what the plain reading of the header block says: a span, nothing, or no verdict
#[derive(Clone, Debug, PartialEq)]
pub enum Want { Span(usize, usize), Nothing, Open }
use Want::*;
/// starts of the header lines: the text's start and behind every CRLF
fn lines(t: &str) -> Vec<usize> { let mut v = vec![0]; v.extend(t.match_indices("\r\n").map(|x| x.0 + 2)); v }
/// first line `name` with a non-empty value up to CRLF that `pick` finds its field in
fn header(t: &str, name: &str, pick: impl Fn(&str) -> Option<(usize, usize)>) -> Want {
    for s in lines(t) {
        if !t[s..].starts_with(name) { continue; }
        let b = s + name.len();
        let e = t[b..].find(['\r', '\n']).map(|x| x + b).unwrap_or(t.len());
        if e == b || !t[e..].starts_with("\r\n") { continue; }
        if let Some((x, y)) = pick(&t[b..e]) { return Span(b + x, b + y); }
    }
    Nothing
}
fn whole(v: &str) -> Option<(usize, usize)> { Some((0, v.len())) }
/// `addr`, `name <addr>` or `<addr>`
fn angle(v: &str) -> Option<(usize, usize)> {
    let core = v.strip_suffix('>').unwrap_or(v);
    let s = core.rfind('<').map(|i| i + 1).unwrap_or(0);
    if core[s..].is_empty() || core[s..].contains('>') { None } else { Some((s, core.len())) }
}
fn msgid(v: &str) -> Option<(usize, usize)> {
    let i = v.strip_prefix('<')?.strip_suffix('>')?;
    if i.is_empty() || !i.chars().all(|c| c.is_ascii_alphanumeric() || "=@.+_-".contains(c)) { None } else { Some((0, v.len())) }
}
fn local(c: char) -> bool { c.is_ascii_alphanumeric() || "!#$%&'*+=?-^_`{|}~./".contains(c) }
fn domain(c: char) -> bool { c.is_ascii_alphanumeric() || ".-".contains(c) }
fn addr(t: &str) -> Want {
    let c: Vec<(usize, char)> = t.char_indices().collect();
    let at = |i: usize| c.get(i).map(|x| x.0).unwrap_or(t.len());
    for s in 0..c.len() {
        let run = c[s..].iter().take_while(|x| local(x.1) || x.1 == '@').count();
        // the last @ with something on both sides
        for k in (s + 1..s + run).rev() {
            if c[k].1 != '@' { continue; }
            let d = c[k + 1..].iter().take_while(|x| domain(x.1)).count();
            if d > 0 { return Span(at(s), at(k + 1 + d)); }
        }
    }
    Nothing
}
fn dom(t: &str) -> Want {
    let c: Vec<(usize, char)> = t.char_indices().collect();
    let at = |i: usize| c.get(i).map(|x| x.0).unwrap_or(t.len());
    for k in 1..c.len() {
        if c[k].1 != '@' || !local(c[k - 1].1) { continue; }
        let d = c[k + 1..].iter().take_while(|x| domain(x.1) || x.1 == '@').count();
        if d > 0 { return Span(at(k + 1), at(k + 1 + d)); }
    }
    Nothing
}
/// the tag of the one dkim-signature line, which is read when it is a plain list of tags
fn tag(t: &str, name: &str, ok: fn(char) -> bool) -> Want {
    let at: Vec<usize> = lines(t).into_iter().filter(|s| t[*s..].starts_with("dkim-signature:")).collect();
    let [s] = at[..] else { return if at.is_empty() { Nothing } else { Open } };
    let b = s + "dkim-signature:".len();
    let e = t[b..].find(['\r', '\n']).map(|x| x + b).unwrap_or(t.len());
    let mut p = b;
    let mut found = vec![];
    for (i, x) in t[b..e].split("; ").enumerate() {
        let last = p + x.len() == e;
        let (x, closed) = if last { match x.strip_suffix(';') { Some(y) => (y, true), None => (x, false) } } else { (x, true) };
        let Some((n, v)) = x.split_once('=') else { return Open };
        if n.is_empty() || !n.chars().all(|c| c.is_ascii_lowercase()) || v.is_empty() || v.contains(';') { return Open; }
        if n == name {
            if i == 0 || !closed || !v.chars().all(ok) { return Open; }
            found.push((p + n.len() + 1, p + x.len()));
        }
        p += x.len() + if closed && !last { 2 } else { 0 };
    }
    // a value with the tag's name inside is read by nobody
    match found[..] { [(x, y)] => Span(x, y), [] => Nothing, _ => Open }
}
pub const NAMED: &[Named] = &[
    ("email_addr", ex::extract_email_addr_idxes, addr), ("email_domain", ex::extract_email_domain_idxes, dom),
    ("from_all", ex::extract_from_all_idxes, |t| header(t, "from:", whole)), ("from_addr", ex::extract_from_addr_idxes, |t| header(t, "from:", angle)),
    ("to_all", ex::extract_to_all_idxes, |t| header(t, "to:", whole)), ("to_addr", ex::extract_to_addr_idxes, |t| header(t, "to:", angle)),
    ("subject_all", ex::extract_subject_all_idxes, |t| header(t, "subject:", whole)), ("message_id", ex::extract_message_id_idxes, |t| header(t, "message-id:", msgid)),
    ("body_hash", ex::extract_body_hash_idxes, |t| tag(t, "bh", |c| c.is_ascii_alphanumeric() || "+/=".contains(c))), ("timestamp", ex::extract_timestamp_idxes, |t| tag(t, "t", |c| c.is_ascii_digit())),
];
fn definition(name: &str) -> Result<Vec<(bool, String)>, Finding> {
    let p = subject::repo().join(format!("packages/apis/src/decomposed_defs/{name}.json"));
    let e = |e: String| fnd(Kind::Interface, format!("{}: {e}", p.display()));
    let c: ex::DecomposedRegexConfig = serde_json::from_str(&std::fs::read_to_string(&p).map_err(|x| e(x.to_string()))?).map_err(|x| e(x.to_string()))?;
    Ok(c.parts.into_iter().map(|p| (p.is_public, p.regex_def)).collect())
}
fn named(n: &Named, texts: &[String], headers: bool, st: &mut Stats) -> Result<(), Finding> {
    let def = definition(n.0)?;
    st.configs += 1;
    let res: Vec<Re> = def.iter().map(|p| Parser::parse(&p.1)).collect::<Result<_, _>>().map_err(|e| fnd(Kind::Interface, format!("{}: {e}", n.0)))?;
    for t in texts {
        st.states += 1; st.transitions += 1; st.messages += 1;
        let got = subject::guarded(|| n.1(t).map_err(|e| e.to_string()));
        let got = match got { Out::Panic(e) => return Err(bad(t, format!("{}: panic: {e}", n.0))), g => g.ok() };
        let want: Option<Spans> = bt::find(&res, t).map(|w| w.into_iter().zip(&def).filter(|x| x.1 .0).map(|x| x.0).collect());
        if got != want { return Err(bad(t, format!("{}: {got:?}, its definition gives {want:?}", n.0))); }
        if headers {
            let w = match n.2(t) { Open => { st.skipped += 1; continue } Nothing => None, Span(a, b) => Some(vec![(a, b)]) };
            if got != w { return Err(Finding { kind: Kind::Headers, msg: t.as_bytes().to_vec(), detail: format!("{}: {got:?}, but the headers say {w:?}", n.0) }); }
            st.supported += 1;
        }
        if got.is_some() { st.accepting += 1; if st.sample.is_none() { st.sample = Some(format!("{t:?}: {got:?}")); } } else { st.rejected += 1; }
    }
    Ok(())
}
pub const LINES: &[&str] = &[
    "from:a@b.c", "from:Al <a-1@b.c>", "from:<a@b.c>", "from:\"x@y.z\" <a@b.c>", "from:", "From:q@b.c", "xfrom:q@b.c", "from:é@b.c, Bé <b@c.d>", " from:q@b.c", "from :q@b.c",
    "to:a@b.c", "to:To <a@b.c>", "to:", "reply-to:q@b.c", "subject:Hi from:s@b.c", "subject:to:é", "subject:subject:x", "subject:", "message-id:<A1=@b.c+_-x>", "message-id:a@b.c", "message-id:<a b>", "message-id:<x>y",
    "dkim-signature:v=1; t=5; bh=aB+/=; b=x", "dkim-signature:v=1; t=17; bh=Z9=;", "dkim-signature:v=1; a=b", "dkim-signature:t=1; bh=x; v=1", "", "x",
];
const HTOK: &[&str] = &["from:", "to:", "\r\n", "a", "<", ">", "@b", "\n"];
const STOK: &[&str] = &["subject:", "message-id:", "\r\n", "é", "<", ">", "x", "\r"];
const VTOK: &[&str] = &["a", "<", ">", "@b", "\n", " é"];
const DTOK2: &[&str] = &["a=b", "; ", "t=", "bh=", "25;", " ", "A+"];
const DTOK: &[&str] = &["dkim-signature:", "\r\n", "v=1; ", "t=", "bh=", "25;", " ", "A+"];
const ATOK: &[&str] = &["a", "@", ".", "-", "é", "<", "+"];
fn blocks(first: &str, n: usize) -> Vec<String> {
    let mut v = vec![];
    let mut last = vec![first.to_string()];
    for k in 0..n {
        if k > 0 { last = last.iter().flat_map(|b| LINES.iter().map(move |l| format!("{b}\r\n{l}"))).collect(); }
        for b in &last { v.push(b.clone()); v.push(format!("{b}\r\n")); }
    }
    // a line with semicolons behind the dkim line is a matter of its own
    v.retain(|b| { let l: Vec<&str> = b.split("\r\n").collect(); match l.iter().position(|x| x.starts_with("dkim-signature:")) { Some(i) => l[i + 1..].iter().all(|x| !x.contains(';')), None => true } });
    v
}
pub fn c18(thorough: bool) -> Check {
    let mut jobs = vec![];
    let (nl, nt) = if thorough { (4, 5) } else { (3, 3) };
    for n in NAMED {
        for l in LINES { jobs.push(Job::new(format!("{}: headers that begin with {l:?}", n.0), move |st| named(n, &blocks(l, nl), true, st))); }
        let toks: &[(&str, &'static [&'static str])] = match n.0 { "email_addr" | "email_domain" => &[("addresses", ATOK), ("lines", HTOK)], "body_hash" | "timestamp" => &[("tags", DTOK)], "subject_all" | "message_id" => &[("subjects", STOK)], _ => &[("lines", HTOK)] };
        for (w, alpha) in toks.iter().copied() {
            for x in alpha { let x: &'static str = x; jobs.push(Job::new(format!("{}: token texts of {w} that begin with {x:?}", n.0), move |st| {
                let t: Vec<String> = texts(alpha, nt).into_iter().map(|t| format!("{x}{t}")).filter(|t| !(w == "tags" && crossing(t))).collect();
                named(n, &t, true, st)
            })); }
        }
        let (head, alpha): (&str, &'static [&'static str]) = match n.0 { "body_hash" | "timestamp" => ("dkim-signature:v=1; ", DTOK2), "subject_all" => ("subject:", VTOK), "message_id" => ("message-id:<", VTOK), "from_all" | "from_addr" => ("from:", VTOK), "to_all" | "to_addr" => ("to:", VTOK), _ => continue };
        for x in alpha { let x: &'static str = x; jobs.push(Job::new(format!("{}: values that begin with {x:?}", n.0), move |st| {
            let t: Vec<String> = texts(alpha, nt).into_iter().flat_map(|t| [format!("{head}{x}{t}\r\n"), format!("subject:x\r\n{head}{x}{t}\r\nto:z\r\n")]).collect();
            named(n, &t, true, st)
        })); }
    }
    // one more header behind the dkim header, with the tag in it
    for (name, tag) in [("body_hash", "bh"), ("timestamp", "t")] { for own in [true, false] {
        let n = NAMED.iter().find(|n| n.0 == name).unwrap();
        let t = format!("dkim-signature:v=1; {}b=y\r\nsubject:a; {tag}=23;\r\n", if own { format!("{tag}=1; ") } else { String::new() });
        jobs.push(Job::new(format!("{name}: {t:?}"), move |st| named(n, &[t.clone()], true, st)));
    } }
    for n in NAMED {
        let p = subject::repo().join(format!("packages/circom/circuits/common/{}.json", n.0));
        if p.exists() { jobs.push(Job::new(format!("{}: the definition the circuit is shipped with", n.0), move |st| {
            let c: ex::DecomposedRegexConfig = serde_json::from_str(&std::fs::read_to_string(&p).unwrap()).map_err(|e| fnd(Kind::Interface, e.to_string()))?;
            let mk = |v: Vec<(bool, String)>| Ref::build(&fam::structure(n.0, &v)).map_err(|e| fnd(Kind::Interface, e));
            let (a, b) = (mk(definition(n.0)?)?, mk(c.parts.into_iter().map(|p| (p.is_public, p.regex_def)).collect())?);
            st.configs += 1; st.states += a.det.acc.len() as u64; st.transitions += a.det.acc.len() as u64 * 255; st.messages += 1;
            let same = |x: &Dfa, y: &Dfa| x.acc == y.acc && x.trans == y.trans;
            if !same(&a.det, &b.det) || a.public != b.public || a.secs.len() != b.secs.len() || !a.secs.iter().zip(&b.secs).all(|(x, y)| same(x, y)) { return Err(fnd(Kind::Other, format!("{}: extractor and circuit have different definitions", n.0))); }
            Ok(())
        })); }
    }
    Check { id: "C18".into(), jobs, bounds: vec![format!("ten extractors on every block of up to {nl} header lines out of {}, last line ended or not, and on every text of up to {} tokens out of eight that make up the headers concerned", LINES.len(), nt + 1)],
        assumptions: vec!["the definitions are read with the harness's own backtracking matcher, and the headers with plain string functions; header values are not folded".into()] }
}
/// a dkim header followed by more lines with semicolons
fn crossing(t: &str) -> bool {
    let l: Vec<&str> = t.split("\r\n").collect();
    match l.iter().position(|x| x.starts_with("dkim-signature:")) { Some(i) => l[i + 1..].iter().any(|x| x.contains(';')), None => false }
}
