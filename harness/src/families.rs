//! Families of configurations.  Everything is enumerated, nothing sampled.
use crate::refm::{Caret, Dfa, Spec};
use std::collections::{BTreeMap, HashSet};

/// all regexes up to a size over the given atoms, one per distinct language, smallest first
pub fn languages(atoms: &[&str], size: usize) -> Vec<(String, Dfa)> {
    let mut by: Vec<Vec<String>> = vec![vec![]; size + 1];
    let mut seen: HashSet<(Vec<Vec<(u8, u32)>>, Vec<bool>)> = HashSet::new();
    let mut out = vec![];
    // precedence kept by always grouping operands
    let grp = |s: &str| if s.len() == 1 || (s.starts_with('[') && s.ends_with(']') && s.matches('[').count() == 1) { s.to_string() } else { format!("({s})") };
    for k in 1..=size {
        let mut cand: Vec<String> = vec![];
        if k == 1 { cand.extend(atoms.iter().map(|s| s.to_string())); }
        if k >= 2 { for x in &by[k - 1] { for o in ["*", "+", "?"] { cand.push(format!("{}{o}", grp(x))); } } }
        for i in 1..k { let j = k - i; if j < 1 { continue; } for x in &by[i] { for y in &by[j] { cand.push(format!("{}{}", if x.contains('|') { grp(x) } else { x.clone() }, if y.contains('|') { grp(y) } else { y.clone() })); if k >= 3 && i + j == k && i <= j { } } } }
        if k >= 3 { for i in 1..k - 1 { let j = k - 1 - i; for x in &by[i] { for y in &by[j] { if x < y { cand.push(format!("{x}|{y}")); } } } } }
        let mut lvl = vec![];
        for c in cand {
            let Ok(d) = Dfa::from_regex(&c) else { continue };
            let key = (d.trans.iter().map(|r| (0..=255u8).filter(|b| r[*b as usize] != u32::MAX).map(|b| (b, r[b as usize])).collect::<Vec<_>>()).collect::<Vec<_>>(), d.acc.clone());
            if seen.insert(key) { lvl.push(c.clone()); out.push((c, d)); }
        }
        by[k] = lvl;
    }
    out
}

/// public/private masks for n parts
pub fn masks(n: usize) -> Vec<Vec<bool>> { (0..1usize << n).map(|m| (0..n).map(|i| m >> i & 1 == 1).collect()).collect() }

pub fn spec(parts: &[(bool, &str)], caret: Caret, dollar: bool) -> Spec {
    let mut s = Spec::new("", parts);
    s.caret = caret;
    s.dollar = dollar;
    s.name = s.show();
    s
}

pub fn read_json_parts(text: &str) -> Result<Vec<(bool, String)>, String> {
    let v: serde_json::Value = serde_json::from_str(text).map_err(|e| e.to_string())?;
    let mut o = vec![];
    for p in v["parts"].as_array().ok_or("no parts")? {
        let pb = p.get("is_public").or(p.get("isPublic")).and_then(|x| x.as_bool()).ok_or("is_public")?;
        let re = p.get("regex_def").or(p.get("regexDef")).and_then(|x| x.as_str()).ok_or("regex_def")?;
        o.push((pb, re.to_string()));
    }
    Ok(o)
}

/// structured reading of a config text whose anchors have the documented forms
pub fn structure(name: &str, parts: &[(bool, String)]) -> Spec {
    let mut s = Spec { name: name.to_string(), caret: Caret::None, parts: parts.to_vec(), dollar: false, given: Some(parts.to_vec()) };
    let f = s.parts[0].1.clone();
    if let Some(rest) = f.strip_prefix('^') { s.caret = Caret::Pure; s.parts[0].1 = rest.to_string(); }
    else {
        for (open, close) in [("(^|", ")"), ("(", "|^)")] {
            if s.caret != Caret::None { break; }
            if let Some(r) = f.strip_prefix(open) {
                if let Some(p) = r.find(close) {
                    let alt = &r[..p];
                    if !alt.contains('(') && !alt.contains(')') { s.caret = Caret::Alt(alt.to_string()); s.parts[0].1 = r[p + close.len()..].to_string(); }
                }
            }
        }
    }
    let n = s.parts.len();
    if s.parts[n - 1].1.ends_with('$') && !s.parts[n - 1].1.ends_with("\\$") { s.parts[n - 1].1.pop(); s.dollar = true; }
    s
}

/// every decomposed config checked into the repository
pub fn repo_configs() -> Vec<Spec> {
    let root = crate::subject::repo();
    let mut m = BTreeMap::new();
    for d in ["packages/circom/circuits/common", "packages/circom/tests/circuits", "packages/apis/src/decomposed_defs"] {
        if let Ok(rd) = std::fs::read_dir(root.join(d)) {
            for e in rd.flatten() {
                let p = e.path();
                if p.extension().map(|x| x == "json").unwrap_or(false) {
                    if let Ok(t) = std::fs::read_to_string(&p) { if let Ok(parts) = read_json_parts(&t) { m.insert(format!("{d}/{}", e.file_name().to_string_lossy()), parts); } }
                }
            }
        }
    }
    m.into_iter().map(|(n, p)| structure(&n, &p)).collect()
}

/// letters a, b, c must first occur in this order: one representative per renaming of the letters
pub fn canonical(parts: &[&str]) -> bool {
    let mut seen = 0u8;
    for p in parts { for b in p.bytes() { if (b'a'..=b'c').contains(&b) { let k = b - b'a'; if k > seen { return false; } if k == seen { seen += 1; } } } }
    true
}

pub struct AstBounds { pub single: usize, pub pair: usize, pub triple: usize, pub quad: bool, pub anchored: usize, pub anchored_pair: usize }

/// every regex up to the given sizes as 1..4 parts with public masks and anchors
pub fn ast(b: &AstBounds) -> Vec<Spec> {
    let mut v = vec![];
    let atoms = ["a", "b", "c"];
    let l1 = languages(&atoms, b.single);
    for (x, _) in &l1 { if canonical(&[x]) { v.push(spec(&[(true, x)], Caret::None, false)); } }
    let l2 = languages(&atoms, b.pair);
    for (x, _) in &l2 { for (y, _) in &l2 { if canonical(&[x, y]) { for m in [(true, false), (false, true), (true, true)] { v.push(spec(&[(m.0, x), (m.1, y)], Caret::None, false)); } } } }
    let l3 = languages(&atoms, b.triple);
    for (x, _) in &l3 { for (y, _) in &l3 { for (z, _) in &l3 { if canonical(&[x, y, z]) { for m in masks(3) { if m.iter().any(|p| *p) && (m != vec![true, true, true] || b.triple > 1) { v.push(spec(&[(m[0], x), (m[1], y), (m[2], z)], Caret::None, false)); } } } } } }
    if b.quad {
        let p4 = ["a", "b", "c", "a+", "b*", "b?", "(a|b)", "ab"];
        for w in p4 { for x in p4 { for y in p4 { for z in p4 { if canonical(&[w, x, y, z]) { for m in [[true, false, true, false], [false, true, false, true], [true, true, false, true]] { v.push(spec(&[(m[0], w), (m[1], x), (m[2], y), (m[3], z)], Caret::None, false)); } } } } } }
    }
    v.extend(anchored(b.anchored, b.anchored_pair));
    v
}

pub fn carets() -> Vec<Caret> {
    let mut c = vec![Caret::None, Caret::Pure];
    for a in ["a", "c", "ab", "a|b", "aa", "ab*", "a+", "a(b|cb)", "[ac]"] { c.push(Caret::Alt(a.to_string())); }
    c
}
/// the same with every anchor combination (un-anchored ones excluded)
pub fn anchored(single: usize, pair: usize) -> Vec<Spec> {
    let mut v = vec![];
    let atoms = ["a", "b", "c"];
    let l1 = languages(&atoms, single);
    let l2 = languages(&atoms, pair);
    for c in carets() {
        for d in [false, true] {
            if c == Caret::None && !d { continue; }
            // letters are not symmetric once the caret section names some of them
            let sym = !matches!(c, Caret::Alt(_));
            for (x, _) in &l1 { if !sym || canonical(&[x]) { v.push(spec(&[(true, x)], c.clone(), d)); } }
            for (x, _) in &l2 { for (y, _) in &l2 { if !sym || canonical(&[x, y]) { for m in [(true, false), (false, true)] { v.push(spec(&[(m.0, x), (m.1, y)], c.clone(), d)); } } } }
        }
    }
    v
}

pub const CLASS_POOL: &[&str] = &[
    "[a-o]", "[a-p]", "[a-q]", "[a-r]", "[b-r]", "[a-z]", "[A-Z]", "[0-9]", "[a-zA-Z]", "[a-zA-Z0-9]", "[A-Za-z0-9!#$%&'*+=?\\-\\^_`{|}~./@]",
    "[^a]", "[^\\r\\n]", "[^a-q]", "[^;]", "[^<>]", ".", "\\w", "\\d", "\\s", "[ -~]", "[!-1]", "[a-cx-z]", "[acegikmoqsuwy]", "[\\x01-\\x7f]", "[@A-Q]", "[=\\-]", "[\\\\\\]\\[]", "x",
];
/// character classes that share, overlap and nest, in shapes that re-use the same comparators
pub fn classes() -> Vec<Spec> {
    let mut v = vec![];
    for x in CLASS_POOL { v.push(spec(&[(true, x)], Caret::None, false)); v.push(spec(&[(false, "#"), (true, &format!("{x}+")), (false, "\\t")], Caret::None, false)); }
    for x in CLASS_POOL { for y in CLASS_POOL {
        if *x == "\\w" || *y == "\\w" { continue; }
        v.push(spec(&[(true, x), (false, y)], Caret::None, false));
        if x < y { v.push(spec(&[(false, "\\x01"), (true, &format!("({x}|{y})")), (false, "\\x02")], Caret::None, false)); v.push(spec(&[(true, &format!("{x}{y}{x}"))], Caret::None, false)); }
    } }
    v
}
/// non-ASCII text: every UTF-8 length, range borders
pub fn unicode() -> Vec<Spec> {
    let mut v = vec![];
    for x in ["é", "[é]", "[à-ü]", "[\u{80}-\u{ff}]", "[\u{7f}-\u{80}]", "[\u{7ff}-\u{800}]", "[\u{ffff}-\u{10000}]", "[あ-ん]+", "[\u{1F600}-\u{1F64F}]", "日本", "[^é]", "(é|è)", "é?", "[\u{0}-\u{10ffff}]", "\\p{Greek}", "(?i)k", "ß+"] {
        v.push(spec(&[(true, x)], Caret::None, false));
        v.push(spec(&[(false, "="), (true, x), (false, ";")], Caret::None, false));
        v.push(spec(&[(false, x), (true, "z")], Caret::Pure, true));
    }
    v
}
/// size: long literals, many parts, many states, counted repetition
pub fn large() -> Vec<Spec> {
    let mut v = vec![];
    let lit: String = (0..150).map(|i| (b'a' + (i * 7 % 26) as u8) as char).collect();
    v.push(spec(&[(false, &lit[..40]), (true, "[0-9]+"), (false, ";")], Caret::None, false));
    v.push(spec(&[(true, &lit)], Caret::None, false));
    let words = ["one", "[0-9]+", " two ", "[a-f]+", "-", "[A-F]{2}", "=", "(x|yz)", ";", "q?", "!", "w{3}"];
    for k in 4..=words.len() { for ph in [0usize, 1] { let p: Vec<(bool, &str)> = words[..k].iter().enumerate().map(|(i, w)| (i % 2 == ph, *w)).collect(); if words[k - 1] != "q?" { v.push(spec(&p, Caret::None, false)); } } }
    v.push(spec(&[(false, "("), (true, "x")], Caret::None, false));
    v.pop();
    for r in ["a{7}", "(ab){3}", "[a-c]{2}d", "(foo|bar|baz|qux)", "(a|b)(c|d)(e|f)(g|h)", "a(b(c(de?)?f)?g)?h", "(a{2}b){2}", "(ab|cd|ef)+gh"] {
        v.push(spec(&[(false, "<"), (true, r), (false, ">")], Caret::None, false));
        v.push(spec(&[(true, r), (false, ">")], Caret::Alt("\\r\\n".into()), false));
    }
    // more than 256 states; more than 16 public parts; long loops; many short words sharing prefixes
    let lit: String = (0..300).map(|i| (b'a' + (i * 11 % 26) as u8 + (i / 26 % 2) as u8 - (i * 11 % 26 / 25) as u8) as char).collect();
    v.push(spec(&[(true, &lit[..90]), (false, &lit[90..130]), (true, "[0-9]+"), (false, &lit[130..280]), (true, "(y|zz)"), (false, ";")], Caret::None, false));
    v.push(spec(&[(false, &lit[..270]), (true, "[A-F]+")], Caret::Alt("\\n".into()), true));
    let parts: Vec<String> = (0..26u8).map(|i| match i % 3 { 0 => format!("{}", (b'a' + i) as char), 1 => format!("{}+", (b'A' + i) as char), _ => format!("({0}{1}|{1})", (b'a' + i) as char, i % 10) }).collect();
    for ph in [0, 1] { let p: Vec<(bool, &str)> = parts.iter().enumerate().map(|(i, x)| (ph == 1 || i % 2 == 0, x.as_str())).collect(); v.push(spec(&p, Caret::None, false)); v.push(spec(&p[..23], Caret::Pure, false)); }
    v.push(spec(&[(false, "<"), (true, &format!("({})*", &lit[..70])), (false, ">")], Caret::None, false));
    v.push(spec(&[(false, "<"), (true, &format!("({}|{})+", &lit[..40], &lit[7..80])), (false, ">")], Caret::None, false));
    v.push(spec(&[(true, "[b-d]{70}"), (false, "e")], Caret::None, false));
    v.push(spec(&[(false, "a"), (true, "(bc{9}|d){1,8}"), (false, "e")], Caret::None, false));
    let words = (0..40usize).map(|i| (0..5).map(|k| (b'a' + ((i * i + k * (i % 7 + 3)) % 26) as u8) as char).collect::<String>()).collect::<Vec<_>>().join("|");
    v.push(spec(&[(true, &format!("({words})")), (false, ";")], Caret::None, false));
    v
}
/// parts that match nothing but the empty string, in every place but the last
pub fn empties() -> Vec<Spec> {
    let mut v = vec![];
    for e in ["", "()"] { for x in ["a", "b?", "a(ba)*", "(a|bb)+", "b*", "(ab?|b)"] { for y in ["b", "c", "a+", "cb"] {
        for m in masks(3) { v.push(spec(&[(m[0], x), (m[1], e), (m[2], y)], Caret::None, false)); v.push(spec(&[(m[0], e), (m[1], x), (m[2], y)], Caret::None, false)); }
        v.push(spec(&[(false, x), (true, e), (true, e), (false, y)], Caret::None, false));
        v.push(spec(&[(true, e), (false, e), (true, x), (true, e), (true, y)], Caret::None, false));
        for c in [Caret::Pure, Caret::Alt("c".into()), Caret::Alt("aa".into())] { v.push(spec(&[(false, ""), (true, x), (true, e), (true, y)], c.clone(), false)); v.push(spec(&[(false, x), (true, e), (false, y)], c, true)); }
    } } }
    v
}
/// README and hand-picked shapes: escapes and anchors that look like something else
pub fn lookalikes() -> Vec<Spec> {
    let mut v = vec![];
    let mut g = |given: &[(bool, &str)], caret: Caret, parts: &[(bool, &str)], dollar: bool| {
        let mut s = spec(parts, caret, dollar);
        s.given = Some(given.iter().map(|(p, r)| (*p, r.to_string())).collect());
        s.name = s.show();
        v.push(s);
    };
    for (a, b) in [("a\\^", "b"), ("[a^]", "b"), ("[^a]", "b"), ("[a)]", "b"), ("[(]", "b"), ("\\(a\\)", "b"), ("((a|b)c)", "d"), ("(a(b)c)", "d"), ("[\\^a]", "b"), ("[]a]", "b"), ("[^]a]", "b"), ("[]^]", "b"), ("[]a^]", "b"), ("[^]^]", "b"), ("[^^]", "b"), ("[[:digit:]^]", "b"), ("[a[^x]]", "b"), ("[a-z&&[^x]]", "b"), ("[[a^]x]", "b"), ("[\\[^]", "b"), ("[()^]", "b"), ("[\\\\]\\^", "b"), ("(?:a\\^)", "b"), ("[]$]", "b"), ("\\x5e", "b"), ("\\x24", "b"), ("\\u{5e}", "b"), ("[\\x5e-_]", "b"), ("a\\\\", "b"), ("[a\\]^]", "b"), ("a\\[", "b"), ("a\\$", "b"), ("[$]", "b"), ("a$?", "b")] {
        if a == "a$?" { continue; }
        g(&[(false, a), (true, b)], Caret::None, &[(false, a), (true, b)], false);
        g(&[(true, b), (false, a)], Caret::None, &[(true, b), (false, a)], false);
        g(&[(false, &format!("^{a}")), (true, b)], Caret::Pure, &[(false, a), (true, b)], false);
        g(&[(false, &format!("(\\n|^){a}")), (true, b)], Caret::Alt("\\n".into()), &[(false, a), (true, b)], false);
        g(&[(true, b), (false, &format!("{a}$"))], Caret::None, &[(true, b), (false, a)], true);
    }
    g(&[(false, "((\\r\\n)|^)a"), (true, "b")], Caret::Alt("\\r\\n".into()), &[(false, "a"), (true, "b")], false);
    g(&[(false, "(^|\\r\\n)a"), (true, "b")], Caret::Alt("\\r\\n".into()), &[(false, "a"), (true, "b")], false);
    g(&[(false, "(((x|y)z)|^)a"), (true, "b")], Caret::Alt("(x|y)z".into()), &[(false, "a"), (true, "b")], false);
    g(&[(false, "(^)a"), (true, "b")], Caret::Pure, &[(false, "a"), (true, "b")], false);
    g(&[(false, "(\\n|^)"), (true, "b")], Caret::Alt("\\n".into()), &[(true, "b")], false);
    g(&[(false, "^"), (true, "b")], Caret::Pure, &[(true, "b")], false);
    g(&[(true, "b"), (false, "$")], Caret::None, &[(true, "b"), (false, "")], true);
    g(&[(false, "^"), (true, "b"), (false, "$")], Caret::Pure, &[(true, "b"), (false, "")], true);
    g(&[(false, "(\\[|^)a"), (true, "b")], Caret::Alt("\\[".into()), &[(false, "a"), (true, "b")], false);
    g(&[(false, "([\\n;]|^)a"), (true, "b")], Caret::Alt("[\\n;]".into()), &[(false, "a"), (true, "b")], false);
    g(&[(false, "([)]|^)a"), (true, "b")], Caret::Alt("[)]".into()), &[(false, "a"), (true, "b")], false);
    g(&[(false, "(\\)|^)a"), (true, "b")], Caret::Alt("\\)".into()), &[(false, "a"), (true, "b")], false);
    let long = "x-long-header-name: ".repeat(4) + "[0-9]+; ";
    g(&[(false, &format!("({long}|^)a")), (true, "b")], Caret::Alt(long.clone()), &[(false, "a"), (true, "b")], false);
    g(&[(false, &format!("(^|{long})")), (true, "b")], Caret::Alt(long.clone()), &[(true, "b")], false);
    g(&[(true, "a\\\\$")], Caret::None, &[(true, "a\\\\")], true);
    g(&[(true, "a\\\\\\$")], Caret::None, &[(true, "a\\\\\\$")], false);
    g(&[(true, "[$]$")], Caret::None, &[(true, "[$]")], true);
    g(&[(true, "(a|b)$")], Caret::None, &[(true, "(a|b)")], true);
    v
}

/// every regex up to a size over atoms that are classes: several transitions share one class gate
pub fn class_asts(size: usize) -> Vec<Spec> {
    let mut v = vec![];
    for atoms in [["a", "[bc]"], ["[A-Z]", "[bc]"], ["[ab]", "[bc]"]] {
        for (x, _) in &languages(&atoms, size) {
            if !x.contains('[') { continue; }
            v.push(spec(&[(true, x)], Caret::None, false));
            v.push(spec(&[(true, x), (false, "d")], Caret::None, false));
            v.push(spec(&[(false, "[de]"), (true, x)], Caret::None, false));
        }
    }
    // a restart that takes over the class of an inner transition
    for (x, y) in [("a", "[xy]"), ("[xy]", "a"), ("[A-Q]", "[xy]"), ("[xy]", "[A-Q]"), ("[^a]", "a"), ("a", "[^a]")] {
        for z in ["b", "cb", "c", "[cd]"] { for r in [format!("{x}{y}*b|{y}{z}"), format!("{x}{y}b|{y}{z}"), format!("{x}{y}+b|{y}+{z}"), format!("({x}{y}|{y}{x}){z}"), format!("({x}|{y}{y}){z}|{y}{x}b")] {
            v.push(spec(&[(true, &r)], Caret::None, false));
            v.push(spec(&[(true, &r), (false, ";")], Caret::None, false));
        } }
    }
    v
}

/// how a regex writes one character: every printable ASCII character, tab, CR, LF
pub fn spellings() -> Vec<String> {
    let mut v = vec![];
    for b in (0x20u8..0x7f).chain([9, 10, 13]) {
        let c = b as char;
        match b {
            9 => { v.push("\\t".into()); v.push("\t".into()); }
            10 => { v.push("\\n".into()); v.push("\n".into()); }
            13 => { v.push("\\r".into()); v.push("\r".into()); }
            b'a'..=b'z' | b'A'..=b'Z' | b'0'..=b'9' => if b"azAZ09fx".contains(&b) { v.push(c.to_string()) },
            b if b"\\.+*?()|[]{}^$".contains(&b) => v.push(format!("\\{c}")),
            b'#' | b'&' | b'-' | b'~' => { v.push(c.to_string()); v.push(format!("\\{c}")); }
            _ => v.push(c.to_string()),
        }
        if b"^$[]()|\\-".contains(&b) { v.push(format!("[\\{c}]")); v.push(format!("[\\{c}q]")); }
        if b"$(){}|*+?.".contains(&b) { v.push(format!("[{c}]")); v.push(format!("[q{c}]")); v.push(format!("[^{c}q]")); }
    }
    v.extend(["\\x41", "\\x{41}", "\\u0041", "(?:q)", "(?:a|b)", "(?i:k)", "(q)", "((q))", "((a|b)c)", "\\d", "\\w", "\\s", ".", "[[:alpha:]]", "q{2}", "(q){2}", "(?P<n>q)"].map(String::from));
    v
}

/// every spelling right behind a start anchor, right before an end anchor, and in both places
pub fn beside_anchors(start: bool) -> Vec<Spec> {
    let mut v = vec![];
    for c in spellings() {
        if start {
            v.push(spec(&[(true, &format!("{c}b"))], Caret::Pure, false));
            v.push(spec(&[(false, &c), (true, "b")], Caret::Pure, true));
            v.push(spec(&[(false, &format!("{c}b")), (true, "z")], Caret::Alt("\\r\\n".into()), false));
            v.push(spec(&[(false, &format!("k{c}")), (true, "z")], Caret::Alt("(v|w)y".into()), false));
        } else {
            v.push(spec(&[(true, &format!("b{c}"))], Caret::None, true));
            v.push(spec(&[(true, "b"), (false, &c)], Caret::Pure, true));
            v.push(spec(&[(false, "z"), (true, "b+"), (false, &format!("{c}{c}"))], Caret::Alt("\\n".into()), true));
        }
        // the same character as a plain part next to it, without an anchor
        v.push(spec(&[(false, &c), (true, "b")], Caret::None, false));
        v.push(spec(&[(true, "b"), (false, &c)], Caret::None, false));
    }
    v
}

/// configurations for long messages
pub fn long_pool(repo: bool) -> Vec<Spec> {
    let mut v = vec![];
    for (c, d) in [(Caret::None, false), (Caret::None, true), (Caret::Pure, false), (Caret::Pure, true), (Caret::Alt("\\r\\n".into()), false), (Caret::Alt("c".into()), true)] {
        for p in [&[(true, "a")] as &[(bool, &str)], &[(true, "ab")], &[(false, "x"), (true, "[a-f]+"), (false, ";")], &[(true, "a+"), (false, "b")], &[(false, "b"), (true, "(a|é)+b")], &[(true, "a*"), (true, "b"), (false, "(ac)*d")]] { v.push(spec(p, c.clone(), d)); }
    }
    if repo { v.extend(repo_configs()); }
    v
}
