//! The JavaScript bindings: every call of an enumeration is made on the module built from /repo and natively.
use crate::checks::*;
use crate::engine::*;
use crate::explore::fnd;
use crate::families as fam;
use crate::refm::*;
use crate::report::{verif, Check, Job};
use crate::subject::{self, Out};
use serde_json::{json, Value};
use std::collections::BTreeSet;
use std::process::{Command, Stdio};
use zk_regex_apis::extract_substrs as ex;

/// a call and what the native library gives; None where it has no counterpart
fn call(f: &str, a: Value, want: Out<Value>) -> Value { json!({"f": f, "a": a, "w": match want { Out::Ok(v) => json!({"ok": v}), _ => json!({"err": 1}) }}) }

fn pad(s: &str, n: usize) -> Value { call("padString", json!([s, n]), subject::guarded(|| Ok(json!(zk_regex_apis::padding::pad_string(s, n))))) }
fn config(doc: &str) -> Out<ex::DecomposedRegexConfig> { subject::guarded(|| serde_json::from_str(doc).map_err(|e: serde_json::Error| e.to_string())) }
/// both extraction functions on a definition, given as text or as an object
fn extract(text: &str, doc: &str, c: &Out<ex::DecomposedRegexConfig>, arg: &Value, all: bool, flag: &Value) -> [Value; 2] {
    let e = |m: &str| Out::Err(m.to_string());
    let _ = doc;
    let (i, s) = match c {
        Out::Ok(c) => (
            subject::guarded(|| ex::extract_substr_idxes(text, c, all).map(|v| json!(v)).map_err(|e| e.to_string())),
            subject::guarded(|| ex::extract_substr(text, c, all).map(|v| json!(v)).map_err(|e| e.to_string())),
        ),
        _ => (e(""), e("")),
    };
    [call("extractSubstrIdxes", json!([text, arg, flag]), i), call("extractSubstr", json!([text, arg, flag]), s)]
}
fn doc(parts: &[(bool, &str)], camel: bool) -> String {
    let (p, r) = if camel { ("isPublic", "regexDef") } else { ("is_public", "regex_def") };
    json!({"parts": parts.iter().map(|(b, d)| json!({p: b, r: d})).collect::<Vec<_>>()}).to_string()
}
const JSNAMES: &[(&str, &str)] = &[("email_addr", "extractEmailAddrIdxes"), ("email_domain", "extractEmailDomainIdxes"), ("from_all", "extractFromAllIdxes"), ("from_addr", "extractFromAddrIdxes"), ("to_all", "extractToAllIdxes"), ("to_addr", "extractToAddrIdxes"), ("subject_all", "extractSubjectAllIdxes"), ("body_hash", "extractBodyHashIdxes"), ("timestamp", "extractTimestampIdxes"), ("message_id", "extractMessageIdIdxes")];
fn named(name: &str, text: &str) -> Value {
    let n = crate::extract::NAMED.iter().find(|n| n.0 == name).unwrap();
    call(JSNAMES.iter().find(|x| x.0 == name).unwrap().1, json!([text]), subject::guarded(|| n.1(text).map(|v| json!(v)).map_err(|e| e.to_string())))
}
fn native_doc(text: &str, name: &str) -> Out<Value> {
    let d = subject::fresh("j");
    let (j, c) = (d.join("in.json"), d.join("o.circom"));
    std::fs::write(&j, text).unwrap();
    subject::guarded(|| {
        zk_regex_compiler::gen_from_decomposed(j.to_str().unwrap(), None, c.to_str(), Some(name), Some(true)).map_err(|e| e.to_string())?;
        Ok(json!(std::fs::read_to_string(&c).map_err(|e| e.to_string())?))
    })
}
fn from_doc(text: &str, name: &str) -> Value { call("genFromDecomposed", json!([text, name]), native_doc(text, name)) }
fn from_obj(obj: &Value, text: &str, name: &str) -> Value { call("genCircom", json!([obj, name]), native_doc(text, name)) }
fn from_raw(re: &str, defs: &str, name: &str) -> Value {
    let (r, f) = subject::gen_raw(re, Some(defs), name, Some(true), false, true);
    call("genFromRaw", json!([re, defs, name]), match (r, f.circom) { (Out::Ok(()), Some(t)) => Out::Ok(json!(t)), (o, _) => Out::Err(o.kind()) })
}
/// the automaton in JSON against the native tables; None if there are no native tables to compare with
fn automaton(parts: &[(bool, String)]) -> Option<Value> {
    let (r, f) = subject::gen_files(parts, "T", Some(true), true, false);
    if !r.is_ok() { return None; }
    let t = subject::parse_allstr(f.halo2.get("allstr.txt")?).ok()?;
    let mut edges: Vec<(usize, usize, u8)> = t.edges.iter().flat_map(|((s, b), v)| v.iter().map(move |x| (*s, *x, *b))).collect();
    edges.sort();
    let (mut sub, mut bound) = (vec![], vec![]);
    for i in 0.. {
        let Some(x) = f.halo2.get(&format!("substr_{i}.txt")) else { break };
        let s = subject::parse_substr(x).ok()?;
        sub.push(s.edges.clone());
        bound.push((s.starts.clone(), s.ends.clone()));
    }
    let obj: Value = serde_json::from_str(&subject::cfg_json(parts)).unwrap();
    Some(call("genRegexAndDfa", json!([obj]), Out::Ok(json!({"accept": [t.accept], "edges": edges, "sub": sub, "bound": bound}))))
}

fn run(calls: &[Value], st: &mut Stats) -> Result<(), Finding> {
    let d = subject::fresh("js");
    let (inp, out) = (d.join("calls.jsonl"), d.join("out.json"));
    std::fs::write(&inp, calls.iter().map(|c| c.to_string() + "\n").collect::<String>()).unwrap();
    let of = std::fs::File::create(&out).unwrap();
    let mut ch = Command::new("node").arg(verif().join("harness/js/run.js")).arg(&inp)
        .env("ZKMC_JSPKG", verif().join("harness/target/jspkg")).stdin(Stdio::null()).stdout(of).stderr(Stdio::null()).spawn().map_err(|e| fnd(Kind::Interface, format!("node: {e}")))?;
    let clk = crate::util::Clock::new(240.0);
    let status = loop {
        if let Some(s) = ch.try_wait().unwrap() { break s; }
        if clk.over() { let _ = ch.kill(); let _ = ch.wait(); return Err(fnd(Kind::Other, "a call does not return".into())); }
        std::thread::sleep(std::time::Duration::from_millis(5));
    };
    let t = std::fs::read_to_string(&out).unwrap_or_default();
    let v: Value = serde_json::from_str(&t).map_err(|_| fnd(Kind::Other, format!("the module brings node down ({status})")))?;
    let n = v["calls"].as_u64().unwrap_or(0);
    st.states += n; st.transitions += n; st.messages += n;
    st.accepting += v["ok"].as_u64().unwrap_or(0);
    st.rejected += v["err"].as_u64().unwrap_or(0);
    if let Some(s) = v["sample"].as_str() { st.sample = Some(s.into()); }
    if let Some(b) = v["bad"].as_str() { return Err(fnd(Kind::Other, b.into())); }
    Ok(())
}

fn texts(alpha: &[&str], n: usize) -> Vec<String> {
    let mut v = vec![String::new()];
    let mut last = v.clone();
    for _ in 0..n { last = last.iter().flat_map(|t| alpha.iter().map(move |c| format!("{t}{c}"))).collect(); v.extend(last.clone()); }
    v
}
const PADS: &[&str] = &["a", "\0", "é", "漢", "😀", "\n", "\""];
type Parts = &'static [(bool, &'static str)];
const DEFS: &[Parts] = &[
    &[(true, "a")], &[(true, "a+")], &[(false, "a"), (true, "b")], &[(true, "a"), (false, "b")], &[(true, "a|é")], &[(true, "é+"), (true, "a")], &[(false, "^"), (true, "a")], &[(true, "b$")],
    &[(true, "😀"), (false, "b"), (true, "a?")], &[(false, "[^a]+"), (true, "a")], &[(true, "")], &[], &[(true, "("), (false, "a")], &[(true, "a*")], &[(false, "(a|b)"), (true, "(b)(a)")], &[(true, "."), (true, ".")],
    &[(true, "(?i)A"), (true, "b")], &[(true, "\\w"), (false, "\\W")], &[(false, "a"), (false, "b")], &[(true, "a{2}")], &[(false, "(b|^)"), (true, "a")], &[(true, "(?=b)"), (true, "b")], &[(true, "(a)\\1")],
];
/// documents for a part and for a whole definition
fn docs() -> Vec<String> {
    let vals = ["true", "false", "1", "\"x\"", "null", "[]", "{}"];
    let mut parts = vec![];
    for (p, r) in [("is_public", "regex_def"), ("isPublic", "regexDef"), ("isPublic", "regex_def"), ("is_public", "regexDef"), ("IsPublic", "regex_def"), ("is_public", "regexdef")] {
        for a in vals { for b in ["\"a\"", "1", "null", "[\"a\"]", "true", "\"(\""] { parts.push(format!("{{\"{p}\": {a}, \"{r}\": {b}}}")); } }
        parts.push(format!("{{\"{p}\": true}}"));
        parts.push(format!("{{\"{r}\": \"a\"}}"));
        parts.push(format!("{{\"{r}\": \"a\", \"{p}\": true, \"more\": [1]}}"));
    }
    parts.push("{\"is_public\": true, \"isPublic\": true, \"regex_def\": \"a\"}".into());
    parts.push("{\"is_public\": true, \"regexDef\": \"a\", \"regex_def\": \"a\"}".into());
    for x in ["{}", "null", "1"] { parts.push(x.into()); }
    let mut v: Vec<String> = parts.iter().flat_map(|p| [format!("{{\"parts\": [{p}]}}"), format!("{{\"parts\": [{{\"is_public\": false, \"regex_def\": \"a\"}}, {p}]}}")]).collect();
    for x in ["{}", "{\"parts\": null}", "{\"parts\": 1}", "{\"parts\": {}}", "{\"part\": []}", "{\"parts\": []}", "{\"parts\": [], \"x\": 1}", "{\"Parts\": []}", "null", "1", "true"] { v.push(x.into()); }
    v
}
/// an object of JavaScript whose fields are undefined where the document has null
fn undef(v: &Value) -> Value {
    match v { Value::Null => json!({"$undef": 1}), Value::Array(a) => a.iter().map(undef).collect(), Value::Object(o) => o.iter().map(|(k, v)| (k.clone(), undef(v))).collect::<serde_json::Map<_, _>>().into(), x => x.clone() }
}
const TOK: &[&str] = &["from:", "to:", "subject:", "message-id:", "dkim-signature:v=1; ", "t=12;", "bh=aB+/=;", " ", "\r\n", "a", "<a@b.c>", "x@y.z", "é"];

fn compile_pool(thorough: bool) -> Vec<Spec> {
    let b = if thorough { fam::AstBounds { single: 4, pair: 3, triple: 1, quad: true, anchored: 3, anchored_pair: 2 } } else { fam::AstBounds { single: 3, pair: 2, triple: 1, quad: false, anchored: 2, anchored_pair: 1 } };
    let mut v = fam::ast(&b);
    for x in [fam::lookalikes(), fam::unicode(), fam::repo_configs()] { v.extend(x); }
    if thorough { v.extend(fam::classes()); }
    let mut seen = BTreeSet::new();
    v.retain(|s| seen.insert(key_of(s)));
    v
}
/// one call of every kind, good and bad, for the sequences
fn kinds() -> Vec<Value> {
    let ok = doc(&[(true, "a+"), (false, "b")], false);
    let ok2 = doc(&[(true, "é")], true);
    let obj = |d: &str| serde_json::from_str::<Value>(d).unwrap();
    let ex1 = |t: &str, d: &str, o: bool| { let a = if o { obj(d) } else { json!(d) }; extract(t, d, &config(d), &a, true, &json!(true)) };
    let parts = vec![(true, "a+".to_string()), (false, "b".to_string())];
    let mut v = vec![pad("aé", 6), pad("aé", 2), from_doc(&ok, "T"), from_doc("{}", "T"), from_obj(&obj(&ok), &ok, "U"), from_obj(&json!({"parts": 1}), "{\"parts\": 1}", "U"), from_raw("a|b", "{\"transitions\": [[[0, 1]]]}", "T"), from_raw("(", "{\"transitions\": []}", "T"), from_raw("a", "{", "T"), named("from_addr", "from:a@b.c\r\n"), named("subject_all", "x")];
    v.extend(ex1("xaab", &ok, false));
    v.extend(ex1("aé", &ok2, true));
    v.push(ex1("xx", &ok, true)[0].clone());
    v.push(ex1("xx", "{\"parts\": 1}", true)[1].clone());
    v.extend(automaton(&parts));
    v
}

pub fn c21(thorough: bool) -> Check {
    let mut jobs = vec![];
    let mut add = |k: String, f: Box<dyn Fn() -> Vec<Value> + Send + Sync>| jobs.push(Job::new(k, move |st: &mut Stats| { st.configs += 1; run(&f(), st) }));
    let np = if thorough { 4 } else { 3 };
    for x in PADS { let x = x.to_string(); add(format!("padString: texts that begin with {x:?}"), Box::new(move || {
        let mut v = vec![];
        for t in texts(PADS, np - 1) { let t = format!("{x}{t}"); for n in 0..=t.len() + 2 { v.push(pad(&t, n)); } v.push(pad(&t, 200)); }
        v
    })); }
    add("padString: the empty text, long texts, unpaired surrogates".into(), Box::new(|| {
        let mut v: Vec<Value> = (0..300).map(|n| pad("", n)).collect();
        v.extend([255usize, 256, 257, 1000, 70000].iter().flat_map(|n| [pad(&"é".repeat(*n), n * 2), pad(&"é".repeat(*n), n * 2 + 1), pad("x", *n)]));
        for (u, s) in [(vec![0xd800u32, 97], "\u{fffd}a"), (vec![97, 0xdc00], "a\u{fffd}"), (vec![0xd83d, 0xde00], "😀"), (vec![0xfeff, 97], "\u{feff}a")] { for n in 0..9 { let mut c = pad(s, n); c["a"][0] = json!({"$u16": u}); v.push(c); } }
        v
    }));
    let ne = if thorough { 5 } else { 3 };
    for (i, d) in DEFS.iter().enumerate() { for camel in [true, false] { for object in [true, false] {
        add(format!("extraction {i} {d:?}: {} as {}", if camel { "isPublic, regexDef" } else { "is_public, regex_def" }, if object { "object" } else { "text" }), Box::new(move || {
            let (text, obj) = (doc(d, camel), serde_json::from_str::<Value>(&doc(d, camel)).unwrap());
            let c = config(&text);
            let arg = if object { obj } else { json!(text) };
            texts(&["a", "b", "é", "😀", "\n"], if d.iter().any(|p| p.1.contains("\\w")) { ne - 1 } else { ne }).iter().flat_map(|t| {
                let mut v: Vec<Value> = [true, false].iter().flat_map(|all| extract(t, &text, &c, &arg, *all, &json!(all))).collect();
                if t.len() < 3 { v.extend(extract(t, &text, &c, &arg, false, &json!({"$undef": 1}))); }
                v
            }).collect()
        }));
    } } }
    add("extraction: long texts".into(), Box::new(|| {
        let mut v = vec![];
        for (x, y, n) in crate::extract::long_cases() {
            let text = doc(&[(false, "x"), (true, &y), (true, "z")], true);
            let c = config(&text);
            let t = format!("{}x{}z", "é".repeat(n / 2), x);
            for all in [true, false] { v.extend(extract(&t, &text, &c, &json!(text), all, &json!(all))); }
        }
        for n in [200usize, 255, 256, 300, 65530, 65536, 70001] { let h = "y".repeat(n); for (name, line) in [("from_addr", "from:A <a@b.c>\r\n"), ("to_all", "to:é@b.c\r\n"), ("subject_all", "subject:x\r\n"), ("message_id", "message-id:<a@b.c>\r\n"), ("email_domain", "a@b.c "), ("timestamp", "dkim-signature:v=1; t=5; bh=ab;\r\n"), ("body_hash", "dkim-signature:v=1; t=5; bh=ab;\r\n"), ("from_all", "from:q\r\n"), ("to_addr", "to:<a@b.c>\r\n"), ("email_addr", "a@b.c ")] { v.push(named(name, &format!("x:{h}\r\n{line}"))); } }
        v
    }));
    add("extraction: documents".into(), Box::new(|| docs().iter().flat_map(|d| {
        let c = config(d);
        let obj: Value = serde_json::from_str(d).unwrap();
        let mut v = vec![];
        for t in ["", "a", "aa"] { v.extend(extract(t, d, &c, &json!(d), false, &json!(false))); v.extend(extract(t, d, &c, &obj, true, &json!(true))); v.extend(extract(t, d, &c, &undef(&obj), true, &json!(true))); }
        v
    }).collect()));
    add("extraction: texts that are no documents".into(), Box::new(|| {
        let g = doc(&[(true, "a")], true);
        let mut v = vec![];
        // every prefix, and the document with one character left out
        for k in g.char_indices().map(|x| x.0) { for d in [g[..k].to_string(), format!("{}{}", &g[..k], &g[k + 1..])] { v.extend(extract("a", &d, &config(&d), &json!(d), true, &json!(true))); } }
        v
    }));
    let nn = if thorough { 4 } else { 3 };
    for (n, _) in JSNAMES { for x in TOK { add(format!("{n}: token texts that begin with {x:?}"), Box::new(move || texts(TOK, nn - 1).iter().map(|t| named(n, &format!("{x}{t}"))).collect())); } }
    // whole headers
    for (n, _) in JSNAMES { add(format!("{n}: headers"), Box::new(move || crate::extract::LINES.iter().flat_map(|a| crate::extract::LINES.iter().flat_map(move |b| { let mut v = vec![format!("{a}\r\n{b}\r\n")]; if thorough { v.push(format!("{a}\r\n{b}")); } v })).map(|t| named(n, &t)).collect())); }
    let pool = compile_pool(thorough);
    let per = if thorough { 60 } else { 25 };
    for (k, chunk) in pool.chunks(per).enumerate() {
        let chunk: Vec<Vec<(bool, String)>> = chunk.iter().map(|s| s.config()).collect();
        add(format!("compiler: configurations {}..{} from {}", k * per, k * per + chunk.len(), serde_json::to_string(&chunk[0]).unwrap()), Box::new(move || {
            let mut v = vec![];
            for c in &chunk {
                let text = subject::cfg_json(c);
                let obj: Value = serde_json::from_str(&text).unwrap();
                let w = native_doc(&text, "T");
                v.push(call("genFromDecomposed", json!([text, "T"]), w.clone()));
                v.push(call("genCircom", json!([obj, "T"]), w));
                v.extend(automaton(c));
            }
            v
        }));
    }
    add("compiler: documents".into(), Box::new(|| docs().iter().flat_map(|d| { let o: Value = serde_json::from_str(d).unwrap(); [from_doc(d, "T"), from_obj(&o, d, "T"), from_obj(&undef(&o), d, "T")] }).collect()));
    add("compiler: template names".into(), Box::new(|| ["T", "Abc_1", "é", "", "a b"].iter().flat_map(|n| { let d = doc(&[(true, "a"), (false, "b|c")], false); let o = serde_json::from_str(&d).unwrap(); [from_doc(&d, n), from_obj(&o, &d, n), from_raw("ab+", "{\"transitions\": [[[0, 1]], [[1, 2], [2, 2]]]}", n)] }).collect()));
    let l = fam::languages(&["a", "b", "c"], if thorough { 4 } else { 3 });
    let raws: Vec<String> = l.into_iter().map(|x| x.0).filter(|x| fam::canonical(&[x])).flat_map(|x| [x.clone(), format!("^({x})"), format!("({x})$")]).chain(["", "(", "a|", "a{2,3}", "\\d+", "é", "[^a]b", "^", "$", "a^b", "(?i)a", "\\b"].map(String::from)).collect();
    for (k, chunk) in raws.chunks(per).enumerate() {
        let chunk = chunk.to_vec();
        add(format!("compiler: raw regexes {}..{} from {:?}", k * per, k * per + chunk.len(), chunk[0]), Box::new(move || chunk.iter().flat_map(|r| {
            ["{\"transitions\": []}", "{\"transitions\": [[]]}", "{\"transitions\": [[[0, 1]]]}", "{\"transitions\": [[[0, 1]], [[1, 2]]]}", "{\"transitions\": [[[1, 1], [0, 1]]]}", "{\"transitions\": [[0, 1]]}", "{}", "{\"transitions\": 1}", "[", "{\"transitions\": [[[0, 1, 2]]]}", "{\"transitions\": [[[0, -1]]]}"].map(|d| from_raw(r, d, "T"))
        }).collect()));
    }
    // every sequence of calls on a fresh instance: what one call does never shows in the next
    let ks = std::sync::Arc::new(kinds());
    for i in 0..ks.len() { for h in 0..if thorough { ks.len() } else { 1 } {
        let ks2 = ks.clone();
        add(format!("sequences that begin with call {i}{}", if thorough { format!(", {h}") } else { String::new() }), Box::new(move || (0..ks2.len()).map(|j| if thorough { json!({"seq": [ks2[i], ks2[h], ks2[j], ks2[i]]}) } else { json!({"seq": [ks2[i], ks2[j], ks2[i]]}) }).collect()));
    } }
    Check { id: "C21".into(), jobs, bounds: vec![
        format!("padString: every text of up to {np} of seven characters with every size up to its length and two more; extraction: {} definitions in both spellings, as text and as object, on every text of up to {ne} of five characters; every document of an enumeration of fields, names and values; the ten named extractors on every text of up to {nn} of {} tokens and every pair of header lines", DEFS.len(), TOK.len()),
        "compiler: genFromDecomposed, genCircom and genRegexAndDfa on every configuration of a bounded space, genFromRaw on every regex up to a size with three anchorings and eleven substring definitions".into(),
        format!("every sequence of {} of {} calls of all kinds (good and failing) on a fresh instance, the first call repeated at the end", if thorough { 3 } else { 2 }, ks.len())],
        assumptions: vec!["the module is built by cargo and wasm-bindgen like wasm-pack does, both packages in one, and run by node".into(), "serde_json reads a document as serde_wasm_bindgen reads the object it stands for (no sets, maps or class instances as objects)".into()] }
}
