//! Drives the real compiler and loads what it wrote.
use crate::circom::{self, Circuit, Program};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, VecDeque};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::OnceLock;
use zk_regex_compiler::{DecomposedRegexConfig, RegexPartConfig};

pub fn repo() -> PathBuf { PathBuf::from(std::env::var("ZKMC_REPO").unwrap_or_else(|_| "/repo".into())) }

/// scratch directory of this process, removed at exit by `cleanup`
pub fn scratch() -> &'static Path {
    static S: OnceLock<PathBuf> = OnceLock::new();
    S.get_or_init(|| {
        let base = if Path::new("/dev/shm").is_dir() { PathBuf::from("/dev/shm") } else { std::env::temp_dir() };
        let p = base.join(format!("zkmc-{}", std::process::id()));
        std::fs::create_dir_all(&p).expect("scratch dir");
        p
    })
}
pub fn cleanup() { let p = scratch(); if p.file_name().map(|n| n.to_string_lossy().starts_with("zkmc-")).unwrap_or(false) { let _ = std::fs::remove_dir_all(p); } }
static CNT: AtomicUsize = AtomicUsize::new(0);
thread_local! { static TDIR: RefCell<Option<PathBuf>> = const { RefCell::new(None) }; }
pub fn tdir() -> PathBuf {
    TDIR.with(|d| d.borrow_mut().get_or_insert_with(|| { let p = scratch().join(format!("t{}", CNT.fetch_add(1, Ordering::SeqCst))); std::fs::create_dir_all(&p).unwrap(); p }).clone())
}

/// result of asking the tool: text, error message, or a panic
#[derive(Clone, Debug, PartialEq)]
pub enum Out<T> { Ok(T), Err(String), Panic(String) }
impl<T> Out<T> {
    pub fn ok(self) -> Option<T> { match self { Out::Ok(t) => Some(t), _ => None } }
    pub fn is_ok(&self) -> bool { matches!(self, Out::Ok(_)) }
    pub fn kind(&self) -> String { match self { Out::Ok(_) => "ok".into(), Out::Err(e) => format!("error: {e}"), Out::Panic(e) => format!("panic: {e}") } }
}

thread_local! { static QUIET: std::cell::Cell<bool> = const { std::cell::Cell::new(false) }; }
/// panics of the code under test are verdicts, not noise; everything else is reported as usual
pub fn install_hook() {
    let d = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |i| if !QUIET.with(|q| q.get()) { d(i) }));
}
/// calls of the code under test in progress, for the watchdog
static RUNNING: std::sync::Mutex<Calls> = std::sync::Mutex::new(Calls::new());
struct Calls(Vec<(std::thread::ThreadId, std::time::Instant)>);
impl Calls {
    const fn new() -> Self { Calls(vec![]) }
    fn insert(&mut self, id: std::thread::ThreadId, t: std::time::Instant) { self.0.push((id, t)); }
    fn remove(&mut self, id: &std::thread::ThreadId) { self.0.retain(|x| x.0 != *id); }
}
/// threads whose present call of the code under test has run longer than `secs`
pub fn hanging(secs: u64) -> Vec<std::thread::ThreadId> { RUNNING.lock().unwrap().0.iter().filter(|x| x.1.elapsed().as_secs() > secs).map(|x| x.0).collect() }
/// panics inside are not reported
pub fn quietly<T>(f: impl FnOnce() -> T) -> T { let was = QUIET.with(|q| q.replace(true)); let r = f(); QUIET.with(|q| q.set(was)); r }
pub fn guarded<T>(f: impl FnOnce() -> Result<T, String>) -> Out<T> {
    let was = QUIET.with(|q| q.replace(true));
    let id = std::thread::current().id();
    if !was { RUNNING.lock().unwrap().insert(id, std::time::Instant::now()); }
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    QUIET.with(|q| q.set(was));
    if !was { RUNNING.lock().unwrap().remove(&id); }
    match r {
        Ok(Ok(t)) => Out::Ok(t),
        Ok(Err(e)) => Out::Err(e),
        Err(p) => Out::Panic(p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_else(|| "?".into())),
    }
}

pub fn cfg(parts: &[(bool, String)]) -> DecomposedRegexConfig {
    DecomposedRegexConfig { parts: parts.iter().map(|(p, r)| RegexPartConfig { is_public: *p, regex_def: r.clone() }).collect::<VecDeque<_>>() }
}
pub fn cfg_json(parts: &[(bool, String)]) -> String {
    serde_json::json!({"parts": parts.iter().map(|(p, r)| serde_json::json!({"is_public": p, "regex_def": r})).collect::<Vec<_>>()}).to_string()
}

/// circuit text from the struct API
pub fn circom_text(parts: &[(bool, String)], template: &str, substrs: Option<bool>) -> Out<String> {
    let f = tdir().join("s.circom");
    let _ = std::fs::remove_file(&f);
    let fs = f.to_str().unwrap().to_string();
    guarded(|| {
        let mut c = cfg(parts);
        zk_regex_compiler::gen_circom_from_decomposed_regex(&mut c, Some(&fs), Some(template), substrs).map_err(|e| e.to_string())?;
        std::fs::read_to_string(&f).map_err(|e| format!("output not written: {e}"))
    })
}

/// the same configuration object compiled n times
pub fn circom_again(parts: &[(bool, String)], template: &str, substrs: Option<bool>, n: usize) -> Vec<Out<String>> {
    let f = tdir().join("s.circom");
    let fs = f.to_str().unwrap().to_string();
    let mut c = cfg(parts);
    (0..n).map(|_| {
        let _ = std::fs::remove_file(&f);
        guarded(|| {
            zk_regex_compiler::gen_circom_from_decomposed_regex(&mut c, Some(&fs), Some(template), substrs).map_err(|e| e.to_string())?;
            std::fs::read_to_string(&f).map_err(|e| format!("output not written: {e}"))
        })
    }).collect()
}

#[derive(Clone, Debug, PartialEq, Default)]
pub struct Files { pub circom: Option<String>, pub halo2: BTreeMap<String, String> }

fn read_dir_files(d: &Path) -> BTreeMap<String, String> {
    let mut m = BTreeMap::new();
    if let Ok(rd) = std::fs::read_dir(d) { for e in rd.flatten() { if !e.path().symlink_metadata().map(|m| m.is_file()).unwrap_or(false) { continue; } if let Ok(t) = std::fs::read_to_string(e.path()) { m.insert(e.file_name().to_string_lossy().to_string(), t); } } }
    m
}
pub fn collect(circom: &Path, halo2: &Path) -> Files { Files { circom: if circom.symlink_metadata().map(|m| m.is_file()).unwrap_or(false) { std::fs::read_to_string(circom).ok() } else { None }, halo2: read_dir_files(halo2) } }
/// a fresh empty directory for one tool run
pub fn fresh(name: &str) -> PathBuf { let d = tdir().join(name); let _ = std::fs::remove_dir_all(&d); std::fs::create_dir_all(&d).unwrap(); d }

/// file API: both back ends.  Files present after the call are returned whatever the result.
pub fn gen_files(parts: &[(bool, String)], template: &str, substrs: Option<bool>, halo2: bool, circom: bool) -> (Out<()>, Files) {
    let d = fresh("f");
    let j = d.join("in.json");
    std::fs::write(&j, cfg_json(parts)).unwrap();
    let h = d.join("h2");
    std::fs::create_dir_all(&h).unwrap();
    let c = d.join("o.circom");
    let r = guarded(|| {
        zk_regex_compiler::gen_from_decomposed(j.to_str().unwrap(), if halo2 { h.to_str() } else { None }, if circom { c.to_str() } else { None }, if circom { Some(template) } else { None }, substrs).map_err(|e| e.to_string())
    });
    let f = Files { circom: std::fs::read_to_string(&c).ok(), halo2: read_dir_files(&h) };
    (r, f)
}
pub fn gen_raw(raw: &str, substrs_json: Option<&str>, template: &str, substrs: Option<bool>, halo2: bool, circom: bool) -> (Out<()>, Files) {
    let d = fresh("r");
    let h = d.join("h2");
    std::fs::create_dir_all(&h).unwrap();
    let c = d.join("o.circom");
    let j = d.join("s.json");
    if let Some(s) = substrs_json { std::fs::write(&j, s).unwrap(); }
    let r = guarded(|| {
        zk_regex_compiler::gen_from_raw(raw, substrs_json.map(|_| j.to_str().unwrap()), if halo2 { h.to_str() } else { None }, if circom { c.to_str() } else { None }, if circom { Some(template) } else { None }, substrs).map_err(|e| e.to_string())
    });
    let f = Files { circom: std::fs::read_to_string(&c).ok(), halo2: read_dir_files(&h) };
    (r, f)
}

// ------------------------------------------------------------------ circuits
/// the helper library every generated circuit includes, read from /repo
pub fn helpers() -> Result<&'static Program, String> {
    static H: OnceLock<Result<Program, String>> = OnceLock::new();
    H.get_or_init(|| {
        let p = repo().join("packages/circom/circuits/regex_helpers.circom");
        let t = std::fs::read_to_string(&p).map_err(|e| format!("{}: {e}", p.display()))?;
        let mut h = circom::parse(&t).map_err(|e| format!("regex_helpers.circom: {e}"))?;
        let lib = circom::parse(circom::CIRCOMLIB).expect("embedded circomlib");
        let (mut comparators, mut gates) = (false, false);
        for i in &h.includes {
            match i.as_str() {
                "circomlib/circuits/comparators.circom" => comparators = true,
                "circomlib/circuits/gates.circom" => gates = true,
                o => return Err(format!("regex_helpers.circom: unknown include {o}")),
            }
        }
        if !comparators { return Err("regex_helpers.circom no longer includes the comparators".into()); }
        const G: &[&str] = &["XOR", "AND", "OR", "NOT", "NAND", "NOR", "MultiAND"];
        for (k, v) in &lib.templates {
            if !gates && G.contains(&k.as_str()) { continue; }
            if h.templates.contains_key(k) { return Err(format!("template {k} declared twice")); }
            h.templates.insert(k.clone(), v.clone());
        }
        Ok(h)
    }).as_ref().map_err(|e| e.clone())
}

pub const INCLUDES: &[&str] = &["@zk-email/zk-regex-circom/circuits/regex_helpers.circom"];

pub struct Parsed { pub prog: Program, pub name: String }

/// parse a generated circuit and link it with the helpers
pub fn link(text: &str, name: &str) -> Result<Parsed, String> {
    let mut p = circom::parse(text)?;
    for i in &p.includes { if !(INCLUDES.contains(&i.as_str()) || i.ends_with("regex_helpers.circom")) { return Err(format!("unknown include {i}")); } }
    if p.includes.is_empty() { return Err("helper library not included".into()); }
    if !p.templates.contains_key(name) { return Err(format!("no template {name}; found {:?}", p.order)); }
    p.merge(helpers()?)?;
    Ok(Parsed { prog: p, name: name.to_string() })
}
pub fn instance(p: &Parsed, n: usize) -> Result<Circuit, String> {
    let c = circom::elaborate(&p.prog, &p.name, &[n as i64])?;
    Ok(c)
}

// ------------------------------------------------------------------ halo2 tables
#[derive(Clone, Debug)]
pub struct Table { pub start: usize, pub accept: usize, pub max: usize, pub edges: BTreeMap<(usize, u8), BTreeSet<usize>> }
#[derive(Clone, Debug)]
pub struct SubTable { pub starts: BTreeSet<usize>, pub ends: BTreeSet<usize>, pub edges: BTreeSet<(usize, usize)> }

pub fn parse_allstr(t: &str) -> Result<Table, String> {
    let mut l = t.lines();
    let mut one = |w: &str| -> Result<usize, String> { l.next().ok_or(format!("allstr.txt: missing {w} line"))?.trim().parse().map_err(|_| format!("allstr.txt: bad {w} line")) };
    let (start, accept, max) = (one("start")?, one("accept")?, one("max")?);
    let mut edges: BTreeMap<(usize, u8), BTreeSet<usize>> = BTreeMap::new();
    for (k, x) in t.lines().skip(3).enumerate() {
        let v: Vec<usize> = x.split(' ').map(|s| s.parse().map_err(|_| format!("allstr.txt: bad edge line {x:?}"))).collect::<Result<_, _>>()?;
        if v.len() != 3 || v[2] > 255 { return Err(format!("allstr.txt: bad edge line {} {x:?}", k + 4)); }
        if !edges.entry((v[0], v[2] as u8)).or_default().insert(v[1]) { return Err(format!("allstr.txt: duplicate edge {x:?}")); }
    }
    Ok(Table { start, accept, max, edges })
}
pub fn parse_substr(t: &str) -> Result<SubTable, String> {
    let l: Vec<&str> = t.lines().collect();
    if l.len() < 2 { return Err("substr table: fewer than two lines".into()); }
    let set = |s: &str| -> Result<BTreeSet<usize>, String> { s.split_whitespace().map(|x| x.parse().map_err(|_| format!("substr table: bad line {s:?}"))).collect() };
    let mut edges = BTreeSet::new();
    for x in &l[2..] {
        let v: Vec<usize> = x.split(' ').map(|s| s.parse().map_err(|_| format!("substr table: bad edge {x:?}"))).collect::<Result<_, _>>()?;
        if v.len() != 2 { return Err(format!("substr table: bad edge {x:?}")); }
        edges.insert((v[0], v[1]));
    }
    Ok(SubTable { starts: set(l[0])?, ends: set(l[1])?, edges })
}
