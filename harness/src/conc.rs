//! Calls of the library that run at the same time, under every schedule of the controlled scheduler.
use crate::engine::*;
use crate::explore::fnd;
use crate::report::{Check, Job};
use crate::sched::{run2, At, Points, Switches};
use crate::subject;
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicUsize, Ordering};
use zk_regex_apis::{extract_substrs as ex, padding};

#[derive(Clone, Debug)]
enum Req { Dec(&'static str, Option<bool>), Raw(&'static str, Option<&'static str>), Struct(&'static [(bool, &'static str)]), Extract(&'static [(bool, &'static str)], &'static str, bool), Named(usize, &'static str), Pad(&'static str, usize) }
/// what a call says, and the files it leaves in its directory
type Res = (String, BTreeMap<String, Vec<u8>>);

fn go(r: &Req, d: &Path) -> String {
    let path = |n: &str| d.join(n).to_str().unwrap().to_string();
    let (c, h) = (path("o.circom"), path("h2"));
    let say = |r: Result<(), String>| match r { Ok(()) => "ok".to_string(), Err(e) => format!("error: {e}").replace(d.to_str().unwrap(), "") };
    let o = std::panic::catch_unwind(|| match r {
        Req::Dec(_, g) => say(zk_regex_compiler::gen_from_decomposed(&path("in.json"), Some(&h), Some(&c), Some("T"), *g).map_err(|e| e.to_string())),
        Req::Raw(re, s) => say(zk_regex_compiler::gen_from_raw(re, s.map(|_| path("s.json")).as_deref(), Some(&h), Some(&c), Some("T"), Some(true)).map_err(|e| e.to_string())),
        Req::Struct(p) => { let mut x = subject::cfg(&p.iter().map(|(b, r)| (*b, r.to_string())).collect::<Vec<_>>()); say(zk_regex_compiler::gen_circom_from_decomposed_regex(&mut x, Some(&c), Some("T"), Some(true)).map_err(|e| e.to_string())) }
        Req::Extract(p, t, all) => { let x = ex::DecomposedRegexConfig { parts: p.iter().map(|(b, r)| ex::RegexPartConfig { is_public: *b, regex_def: r.to_string() }).collect() }; format!("{:?} {:?}", ex::extract_substr_idxes(t, &x, *all).map_err(|e| e.to_string()), ex::extract_substr(t, &x, *all).map_err(|e| e.to_string())) }
        Req::Named(k, t) => format!("{:?}", match k { 0 => ex::extract_email_addr_idxes(t), 1 => ex::extract_from_addr_idxes(t), 2 => ex::extract_subject_all_idxes(t), 3 => ex::extract_timestamp_idxes(t), _ => ex::extract_message_id_idxes(t) }.map_err(|e| e.to_string())),
        Req::Pad(t, n) => format!("{:?}", padding::pad_string(t, *n)),
    });
    o.unwrap_or_else(|_| "panic".into())
}
fn prepare(r: &Req, d: &Path) {
    let _ = std::fs::remove_dir_all(d);
    std::fs::create_dir_all(d.join("h2")).unwrap();
    match r { Req::Dec(j, _) => std::fs::write(d.join("in.json"), j).unwrap(), Req::Raw(_, Some(s)) => std::fs::write(d.join("s.json"), s).unwrap(), _ => {} }
}
fn files(d: &Path) -> BTreeMap<String, Vec<u8>> {
    let mut m = BTreeMap::new();
    for (p, x) in [("", d.to_path_buf()), ("h2/", d.join("h2"))] { for e in std::fs::read_dir(x).into_iter().flatten().flatten() { if e.path().is_file() { m.insert(format!("{p}{}", e.file_name().to_string_lossy()), std::fs::read(e.path()).unwrap_or_default()); } } }
    m
}
fn dirs() -> [PathBuf; 2] {
    static N: AtomicUsize = AtomicUsize::new(0);
    let n = N.fetch_add(1, Ordering::SeqCst);
    [subject::scratch().join(format!("c{n}a")), subject::scratch().join(format!("c{n}b"))]
}
fn reqs() -> Vec<Req> {
    vec![
        Req::Struct(&[(true, "a+"), (false, "b")]),
        Req::Dec(r#"{"parts":[{"is_public":false,"regex_def":"x"},{"is_public":true,"regex_def":"[a-c]"}]}"#, Some(true)),
        Req::Raw("ab", Some(r#"{"transitions":[[[1,2]]]}"#)),
        Req::Struct(&[(true, "a"), (false, "(")]),
        Req::Extract(&[(false, "a"), (true, "b+")], "xxabb", true),
        Req::Extract(&[(true, "[0-9]+"), (false, "z")], "a12z", false),
        Req::Named(0, "a@b.c"),
        Req::Named(2, "subject:hi\r\n"),
        Req::Pad("abc", 6),
        Req::Pad("é", 9),
    ]
}
/// one call while another one runs: the second begins and ends while the first stands at a point; every point of the first
fn pair(a: Req, b: Req, part: usize, of: usize, all: bool, st: &mut Stats) -> Result<(), Finding> {
    let [da, db] = dirs();
    let r = inner(&a, &b, part, of, all, &da, &db, st);
    let _ = std::fs::remove_dir_all(&da);
    let _ = std::fs::remove_dir_all(&db);
    r
}
const COLD: usize = usize::MAX;
fn inner(a: &Req, b: &Req, part: usize, of: usize, all: bool, da: &Path, db: &Path, st: &mut Stats) -> Result<(), Finding> {
    let alone = |r: &Req, d: &Path| -> Res { prepare(r, d); let s = subject::quietly(|| go(r, d)); (s, files(d)) };
    let (wa, wb) = (alone(a, da), alone(b, db));
    // cold: in a process of its own, where nothing has run before
    let mut run = |sw: Switches, cold: bool| -> Result<[Points; 2], Finding> {
        prepare(a, da);
        prepare(b, db);
        // should the code under test change it: not for good
        let _ = std::env::set_current_dir(subject::scratch());
        let at = format!("{a:?} at the same time as {b:?}{}, switches {sw:?}", if cold { " in a new process" } else { "" });
        let (ra, rb, pts): (String, String, [Points; 2]) = if cold {
            let spec = serde_json::to_string(&(index(a), index(b), da, db, &sw)).unwrap();
            let o = std::process::Command::new(std::env::current_exe().expect("own path")).args(["two", &spec]).output().expect("own process");
            serde_json::from_slice(&o.stdout).map_err(|_| fnd(Kind::Other, format!("{at}: the process {}", if std::os::unix::process::ExitStatusExt::signal(&o.status) == Some(14) { "does not come to an end".into() } else { format!("dies: {}", o.status) })))?
        } else { two(a, b, da, db, &sw) };
        st.states += 1;
        st.transitions += (pts[0][0] + pts[1][0] + pts[0][2] + pts[1][2]) as u64;
        st.messages += 1;
        let cut = |s: &str| s.chars().take(300).collect::<String>();
        for (who, got, want) in [("first", (ra, files(da)), &wa), ("second", (rb, files(db)), &wb)] {
            if got.0 != want.0 { return Err(fnd(Kind::Other, format!("{at}: the {who} call says {}, alone {}", cut(&got.0), cut(&want.0)))); }
            if got.1 != want.1 { let n = got.1.keys().chain(want.1.keys()).find(|n| got.1.get(*n) != want.1.get(*n)).unwrap(); return Err(fnd(Kind::Other, format!("{at}: the {who} call leaves another {n} than alone"))); }
        }
        Ok(pts)
    };
    let cold = part == COLD;
    let pts = run([vec![], vec![]], cold)?;
    let mine = |i: &usize| cold || i % of == part;
    let n = pts[0][0];
    if all && !cold { for i in (0..n).filter(mine) { run([vec![(At::Any, i)], vec![]], cold)?; } }
    // where memory that both share comes into play: one switch, and a switch back
    for i in (0..pts[0][2]).filter(mine) {
        run([vec![(At::Mem, i)], vec![]], cold)?;
        if pts[0][2] * pts[1][2] < 10_000 { for j in 0..pts[1][2] { run([vec![(At::Mem, i)], vec![(At::Mem, j)]], cold)?; } }
    }
    for i in (0..pts[0][1]).filter(mine) {
        run([vec![(At::File, i)], vec![]], cold)?;
        // both are interrupted, at file calls
        if !cold { for j in 0..pts[1][1] { run([vec![(At::File, i)], vec![(At::File, j)]], cold)?; } }
    }
    st.configs += 1;
    if st.sample.is_none() { st.sample = Some(format!("{a:?} interrupted by {b:?}{}: points {:?} and {:?} (calls of the allocator and of files, of files, at shared memory)", if cold { " in a new process" } else { "" }, pts[0], pts[1])); }
    Ok(())
}
fn index(r: &Req) -> usize { reqs().iter().position(|x| format!("{x:?}") == format!("{r:?}")).expect("a request") }
fn two(a: &Req, b: &Req, da: &Path, db: &Path, sw: &Switches) -> (String, String, [Points; 2]) {
    let (x, y, p, q) = (a.clone(), b.clone(), da.to_path_buf(), db.to_path_buf());
    run2(move || subject::quietly(|| go(&x, &p)), move || subject::quietly(|| go(&y, &q)), sw.clone())
}
/// `zkmc two SPEC`: one schedule, in this process
pub fn two_main(spec: &str) -> String {
    extern "C" { fn alarm(s: u32) -> u32; }
    // SAFETY: no handler
    unsafe { alarm(60); }
    let (a, b, da, db, sw): (usize, usize, PathBuf, PathBuf, Switches) = serde_json::from_str(spec).expect("schedule");
    let r = reqs();
    serde_json::to_string(&two(&r[a], &r[b], &da, &db, &sw)).unwrap()
}
pub fn c23(thorough: bool) -> Check {
    let r = reqs();
    let mut jobs = vec![Job::new("the build reports accesses to memory", |_: &mut Stats| { assert!(crate::sched::instrumented(), "not the instrumented build"); Ok(()) })];
    // whatever code under test may write under a relative name stays in the scratch directory
    let _ = std::env::set_current_dir(subject::scratch());
    for (i, a) in r.iter().enumerate() { for (k, b) in r.iter().enumerate() {
        // compilations have tens of thousands of points: in the quick tier each is interrupted there by one other call, and by all calls at its file calls
        let all = thorough || if i < 4 { k == [0, 0, 2, 1][i] } else { k == 0 || k > 3 };
        let of = if i < 4 && all { 24 } else if i < 4 && k < 4 { 8 } else { 2 };
        { let (a, b) = (a.clone(), b.clone()); jobs.push(Job::new(format!("call {i} interrupted by {k} in new processes"), move |st: &mut Stats| pair(a.clone(), b.clone(), COLD, 1, false, st))); }
        for part in 0..of { let (a, b) = (a.clone(), b.clone()); jobs.push(Job::new(format!("call {i} interrupted by {k}, part {part}"), move |st: &mut Stats| pair(a.clone(), b.clone(), part, of, all, st))); }
    } }
    Check { id: "C23".into(), jobs, bounds: vec![
        format!("two calls at a time out of ten (circuit from a structure, circuit and tables from a file, raw regex with substring definitions, a refused definition, extraction with and without private parts, two named extractors, padding twice){}", if thorough { ", all ordered pairs" } else { "; each compilation with one other call and at its file calls with all, everything else with five" }),
        "schedules: the first call is interrupted at each of its points (every memory allocation and every file call: open, read, write, close, mkdir, rename, unlink) and the second runs to its end; besides, for two calls that use files, each is interrupted once at every pair of file calls".into(),
        "shared memory: the build reports every load, store and basic block of the crates under test; an access to a static and the 60 blocks behind it are points as well, also in pairs as long as these are fewer than 10 000 (none on a tree whose calls share no writable memory)".into(),
        "every pair also in a new process per schedule, where nothing has been initialised yet (file calls and shared memory)".into(),
        "monitored: both results, and every file both leave, against those of the calls alone".into() ],
        assumptions: vec!["preemptions between two allocations or file calls of one thread are not told apart; weak memory orders are not explored".into(), "a thread that makes no progress for 30 ms while the other is stopped is taken to wait for a lock of the stopped one, which then goes on".into()] }
}

/// every file call of a run fails once, in every way; or the disk is full from there on
pub fn faults(i: usize, st: &mut Stats) -> Result<(), Finding> {
    use crate::sched::{inject, trace, Fault, Op};
    let r = reqs()[i].clone();
    let [d, e] = dirs();
    let res = (|| {
        let run0 = || { prepare(&r, &d); let (s, ops) = trace(|| subject::quietly(|| go(&r, &d))); ((s, files(&d)), ops) };
        let (want, ops) = run0();
        st.configs += 1;
        // the same calls every time, or the numbering means nothing
        if run0().1 != ops { return Ok(()); }
        for (k, op) in ops.iter().enumerate() {
            const EINTR: i32 = 4;
            let faults: Vec<Fault> = match op {
                Op::Open => vec![Fault::Errno(EINTR), Fault::Errno(13), Fault::Errno(24), Fault::Errno(28)],
                Op::Read => vec![Fault::Errno(EINTR), Fault::Errno(5), Fault::Short(1), Fault::Short(7)],
                Op::Write => vec![Fault::Errno(EINTR), Fault::Errno(5), Fault::Errno(28), Fault::Short(1), Fault::Short(7), Fault::Full],
                Op::Close => vec![],
                _ => vec![Fault::Errno(13), Fault::Errno(28)],
            };
            for f in faults {
                prepare(&r, &d);
                let (s, hit) = inject(k, f, || subject::quietly(|| go(&r, &d)));
                st.states += 1; st.transitions += 1; st.messages += 1;
                let at = format!("{r:?}, file call {k} ({op:?}) answered with {f:?}");
                if !hit { return Err(fnd(Kind::Other, format!("{at}: the run never came to that call"))); }
                if s == "panic" { return Err(fnd(Kind::Other, format!("{at}: panic"))); }
                let got = files(&d);
                if s == "ok" { st.accepting += 1; } else { st.rejected += 1; }
                if s == "ok" && got != want.1 { return Err(fnd(Kind::Other, format!("{at}: reported success, but the outputs are incomplete"))); }
                // a short call is no failure
                if matches!(f, Fault::Short(_)) && (s != want.0 || got != want.1) { return Err(fnd(Kind::Other, format!("{at}: {s} instead of {}", want.0))); }
            }
        }
        st.sample = Some(format!("{r:?}: {} file calls", ops.len()));
        Ok(())
    })();
    let _ = std::fs::remove_dir_all(&d);
    let _ = std::fs::remove_dir_all(&e);
    res
}
