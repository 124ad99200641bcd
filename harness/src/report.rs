//! Jobs, verdicts, known findings, evidence.
use crate::engine::{Finding, Kind, Stats};
use crate::util::{self, par_map};
use std::collections::BTreeMap;
use std::path::PathBuf;
use std::sync::atomic::{AtomicBool, Ordering};

pub struct Job { pub key: String, pub run: Box<dyn Fn(&mut Stats) -> Result<(), Finding> + Send + Sync> }
impl Job { pub fn new(key: impl Into<String>, run: impl Fn(&mut Stats) -> Result<(), Finding> + Send + Sync + 'static) -> Job { Job { key: key.into(), run: Box::new(run) } } }

pub struct Check { pub id: String, pub jobs: Vec<Job>, pub bounds: Vec<String>, pub assumptions: Vec<String> }

pub fn verif() -> PathBuf { PathBuf::from(std::env::var("ZKMC_VERIF").unwrap_or_else(|_| "/verif".into())) }

#[derive(Debug, Clone)]
pub struct Known { pub property: String, pub key: String, pub kind: String, pub what: String }
/// lines `known: property=<id> kind=<kind> job=<key> :: <what fails>`; `fixed:` lines suppress nothing
pub fn known() -> Result<Vec<Known>, String> {
    let p = verif().join("known_findings.txt");
    let t = std::fs::read_to_string(&p).map_err(|e| format!("{}: {e}", p.display()))?;
    let mut v = vec![];
    for l in t.lines() {
        let Some(r) = l.strip_prefix("known: ") else { continue };
        let (head, what) = r.split_once(" :: ").ok_or_else(|| format!("bad known-findings line {l:?}"))?;
        let f = |k: &str, rest: &str| -> Option<String> { rest.split_once(&format!("{k}=")).map(|x| x.1.to_string()) };
        let property = f("property", head).ok_or("property")?.split(' ').next().unwrap().to_string();
        let kind = f("kind", head).ok_or("kind")?.split(' ').next().unwrap().to_string();
        let key = f(" job", head).ok_or("job")?;
        v.push(Known { property, key, kind, what: what.to_string() });
    }
    Ok(v)
}

pub fn run(check: &Check, tier: &str, only: Option<&str>) -> i32 {
    let clk = util::Clock::new(0.0);
    let known = match known() { Ok(k) => k, Err(e) => { eprintln!("error: {e}"); return 2; } };
    let jobs: Vec<&Job> = check.jobs.iter().filter(|j| only.map(|k| j.key == k).unwrap_or(true)).collect();
    if jobs.is_empty() { eprintln!("error: no such job"); return 2; }
    {
        let mut seen = std::collections::HashSet::new();
        for j in &check.jobs { if !seen.insert(&j.key) { eprintln!("error: duplicate job {}", j.key); return 2; } }
    }
    let stop = AtomicBool::new(false);
    let bad = std::sync::atomic::AtomicUsize::new(0);
    let budget: f64 = std::env::var("ZKMC_BUDGET").ok().and_then(|s| s.parse().ok()).unwrap_or(if tier == "thorough" { 3000.0 } else { 500.0 });
    let over = AtomicBool::new(false);
    // a call of the code under test that does not return is a violation too
    let current: std::sync::Arc<std::sync::Mutex<std::collections::HashMap<std::thread::ThreadId, String>>> = Default::default();
    {
        let (current, id, tier) = (current.clone(), check.id.clone(), tier.to_string());
        std::thread::spawn(move || loop {
            std::thread::sleep(std::time::Duration::from_secs(1));
            if let Some(t) = crate::subject::hanging(240).first() {
                let job = current.lock().unwrap().get(t).cloned().unwrap_or_default();
                let p = write_replay(&id, &tier, 0, &job, "Hang", &[], "a call of the code under test has not returned after 240 s");
                println!("  Hang in {job}\nVIOLATION property={id} replay={}", p.display());
                crate::subject::cleanup();
                std::process::exit(1);
            }
        });
    }
    let res = par_map(&jobs, &stop, |_, j| {
        let mut st = Stats::default();
        let t = util::Clock::new(0.0);
        current.lock().unwrap().insert(std::thread::current().id(), j.key.clone());
        // what runs now, should the code under test take the process down (run.sh reports it)
        let _ = std::fs::write(crate::subject::tdir().join("job"), &j.key);
        let r = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (j.run)(&mut st))) {
            Ok(r) => r,
            Err(p) => {
                let m = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                Err(Finding { kind: Kind::Other, msg: vec![], detail: format!("the output cannot be interpreted: {m}") })
            }
        };
        if let Err(f) = &r {
            let kn = known.iter().any(|k| k.property == check.id && k.key == j.key && k.kind == format!("{:?}", f.kind));
            if !kn && bad.fetch_add(1, Ordering::SeqCst) >= std::env::var("ZKMC_MAXBAD").ok().and_then(|s| s.parse().ok()).unwrap_or(20) { stop.store(true, Ordering::SeqCst); }
        }
        if clk.secs() > budget { over.store(true, Ordering::SeqCst); stop.store(true, Ordering::SeqCst); }
        (st, r, t.secs())
    });
    let mut tot = Stats::default();
    let mut viol: Vec<(usize, Finding)> = vec![];
    let mut kf: Vec<&Known> = vec![];
    let mut ran = 0usize;
    let mut samples: Vec<(String, String)> = vec![];
    let mut slow: Vec<(f64, usize)> = vec![];
    for (i, r) in res.into_iter().enumerate() {
        let Some((st, r, secs)) = r else { continue };
        ran += 1;
        slow.push((secs, i));
        if let Some(s) = &st.sample { samples.push((jobs[i].key.clone(), s.clone())); }
        tot.add(&st);
        if let Err(f) = r {
            match known.iter().find(|k| k.property == check.id && k.key == jobs[i].key && k.kind == format!("{:?}", f.kind)) { Some(k) => kf.push(k), None => viol.push((i, f)) }
        }
    }
    for k in &kf { println!("KNOWN-FINDING: property={} {}", check.id, k.what); }
    let complete = ran == jobs.len();
    println!("{}: {} of {} jobs, {} configs ({} in the exact class, {} refused by the tool, {} skipped), {} circuit instances, {} states, {} transitions, {} messages ({} accepted, {} revealing), {} product searches capped, {:.1}s",
        check.id, ran, jobs.len(), tot.configs, tot.supported, tot.rejected, tot.skipped, tot.circuits, tot.states, tot.transitions, tot.messages, tot.accepting, tot.revealing, tot.capped, clk.secs());
    if std::env::var("ZKMC_SLOW").is_ok() { slow.sort_by(|a, b| b.0.total_cmp(&a.0)); for (t, i) in slow.iter().take(12) { eprintln!("  {t:.2}s {}", jobs[*i].key); } }
    if over.load(Ordering::SeqCst) { println!("time limit reached: {} of {} jobs done", ran, jobs.len()); }
    // samples spread over the run
    let step = (samples.len() / 8).max(1);
    let samp: Vec<serde_json::Value> = samples.iter().step_by(step).take(10).map(|(k, s)| serde_json::json!({"job": k, "case": s})).collect();
    let ev = serde_json::json!({
        "property": check.id, "tier": tier, "seed": std::env::var("VERIF_SEED").ok().and_then(|s| s.parse::<i64>().ok()).unwrap_or(1), "level": "model_checking",
        "coverage": {
            "states": tot.states, "transitions": tot.transitions, "traces_validated_against_impl": tot.messages.max(tot.validated), "samples": samp,
            "jobs": ran, "jobs_total": jobs.len(), "configurations": tot.configs, "configurations_in_exact_class": tot.supported, "configurations_refused_by_tool": tot.rejected, "configurations_skipped": tot.skipped,
            "circuit_instances": tot.circuits, "accepted_messages": tot.accepting, "revealing_messages": tot.revealing, "circuits_without_byte_reduction": tot.unreduced, "product_searches_capped": tot.capped,
            "exhaustive": complete && tot.capped == 0 && only.is_none(), "bounds": check.bounds,
            "known_findings": kf.iter().map(|k| k.what.clone()).collect::<Vec<_>>(),
        },
        "assumptions": check.assumptions, "wall_s": clk.secs(), "violations": viol.len(),
    });
    if only.is_none() {
        let d = verif().join("evidence");
        let _ = std::fs::create_dir_all(&d);
        if let Err(e) = std::fs::write(d.join(format!("{}.json", check.id)), serde_json::to_string_pretty(&ev).unwrap()) { eprintln!("error: evidence: {e}"); return 2; }
    }
    if viol.is_empty() { return 0; }
    let mut by: BTreeMap<Kind, usize> = BTreeMap::new();
    for (_, f) in &viol { *by.entry(f.kind).or_default() += 1; }
    println!("violations by kind: {by:?}");
    for (n, (i, f)) in viol.iter().take(std::env::var("ZKMC_MAXBAD").ok().and_then(|s| s.parse().ok()).unwrap_or(8)).enumerate() {
        let p = write_replay(&check.id, tier, n, &jobs[*i].key, &format!("{:?}", f.kind), &f.msg, &f.detail);
        println!("  {:?} in {}: message \"{}\": {}", f.kind, jobs[*i].key, util::bytes_show(&f.msg), f.detail);
        println!("VIOLATION property={} replay={}", check.id, p.display());
    }
    1
}

fn write_replay(id: &str, tier: &str, n: usize, job: &str, kind: &str, msg: &[u8], detail: &str) -> PathBuf {
    let d = verif().join("replays");
    let _ = std::fs::create_dir_all(&d);
    let p = d.join(format!("{id}-{n}.json"));
    let v = serde_json::json!({"property": id, "tier": tier, "job": job, "kind": kind, "message": util::bytes_show(msg), "message_bytes": msg, "detail": detail, "replay": format!("./run.sh replay {}", p.display())});
    let _ = std::fs::write(&p, serde_json::to_string_pretty(&v).unwrap());
    p
}
