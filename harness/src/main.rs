mod circom;
mod engine;
mod explore;
mod families;
mod checks;
mod report;
mod refm;
mod misc;
mod raw;
mod shipped;
mod js;
mod bt;
mod extract;
mod subject;
mod classes;
mod tables;
mod places;
mod util;
mod sched;
mod conc;

#[global_allocator]
static ALLOC: sched::Hooked = sched::Hooked;

fn main() {
    subject::install_hook();
    let a: Vec<String> = std::env::args().collect();
    let mut code = 0;
    match a[1].as_str() {
        "check" => {
            let tier = a.get(3).cloned().or_else(|| std::env::var("VERIF_TIER").ok()).unwrap_or_else(|| "quick".into());
            code = match checks::build(&a[2], tier == "thorough") { Some(c) => report::run(&c, &tier, None), None => { eprintln!("error: no check {}", a[2]); 2 } };
        }
        "replay" => {
            let v: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(&a[2]).expect("replay file")).expect("replay file");
            let (id, tier, key) = (v["property"].as_str().unwrap(), v["tier"].as_str().unwrap(), v["job"].as_str().unwrap());
            code = match checks::build(id, tier == "thorough") { Some(c) => report::run(&c, tier, Some(key)), None => 2 };
        }
        "two" => println!("{}", conc::two_main(&a[2])),
        "one" => println!("{}", misc::one(&a[2], a[3].parse().expect("number"))),
        // eval FILE TEMPLATE SIZE < [[element, ...], ...]: outputs of the template for each message, null where there is no witness
        "eval" => {
            let mut t = String::new();
            std::io::Read::read_to_string(&mut std::io::stdin(), &mut t).expect("messages");
            let msgs: Vec<Vec<i64>> = serde_json::from_str(&t).expect("messages");
            match shipped::outputs(std::path::Path::new(&a[2]), &a[3], a[4].parse().expect("size"), &msgs) { Ok(v) => println!("{}", serde_json::to_string(&v).unwrap()), Err(e) => { eprintln!("error: {e}"); code = 2 } }
        }
        _ => {}
    }
    subject::cleanup();
    std::process::exit(code);
}
