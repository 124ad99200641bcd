use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::Instant;

pub fn threads() -> usize { std::env::var("ZKMC_THREADS").ok().and_then(|s| s.parse().ok()).unwrap_or_else(|| std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4)) }

/// run `f` on every item with all cores; results in item order.  Stops handing out items once `stop` is set.
pub fn par_map<T: Sync, U: Send>(items: &[T], stop: &AtomicBool, f: impl Fn(usize, &T) -> U + Sync) -> Vec<Option<U>> {
    let next = AtomicUsize::new(0);
    let res: Mutex<Vec<Option<U>>> = Mutex::new((0..items.len()).map(|_| None).collect());
    std::thread::scope(|s| {
        for _ in 0..threads().min(items.len().max(1)) {
            let (next, res, f) = (&next, &res, &f);
            std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(s, move || loop {
                if stop.load(Ordering::Relaxed) { break; }
                let i = next.fetch_add(1, Ordering::SeqCst);
                if i >= items.len() { break; }
                let u = f(i, &items[i]);
                res.lock().unwrap()[i] = Some(u);
            }).expect("spawn");
        }
    });
    res.into_inner().unwrap()
}

pub struct Clock { t: Instant, pub budget: f64 }
impl Clock {
    pub fn new(budget: f64) -> Clock { Clock { t: Instant::now(), budget } }
    pub fn secs(&self) -> f64 { self.t.elapsed().as_secs_f64() }
    pub fn over(&self) -> bool { self.secs() > self.budget }
}

pub fn bytes_show(m: &[u8]) -> String {
    let mut s = String::new();
    for b in m { match *b { b'\n' => s.push_str("\\n"), b'\r' => s.push_str("\\r"), b'\t' => s.push_str("\\t"), b'\\' => s.push_str("\\\\"), 32..=126 => s.push(*b as char), x => s.push_str(&format!("\\x{x:02x}")) } }
    s
}
