//! A controlled scheduler and fault injector for the code under test.
//! The allocator and the file calls of this process (open, read, write, mkdir, rename, unlink, close) pass through here; a thread
//! under control stops at each of them, hands the processor to the other thread, or gets an error instead of the call.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::ffi::{c_char, c_int, c_long, c_void};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Op { Open, Read, Write, Close, Mkdir, Rename, Unlink }
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Fault { Errno(c_int), Short(usize), Full }

#[derive(Clone, Copy)]
enum Mode { Off, Log(*const Log), Inject(*const Inject), Sched(*const Sched, usize) }
struct Log { ops: Mutex<Vec<Op>> }
struct Inject { count: AtomicUsize, at: usize, fault: Fault, full: AtomicBool, hit: AtomicBool }
thread_local! {
    static MODE: Cell<Mode> = const { Cell::new(Mode::Off) };
    static POINTS: Cell<Points> = const { Cell::new([0; 3]) };
    /// basic blocks of the code under test that still are points
    static WINDOW: Cell<usize> = const { Cell::new(0) };
}
/// points of a thread: all but those of kind Mem; file calls; shared memory
pub type Points = [usize; 3];
#[derive(Clone, Copy, Debug, PartialEq, Eq, serde::Serialize, serde::Deserialize)]
pub enum At { Any, File, Mem }
pub type Switches = [Vec<(At, usize)>; 2];

// ------------------------------------------------------------------ the calls
pub struct Hooked;
unsafe impl GlobalAlloc for Hooked {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { point(At::Any); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l) }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 { point(At::Any); System.realloc(p, l, n) }
}
extern "C" { fn syscall(n: c_long, ...) -> c_long; fn __errno_location() -> *mut c_int; }
/// Some(result): what the caller gets instead of the call; Err(n): only n bytes of it
fn io(op: Op) -> Result<Option<c_int>, usize> {
    let Ok(m) = MODE.try_with(|m| m.get()) else { return Ok(None) };
    match m {
        Mode::Off => Ok(None),
        // SAFETY: the pointers outlive the run they are set for
        Mode::Log(l) => unsafe { MODE.with(|m| m.set(Mode::Off)); (*l).ops.lock().unwrap().push(op); MODE.with(|x| x.set(m)); Ok(None) },
        Mode::Inject(i) => unsafe {
            let i = &*i;
            let k = i.count.fetch_add(1, Ordering::SeqCst);
            if i.full.load(Ordering::SeqCst) && op == Op::Write { return Ok(Some(28)); }
            if k != i.at { return Ok(None); }
            i.hit.store(true, Ordering::SeqCst);
            match i.fault { Fault::Errno(e) => Ok(Some(e)), Fault::Short(n) => Err(n), Fault::Full => { i.full.store(true, Ordering::SeqCst); Ok(if op == Op::Write { Some(28) } else { None }) } }
        },
        Mode::Sched(..) => { point(At::File); Ok(None) }
    }
}
unsafe fn fail(e: c_int) -> c_long { *__errno_location() = e; -1 }
unsafe fn call(op: Op, n: c_long, a: c_long, b: c_long, c: c_long, d: c_long) -> c_long {
    match io(op) { Ok(None) => syscall(n, a, b, c, d), Ok(Some(e)) => fail(e), Err(k) => syscall(n, a, b, c.min(k as c_long), d) }
}
#[no_mangle] unsafe extern "C" fn write(fd: c_int, p: *const c_void, n: usize) -> isize { call(Op::Write, 1, fd as c_long, p as c_long, n as c_long, 0) as isize }
#[no_mangle] unsafe extern "C" fn read(fd: c_int, p: *mut c_void, n: usize) -> isize { call(Op::Read, 0, fd as c_long, p as c_long, n as c_long, 0) as isize }
#[no_mangle] unsafe extern "C" fn open64(p: *const c_char, flags: c_int, mode: c_int) -> c_int { call(Op::Open, 257, -100, p as c_long, flags as c_long, mode as c_long) as c_int }
#[no_mangle] unsafe extern "C" fn mkdir(p: *const c_char, mode: c_int) -> c_int { call(Op::Mkdir, 83, p as c_long, mode as c_long, 0, 0) as c_int }
#[no_mangle] unsafe extern "C" fn rename(a: *const c_char, b: *const c_char) -> c_int { call(Op::Rename, 82, a as c_long, b as c_long, 0, 0) as c_int }
#[no_mangle] unsafe extern "C" fn unlink(p: *const c_char) -> c_int { call(Op::Unlink, 87, p as c_long, 0, 0, 0) as c_int }
#[no_mangle] unsafe extern "C" fn close(fd: c_int) -> c_int { let _ = if let Ok(Mode::Sched(..)) = MODE.try_with(|m| m.get()) { io(Op::Close) } else { Ok(None) }; syscall(3, fd as c_long) as c_int }

// ------------------------------------------------------------------ faults
/// the file calls a run makes
pub fn trace<T>(f: impl FnOnce() -> T) -> (T, Vec<Op>) {
    let l = Log { ops: Mutex::new(Vec::with_capacity(4096)) };
    MODE.with(|m| m.set(Mode::Log(&l)));
    let r = f();
    MODE.with(|m| m.set(Mode::Off));
    (r, l.ops.into_inner().unwrap())
}
/// a run whose `at`-th file call fails; and whether it came to that
pub fn inject<T>(at: usize, fault: Fault, f: impl FnOnce() -> T) -> (T, bool) {
    let i = Inject { count: AtomicUsize::new(0), at, fault, full: AtomicBool::new(false), hit: AtomicBool::new(false) };
    MODE.with(|m| m.set(Mode::Inject(&i)));
    let r = f();
    MODE.with(|m| m.set(Mode::Off));
    (r, i.hit.load(Ordering::SeqCst))
}

// ------------------------------------------------------------------ schedules
struct Sched { turn: Mutex<usize>, cv: Condvar, done: [AtomicBool; 2], progress: [AtomicUsize; 2], tid: [AtomicUsize; 2], here: [AtomicBool; 2], switches: Switches }
fn point(at: At) {
    let Ok(Mode::Sched(s, me)) = MODE.try_with(|m| m.get()) else { return };
    // SAFETY: both threads are joined before the scheduler goes
    let s = unsafe { &*s };
    let n = POINTS.with(|p| { let mut n = p.get(); match at { At::Any => n[0] += 1, At::File => { n[0] += 1; n[1] += 1 } At::Mem => n[2] += 1 } p.set(n); n });
    s.progress[me].fetch_add(1, Ordering::SeqCst);
    if s.switches[me].iter().any(|(f, k)| match f { At::Any => at != At::Mem && *k + 1 == n[0], At::File => at == At::File && *k + 1 == n[1], At::Mem => at == At::Mem && *k + 1 == n[2] }) && !s.done[1 - me].load(Ordering::SeqCst) {
        s.give(1 - me);
        s.wait(me);
    }
}
impl Sched {
    /// whether a thread of ours waits for something
    fn sleeps(&self, who: usize) -> bool {
        if self.here[who].load(Ordering::SeqCst) { return false; }
        let m = MODE.with(|m| m.replace(Mode::Off));
        let r = std::fs::read_to_string(format!("/proc/self/task/{}/stat", self.tid[who].load(Ordering::SeqCst))).map(|t| t.rsplit(") ").next().map(|x| x.starts_with('S')).unwrap_or(false)).unwrap_or(false);
        MODE.with(|x| x.set(m));
        r
    }
    fn give(&self, to: usize) { *self.turn.lock().unwrap() = to; self.cv.notify_all(); }
    /// until it is our turn, or the other thread is blocked by something we hold
    fn wait(&self, me: usize) {
        self.here[me].store(true, Ordering::SeqCst);
        self.wait0(me);
        self.here[me].store(false, Ordering::SeqCst);
    }
    fn wait0(&self, me: usize) {
        let mut g = self.turn.lock().unwrap();
        let mut last = (self.progress[1 - me].load(Ordering::SeqCst), Instant::now());
        while *g != me {
            if self.done[1 - me].load(Ordering::SeqCst) { *g = me; return; }
            let p = self.progress[1 - me].load(Ordering::SeqCst);
            if p != last.0 { last = (p, Instant::now()); }
            else if last.1.elapsed() > Duration::from_millis(30) || last.1.elapsed() > Duration::from_micros(300) && self.sleeps(1 - me) { *g = me; return; }
            g = self.cv.wait_timeout(g, Duration::from_micros(200)).unwrap().0;
        }
    }
}
/// Runs two bodies under control: the first one begins, and each gives way to the other at the given points
/// (true: counted in file calls; false: counted in all points).  Returns their results and points.
pub fn run2<A: Send + 'static, B: Send + 'static>(a: impl FnOnce() -> A + Send + 'static, b: impl FnOnce() -> B + Send + 'static, switches: Switches) -> (A, B, [Points; 2]) {
    let s = Arc::new(Sched { turn: Mutex::new(0), cv: Condvar::new(), done: [AtomicBool::new(false), AtomicBool::new(false)], progress: [AtomicUsize::new(0), AtomicUsize::new(0)], tid: [AtomicUsize::new(0), AtomicUsize::new(0)], here: [AtomicBool::new(true), AtomicBool::new(true)], switches });
    fn body<T>(s: &Sched, me: usize, f: impl FnOnce() -> T) -> (T, Points) {
        // SAFETY: gettid
        s.tid[me].store(unsafe { syscall(186) } as usize, Ordering::SeqCst);
        s.wait(me);
        POINTS.with(|p| p.set([0; 3]));
        WINDOW.with(|w| w.set(0));
        MODE.with(|m| m.set(Mode::Sched(s, me)));
        let r = f();
        MODE.with(|m| m.set(Mode::Off));
        s.done[me].store(true, Ordering::SeqCst);
        s.give(1 - me);
        (r, POINTS.with(|p| p.get()))
    }
    let (s1, s2) = (s.clone(), s.clone());
    let t1 = std::thread::spawn(move || body(&s1, 0, a));
    let t2 = std::thread::spawn(move || body(&s2, 1, b));
    let (r1, r2) = (t1.join().expect("thread"), t2.join().expect("thread"));
    (r1.0, r2.0, [r1.1, r2.1])
}

// ------------------------------------------------------------------ the instrumented build
// run.sh builds C23 with rustc told (sancov.sh) to report every load, store and basic block of the crates under test. An access to
// memory that all threads share (a static) is a point, and so are the blocks that follow it.
extern "C" { static __data_start: u8; static _end: u8; }
const BLOCKS: usize = 60;
#[inline(always)]
fn access(p: *const u8) {
    // SAFETY: only the addresses are taken
    let (lo, hi) = unsafe { (&__data_start as *const u8, &_end as *const u8) };
    if p >= lo && p < hi { if let Ok(Mode::Sched(..)) = MODE.try_with(|m| m.get()) { point(At::Mem); WINDOW.with(|w| w.set(BLOCKS)); } }
}
macro_rules! hooks { ($($n:ident)*) => { $(#[no_mangle] extern "C" fn $n(p: *const u8) { access(p) })* } }
hooks! { __sanitizer_cov_load1 __sanitizer_cov_load2 __sanitizer_cov_load4 __sanitizer_cov_load8 __sanitizer_cov_load16 __sanitizer_cov_store1 __sanitizer_cov_store2 __sanitizer_cov_store4 __sanitizer_cov_store8 __sanitizer_cov_store16 }
#[no_mangle] extern "C" fn __sanitizer_cov_trace_pc_guard_init(a: *mut u32, b: *mut u32) {
    // SAFETY: the range of guards the compiler made; a guard of 0 would not be reported
    unsafe { let mut p = a; while p < b { *p = 1; p = p.add(1); } }
    GUARDS.store(true, Ordering::SeqCst);
}
static GUARDS: AtomicBool = AtomicBool::new(false);
/// built with instrumentation
pub fn instrumented() -> bool { GUARDS.load(Ordering::SeqCst) }
#[no_mangle] extern "C" fn __sanitizer_cov_trace_pc_guard(_g: *mut u32) {
    let Ok(k) = WINDOW.try_with(|w| { let k = w.get(); if k > 0 { w.set(k - 1); } k }) else { return };
    if k > 0 { point(At::Mem); }
}
