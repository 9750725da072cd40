//! Stateless exhaustive exploration: every leaf of the choice tree is executed exactly once.
use std::collections::HashSet;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::{Condvar, Mutex};
use std::time::{Duration, Instant};

/// Threads of the code under test run freely and in real time here: what was seen once and never again is not believed (but counted).
pub static FREE: AtomicBool = AtomicBool::new(false);
pub static UNCONFIRMED: AtomicU64 = AtomicU64::new(0);
/// Source of all nondeterminism of one execution.
pub struct Chooser {
    prefix: Vec<u16>,
    pub taken: Vec<(u16, u16)>,
}
impl Chooser {
    pub fn new(prefix: Vec<u16>) -> Self { Chooser { prefix, taken: Vec::new() } }
    /// Picks one of `n` alternatives (0..n).
    pub fn choose(&mut self, n: usize) -> usize {
        assert!(n > 0 && n < 65536, "HARNESS: bad arity {n}");
        if n == 1 { return 0; }
        let i = self.taken.len();
        let c = if i < self.prefix.len() { self.prefix[i] } else { 0 };
        assert!((c as usize) < n, "HARNESS: divergence while replaying a prefix (choice {c} of {n} at {i})");
        self.taken.push((c, n as u16));
        c as usize
    }
    pub fn flag(&mut self) -> bool { self.choose(2) == 1 }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T { let i = self.choose(xs.len()); &xs[i] }
    pub fn of<T: Clone>(&mut self, xs: &[T]) -> T { let i = self.choose(xs.len()); xs[i].clone() }
}

#[derive(Default, Clone, Debug)]
pub struct Leaf {
    /// hashes of the (observable) states visited
    pub states: Vec<u64>,
    /// transitions executed in the implementation
    pub transitions: u64,
    /// executions whose whole trace was compared with the reference
    pub compared: u64,
    /// not a case (e.g. duplicate of another leaf); not counted
    pub skipped: bool,
    pub desc: Option<String>,
    /// (stable key identifying the failing input, explanation)
    pub violation: Option<(String, String)>,
}
impl Leaf {
    pub fn skip() -> Leaf { Leaf { skipped: true, ..Default::default() } }
    pub fn ok(states: Vec<u64>, transitions: u64) -> Leaf { Leaf { states, transitions, compared: 1, ..Default::default() } }
    pub fn fail(key: impl Into<String>, why: impl Into<String>) -> Leaf { Leaf { compared: 1, violation: Some((key.into(), why.into())), ..Default::default() } }
}
pub fn h64<T: std::hash::Hash + ?Sized>(x: &T) -> u64 {
    use std::hash::Hasher;
    #[allow(deprecated)]
    let mut h = std::hash::SipHasher::new();
    x.hash(&mut h);
    h.finish()
}

pub struct Ctx { pub verbose: bool }
pub type LeafFn = dyn Fn(&mut Chooser, &Ctx) -> Leaf + Sync + Send;
pub struct Phase { pub name: String, pub bound: String, pub f: Box<LeafFn> }
pub fn phase(name: &str, bound: &str, f: impl Fn(&mut Chooser, &Ctx) -> Leaf + Sync + Send + 'static) -> Phase {
    Phase { name: name.into(), bound: bound.into(), f: Box::new(f) }
}

const SHARDS: usize = 256;
pub struct StateSet { shards: Vec<Mutex<HashSet<u64>>>, pub count: AtomicU64, cap: u64, pub full: AtomicBool }
impl StateSet {
    pub fn new(cap: u64) -> Self { StateSet { shards: (0..SHARDS).map(|_| Default::default()).collect(), count: 0.into(), cap, full: false.into() } }
    pub fn add(&self, h: u64) {
        if self.count.load(Relaxed) >= self.cap { self.full.store(true, Relaxed); return; }
        if self.shards[(h >> 56) as usize].lock().unwrap().insert(h) { self.count.fetch_add(1, Relaxed); }
    }
}

#[derive(Default)]
pub struct PhaseStats { pub name: String, pub bound: String, pub leaves: u64, pub skipped: u64, pub transitions: u64, pub compared: u64, pub complete: bool, pub wall: f64 }

pub struct Found { pub phase: String, pub choices: Vec<u16>, pub key: String, pub why: String }

pub struct Slot { pub start: AtomicU64, pub in_vm: AtomicBool }
/// What each worker is executing right now (shared memory, so that the parent can see it after a crash).
pub struct Journal { pub base: *mut u8 }
unsafe impl Sync for Journal {}
unsafe impl Send for Journal {}
pub const SLOT: usize = 4096;
impl Journal {
    fn write(&self, w: usize, phase: usize, choices: &[u16]) {
        if self.base.is_null() { return; }
        unsafe {
            let p = self.base.add(w * SLOT) as *mut u16;
            let n = choices.len().min(2000);
            std::ptr::write_volatile(p, 0);
            std::ptr::write_volatile(p.add(1), phase as u16);
            std::ptr::write_volatile(p.add(2), n as u16);
            for (i, c) in choices.iter().take(n).enumerate() { std::ptr::write_volatile(p.add(3 + i), *c); }
            std::ptr::write_volatile(p, 1);
        }
    }
    fn done(&self, w: usize) { if !self.base.is_null() { unsafe { std::ptr::write_volatile(self.base.add(w * SLOT) as *mut u16, 0) } } }
}

thread_local! { static WORKER: std::cell::Cell<usize> = const { std::cell::Cell::new(usize::MAX) }; }
pub static SLOTS: [Slot; 64] = [const { Slot { start: AtomicU64::new(0), in_vm: AtomicBool::new(false) } }; 64];
/// Marks the current worker as being inside code under test.
static EPOCH: std::sync::OnceLock<Instant> = std::sync::OnceLock::new();
/// The current worker makes progress within a long execution (e.g. begins another interleaving).
#[allow(dead_code)]
pub fn alive() { WORKER.with(|w| { let w = w.get(); if w < 64 && let Some(t) = EPOCH.get() { SLOTS[w].start.store(t.elapsed().as_millis() as u64 + 1, Relaxed) } }) }
pub fn in_vm(x: bool) { WORKER.with(|w| { let w = w.get(); if w < 64 { SLOTS[w].in_vm.store(x, Relaxed) } }) }

pub struct Engine {
    pub workers: usize,
    pub states: StateSet,
    pub journal: Journal,
    pub known: HashSet<String>,
    pub deadline: Option<Instant>,
    pub t0: Instant,
    pub leaf_limit: Duration,
    pub mem_limit: u64,
}

pub enum Abnormal { Hang { worker: usize, in_vm: bool }, Memory { worker: usize } }

struct Pool { global: Mutex<(Vec<Vec<u16>>, usize)>, cv: Condvar, idle: AtomicUsize, stop: AtomicBool }

pub static CURRENT: Mutex<Vec<(usize, Vec<u16>)>> = Mutex::new(Vec::new());

impl Engine {
    /// Runs one leaf; harness panics propagate.
    pub fn run_one(&self, ph: &Phase, choices: Vec<u16>, verbose: bool) -> (Leaf, Vec<(u16, u16)>) {
        let mut ch = Chooser::new(choices.clone());
        let leaf = match catch_unwind(AssertUnwindSafe(|| (ph.f)(&mut ch, &Ctx { verbose }))) {
            Ok(x) => x,
            Err(e) => {
                // a panic raised by code that is not the harness's own is the library's, and a verdict
                let m = panic_text(&*e);
                if !LAST_FOREIGN.with(|x| x.get()) || m.contains("HARNESS") { std::panic::resume_unwind(e) }
                SLOTS[WORKER.with(|x| x.get())].in_vm.store(false, Relaxed);
                let mut l = Leaf::fail(format!("panic: {m}"), format!("the library panicked: {m}"));
                l.desc = Some(format!("choices {:?}", ch.taken));
                l
            }
        };
        assert!(ch.taken.len() >= choices.len(), "HARNESS: divergence (leaf ended inside the replayed prefix)");
        (leaf, ch.taken)
    }

    pub fn explore(&self, idx: usize, ph: &Phase, samples: &Mutex<Vec<String>>, known_hits: &Mutex<Vec<Found>>, on_abnormal: &(dyn Fn(Abnormal) + Sync)) -> (PhaseStats, Option<Found>) {
        let t = Instant::now();
        let _ = EPOCH.set(self.t0);
        let pool = Pool { global: Mutex::new((vec![vec![]], 0)), cv: Condvar::new(), idle: 0.into(), stop: false.into() };
        let leaves = AtomicU64::new(0);
        let skipped = AtomicU64::new(0);
        let transitions = AtomicU64::new(0);
        let compared = AtomicU64::new(0);
        let timed_out = AtomicBool::new(false);
        let found: Mutex<Option<Found>> = Mutex::new(None);
        let failed: Mutex<Option<String>> = Mutex::new(None);
        let finished = AtomicBool::new(false);
        let n = self.workers;
        std::thread::scope(|sc| {
            let mut hs = vec![];
            for w in 0..n {
                let (pool, leaves, skipped, transitions, compared, timed_out, found, failed) = (&pool, &leaves, &skipped, &transitions, &compared, &timed_out, &found, &failed);
                hs.push(std::thread::Builder::new().stack_size(256 << 20).spawn_scoped(sc, move || {
                    WORKER.with(|x| x.set(w));
                    let mut local: Vec<Vec<u16>> = vec![];
                    loop {
                        if pool.stop.load(Relaxed) { break; }
                        let item = match local.pop() {
                            Some(x) => x,
                            None => {
                                let mut g = pool.global.lock().unwrap();
                                pool.idle.fetch_add(1, SeqCst);
                                let got = loop {
                                    if pool.stop.load(Relaxed) { break None; }
                                    if let Some(x) = g.0.pop() { break Some(x); }
                                    if pool.idle.load(SeqCst) == n { pool.stop.store(true, SeqCst); pool.cv.notify_all(); break None; }
                                    g = pool.cv.wait_timeout(g, Duration::from_millis(20)).unwrap().0;
                                };
                                match got { Some(x) => { pool.idle.fetch_sub(1, SeqCst); x } None => break }
                            }
                        };
                        if let Some(d) = self.deadline { if Instant::now() > d { timed_out.store(true, Relaxed); pool.stop.store(true, SeqCst); break; } }
                        self.journal.write(w, idx, &item);
                        SLOTS[w].start.store(self.t0.elapsed().as_millis() as u64 + 1, Relaxed);
                        let r = catch_unwind(AssertUnwindSafe(|| self.run_one(ph, item.clone(), false)));
                        SLOTS[w].start.store(0, Relaxed);
                        self.journal.done(w);
                        let (leaf, taken) = match r {
                            Ok(x) => x,
                            Err(e) => {
                                let m = panic_text(&*e);
                                *failed.lock().unwrap() = Some(format!("phase {} choices {:?}: {m}", ph.name, item));
                                pool.stop.store(true, SeqCst);
                                break;
                            }
                        };
                        for i in (item.len()..taken.len()).rev() {
                            let (c, ar) = taken[i];
                            for alt in (c + 1..ar).rev() {
                                let mut p: Vec<u16> = taken[..i].iter().map(|x| x.0).collect();
                                p.push(alt);
                                local.push(p);
                            }
                        }
                        if leaf.skipped { skipped.fetch_add(1, Relaxed); } else {
                            let k = leaves.fetch_add(1, Relaxed);
                            transitions.fetch_add(leaf.transitions, Relaxed);
                            compared.fetch_add(leaf.compared, Relaxed);
                            for h in &leaf.states { self.states.add(*h); }
                            if k == 3 || k == 300 || k == 30000 {
                                let (l2, _) = self.run_one(ph, taken.iter().map(|x| x.0).collect(), true);
                                if let Some(d) = l2.desc { samples.lock().unwrap().push(format!("[{}] {}", ph.name, d)); }
                            }
                        }
                        if let Some((key, why)) = leaf.violation {
                            let choices: Vec<u16> = taken.iter().map(|x| x.0).collect();
                            // replay before believing it
                            let mut again = self.run_one(ph, choices.clone(), true).0;
                            // (where threads of the code under test are free to run, it may take some attempts)
                            for _ in 0..8 { if again.violation.as_ref().is_some_and(|(k2, _)| *k2 == key) { break; } again = self.run_one(ph, choices.clone(), true).0; }
                            match again.violation {
                                Some((k2, _)) if k2 == key => {}
                                _ if FREE.load(Relaxed) => { UNCONFIRMED.fetch_add(1, Relaxed); eprintln!("not seen again in 9 executions, not believed: {key}: {why}"); continue; }
                                x => { *failed.lock().unwrap() = Some(format!("HARNESS: violation did not replay identically: {key} / {why} / {x:?}")); pool.stop.store(true, SeqCst); break; }
                            }
                            let desc = again.desc.unwrap_or_default();
                            let f = Found { phase: ph.name.clone(), choices, key: key.clone(), why: format!("{why}\n{desc}") };
                            if self.known.contains(&key) {
                                known_hits.lock().unwrap().push(f);
                            } else {
                                let mut g = found.lock().unwrap();
                                if g.as_ref().is_none_or(|o| f.choices.len() < o.choices.len()) { *g = Some(f); }
                                pool.stop.store(true, SeqCst);
                                break;
                            }
                        }
                        // share work with idle workers
                        if local.len() > 1 && pool.idle.load(Relaxed) > 0 {
                            let mut g = pool.global.lock().unwrap();
                            let k = local.len() / 2;
                            g.0.extend(local.drain(..k));
                            pool.cv.notify_all();
                        }
                    }
                }).unwrap());
            }
            // watchdog
            let fin = &finished;
            sc.spawn(move || {
                let mut tick = 0u64;
                while !fin.load(Relaxed) {
                    std::thread::sleep(Duration::from_millis(25));
                    tick += 1;
                    if tick % 8 != 0 { continue; }
                    let now = self.t0.elapsed().as_millis() as u64;
                    let mut oldest = (u64::MAX, 0);
                    for w in 0..n {
                        let s = SLOTS[w].start.load(Relaxed);
                        if s == 0 { continue; }
                        if s < oldest.0 { oldest = (s, w); }
                        if now.saturating_sub(s) > self.leaf_limit.as_millis() as u64 {
                            on_abnormal(Abnormal::Hang { worker: w, in_vm: SLOTS[w].in_vm.load(Relaxed) });
                        }
                    }
                    if rss() > self.mem_limit { on_abnormal(Abnormal::Memory { worker: oldest.1 }); }
                }
            });
            for h in hs { h.join().unwrap(); }
            finished.store(true, Relaxed);
        });
        if let Some(e) = failed.into_inner().unwrap() {
            eprintln!("ENGINE ERROR: {e}");
            std::process::exit(2);
        }
        let complete = !timed_out.load(Relaxed) && found.lock().unwrap().is_none();
        (PhaseStats { name: ph.name.clone(), bound: ph.bound.clone(), leaves: leaves.into_inner(), skipped: skipped.into_inner(), transitions: transitions.into_inner(), compared: compared.into_inner(), complete, wall: t.elapsed().as_secs_f64() }, found.into_inner().unwrap())
    }
}

pub fn rss() -> u64 {
    let s = std::fs::read_to_string("/proc/self/statm").unwrap_or_default();
    s.split_whitespace().nth(1).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0) * 4096
}
thread_local! { static LAST_FOREIGN: std::cell::Cell<bool> = const { std::cell::Cell::new(false) }; }
thread_local! { static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) }; }
/// Panics of the code under test are events: nothing is printed, but the place is remembered.
pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|i| {
        let m = if let Some(s) = i.payload().downcast_ref::<&str>() { s.to_string() } else if let Some(s) = i.payload().downcast_ref::<String>() { s.clone() } else { "panic".into() };
        let l = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let foreign = i.location().is_some_and(|l| l.file().starts_with('/'));
        let _ = LAST_FOREIGN.try_with(|x| x.set(foreign));
        let _ = LAST_PANIC.try_with(|p| *p.borrow_mut() = format!("{m} ({l})"));
    }));
}
pub fn panic_text(_: &(dyn std::any::Any + Send)) -> String { LAST_PANIC.with(|p| p.borrow().clone()) }
