//! Running a concurrent program under loom, and judging its history.
pub use crate::dfs::*;
pub use crate::report::Check;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Arc as StdArc;
use std::sync::Mutex as StdMutex;

/// The threads' operation sequences of up to `max` operations each, as indices into an alphabet of `n`; symmetric orders of the threads only once.
pub fn programs(ch: &mut Chooser, threads: usize, min: usize, max: usize, n: usize) -> Option<Vec<Vec<usize>>> {
    let mut o: Vec<Vec<usize>> = vec![];
    for _ in 0..threads { let k = min + ch.choose(max - min + 1); o.push((0..k).map(|_| ch.choose(n)).collect()); }
    if o.windows(2).any(|w| (w[0].len(), &w[0]) > (w[1].len(), &w[1])) { return None; }
    Some(o)
}
/// Explores every interleaving of `f`; returns how many there were, or the first failure.
pub fn explore<R: Send + 'static>(f: impl Fn() -> R + Sync + Send + 'static, judge: impl Fn(R) -> Result<u64, String> + Sync + Send + 'static) -> (u64, Vec<u64>, Option<String>) {
    let out: StdArc<StdMutex<(u64, std::collections::HashSet<u64>, Option<String>)>> = Default::default();
    let o = out.clone();
    in_vm(true);
    let r = catch_unwind(AssertUnwindSafe(|| {
        let mut b = loom::model::Builder::new();
        b.max_branches = 100_000;
        b.preemption_bound = None;
        b.max_permutations = None;
        b.max_duration = None;
        b.check(move || {
            { let g = o.lock().unwrap_or_else(|e| e.into_inner()); if g.2.is_some() { drop(g); panic!("stop") } }
            alive();
            let r = f();
            let mut g = o.lock().unwrap_or_else(|e| e.into_inner());
            g.0 += 1;
            match judge(r) { Ok(h) => { g.1.insert(h); } Err(e) => { g.2 = Some(e); drop(g); panic!("stop") } }
        });
    }));
    in_vm(false);
    let g = out.lock().unwrap_or_else(|e| e.into_inner());
    let bad = match (&g.2, r) { (Some(e), _) => Some(e.clone()), (None, Err(e)) => Some(format!("an interleaving fails: {}", panic_text(&*e))), _ => None };
    (g.0, g.1.iter().copied().collect(), bad)
}

/// One atomic step an operation takes somewhere between two points of time.
#[derive(Clone, Debug)]
pub struct Step<O> { pub lo: u64, pub hi: u64, pub op: O }
/// Is there an order of the steps, compatible with their times, in which each is possible from the state before?
pub fn linear<O: Clone, S: Clone>(steps: &[Step<O>], s: &S, apply: &dyn Fn(&S, &O) -> Option<S>) -> bool {
    if steps.is_empty() { return true; }
    // a step may come first if no other one has to be over before it begins
    let first = steps.iter().map(|x| x.hi).min().unwrap();
    (0..steps.len()).any(|i| steps[i].lo < first && apply(s, &steps[i].op).is_some_and(|t| { let mut rest = steps.to_vec(); rest.remove(i); linear(&rest, &t, apply) }))
}
