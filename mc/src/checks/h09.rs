//! H09: the idle action.
use super::common::*;
use crate::sys::{MC, MSys};
use netsblox_vm::project::{IdleAction, ProjectStep};
use std::cell::Cell;

const KINDS: usize = 7;
fn kind(x: &ProjectStep<'_, MC, MSys>) -> usize {
    match x { ProjectStep::Idle => 0, ProjectStep::Yield => 1, ProjectStep::Pause => 2, ProjectStep::Normal => 3, ProjectStep::ProcessTerminated { .. } => 4, ProjectStep::Error { .. } => 5, ProjectStep::Watcher { .. } => 6 }
}
/// a project that goes through every kind of step
fn role() -> ast::Role {
    prog(nums(&["x"]), vec![], vec![
        on_flag(vec![s(StmtKind::Pause), s(StmtKind::ShowVar { var: vref("x") }), repeat(n(2.0), vec![set("x", n(1.0))])]),
        on_flag(vec![throw(t("e"))]),
    ])
}
/// the counter after each event: up on idle steps, back to zero on others, on firing and on a trigger
struct Model { count: usize, fired: usize }
fn feed(ch: &mut Chooser, thresh: usize, len_: usize) -> Leaf {
    // (each event is one of the seven kinds of step, or an explicit trigger)
    let first = [ch.choose(KINDS + 1), ch.choose(KINDS + 1)];
    crate::vm::with_steps(&role(), &Rc::new(Scn::default()), 60, |_, steps| {
        let samples: Vec<&ProjectStep<'_, MC, MSys>> = (0..KINDS).map(|k| steps.iter().find(|x| kind(x) == k).unwrap_or_else(|| panic!("HARNESS: no step of kind {k} among {:?}", steps.iter().map(kind).collect::<Vec<_>>()))).collect();
        let fired = Rc::new(Cell::new(0));
        let mut l = Leaf::ok(vec![], 0);
        let mut path = vec![0; len_];
        // every sequence of the length, each from a fresh action
        for mut code in 0..(KINDS as u64 + 1).pow(len_ as u32 - 2) {
            path[..2].copy_from_slice(&first);
            for p in path[2..].iter_mut() { *p = (code % (KINDS as u64 + 1)) as usize; code /= KINDS as u64 + 1; }
            fired.set(0);
            let f = fired.clone();
            let mut a = IdleAction::new(thresh, Box::new(move || f.set(f.get() + 1)));
            let mut m = Model { count: 0, fired: 0 };
            for (i, k) in path.iter().enumerate() {
                match *k {
                    KINDS => { a.trigger(); m = Model { count: 0, fired: m.fired + 1 }; }
                    k => {
                        a.consume(samples[k]);
                        if k <= 2 { m.count += 1; if m.count >= thresh { m = Model { count: 0, fired: m.fired + 1 }; } } else { m.count = 0; }
                    }
                }
                if fired.get() != m.fired { return Leaf::fail(format!("{thresh} {:?}", &path[..=i]), format!("threshold {thresh}: after {:?} (0 idle, 1 yield, 2 pause, 3 normal, 4 terminated, 5 error, 6 watcher, 7 trigger) the action was performed {} times, not {}", &path[..=i], fired.get(), m.fired)); }
            }
            l.transitions += len_ as u64;
        }
        l.states.push(h64(&(thresh, first)));
        l
    })
}
/// long runs: fires after each full run, and only then
fn runs(ch: &mut Chooser) -> Leaf {
    let thresh = [1usize, 2, 3, 7, 63, 64, 65, 255, 256, 257, 1000][ch.choose(11)];
    let (a, b) = (ch.choose(KINDS), ch.choose(KINDS));
    let before = ch.of(&[0usize, 1, 2]);
    crate::vm::with_steps(&role(), &Rc::new(Scn::default()), 60, |_, steps| {
        let get = |k| steps.iter().find(|x| kind(x) == k).unwrap();
        let fired = Rc::new(Cell::new(0));
        let f = fired.clone();
        let mut act = IdleAction::new(thresh, Box::new(move || f.set(f.get() + 1)));
        let mut m = Model { count: 0, fired: 0 };
        // runs one shorter, exactly as long, and longer than the threshold, with an interruption between
        for (i, n) in [thresh.saturating_sub(1), thresh, thresh + 1, 2 * thresh + before, thresh - 1].into_iter().enumerate() {
            for j in 0..=n {
                let k = if j == n { b } else if (i + j) % 2 == 0 { a } else { before };
                act.consume(get(k));
                if k <= 2 { m.count += 1; if m.count >= thresh { m = Model { count: 0, fired: m.fired + 1 }; } } else { m.count = 0; }
                if fired.get() != m.fired { return Leaf::fail(format!("{thresh} {a} {b} {before} {i} {j}"), format!("threshold {thresh}, runs of kinds {a}/{before} ended by {b}: performed {} times, not {}", fired.get(), m.fired)); }
            }
        }
        Leaf::ok(vec![h64(&(thresh, a, b, before))], 6 * thresh as u64)
    })
}
pub fn check(quick: bool) -> Check {
    let n = if quick { 6 } else { 8 };
    let mut ps = vec![];
    for (th, name) in ["0", "1", "2", "3", "4", "5", "6", "7"].iter().enumerate() {
        ps.push(phase(format!("threshold {name}").leak(), format!("every sequence of {n} events out of eight (seven kinds of step taken from a running project, and an explicit trigger)").leak(), move |ch, _| feed(ch, th, n)));
    }
    ps.push(phase("runs", "runs around eleven thresholds up to 1000, of two kinds of step, ended by each kind", |ch, _| runs(ch)));
    Check::new("H09", "the number of times the action was performed compared with a counter after every event", ps)
}
