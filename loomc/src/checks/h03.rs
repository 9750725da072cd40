//! H03: asynchronous keys.
use super::common::*;
use std::sync::atomic::{AtomicU64, Ordering};
use netsblox_vm::runtime::{AsyncResult, Key};
use std::panic::{catch_unwind, AssertUnwindSafe};
use underloom::std_util::AsyncKey;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Op { Poll, Complete }
const OPS: [Op; 2] = [Op::Poll, Op::Complete];
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Res { Pending, Got(u32), Consumed, Done(u32), Refused }
fn poll(k: &AsyncKey<u32>) -> Res { match k.poll() { AsyncResult::Pending => Res::Pending, AsyncResult::Completed(x) => Res::Got(x), AsyncResult::Consumed => Res::Consumed } }
fn complete(k: &AsyncKey<u32>, v: u32) -> Res { match catch_unwind(AssertUnwindSafe(|| k.clone().complete(v))) { Ok(()) => Res::Done(v), Err(_) => Res::Refused } }
#[derive(Clone, Copy, PartialEq, Debug)]
enum M { Pending, Ready(u32), Gone }
fn apply(m: &M, r: &Res) -> Option<M> {
    match (m, r) {
        (M::Pending, Res::Pending) => Some(M::Pending),
        (M::Ready(x), Res::Got(y)) if x == y => Some(M::Gone),
        (M::Gone, Res::Consumed) => Some(M::Gone),
        (M::Pending, Res::Done(x)) => Some(M::Ready(*x)),
        (M::Ready(_) | M::Gone, Res::Refused) => Some(*m),
        _ => None,
    }
}
fn threads(ch: &mut Chooser, n: usize, max: usize) -> Leaf {
    let Some(progs) = programs(ch, n, 1, max, 2) else { return Leaf::skip() };
    let extra = ch.flag(); // the creating thread polls too, after starting the others
    let p = progs.clone();
    let (runs, states, bad) = explore(move || {
        let key: AsyncKey<u32> = AsyncKey::new();
        // (not loom's: taking the time is no scheduling point)
        let clock = std::sync::Arc::new(AtomicU64::new(1));
        let hs: Vec<_> = p.iter().enumerate().map(|(i, ops)| {
            let (key, clock, ops) = (key.clone(), clock.clone(), ops.clone());
            loom::thread::spawn(move || {
                let mut t = clock.fetch_add(1, Ordering::SeqCst);
                ops.iter().enumerate().map(|(j, o)| {
                    let op = match OPS[*o] { Op::Poll => poll(&key), Op::Complete => complete(&key, (i * 10 + j) as u32) };
                    let lo = t;
                    t = clock.fetch_add(1, Ordering::SeqCst);
                    Step { lo, hi: t, op }
                }).collect::<Vec<_>>()
            })
        }).collect();
        let mut steps = vec![];
        if extra { let lo = clock.fetch_add(1, Ordering::SeqCst); let op = poll(&key); steps.push(Step { lo, hi: clock.fetch_add(1, Ordering::SeqCst), op }); }
        for h in hs { steps.extend(h.join().unwrap()); }
        // what is left afterwards
        for _ in 0..2 { let lo = clock.fetch_add(1, Ordering::SeqCst); let op = poll(&key); steps.push(Step { lo, hi: clock.fetch_add(1, Ordering::SeqCst), op }); }
        steps
    }, |steps| if linear(&steps, &M::Pending, &apply) { Ok(h64(&steps.iter().map(|x| x.op).collect::<Vec<_>>())) } else { Err(format!("no order of the polls and completions explains their results: {steps:?}")) });
    let prog = format!("{:?}{}", progs.iter().map(|p| p.iter().map(|o| OPS[*o]).collect::<Vec<_>>()).collect::<Vec<_>>(), if extra { " and a poll" } else { "" });
    match bad { Some(w) => Leaf::fail(prog.clone(), format!("program {prog}: {w}")), None => Leaf::ok(states.iter().map(|s| h64(&(s, &prog))).collect(), runs) }
}
/// one thread: the key and the bare result, every history
fn alone(ch: &mut Chooser, len_: usize) -> Leaf {
    let ops: Vec<Op> = (0..len_).map(|_| ch.of(&OPS)).collect();
    let o = ops.clone();
    let (_, _, bad) = explore(move || {
        let key: AsyncKey<u32> = AsyncKey::new();
        let mut bare: AsyncResult<u32> = AsyncResult::new();
        let other = key.clone();
        let mut m = M::Pending;
        for (i, op) in o.iter().enumerate() {
            let (a, b) = match op {
                Op::Poll => (poll(if i % 2 == 0 { &key } else { &other }), match bare.poll() { AsyncResult::Pending => Res::Pending, AsyncResult::Completed(x) => Res::Got(x), AsyncResult::Consumed => Res::Consumed }),
                Op::Complete => (complete(if i % 3 == 0 { &key } else { &other }, i as u32), match bare.complete(i as u32) { Ok(()) => Res::Done(i as u32), Err(x) if x == i as u32 => Res::Refused, Err(x) => return Err(format!("a refused value {i} comes back as {x}")) }),
            };
            for (r, what) in [(a, "key"), (b, "result")] { match apply(&m, &r) { None => return Err(format!("operation {i} ({op:?}) on the {what} gives {r:?} in state {m:?}")), Some(_) if a != b => return Err(format!("key and result differ: {a:?} {b:?}")), Some(x) => if what == "result" { m = x } } }
        }
        Ok(())
    }, |r| r.map(|_| 0));
    match bad { Some(w) => Leaf::fail(format!("{ops:?}"), format!("{ops:?}: {w}")), None => Leaf::ok(vec![h64(&format!("{ops:?}"))], ops.len() as u64) }
}
pub fn check(quick: bool) -> Check {
    let q = quick;
    Check::new("H03", "executions: programs; transitions: complete interleavings explored by loom (every one of them judged against a sequential model)", vec![
        phase("one thread", "every history of ten (thorough sixteen) polls and completions", move |ch, _| alone(ch, if q { 10 } else { 16 })),
        phase("two threads", "every two sequences of up to three (thorough four) polls and completions, with and without the creating thread polling", move |ch, _| threads(ch, 2, if q { 3 } else { 4 })),
        phase("three threads", "every three sequences of up to one (thorough two)", move |ch, _| threads(ch, 3, if q { 1 } else { 2 })),
    ]).assume("std_util.rs is compiled unchanged against loom's Mutex (see underloom/); loom explores every interleaving at synchronisation operations, without a preemption bound")
}
