//! H04: the cached clock. The wall clock is a counter that also stamps the beginning and end of every operation.
use super::common::*;
use netsblox_vm::runtime::Precision;
use underloom::real_time::{backward, forget, reset, stamp, OffsetDateTime, UtcOffset};
use underloom::std_util::Clock;

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op { Read(Precision), Update }
const OPS: [Op; 4] = [Op::Read(Precision::Low), Op::Read(Precision::Medium), Op::Read(Precision::High), Op::Update];
const CACHES: [Option<Precision>; 4] = [None, Some(Precision::Low), Some(Precision::Medium), Some(Precision::High)];
/// how exact a precision is, independently of the order the type defines
fn rank(p: Precision) -> u8 { match p { Precision::Low => 0, Precision::Medium => 1, Precision::High => 2 } }
#[derive(Clone, Debug)]
struct Done { lo: u64, hi: u64, op: Op, at: OffsetDateTime }
fn perform(c: &Clock, op: Op, t: &mut u64) -> Done {
    let lo = *t;
    let at = match op { Op::Read(p) => c.read(p), Op::Update => c.update() };
    *t = stamp();
    Done { lo, hi: *t, op, at }
}
#[derive(Clone, Debug)]
enum S { Store(u64), Load(u64) }
fn judge(done: &[Done], born: Option<(u64, u64)>, cache: Option<Precision>, offset: UtcOffset, alone: bool) -> Result<u64, String> {
    let mut steps = vec![];
    for d in done {
        if d.at.offset != offset { return Err(format!("{d:?} is not in the time zone of the clock")); }
        let cached = match (d.op, cache) { (Op::Read(p), Some(c)) => rank(p) <= rank(c), _ => false };
        if cached && alone && d.hi != d.lo + 1 { return Err(format!("{d:?} reads the wall clock although a cached time will do")); }
        if cached { steps.push(Step { lo: d.lo, hi: d.hi, op: S::Load(d.at.at) }); continue; }
        if !(d.lo < d.at.at && d.at.at < d.hi) { return Err(format!("{d:?} is not a time during the operation")); }
        if cache.is_some() { steps.push(Step { lo: d.at.at, hi: d.hi, op: S::Store(d.at.at) }); }
    }
    // a fresh clock holds the time it was made
    let starts: Vec<u64> = match born { Some((a, b)) if cache.is_some() => (a + 1..b).collect(), _ => vec![0] };
    let ok = starts.iter().any(|s| linear(&steps, s, &|m, x| match x { S::Store(v) => Some(*v), S::Load(v) => if v == m { Some(*m) } else { None } }));
    if !ok { return Err(format!("cached reads do not give the time of the latest update: {done:?} (made between {born:?})")); }
    Ok(h64(&done.iter().map(|d| d.at.at).collect::<Vec<_>>()))
}
fn threads(ch: &mut Chooser, n: usize, min: usize, max: usize) -> Leaf {
    let Some(progs) = programs(ch, n, min, max, 4) else { return Leaf::skip() };
    let cache = ch.of(&CACHES);
    let offset = UtcOffset(if n > 1 { 3600 } else { ch.of(&[0, 3600, -7200]) });
    let back = n < 3 && ch.flag();
    let p = progs.clone();
    let (runs, states, bad) = explore(move || {
        reset();
        backward(back);
        let a = stamp();
        let clock = std::sync::Arc::new(Clock::new(offset, cache));
        let b = stamp();
        let hs: Vec<_> = p.iter().map(|ops| {
            let (clock, ops) = (clock.clone(), ops.clone());
            let go = move || { let mut t = stamp(); ops.iter().map(|o| perform(&clock, OPS[*o], &mut t)).collect::<Vec<_>>() };
            if n == 1 { Err(go()) } else { Ok(loom::thread::spawn(go)) }
        }).collect();
        let mut done = vec![];
        for h in hs { done.extend(match h { Ok(h) => h.join().unwrap(), Err(x) => x }); }
        let mut t = stamp();
        for o in [0, 2, 1, 0] { done.push(perform(&clock, OPS[o], &mut t)); }
        forget();
        (done, (a, b))
    }, move |(done, born)| judge(&done, Some(born), cache, offset, n == 1));
    let prog = format!("cache {cache:?}, {:?}{}", progs.iter().map(|p| p.iter().map(|o| OPS[*o]).collect::<Vec<_>>()).collect::<Vec<_>>(), if back { ", the wall clock going backward" } else { "" });
    match bad { Some(w) => Leaf::fail(prog.clone(), format!("{prog}: {w}")), None => Leaf::ok(states.iter().map(|s| h64(&(s, &prog))).collect(), runs) }
}
pub fn check(quick: bool) -> Check {
    let q = quick;
    Check::new("H04", "executions: programs; transitions: complete interleavings explored by loom (every one of them judged: fresh times lie within the operation, cached ones are explained by an order of the updates)", vec![
        phase("one thread", "every history of five (thorough seven) reads and updates, four cache settings, three time zones, a wall clock going forward or backward", move |ch, _| threads(ch, 1, if q { 5 } else { 7 }, if q { 5 } else { 7 })),
        phase("two threads", "every two sequences of up to two reads and updates, four cache settings, a wall clock going forward or backward", move |ch, _| threads(ch, 2, 1, 2)),
        phase("three threads", "every three single operations (thorough: up to two)", move |ch, _| threads(ch, 3, 1, if q { 1 } else { 2 })),
    ]).assume("std_util.rs is compiled unchanged against loom's Mutex and a counting wall clock (see underloom/); loom explores every interleaving at synchronisation operations, without a preemption bound")
}
