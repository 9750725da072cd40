//! N06: the clock.
use super::common::*;
use crate::clock;
use netsblox_vm::real_time::UtcOffset;
use netsblox_vm::runtime::Precision;
use netsblox_vm::std_util::Clock;

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op { Time(i64), Read(Precision), Update }
fn clocks(ch: &mut Chooser, depth: usize, threads: bool) -> Leaf {
    use Precision::*;
    let cache = ch.of(&[None, Some(Low), Some(Medium), Some(High)]);
    let zone = ch.of(&[0, -720, 345]);
    let ops: Vec<Op> = (0..depth).map(|_| ch.of(&[Op::Time(1), Op::Time(60_000), Op::Time(-1000), Op::Read(Low), Op::Read(Medium), Op::Read(High), Op::Update])).collect();
    // time passing twice is time passing
    if ops.windows(2).any(|w| matches!(w, [Op::Time(_), Op::Time(_)])) { return Leaf::skip(); }
    let key = format!("caching {cache:?}, zone {zone}: {ops:?}{}", if threads { " by two threads in turn" } else { "" });
    let begin = 1_719_791_999_500;
    let r = guarded(|| {
        let mut wall = begin;
        clock::set(Some(wall));
        let c = std::sync::Arc::new(Clock::new(UtcOffset::from_whole_seconds(zone * 60).unwrap(), cache));
        let mut held = wall;
        let mut states = vec![];
        for (i, op) in ops.iter().enumerate() {
            let elsewhere = threads && i % 2 == 1;
            let run = |f: Box<dyn FnOnce(&Clock) -> netsblox_vm::real_time::OffsetDateTime + Send>| if elsewhere { let c = c.clone(); std::thread::spawn(move || { clock::set(Some(wall)); f(&c) }).join().map_err(|_| "panicked".to_string()) } else { Ok(f(&c)) };
            let (got, want) = match *op {
                Op::Time(d) => { wall += d; clock::set(Some(wall)); continue; }
                Op::Update => { held = wall; (run(Box::new(|c| c.update()))?, wall) }
                Op::Read(p) => { let fresh = cache.is_none_or(|c| p > c); if fresh { held = wall; } (run(Box::new(move |c| c.read(p)))?, if fresh { wall } else { held }) }
            };
            let ms = (got.unix_timestamp_nanos() / 1_000_000) as i64;
            if ms != want { return Err(format!("step {i} gave {} ms after the start, expected {}", ms - begin, want - begin)); }
            if got.offset().whole_seconds() != zone * 60 { return Err(format!("step {i} gave a time in zone {:?}", got.offset())); }
            states.push(h64(&format!("{cache:?} {} {}", wall - begin, held - begin)));
        }
        Ok(states)
    });
    clock::set(None);
    match r { Ok(st) => Leaf::ok(st, depth as u64), Err(w) => Leaf::fail(key.clone(), format!("{key}: {w}")) }
}
pub fn check(quick: bool) -> Check {
    let d = if quick { 6 } else { 8 };
    Check::new("N06", "Clock::new, read and update over the harness's wall clock", vec![
        phase("histories", &format!("every sequence of {d} of reading with 3 precisions, updating, and the wall clock moving on by two amounts or back, with 4 kinds of caching, in 3 zones"), move |ch, _| clocks(ch, d, false)),
        phase("two threads in turn", &format!("every sequence of {} with a clock shared by two threads that use it in turn", d - 3), move |ch, _| clocks(ch, d - 3, true)),
    ]).assume("the wall clock is the C library's clock_gettime, which the harness answers")
}
