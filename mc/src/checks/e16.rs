//! E16: date and time.
use super::common::*;
use netsblox_vm::ast::TimeQuery;
use TimeQuery::*;

const ASK: [TimeQuery; 8] = [Year, Month, Date, DayOfWeek, Hour, Minute, Second, UnixTimestampMs];
fn all() -> Expr { ml(ASK.iter().map(|q| clock(q.clone())).collect()) }
const DAY: u64 = 86_400_000;
/// days since 1970 of the first of January
fn newyear(y: u64) -> u64 { (y - 1970) * 365 + (1970..y).filter(|y| y % 4 == 0 && (y % 100 != 0 || y % 400 == 0)).count() as u64 }
const ZONES: [i32; 7] = [0, -720, 840, 345, -210, 1, -1];
const HOURS: [u64; 6] = [0, 999, 12 * 3_600_000 - 1, 13 * 3_600_000 + 59 * 60_000 + 59_000, DAY - 1000, DAY - 1];

fn calendar(ch: &mut Chooser, cx: &Ctx, from: u64, to: u64, every: bool) -> Leaf {
    let y = from + ch.choose((to - from) as usize) as u64;
    let d = if every { ch.choose(366) as u64 } else { ch.of(&[0, 1, 30, 31, 57, 58, 59, 60, 89, 90, 120, 151, 180, 181, 211, 212, 242, 243, 272, 273, 303, 304, 333, 334, 363, 364, 365]) };
    let clock0 = (newyear(y) + d + 1) * DAY + ch.of(&HOURS);
    let zone = ch.of(&ZONES);
    diff_flat(prog(vec![], vec![], vec![on_flag(vec![rsys("now", vec![all()])])]), Scn { clock0, real: Some((zone, 0)), ..Default::default() }, cx)
}
fn moments(ch: &mut Chooser, cx: &Ctx, len: usize) -> Leaf {
    // just before a second, minute, hour, day, month and year begin
    let clock0 = newyear(ch.of(&[2000, 2024, 2025, 2101])) * DAY + ch.of(&[59 * DAY - 500, 60 * DAY - 1, 365 * DAY - 1, 200 * DAY + 3_600_000 - 1, 200 * DAY + 59_999, 200 * DAY + 999, 7 * DAY - 1000]);
    let (zone, age) = ch.of(&[(0, 0), (60, 0), (-1, 0), (0, 3_600_000)]);
    let mut b = vec![];
    for i in 0..len {
        b.push(match ch.choose(5) {
            0 => rsys("all", vec![all()]),
            1 => rsys("one", vec![clock(ASK[i % 8].clone()), clock(Second), clock(UnixTimestampMs)]),
            2 => if age == 0 { wait(n(0.001)) } else { wait(n(0.0)) },
            3 => reset_timer(),
            _ => rsys("timer", vec![timer(), sub(clock(UnixTimestampMs), clock(UnixTimestampMs)), clock(Minute)]),
        });
    }
    b.push(rsys("all", vec![all()]));
    let ticks: Vec<u64> = (0..2).map(|_| ch.of(&[0, 1, 1000, DAY])).collect();
    diff(prog(vec![], vec![], vec![on_flag(b)]), Scn { clock0, real: Some((zone, age)), ticks, after: ch.of(&[1, 60_000]), cap_events: 40, cap_quiet: 200, ..Default::default() }, cx)
}
fn waits(ch: &mut Chooser, cx: &Ctx, len: usize) -> Leaf {
    // waiting and the timer go by a clock with a calendar just as well
    let clock0 = newyear(2024) * DAY - ch.of(&[0, 1, 600]);
    let ds = [n(0.001), n(0.0015), n(0.5), n(1.0), t("0.25")];
    let mut b = vec![];
    for i in 0..len { b.push(match ch.choose(4) { 0 => wait(ds[ch.choose(ds.len())].clone()), 1 => rsys("timer", vec![timer(), clock(Second)]), 2 => reset_timer(), _ => wait_until(ge(timer(), ds[i % 4].clone())) }); }
    b.push(rsys("end", vec![timer(), all()]));
    let other = on_flag(vec![wait(n(0.25)), rsys("other", vec![clock(Second)])]);
    let ticks: Vec<u64> = (0..3).map(|_| ch.of(&[0, 1, 250, 1000])).collect();
    diff(prog(vec![], vec![], vec![on_flag(b), other]), Scn { clock0, real: Some((ch.of(&[0, -330]), 0)), ticks, after: ch.of(&[250, 1]), cap_events: 40, cap_quiet: 200, ..Default::default() }, cx)
}
fn without(ch: &mut Chooser, cx: &Ctx) -> Leaf {
    let q = ASK[ch.choose(8)].clone();
    let st = match ch.choose(4) { 0 => rsys("got", vec![clock(q)]), 1 => wait(clock(q)), 2 => rsys("got", vec![ml(vec![n(1.0), clock(q)])]), _ => warp(vec![if_(eq(clock(q), n(1.0)), vec![rsys("yes", vec![])])]) };
    let st = if ch.flag() { try_(vec![st], "err", vec![rsys("err", vec![v("err")])]) } else { st };
    let timeless = ch.flag();
    let b = vec![rsys("a", vec![]), st, rsys("b", vec![])];
    diff(prog(nums(&["err"]), vec![], vec![on_flag(b), on_flag(vec![rsys("other", vec![])])]), Scn { timeless, ticks: vec![1, 1], after: 1, ..Default::default() }, cx)
}
pub fn check(quick: bool) -> Check {
    let mut p = vec![
        phase("calendar", "first and last days of the months of every year from 1970 to 2104 x 6 times of day x 7 zones: all eight reporters", |ch, cx| calendar(ch, cx, 1970, 2105, false)),
        phase("moments", "every sequence of 3 of 5 operations starting just before one of 28 boundaries x 4 clocks (one of which is stale unless asked for full precision) x clock schedules", |ch, cx| moments(ch, cx, 3)),
        phase("waits", "every sequence of 2 of waiting, timer and wait until on a clock with a calendar x clock schedules, beside another script", |ch, cx| waits(ch, cx, 2)),
        phase("without", "8 reporters x 4 uses, in a try or not, on hosts with a mere counter or no clock at all", |ch, cx| without(ch, cx)),
    ];
    if !quick {
        p.push(phase("every day", "every day from 1970 to 2400 x 6 times of day x 7 zones", |ch, cx| calendar(ch, cx, 1970, 2400, true)));
        p.push(phase("moments 5", "every sequence of 5", |ch, cx| moments(ch, cx, 5)));
        p.push(phase("waits 4", "every sequence of 4", |ch, cx| waits(ch, cx, 4)));
    }
    Check::new("E16", TRACES, p).assume("the clock of the scripted host never runs backwards and shows years from 1970 on")
}
