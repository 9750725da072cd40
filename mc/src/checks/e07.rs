//! E07: time.
use super::common::*;

const TICKS: [u64; 9] = [0, 1, 2, 499, 500, 501, 999, 1000, 1001];
fn durations() -> Vec<Expr> { vec![n(0.0), n(-1.0), n(0.001), n(0.0009), n(0.0015), n(0.5), n(1.0), n(1.001), t("1"), t("0.5"), t(""), t("abc"), bo(true), n(-1e300), n(1e300), n(1e10), n(1.8446744073709552e16), n(1.8446744073709550e16), n(9.3e15), ml(vec![])] }

fn waits(ch: &mut Chooser, cx: &Ctx, len: usize) -> Leaf {
    let ds = durations();
    let kind = ch.choose(5);
    let d = ch.choose(ds.len());
    let ticks: Vec<u64> = (0..len).map(|_| ch.of(&TICKS)).collect();
    let after = ch.of(&[0, 1000, 10_000_000_000_000_000_000]);
    let clock0 = ch.of(&[0, 1000, u64::MAX - 1500]);
    let st = match kind {
        0 => vec![wait(ds[d].clone())],
        1 => vec![say_for(t("hi"), ds[d].clone())],
        2 => vec![warp(vec![wait(ds[d].clone())])],
        3 => vec![wait(ds[d].clone()), wait(ds[(d + 5) % ds.len()].clone())],
        _ => vec![s(StmtKind::Think { content: bx(t("hm")), duration: Some(bx(ds[d].clone())) })],
    };
    let mut b = vec![rsys("a", vec![])];
    b.push(try_(st, "err", vec![rsys("err", vec![v("err")])]));
    b.push(rsys("b", vec![timer()]));
    diff(prog(nums(&["err"]), vec![], vec![on_flag(b)]), Scn { ticks, after, clock0, cap_events: 16, cap_quiet: 200, ..Default::default() }, cx)
}
fn sleepers(ch: &mut Chooser, cx: &Ctx, n_scripts: usize, len: usize) -> Leaf {
    let ds = [n(0.0), n(0.001), n(0.5), n(1.0), n(1.5)];
    let scripts = (0..n_scripts).map(|i| { let d = ch.of(&ds); on_flag(vec![wait(d.clone()), rsys("woke", vec![n(i as f64)]), wait(d), rsys("again", vec![n(i as f64)])]) }).collect();
    let ticks: Vec<u64> = (0..len).map(|_| ch.of(&[0, 1, 499, 500, 1000])).collect();
    diff(prog(vec![], vec![], scripts), Scn { ticks, after: ch.of(&[1, 500]), cap_events: 40, ..Default::default() }, cx)
}
fn timers(ch: &mut Chooser, cx: &Ctx, len: usize) -> Leaf {
    let timeless = ch.choose(6) == 5;
    let mut b = vec![];
    for i in 0..len {
        b.push(match ch.choose(5) {
            0 => rsys("timer", vec![timer()]),
            1 => reset_timer(),
            2 => wait(n(0.5)),
            3 => wait_until(ge(timer(), n(0.75))),
            _ => rsys("lap", vec![n(i as f64), sub(timer(), timer())]),
        });
    }
    b.push(rsys("timer", vec![timer()]));
    let b = if ch.flag() { vec![try_(b, "err", vec![rsys("err", vec![v("err")])])] } else { b };
    let ticks: Vec<u64> = (0..3).map(|_| ch.of(&[0, 1, 250, 1000])).collect();
    let after = ch.of(&[250, 1]);
    let clock0 = ch.of(&[0, 5000, u64::MAX - 700]);
    // a second script resets the timer, too
    let other = on_flag(vec![wait(n(0.25)), reset_timer(), rsys("reset", vec![timer()])]);
    diff(prog(nums(&["err"]), vec![], vec![on_flag(b), other]), Scn { ticks, after, clock0, timeless, cap_events: 40, cap_quiet: 200, ..Default::default() }, cx)
}
pub fn check(quick: bool) -> Check {
    let mut p = vec![
        phase("waits", "5 waiting blocks x 20 durations x every clock schedule of 3 advances out of 9 values x 3 later rates x 3 clock origins", |ch, cx| waits(ch, cx, 3)),
        phase("two sleepers", "two scripts x 5 durations x every schedule of 4 clock advances", |ch, cx| sleepers(ch, cx, 2, 4)),
        phase("timer", "every sequence of 3 timer operations x clock schedules, beside a script that resets the timer; system without clock", |ch, cx| timers(ch, cx, 3)),
    ];
    if !quick {
        p.push(phase("long schedules", "5 waiting blocks x 20 durations x every clock schedule of 5 advances", |ch, cx| waits(ch, cx, 5)));
        p.push(phase("three sleepers", "three scripts x 5 durations x every schedule of 5 clock advances", |ch, cx| sleepers(ch, cx, 3, 5)));
        p.push(phase("timer 5", "every sequence of 5 timer operations", |ch, cx| timers(ch, cx, 5)));
    }
    Check::new("E07", TRACES, p).assume("the clock of the scripted host never runs backwards")
}
