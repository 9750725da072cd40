//! S02: broadcast-and-wait.
use super::common::*;
use super::sched::{self, A};

const R: [A; 18] = [A::Nop, A::Y, A::L2, A::Throw, A::Bad, A::StopThis, A::StopBlock, A::Ret, A::B("m", false), A::B("m", true), A::B("n", true), A::StopOthers, A::StopSprite, A::StopAll, A::Sleep, A::LaunchLoop, A::TellL(0), A::TellL(1)];

/// a waiting script, two receivers, an interfering script
fn waits(ch: &mut Chooser, cx: &Ctx, len: usize) -> Leaf {
    let w = [A::B("m", true), A::To("m", 1, true), A::CallB("m", true), A::WarpB("m", true), A::TryB];
    let i = [A::Nop, A::B("m", false), A::B("m", true), A::To("m", 0, true), A::StopSprite, A::StopOthers, A::StopAll];
    let waiter = sched::stmts("w", &[ch.of(&w)]);
    let mut x = vec![A::Y; ch.choose(3)];
    x.push(ch.of(&i));
    let o = ch.choose(2);
    let intr = on_flag(sched::stmts("i", &x));
    let m1 = on_msg("m", sched::body(ch, "r", &R, len));
    let m2 = on_msg("m", sched::body(ch, "q", &R, 1));
    let nn = on_msg("n", sched::stmts("n", &[A::Y]));
    let sp = if o == 0 { vec![on_flag(waiter), m1, intr] } else { vec![intr, m1, on_flag(waiter)] };
    diff(sched::world(vec![], sp, vec![m2, nn]), Scn { cap_events: 60, after: 100, ..Default::default() }, cx)
}
/// receivers on clones that are deleted, in every way, while their sender waits
fn clones(ch: &mut Chooser, cx: &Ctx) -> Leaf {
    let r = [A::Nop, A::Y, A::Del, A::LaunchDel, A::L2, A::TellDel, A::B("m", true), A::Throw, A::Forever, A::Clone(2), A::TellL(5), A::TellL(0)];
    let x = [A::Nop, A::TellDel, A::To("m", 5, false), A::To("m", 5, true), A::StopOthers];
    let w = [A::B("m", true), A::To("m", 5, true), A::To("m", 8, true)];
    let k = ch.choose(2);
    let b = sched::stmts("w", &[A::Clone(k), ch.of(&w)]);
    let mut y = vec![A::Y; ch.choose(3) + 1];
    y.push(ch.of(&x));
    let m1 = on_msg("m", sched::body(ch, "r", &r, 2));
    let m2 = on_msg("m", sched::body(ch, "q", &r, 1));
    let on_other = ch.flag();
    let (sp, ot) = if on_other { (vec![on_flag(b), m1], vec![m2, on_flag(sched::stmts("i", &y))]) } else { (vec![on_flag(b), m1, on_flag(sched::stmts("i", &y))], vec![m2]) };
    diff(sched::world(vec![], sp, ot), Scn { cap_events: 50, ..Default::default() }, cx)
}
/// the stop button, the start button, keys and messages while a script waits
fn inputs(ch: &mut Chooser, cx: &Ctx) -> Leaf {
    let r = [A::Nop, A::Y, A::L2, A::Throw, A::StopThis, A::Sleep, A::Pending, A::Forever];
    let ins = [In::Start, In::Stop, In::Key(KeyCode::Char('a')), In::Key(KeyCode::Char('b'))];
    let b = sched::stmts("w", &[A::B("m", true), A::B("m", true)]);
    let m1 = on_msg("m", sched::body(ch, "r", &r, 2));
    let m2 = on_msg("m", sched::body(ch, "q", &r, 1));
    let mut inputs = vec![(0, In::Start)];
    let mut at = 1;
    for _ in 0..2 { at += ch.choose(8) + 1; inputs.push((at, ch.of(&ins))); }
    let k = vec![on_flag(b), m1, on_key("a", sched::stmts("ka", &[A::B("m", false)])), on_key("b", sched::stmts("kb", &[A::B("m", true)]))];
    diff(sched::world(vec![], k, vec![m2]), Scn { inputs, cap_events: 50, after: 200, plan: vec![(1, Ans::Default); 6], ..Default::default() }, cx)
}
pub fn check(quick: bool) -> Check {
    let mut p = vec![
        phase("wait for receivers", "5 ways to wait x 7 interfering actions after 0..2 turns x script order x every pair of actions (of 16) of one receiver and every action of another", |ch, cx| waits(ch, cx, 2)),
        phase("clones", "receivers on sprites and clones, deleted by themselves, by a launched script, by another script; 10 actions", clones),
        phase("inputs while waiting", "2 inputs of 4 kinds at every point of the first events x receiver bodies", inputs),
    ];
    if !quick { p.push(phase("wait for receivers, long", "as the first phase with three actions", |ch, cx| waits(ch, cx, 3))); }
    Check::new("S02", TRACES, p)
}
