//! S09: idleness, reports and robustness of the scheduler.
use super::common::*;
use super::sched::{self, A};
use super::s07::ev;

const ALL: [A; 30] = [A::Nop, A::Y, A::L2, A::W2, A::Throw, A::Ret, A::StopAll, A::StopThis, A::StopOthers, A::StopSprite, A::B("m", false), A::B("m", true), A::BMsg(true), A::Clone(2), A::Clone(1), A::Del, A::TellDel, A::Launch, A::LaunchDel, A::LaunchStop(0), A::LaunchStop(2), A::TellStop(3), A::CallStop(1), A::TryB, A::Pause, A::Show, A::Hide, A::Pending, A::Reply(true), A::SendW];
/// two scripts with every pair of actions; inputs and messages meanwhile
fn pairs(ch: &mut Chooser, cx: &Ctx) -> Leaf {
    let (a, b) = (sched::body(ch, "a", &ALL, 2), sched::body(ch, "b", &ALL, 1));
    let what = ch.choose(6);
    let (mut inputs, mut msgs) = (vec![(0, In::Start)], vec![]);
    match what {
        0 => {}
        1 => inputs.push((5, In::Start)),
        2 => { inputs.push((4, In::Stop)); inputs.push((9, In::Start)); }
        3 => inputs.push((40, In::Start)),
        4 => msgs = vec![(2, sched::msg("a", &[("f", 1.0)], 0)), (5, sched::msg("a", &[("f", 2.0)], 1))],
        _ => { inputs.push((3, ev("ev", &[], false, 1))); inputs.push((3, ev("ev", &[], false, 1))); inputs.push((30, ev("ev", &[], true, 1))); }
    }
    let sp = vec![on_flag(a), on_msg("m", sched::stmts("m", &[A::Y])), on_clone(sched::stmts("c", &[A::Y])), on_net("a", &["f"], sched::stmts("n", &[A::Y, A::Reply(false)])), on_custom("ev", &[], sched::stmts("e", &[A::Y]))];
    diff(sched::world(vec![], sp, vec![on_flag(b), on_msg("m", sched::stmts("M", &[A::L2])), on_net("a", &["h"], sched::stmts("N", &[]))]), Scn { inputs, msgs, plan: vec![(1, Ans::Default); 2], replies: vec![(2, None); 3], cap_events: 50, ..Default::default() }, cx)
}
/// any input at any step, with any message, against a set of scripts of all kinds
fn chaos(ch: &mut Chooser, cx: &Ctx, n_in: usize) -> Leaf {
    let k = KeyCode::Char('a');
    let ins = [In::Start, In::Stop, In::Key(k), In::KeyUp(k), ev("ev", &[], false, 1), ev("ev", &[], true, 0)];
    let mut inputs = vec![];
    let mut at = 0;
    for _ in 0..n_in { at += ch.choose(5); inputs.push((at, ch.of(&ins))); }
    let mut msgs = vec![];
    let mut at = 0;
    for i in 0..2 { at += ch.choose(4) * 3 + 1; msgs.push((at, sched::msg("a", &[], i))); }
    let set = ch.choose(6);
    let x: &[A] = match set { 0 => &[A::B("m", true)], 1 => &[A::Clone(2), A::LaunchDel], 2 => &[A::StopSprite, A::Y], 3 => &[A::Throw], 4 => &[A::L2, A::StopAll], _ => &[A::B("m", false), A::StopOthers] };
    let sp = vec![on_flag(sched::stmts("f", x)), on_key("a", sched::stmts("k", &[A::B("m", true)])), on_custom("ev", &[], sched::stmts("e", &[A::StopOthers, A::Y])), on_msg("m", sched::stmts("m", &[A::Y, A::StopThis]))];
    let ot = vec![on_msg("m", sched::stmts("M", x)), on_net("a", &[], sched::stmts("n", x)), on_clone(sched::stmts("c", &[A::Del]))];
    diff(sched::world(vec![], sp, ot), Scn { inputs, msgs, cap_events: 60, ..Default::default() }, cx)
}
/// watchers and pauses are reported exactly once, in place
fn reports(ch: &mut Chooser, cx: &Ctx) -> Leaf {
    let acts = |ch: &mut Chooser| -> Vec<Stmt> {
        let b = vec![[crate::b::show("g"), hide("g"), pause(), crate::b::show("fld"), decl(&["loc"]), crate::b::show("nope"), repeat(n(2.0), vec![crate::b::show("x")]), set("g", ml(vec![n(1.0)]))][ch.choose(8)].clone()];
        let wrap = ch.choose(5);
        let mut b = b;
        if let StmtKind::DeclareLocals { .. } = &b[0].kind { b.push(crate::b::show("loc")); b.push(hide("loc")); }
        match wrap { 0 => b, 1 => vec![warp(b)], 2 => vec![run(ring(&[], &["g"], b), vec![])], 3 => vec![try_(b, "err", vec![rsys("caught", vec![v("err")])])], _ => vec![tell(ent("Other"), ring(&[], &[], b), vec![])] }
    };
    let mut b = acts(ch);
    b.push(rsys("mid", vec![]));
    b.extend(acts(ch));
    diff(sched::world(vec![], vec![on_flag(b), on_flag(vec![pause(), repeat(n(2.0), vec![rsys("o", vec![])]), crate::b::show("fld")])], vec![]), Scn { cap_events: 50, ..Default::default() }, cx)
}
/// projects with nothing to run: no scripts, hatless scripts, empty scripts, unlistened inputs
fn empty(ch: &mut Chooser, cx: &Ctx) -> Leaf {
    let mut sp = vec![];
    for _ in 0..2 { match ch.choose(5) { 0 => {} 1 => sp.push(no_hat(vec![rsys("never", vec![])])), 2 => sp.push(on_flag(vec![])), 3 => sp.push(on_msg("m", vec![])), _ => sp.push(on_flag(vec![stop(StopMode::ThisScript)])) } }
    let ins = [In::Start, In::Stop, In::Key(KeyCode::Enter), In::KeyUp(KeyCode::Up), ev("x", &[], true, 0), ev("x", &[], false, usize::MAX)];
    let mut inputs = vec![];
    let mut at = 0;
    for _ in 0..3 { at += ch.choose(3); inputs.push((at, ch.of(&ins))); }
    let msgs = if ch.flag() { vec![(1, sched::msg("a", &[], 0)), (2, sched::msg("b", &[], 0))] } else { vec![] };
    diff(sched::world(vec![], sp, vec![]), Scn { inputs, msgs, cap_events: 30, ..Default::default() }, cx)
}
pub fn check(quick: bool) -> Check {
    let mut p = vec![
        phase("pairs of actions", "every pair of 30 actions in one script, every one in another x 6 schedules of inputs and messages; receivers, clones, listeners", pairs),
        phase("any input any time", "every 2 of 6 inputs at gaps 0..4, two messages at 4 distances each x 6 script sets", |ch, cx| chaos(ch, cx, 2)),
        phase("reports", "8 watcher and pause actions twice in 5 contexts", reports),
        phase("nothing to run", "empty and hatless scripts, unlistened inputs and messages, sequences of 3 inputs", empty),
    ];
    if !quick { p.push(phase("any input any time, long", "every 4 of 6 inputs", |ch, cx| chaos(ch, cx, 4))); }
    Check::new("S09", TRACES, p)
}
