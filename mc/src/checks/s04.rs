//! S04: stop blocks and the stop button.
use super::common::*;
use super::sched::{self, A};

const STOPS: [A; 26] = [A::StopAll, A::StopThis, A::StopBlock, A::StopOthers, A::StopSprite, A::CallStop(0), A::CallStop(1), A::CallStop(2), A::CallStop(3), A::CallStop(4), A::RingStop(0), A::RingStop(1), A::RingStop(2), A::RingStop(3), A::RingStop(4), A::TellStop(0), A::TellStop(1), A::TellStop(2), A::TellStop(3), A::TellStop(4), A::LaunchStop(0), A::LaunchStop(1), A::LaunchStop(2), A::LaunchStop(3), A::LaunchStop(4), A::Del];
/// one stopping script among four others in every phase of their lives
fn stops(ch: &mut Chooser, cx: &Ctx) -> Leaf {
    let st = ch.of(&STOPS);
    let mut b = vec![A::Y; ch.choose(3)];
    b.push(st);
    b.push(A::Y);
    let o = [A::L2, A::Sleep, A::B("m", true), A::Pending, A::Forever, A::W2];
    let across = [A::L2, A::Sleep, A::B("m", true), A::Pending, A::Forever, A::W2, A::TellL(0), A::TellL(1)];
    let (p, q, r) = (ch.of(&across), ch.of(&o), ch.of(&across));
    let wrap = ch.choose(4);
    let inner = sched::stmts("s", &b);
    let inner = match wrap { 0 => inner, 1 => vec![warp(inner), rsys("after", vec![])], 2 => vec![try_(inner, "err", vec![rsys("caught", vec![])]), rsys("after", vec![])], _ => vec![repeat(n(2.0), inner), rsys("after", vec![])] };
    let again = ch.choose(2);
    let key = on_key("a", vec![rsys("key", vec![])]);
    let sp = vec![on_flag(sched::stmts("p", &[p])), on_flag(inner), on_flag(sched::stmts("q", &[q])), key];
    let ot = vec![on_flag(sched::stmts("r", &[r])), on_msg("m", sched::stmts("m", &[A::L2]))];
    let inputs = if again == 0 { vec![(0, In::Start), (26, In::Start)] } else { vec![(0, In::Start), (22, In::Key(KeyCode::Char('a')))] };
    diff(sched::world(vec![], sp, ot), Scn { inputs, plan: vec![(3, Ans::Default); 2], cap_events: 44, after: 150, ..Default::default() }, cx)
}
/// the stop button at every point
fn button(ch: &mut Chooser, cx: &Ctx) -> Leaf {
    let o = [A::L2, A::Sleep, A::B("m", true), A::Pending, A::Launch, A::Clone(2), A::TryB, A::SendW, A::Rpc, A::Ask];
    let (p, q) = (ch.of(&o), ch.of(&o));
    let at = ch.choose(24);
    let then = ch.of(&[In::Start, In::Key(KeyCode::Char('a')), In::Custom { name: "ev".into(), args: vec![], interrupt: false, max_queue: 3 }]);
    let d = ch.choose(4) as u8;
    let m = ch.flag();
    let sp = vec![on_flag(sched::stmts("p", &[p, A::Y])), on_key("a", sched::stmts("key", &[A::L2])), on_custom("ev", &[], sched::stmts("ev", &[A::L2]))];
    let ot = vec![on_flag(sched::stmts("q", &[q])), on_msg("m", sched::stmts("m", &[A::L2])), on_net("a", &["f"], sched::stmts("net", &[A::L2, A::L2]))];
    let msgs = if m { vec![(1, sched::msg("a", &[("f", 1.0)], 0)), (4, sched::msg("a", &[("f", 1.0)], 1)), (7, sched::msg("a", &[("f", 1.0)], 2))] } else { vec![] };
    let ev = In::Custom { name: "ev".into(), args: vec![], interrupt: false, max_queue: 3 };
    let inputs = vec![(0, In::Start), (0, ev.clone()), (0, ev), (at, In::Stop), (at + d as usize, then)];
    diff(sched::world(vec![], sp, ot), Scn { inputs, msgs, plan: vec![(1, Ans::Default); 4], replies: vec![(3, None); 2], cap_events: 60, after: 150, ..Default::default() }, cx)
}
/// stopping while events and messages are queued
fn queued(ch: &mut Chooser, cx: &Ctx) -> Leaf {
    let a = [A::Nop, A::L2, A::StopAll, A::StopThis, A::StopOthers, A::StopSprite, A::Throw];
    let ev = |i: f64| In::Custom { name: "ev".into(), args: vec![("f".into(), SimpleValue::Number(crate::host::num(i)))], interrupt: false, max_queue: 5 };
    let mut h = vec![rsys("ev", vec![v("f")])];
    h.extend(sched::body(ch, "h", &a, 2));
    let mut h2 = vec![rsys("net", vec![v("f")])];
    h2.extend(sched::body(ch, "n", &a, 1));
    let k = on_key("k", sched::body(ch, "k", &[A::StopAll, A::StopOthers, A::StopSprite, A::TellStop(3)], 1));
    let at = ch.choose(12);
    let inputs = vec![(0, ev(1.0)), (0, ev(2.0)), (1, ev(3.0)), (at.max(1), In::Key(KeyCode::Char('k'))), (at + 8, ev(4.0))];
    let msgs = vec![(1, sched::msg("a", &[("f", 7.0)], 0)), (2, sched::msg("a", &[("f", 8.0)], 1)), (20, sched::msg("a", &[("f", 9.0)], 2))];
    diff(sched::world(vec![], vec![on_custom("ev", &["f"], h), k], vec![on_net("a", &["f"], h2)]), Scn { inputs, msgs, cap_events: 60, ..Default::default() }, cx)
}
/// stop blocks inside clones and towards clones
fn clones(ch: &mut Chooser, cx: &Ctx) -> Leaf {
    let c = [A::Nop, A::Y, A::StopAll, A::StopThis, A::StopOthers, A::StopSprite, A::TellStop(3), A::LaunchStop(3), A::Del, A::L2];
    let b = sched::stmts("p", &[A::Clone(ch.choose(3)), A::Y, A::Clone(ch.choose(3)), A::L2]);
    let (x, y) = (sched::body(ch, "c", &c, 2), sched::body(ch, "d", &c, 2));
    diff(sched::world(vec![], vec![on_flag(b), on_clone(x), on_flag(sched::stmts("q", &[A::L2, A::L2]))], vec![on_clone(y), on_flag(sched::stmts("r", &[A::L2, A::L2]))]), Scn { cap_events: 60, ..Default::default() }, cx)
}
/// stop this block leaves exactly the innermost custom block
fn blocks(ch: &mut Chooser, cx: &Ctx, depth: usize) -> Leaf {
    let depth = ch.choose(depth) + 1;
    let mode = ch.of(&sched::MODES);
    let mut b = vec![stop(mode), rsys("not here", vec![])];
    let mut fns = vec![];
    for i in 0..depth {
        let nm = format!("f{i}");
        for _ in 0..2 {
            b = match ch.choose(6) { 0 => b, 1 => vec![warp(b)], 2 => vec![repeat(n(2.0), b)], 3 => vec![if_(bo(true), b)], 4 => vec![try_(b, "err", vec![rsys("caught", vec![])])], _ => vec![foreach("it", ml(vec![n(1.0), n(2.0)]), b)] };
        }
        b = match ch.choose(4) {
            0 => { fns.push(func(&nm, &[], b)); vec![rsys("got", vec![callf(&nm, vec![])])] }
            1 => { fns.push(func(&nm, &[], b)); vec![runf(&nm, vec![])] }
            2 => vec![run(ring(&[], &[], b), vec![])],
            _ => vec![rsys("got", vec![map(ring(&["q"], &[], b), ml(vec![n(1.0), n(2.0)]))])],
        };
        b.push(rsys(&format!("left {i}"), vec![]));
    }
    let other = on_flag(sched::stmts("o", &[A::L2]));
    let mut r = sched::world(vec![], vec![on_flag(b), other.clone()], vec![other]);
    r.funcs.extend(fns);
    r.globals.extend(nums(&["it"]));
    diff(r, Scn { cap_events: 60, ..Default::default() }, cx)
}
pub fn check(quick: bool) -> Check {
    let mut p = vec![
        phase("stop blocks", "26 stop actions (5 modes: direct, in a block, in a ring, told to another sprite, launched) after 0..2 turns x 4 wrappers x 3 other scripts x 6-8 activities (looping, sleeping, waiting for broadcast, for the host, endless, warp, working for another sprite) x 2 restarts", stops),
        phase("stop button", "stop at each of 24 points x 10x10 script activities x queued events, messages x 3 restarts after 0..3 events", button),
        phase("queued events", "stop blocks while custom events and messages are queued", queued),
        phase("clones", "every pair of 10 actions in clones of two sprites", clones),
        phase("stop inside blocks", "5 modes inside 1..2 nested calls of 4 kinds with 2 of 6 wrappers each", |ch, cx| blocks(ch, cx, 2)),
    ];
    if !quick { p.push(phase("stop inside blocks, deeper", "5 modes inside 1..3 nested calls", |ch, cx| blocks(ch, cx, 3))); }
    Check::new("S04", TRACES, p)
}
