//! S06: strict rotation of turns, atomic turns.
use super::common::*;
use super::sched::{self, A};

const T: [A; 22] = [A::Nop, A::Y, A::L2, A::W2, A::B("m", false), A::B("m", true), A::Clone(2), A::Launch, A::LaunchLoop, A::Throw, A::StopThis, A::StopSprite, A::Pending, A::Rpc, A::Set, A::Until, A::CallB("m", true), A::TryThrow, A::Sleep, A::Ask, A::LaunchDel, A::Ret];
fn three(ch: &mut Chooser, cx: &Ctx, alpha: &[A], len: usize, quiet: bool) -> Leaf {
    let (a, b) = (sched::body(ch, "a", alpha, len), sched::body(ch, "b", alpha, len));
    let c = sched::stmts("c", &[A::L2, A::L2]);
    let plan = if quiet { vec![] } else { vec![(2, Ans::Default), (0, Ans::Default), (1, Ans::Default)] };
    let sp = vec![on_flag(a), on_flag(b), on_msg("m", sched::stmts("m", &[A::L2])), on_clone(sched::stmts("k", &[A::L2]))];
    diff(sched::world(vec![], sp, vec![on_flag(c), on_msg("m", sched::stmts("n", &[A::Y]))]), Scn { plan, cap_events: 70, after: 400, ..Default::default() }, cx)
}
/// every kind of loop and waiting block side by side
fn loops(ch: &mut Chooser, cx: &Ctx, scripts: usize) -> Leaf {
    let mut sp = vec![];
    for i in 0..scripts {
        let l = |k: &str| rsys(&format!("{i}{k}"), vec![]);
        let st = match ch.choose(14) {
            0 => repeat(n(2.0), vec![l("+")]),
            1 => for_("i", n(1.0), n(2.0), vec![l("+")]),
            2 => foreach("i", ml(vec![n(1.0), n(2.0)]), vec![l("+")]),
            3 => until(ge(v("g"), n(3.0)), vec![l("+"), chg("g", n(1.0))]),
            4 => set("x", map(ring(&["q"], &[], vec![l("+"), ret(n(1.0))]), ml(vec![n(1.0), n(2.0)]))),
            5 => set("x", keep(ring(&["q"], &[], vec![l("+"), ret(bo(true))]), ml(vec![n(1.0), n(2.0)]))),
            6 => set("x", find_first(ring(&["q"], &[], vec![l("+"), ret(bo(false))]), ml(vec![n(1.0), n(2.0)]))),
            7 => set("x", combine(ring(&["q", "r"], &[], vec![l("+"), ret(n(1.0))]), ml(vec![n(1.0), n(2.0), n(3.0)]))),
            8 => wait_until(ge(v("g"), n(2.0))),
            9 => wait0(),
            10 => warp(vec![repeat(n(2.0), vec![l("+")]), wait0(), l("-")]),
            11 => repeat(n(2.0), vec![chg("g", n(1.0))]),
            12 => forever(vec![l("~"), if_(ge(v("g"), n(2.0)), vec![ret(n(0.0))]), chg("g", n(1.0))]),
            _ => repeat(n(2.0), vec![repeat(n(2.0), vec![l("+")])]),
        };
        sp.push(on_flag(vec![l("0"), st, l("1")]));
    }
    let mut r = sched::world(vec![], sp, vec![]);
    r.globals.extend(nums(&["i"]));
    diff(r, Scn { cap_events: 70, ..Default::default() }, cx)
}
/// a turn is atomic: no other script sees intermediate states
fn atomic(ch: &mut Chooser, cx: &Ctx) -> Leaf {
    let mid = [set("x", n(1.0)), chg("g", n(5.0)), set("x", map(ringe(&["q"], &[], v("q")), ml(vec![n(1.0)]))), warp(vec![repeat(n(3.0), vec![chg("g", n(1.0))])]), run(ring(&[], &["g"], vec![chg("g", n(2.0))]), vec![]), bcast(t("m"), false), launch(ring(&[], &["g"], vec![rsys("l", vec![v("g")])]), vec![]), clone_(this()), set("x", callf("bcast", vec![t("m"), bo(false)])), try_(vec![throw(t("z"))], "err", vec![chg("g", n(1.0))]), crate::b::show("g"), s(StmtKind::Pause), if_(bo(true), vec![chg("g", n(1.0))]), repeat(n(1.0), vec![chg("g", n(1.0))])];
    let mut b = vec![];
    for _ in 0..2 { b.push(chg("g", n(100.0))); b.push(ch.of(&mid)); b.push(chg("g", n(-100.0))); }
    b.push(rsys("a", vec![v("g")]));
    let watch = on_flag(vec![repeat(n(4.0), vec![rsys("w", vec![v("g")])])]);
    let order = ch.flag();
    let sp = if order { vec![on_flag(b), watch] } else { vec![watch, on_flag(b)] };
    diff(sched::world(vec![], sp, vec![on_msg("m", vec![rsys("m", vec![v("g")])])]), Scn { cap_events: 50, ..Default::default() }, cx)
}
pub fn check(quick: bool) -> Check {
    let mut p = vec![
        phase("three scripts", "two scripts with every pair of 22 actions beside a looping one, receivers and clones", |ch, cx| three(ch, cx, &T, 2, true)),
        phase("three scripts, slow host", "the same with host calls that stay pending", |ch, cx| three(ch, cx, &T, 2, false)),
        phase("loops", "every triple of 14 looping or waiting blocks side by side", |ch, cx| loops(ch, cx, 3)),
        phase("atomic turns", "every pair of 14 blocks between two changes of a variable, watched by another script", atomic),
    ];
    if !quick {
        p.push(phase("loops, four", "every 4-tuple of looping blocks", |ch, cx| loops(ch, cx, 4)));
        p.push(phase("three scripts, long", "every triple of actions in two scripts", |ch, cx| three(ch, cx, &T[..13], 3, true)));
    }
    Check::new("S06", TRACES, p)
}
