//! E06: host requests, their pending times and answers.
use super::common::*;
use super::tabs;
use netsblox_vm::ast::EffectKind;

const KINDS: usize = 15;
fn callk(k: usize, i: usize) -> Stmt {
    let id = n(i as f64);
    match k {
        0 => set("x", sys("get", vec![id, v("x")])),
        1 => rsys("do", vec![id, v("x")]),
        2 => set("x", rpc("get", vec![("a", id), ("b", v("x"))])),
        3 => rrpc("do", vec![("a", id)]),
        4 => ask(cat(vec![t("q"), id])),
        5 => set("x", blk("thing", vec![id])),
        6 => rblk("act", vec![id]),
        7 => say(id),
        8 => s(StmtKind::GotoXY { x: bx(id), y: bx(n(2.0)) }),
        9 => set("x", e(ExprKind::XPos)),
        10 => s(StmtKind::ChangeEffect { kind: EffectKind::Ghost, delta: bx(id) }),
        11 => s(StmtKind::StopSounds),
        12 => set("x", add(n(1.0), mul(sys("get", vec![id]), n(2.0)))),
        13 => set("x", ml(vec![rpc("get", vec![]), sys("get", vec![id])])),
        _ => warp(vec![set("x", rpc("list", vec![("a", id)])), say(v("x"))]),
    }
}
fn probe() -> Stmt { rsys("state", vec![v("x"), answer(), rpc_error(), sys_error()]) }
fn ans(ch: &mut Chooser) -> Ans {
    match ch.choose(5) {
        0 => Ans::Default,
        1 => Ans::Ok(SimpleValue::List(vec![SimpleValue::Text("v".into()), SimpleValue::Bool(true)])),
        2 => Ans::Err("bad luck".into()),
        3 => Ans::Refuse("refused".into()),
        _ => Ans::PollErr("broken".into()),
    }
}
fn calls(ch: &mut Chooser, cx: &Ctx, len: usize, probe_all: bool) -> Leaf {
    let soft = ch.choose(4);
    let handled = ch.flag();
    let mut plan = vec![];
    let mut b = vec![];
    for i in 0..len {
        let k = ch.choose(KINDS);
        plan.push((ch.choose(3) as u8, ans(ch)));
        if k == 13 || k == 14 { plan.push((1, Ans::Default)); }
        b.push(if handled { try_(vec![callk(k, i)], "err", vec![set("e", v("err"))]) } else { callk(k, i) });
        // the probe itself is a call with the default answer; it clears the last error of system calls
        if probe_all { b.push(set("log", ml(vec![v("log"), v("x"), answer(), rpc_error(), sys_error(), v("e")]))); }
    }
    b.push(set("log", ml(vec![v("log"), v("x"), answer(), rpc_error(), sys_error(), v("e")])));
    b.push(probe());
    let other = on_flag(vec![repeat(n(2.0), vec![says("other")])]);
    let role = tabs::world(nums(&["log", "e", "err"]), vec![], vec![on_flag(b), other]);
    diff(role, Scn { rpc_soft: soft & 1 == 1, sys_soft: soft & 2 == 2, plan, cap_events: 70, ..Default::default() }, cx)
}
/// two scripts waiting for the host at the same time, answers in every order
fn pair(ch: &mut Chooser, cx: &Ctx) -> Leaf {
    let sprites = ch.flag();
    let (a, b) = (ch.choose(KINDS), ch.choose(KINDS));
    let plan = (0..3).map(|_| (ch.choose(4) as u8, if ch.flag() { Ans::Err("no".into()) } else { Ans::Default })).collect();
    let soft = ch.flag();
    let s1 = on_flag(vec![callk(a, 1), set("y", v("x")), probe()]);
    let s2 = on_flag(vec![try_(vec![callk(b, 2)], "err", vec![]), rsys("second", vec![v("err"), v("x"), rpc_error(), sys_error(), answer()])]);
    let mut w = tabs::world(nums(&["err"]), vec![], vec![s1]);
    if sprites { w.entities[2].scripts.push(s2) } else { w.entities[1].scripts.push(s2) }
    diff(w, Scn { rpc_soft: soft, sys_soft: soft, plan, cap_events: 60, ..Default::default() }, cx)
}
/// blocking network messages
fn replies(ch: &mut Chooser, cx: &Ctx) -> Leaf {
    use serde_json::json;
    let vals: Vec<Option<serde_json::Value>> = vec![None, Some(json!(1)), Some(json!("t")), Some(json!([1, "a", [true]])), Some(json!(null)), Some(json!({"a": 1}))];
    let replies = (0..2).map(|_| (ch.choose(4) as u8, ch.pick(&vals).clone())).collect();
    let targets = [t("a"), ml(vec![t("a"), t("b")]), ml(vec![]), ml(vec![n(1.0)]), n(1.0), bo(true)];
    let (t1, t2) = (ch.of(&targets), ch.of(&targets[..3]));
    let bad = ch.flag();
    let s1 = on_flag(vec![try_(vec![set("x", send_wait("m", vec![("k", v("x")), ("l", l2(bad))], t1))], "err", vec![rsys("err", vec![v("err")])]), rsys("first", vec![v("x")])]);
    let s2 = on_flag(vec![try_(vec![set("y", send_wait("m", vec![], t2))], "err", vec![rsys("err", vec![v("err")])]), rsys("second", vec![v("y")])]);
    diff(prog(nums(&["x", "y", "err"]), vec![], vec![s1, s2]), Scn { replies, cap_events: 60, ..Default::default() }, cx)
}
fn l2(bad: bool) -> Expr { ml(vec![t("p"), ml(vec![n(1.0), if bad { ring(&[], &[], vec![]) } else { bo(false) }])]) }
pub fn check(quick: bool) -> Check {
    let mut p = vec![
        phase("two calls", "every pair of 15 call kinds x pending polls 0..2 x 5 kinds of answer each x 4 error schemes x handled or not, beside another running script", |ch, cx| calls(ch, cx, 2, true)),
        phase("two scripts", "every pair of call kinds in two scripts x pending polls 0..3 x success/failure of three calls x soft/hard", pair),
        phase("replies", "two scripts waiting for replies x pending polls 0..3 x 6 replies each x target forms", replies),
    ];
    if !quick { p.push(phase("three calls", "every triple of call kinds x pending polls x answers x schemes", |ch, cx| calls(ch, cx, 3, true))); }
    Check::new("E06", TRACES, p)
}
