//! S08: a failing script affects no other script.
use super::common::*;
use super::sched::{self, A};

fn fails() -> Vec<Vec<Stmt>> {
    let deep = |st: Stmt| vec![warp(vec![repeat(n(3.0), vec![run(ring(&[], &[], vec![foreach("it", ml(vec![n(1.0)]), vec![st.clone()])]), vec![])])])];
    vec![
        vec![throw(t("boom"))],
        vec![set("x", add(n(1.0), div(n(1.0), t("no"))))],
        vec![set("x", v("undefined name"))],
        vec![set("x", callf("stop1", vec![]))],
        vec![rsys("fail", vec![])],
        vec![set("x", sys("fail", vec![]))],
        deep(throw(t("deep"))),
        deep(push(n(1.0), n(2.0))),
        vec![try_(vec![throw(t("a"))], "err", vec![throw(t("b"))])],
        vec![bcast(ml(vec![]), true)],
        vec![set("x", map(ring(&["q"], &[], vec![throw(t("m"))]), ml(vec![n(1.0), n(2.0)])))],
        vec![run(ring(&["q"], &[], vec![]), vec![])],
        vec![wait(t("x"))],
        vec![tell(ent("Other"), ring(&[], &[], vec![throw(t("told"))]), vec![])],
        vec![set("x", range(n(1.0), t("z")))],
        vec![launch(ring(&[], &[], vec![throw(t("forked"))]), vec![]), wait0(), throw(t("after"))],
    ]
}
/// a failing script in every role, beside others that wait for it, restart it, or just run
fn roles(ch: &mut Chooser, cx: &Ctx) -> Leaf {
    let fs = fails();
    let f = ch.of(&fs);
    let mut b = vec![rsys("f0", vec![])];
    for _ in 0..ch.choose(3) { b.push(wait0()); }
    b.extend(f);
    b.push(rsys("never", vec![]));
    let hat = ch.choose(6);
    let mut sp = vec![];
    let waiter = ch.of(&[A::L2, A::B("m", true), A::To("m", 1, true), A::CallB("m", true), A::TryB]);
    sp.push(on_flag(sched::stmts("w", &[waiter, A::Y])));
    sp.push(on_flag(sched::stmts("v", &[ch.of(&[A::L2, A::Sleep, A::Forever, A::Clone(1)]), A::Y])));
    let on_other = ch.flag();
    let script = match hat { 0 => on_flag(b), 1 => on_msg("m", b), 2 => on_key("a", b), 3 => on_net("a", &["q"], b), 4 => on_custom("ev", &[], b), _ => on_clone(b) };
    let mut ot = vec![on_msg("m", sched::stmts("m", &[A::Y]))];
    if on_other { ot.insert(0, script); } else { sp.insert(1, script); sp.push(on_flag(sched::stmts("k", &[A::Clone(2)]))); }
    let ev = In::Custom { name: "ev".into(), args: vec![], interrupt: false, max_queue: 2 };
    let inputs = match hat { 2 => vec![(0, In::Start), (1, In::Key(KeyCode::Char('a'))), (3, In::Key(KeyCode::Char('a'))), (30, In::Key(KeyCode::Char('a')))], 4 => vec![(0, In::Start), (1, ev.clone()), (1, ev.clone()), (2, ev.clone()), (30, ev)], _ => vec![(0, In::Start), (24, In::Start)] };
    let msgs = if hat == 3 { (0..3).map(|i| (1 + 2 * i, sched::msg("a", &[], i))).collect() } else { vec![] };
    let mut r = sched::world(vec![], sp, ot);
    r.globals.extend(nums(&["it"]));
    diff(r, Scn { inputs, msgs, cap_events: 60, after: 300, ..Default::default() }, cx)
}
/// several scripts failing at the same time
fn many(ch: &mut Chooser, cx: &Ctx) -> Leaf {
    let a = [A::Throw, A::Bad, A::L2, A::B("m", true), A::Y, A::Clone(2), A::Launch, A::TryThrow];
    let (x, y) = (sched::body(ch, "x", &a, 2), sched::body(ch, "y", &a, 2));
    let (m, c) = (sched::body(ch, "m", &[A::Throw, A::Nop, A::Y], 2), sched::body(ch, "c", &[A::Throw, A::Nop, A::B("m", false)], 1));
    diff(sched::world(vec![], vec![on_flag(x), on_clone(c)], vec![on_flag(y), on_msg("m", m)]), Scn { inputs: vec![(0, In::Start), (25, In::Start)], cap_events: 60, ..Default::default() }, cx)
}
/// failing at the host, in every stage of a call
fn host(ch: &mut Chooser, cx: &Ctx, planned: usize) -> Leaf {
    let a = [A::Pending, A::Rpc, A::Ask, A::Glide, A::L2, A::SendW];
    let mk = |ch: &mut Chooser, id: &str| sched::stmts(id, &[ch.of(&a), ch.of(&a)]);
    let (x, y) = (mk(ch, "x"), mk(ch, "y"));
    let mut plan = vec![];
    for _ in 0..planned { plan.push((ch.choose(2) as u8, match ch.choose(4) { 0 => Ans::Default, 1 => Ans::Err("bad".into()), 2 => Ans::Refuse("no".into()), _ => Ans::PollErr("broken".into()) })); }
    diff(sched::world(vec![], vec![on_flag(x)], vec![on_flag(y)]), Scn { plan, rpc_soft: ch.flag(), cap_events: 50, after: 300, ..Default::default() }, cx)
}
pub fn check(quick: bool) -> Check {
    Check::new("S08", TRACES, vec![
        phase("failing roles", "16 kinds of failure after 0..2 turns in scripts of 6 hat kinds on 2 sprites x 5 waiting scripts x 4 bystanders; triggered again afterwards", roles),
        phase("several failures", "every pair of 8 actions in two scripts, receivers and clones that fail", many),
        if quick { phase("host failures", "every pair of 7 actions in two scripts x 4 outcomes x 2 delays of the first two calls", |ch, cx| host(ch, cx, 2)) } else { phase("host failures", "every pair of 7 actions in two scripts x 4 outcomes x 2 delays of the first four calls", |ch, cx| host(ch, cx, 4)) },
    ])
}
