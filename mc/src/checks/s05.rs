//! S05: clones.
use super::common::*;
use super::sched::{self, A};

const C: [A; 11] = [A::Nop, A::Y, A::Clone(0), A::Clone(1), A::Clone(2), A::Clone(3), A::Clone(5), A::SetF, A::B("m", true), A::CapF, A::UseCap];
fn make(ch: &mut Chooser, cx: &Ctx, len: usize) -> Leaf {
    let k = [A::Nop, A::SetF, A::Y, A::Del, A::Throw, A::Launch, A::LaunchDel, A::UseCap];
    let b = sched::body(ch, "a", &C, len);
    let sp = vec![on_flag(b), on_clone(sched::body(ch, "c", &k, 2)), on_msg("m", sched::stmts("m", &[A::SetF]))];
    let ot = vec![on_clone(sched::body(ch, "d", &k, 1)), on_msg("m", sched::stmts("o", &[A::SetF]))];
    diff(sched::world(vec![], sp, ot), Scn { cap_events: 60, ..Default::default() }, cx)
}
/// deletion of clones, by whom and when, with everything they run
fn deletion(ch: &mut Chooser, cx: &Ctx) -> Leaf {
    let k = [A::Forever, A::L2, A::Sleep, A::B("m", true), A::Pending, A::LaunchLoop, A::Del, A::Clone(2), A::TellL(1)];
    let who = [A::TellDel, A::B("die", false), A::B("die", true), A::Del, A::To("die", 5, true), A::Nop];
    let mut b = vec![A::Clone(ch.choose(2))];
    if ch.flag() { b.push(A::Clone(3)); }
    b.extend(vec![A::Y; ch.choose(3)]);
    b.push(ch.of(&who));
    b.push(A::To("m", 5, true));
    b.push(A::Y);
    let (x, y) = (sched::body(ch, "c", &k, 2), sched::body(ch, "d", &k, 1));
    let die = ch.choose(2);
    let dd = |id: &str| on_msg("die", sched::stmts(id, if die == 0 { &[A::Del] } else { &[A::CallStop(3), A::LaunchDel, A::Y, A::Read] }));
    let teller = if ch.flag() { on_flag(sched::stmts("T", &[A::Y, A::TellL(5), A::TellL(5)])) } else { on_key("z", vec![]) };
    let sp = vec![on_flag(sched::stmts("a", &b)), teller, on_clone(x), dd("Sd"), on_msg("m", sched::stmts("Sm", &[A::SetF]))];
    let ot = vec![on_clone(y), dd("Od")];
    diff(sched::world(vec![], sp, ot), Scn { cap_events: 60, plan: vec![(2, Ans::Default); 3], after: 300, ..Default::default() }, cx)
}
/// own copies of variables, properties and costume; the parent's values at that moment
fn state(ch: &mut Chooser, cx: &Ctx) -> Leaf {
    use std::rc::Rc as R;
    let probe = |id: &str| vec![rsys(id, vec![v("fld"), v("lst"), e(ExprKind::XPos), e(ExprKind::Heading), e(ExprKind::Size), e(ExprKind::Costume), this()])];
    let mut change = |ch: &mut Chooser, id: f64| -> Vec<Stmt> {
        match ch.choose(9) {
            0 => vec![],
            1 => vec![set("fld", n(id))],
            2 => vec![push(v("lst"), n(id))],
            3 => vec![set("lst", ml(vec![n(id)]))],
            4 => vec![s(StmtKind::SetX { value: bx(n(id)) })],
            5 => vec![s(StmtKind::SetCostume { costume: bx(t("c2")) })],
            6 => vec![s(StmtKind::SetHeading { value: bx(n(id)) }), s(StmtKind::ChangeSize { delta: bx(n(id)) })],
            7 => vec![s(StmtKind::NextCostume)],
            _ => vec![chg("fld", n(id)), s(StmtKind::ChangeX { delta: bx(n(id)) })],
        }
    };
    let cap = ch.flag();
    let mut b = if cap { vec![set("cap", ring(&[], &["fld"], vec![chg("fld", n(50.0)), ret(v("fld"))])), crate::b::show("lst")] } else { vec![] };
    b.extend(change(ch, 1.0));
    b.push(set("kid", clone_of(this())));
    b.extend(change(ch, 2.0));
    b.extend(probe("parent"));
    let mut inner = change(ch, 3.0);
    inner.extend(probe("kid"));
    b.push(tell(v("kid"), ring(&[], &[], inner), vec![]));
    b.extend(probe("parent"));
    if cap { b.push(rsys("captured", vec![call(v("cap"), vec![])])); b.push(tell(v("kid"), ring(&[], &[], vec![set("cap2", ring(&[], &["fld"], vec![chg("fld", n(60.0)), ret(v("fld"))]))]), vec![])); }
    b.push(set("kid2", clone_of(v("kid"))));
    if cap { b.push(rsys("captured", vec![call(v("cap2"), vec![]), call(v("cap"), vec![])])); }
    let mut inner = change(ch, 4.0);
    inner.extend(probe("kid2"));
    b.push(tell(v("kid2"), ring(&[], &[], inner), vec![]));
    b.push(tell(v("kid"), ring(&[], &[], probe("kid again")), vec![]));
    b.extend(probe("parent"));
    let img = |k: u8| Value::Image(R::new((vec![k, 1, 2], None, format!("c{k}").as_str().into())));
    let mut r = sched::world(vec![], vec![on_flag(b)], vec![on_flag(vec![wait0(), wait0(), wait0(), rsys("other", vec![v("fld"), e(ExprKind::XPos)])])]);
    r.globals.extend(nums(&["kid2", "cap2"]));
    let sp = &mut r.entities[1];
    sp.fields.push(init("lst", nlist(&[7.0])));
    sp.costumes = vec![init("c1", img(1)), init("c2", img(2)), init("c3", img(3))];
    sp.active_costume = Some(ch.choose(2) + 1);
    sp.pos = (11.0, 12.0);
    sp.heading = 33.0;
    sp.scale = 0.5;
    diff(r, Scn { cap_events: 80, ..Default::default() }, cx)
}
/// hats of clones
fn hats(ch: &mut Chooser, cx: &Ctx) -> Leaf {
    let ins = [In::Start, In::Key(KeyCode::Char('a')), In::Custom { name: "ev".into(), args: vec![], interrupt: true, max_queue: 0 }, In::Stop];
    let b = sched::stmts("a", &[A::Clone(ch.choose(2)), if ch.flag() { A::Clone(3) } else { A::Nop }, A::B("m", false)]);
    let all = |id: &str, ch: &mut Chooser| vec![on_key("a", sched::stmts(&format!("{id}k"), &[A::SetF, [A::Nop, A::Del, A::Y][ch.choose(3)]])), on_custom("ev", &[], sched::stmts(&format!("{id}e"), &[A::SetF])), on_clone(sched::stmts(&format!("{id}c"), &[A::SetF])), on_net("n", &["f"], sched::stmts(&format!("{id}n"), &[A::SetF])), on_msg("m", sched::stmts(&format!("{id}m"), &[A::SetF])), on_flag(sched::stmts(&format!("{id}f"), &[A::Y]))];
    let mut sp = vec![on_key("s", b)];
    sp.extend(all("S", ch));
    let ot = all("O", ch);
    let mut inputs = vec![(0, In::Key(KeyCode::Char('s')))];
    let mut at = 0;
    for _ in 0..2 { at += 8 + ch.choose(4) * 4; inputs.push((at, ch.of(&ins))); }
    let msgs = if ch.flag() { vec![(14, sched::msg("n", &[("f", 1.0)], 0)), (40, sched::msg("n", &[("f", 1.0)], 0))] } else { vec![] };
    diff(sched::world(vec![], sp, ot), Scn { inputs, msgs, cap_events: 90, ..Default::default() }, cx)
}
/// odd clone targets, and deletion blocks in non-clones
fn odd(ch: &mut Chooser, cx: &Ctx) -> Leaf {
    let xs = [this(), ent("Stage"), ent("Other"), t("Other"), t("myself"), n(1.0), ml(vec![this()]), v("kid"), bo(true)];
    let x = ch.of(&xs);
    let where_ = ch.choose(3);
    let st = match ch.choose(3) { 0 => clone_(x), 1 => set("kid", clone_of(x)), _ => delete_clone() };
    let b = vec![try_(vec![st, rsys("ok", vec![v("kid")])], "err", vec![rsys("caught", vec![v("err")])]), rsys("end", vec![v("kid"), is(v("kid"), this()), eq(v("kid"), v("kid"))]), delete_clone(), rsys("end", vec![])];
    let c = on_clone(vec![rsys("born", vec![this(), v("fld")])]);
    let mut w = [vec![c.clone()], vec![c.clone()], vec![c]];
    w[where_].push(on_flag(b));
    let [s, p, o] = w;
    diff(sched::world(s, p, o), Scn { cap_events: 40, ..Default::default() }, cx)
}
pub fn check(quick: bool) -> Check {
    let mut p = vec![
        phase("making clones", "every sequence of 3 of 11 clone actions x every pair of 8 actions in clone-start scripts of one sprite, every one in another", |ch, cx| make(ch, cx, 3)),
        phase("deleting clones", "clones and clones of clones deleted by themselves, others, launched scripts, broadcasts, while running every pair of 9 activities, with or without another script working for the clone", deletion),
        phase("state of clones", "fields captured by rings and watchers before cloning or not; 9 changes of variables, lists, properties, costume before and after cloning, in the clone, and in a clone of the clone", state),
        phase("hats of clones", "2 inputs of 4 kinds at 4 points, network messages; clones and clones of clones with every hat", hats),
        phase("odd targets", "9 clone targets x 3 blocks x 3 sprites", odd),
    ];
    if !quick { p.push(phase("making clones, long", "as the first phase with sequences of 4", |ch, cx| make(ch, cx, 4))); }
    Check::new("S05", TRACES, p)
}
