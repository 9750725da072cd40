//! S01: broadcasts start every matching receiver exactly once, afresh.
use super::common::*;
use super::sched::{self, A};

/// one or two broadcasting scripts, five receivers with different hats on three sprites
fn matrix(ch: &mut Chooser, cx: &Ctx, second: bool) -> Leaf {
    let sends = |w: bool| vec![A::B("m", w), A::B("n", w), A::B("k", w), A::To("m", 0, w), A::To("m", 1, w), A::To("m", 2, w), A::To("m", 3, w), A::To("n", 4, w), A::To("m", 6, w), A::To("n", 7, w)];
    let mut a = sends(false);
    a.extend(sends(true));
    let pre = ch.choose(3);
    let mut one: Vec<A> = vec![A::Y; pre];
    one.push(ch.of(&a));
    let mut two = vec![A::Nop];
    if second { two = vec![A::Y; ch.choose(3)]; two.push(ch.of(&a)); } else { one.push(*ch.pick(&[A::Nop, A::B("m", false), A::B("m", true), A::To("m", 1, false)])); }
    let rb = [vec![A::Read], vec![A::Read, A::Y], vec![A::L2, A::Read], vec![A::Read, A::B("k", false), A::Read], vec![A::Throw], vec![A::Y, A::StopThis]];
    let k = if second { 3 } else { 6 };
    let r = |ch: &mut Chooser, id: &str| sched::stmts(id, &rb[ch.choose(k)]);
    let sp = vec![on_flag(sched::stmts("a", &one)), on_msg("m", r(ch, "Sm")), on_any_msg(if second { sched::stmts("S*", &[A::Read, A::Y]) } else { r(ch, "S*") })];
    let ot = vec![on_msg("n", sched::stmts("On", &[A::Read, A::Y])), on_msg("m", r(ch, "Om")), on_flag(sched::stmts("b", &two))];
    let st = vec![on_any_msg(if second { sched::stmts("G*", &[A::Read, A::L2]) } else { r(ch, "G*") }), on_msg("M", sched::stmts("GM", &[A::Read]))];
    diff(sched::world(st, sp, ot), Scn { cap_events: 70, ..Default::default() }, cx)
}
/// receivers that broadcast themselves, including their own message, in every way
fn chain(ch: &mut Chooser, cx: &Ctx, len: usize) -> Leaf {
    let a = [A::Nop, A::Y, A::L2, A::B("m", false), A::B("m", true), A::B("n", false), A::B("n", true), A::To("m", 1, true), A::To("n", 7, false), A::CallB("m", true), A::WarpB("m", false), A::WarpB("n", true), A::TellB("m", false), A::TellB("n", true), A::TryB, A::BMsg(false), A::BMsg(true)];
    let m = sched::body(ch, "m", &a, len);
    let nn = sched::body(ch, "n", &a, len);
    let o = sched::stmts("o", &[A::Read, A::L2]);
    let first = ch.choose(2);
    let sp = vec![on_flag(sched::stmts("a", if first == 0 { &[A::B("m", false), A::L2] } else { &[A::B("m", true), A::Read] })), on_msg("m", m), on_msg("n", nn)];
    diff(sched::world(vec![], sp, vec![on_msg("m", o)]), Scn { cap_events: 60, ..Default::default() }, cx)
}
/// clones made before and between broadcasts
fn clones(ch: &mut Chooser, cx: &Ctx) -> Leaf {
    let a = [A::Nop, A::Y, A::Clone(0), A::Clone(1), A::Clone(2), A::Clone(3), A::B("m", false), A::B("m", true), A::To("m", 5, true), A::To("m", 8, false), A::To("m", 1, true)];
    let r = [A::Nop, A::Y, A::Del, A::L2, A::B("n", true), A::Clone(2), A::SetF];
    let b = sched::body(ch, "a", &a, 4);
    let sp = vec![on_flag(b), on_msg("m", sched::body(ch, "Sm", &r, 1)), on_msg("n", sched::stmts("Sn", &[A::SetF]))];
    let ot = vec![on_msg("m", sched::body(ch, "Om", &r, 1))];
    diff(sched::world(vec![on_msg("m", sched::stmts("Gm", &[A::Read]))], sp, ot), Scn { cap_events: 60, ..Default::default() }, cx)
}
/// message names and target values of other kinds
fn odd(ch: &mut Chooser, cx: &Ctx) -> Leaf {
    let names = [t("m"), n(1.0), n(1.5), t(""), bo(true), ml(vec![]), t("any message"), t("M"), t(" m"), t("1"), this(), t("\u{e9}"), t("e\u{301}")];
    let to = [None, Some(ent("Sprite")), Some(ml(vec![])), Some(t("Sprite")), Some(n(0.0)), Some(ml(vec![ent("Sprite"), t("Other")])), Some(ml(vec![ml(vec![ent("Sprite")])])), Some(this()), Some(v("kid"))];
    let m = ch.of(&names);
    let to = ch.of(&to);
    let w = ch.flag();
    let st = match to { None => bcast(m, w), Some(x) => bcast_to(m, x, w) };
    let b = vec![try_(vec![st, rsys("sent", vec![])], "err", vec![rsys("caught", vec![v("err")])]), rsys("end", vec![])];
    let hats = ["m", "1", "1.5", "", "M", " m", "any message", "\u{e9}", "e\u{301}"];
    let mut sp = vec![on_flag(b)];
    for (i, h) in hats.iter().enumerate() { sp.push(on_msg(h, sched::stmts(&format!("r{i}"), &[A::Read]))); }
    sp.push(on_any_msg(sched::stmts("r*", &[A::Read])));
    diff(sched::world(vec![], sp, vec![]), Scn { cap_events: 60, ..Default::default() }, cx)
}
pub fn check(quick: bool) -> Check {
    let mut p = vec![
        phase("one sender", "one script broadcasting (20 kinds, after 0..2 turns, followed by 4 kinds) x 4 receivers on 3 sprites x 6 receiver bodies each, plus 2 fixed receivers", |ch, cx| matrix(ch, cx, false)),
        phase("two senders", "two scripts broadcasting (20 kinds each, after 0..2 turns) x 2 receivers x 3 bodies, plus 4 fixed receivers", |ch, cx| matrix(ch, cx, true)),
        phase("receivers that broadcast", "two receivers with every sequence of 2 of 17 actions (own message, other message, with and without waiting, from warp, blocks, tell, try) x 2 starters", |ch, cx| chain(ch, cx, 2)),
        phase("clones", "every sequence of 4 of 11 clone/broadcast actions x 7 receiver actions on two sprites", clones),
        phase("odd names and targets", "13 message values x 9 target values x wait, 10 hats", odd),
    ];
    if !quick { p.push(phase("receivers that broadcast, long", "as above with sequences of 3 actions", |ch, cx| chain(ch, cx, 3))); }
    Check::new("S01", TRACES, p)
}
