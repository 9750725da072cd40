//! Programs of a few scripts over small alphabets of scheduling actions.
use super::common::*;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum A {
    Nop, Y, L2, W2, Throw, Ret, StopAll, StopThis, StopBlock, StopOthers, StopSprite,
    B(&'static str, bool), To(&'static str, usize, bool), BMsg(bool),
    Clone(usize), Del, Launch, LaunchLoop, LaunchDel, LaunchStop(usize), Set, SetF, CallStop(usize), RingStop(usize), TellStop(usize), CallB(&'static str, bool), WarpB(&'static str, bool), TellB(&'static str, bool), TellDel,
    TryThrow, TryB, Sleep, Ask, Pending, Reply(bool), Pause, Show, Hide, Forever, Until, Read, SendW, Rpc, Glide, Bad, TellL(usize), CapF, UseCap,
}
pub const MODES: [StopMode; 5] = [StopMode::All, StopMode::ThisScript, StopMode::AllButThisScript, StopMode::OtherScriptsInSprite, StopMode::ThisBlock];
fn log(id: &str, k: &str) -> Stmt { rsys(&format!("{id}{k}"), vec![]) }
pub fn targets(i: usize) -> Expr {
    match i { 0 => ent("Sprite"), 1 => ent("Other"), 2 => ent("Stage"), 3 => ml(vec![ent("Sprite"), ent("Other")]), 4 => ml(vec![]), 5 => v("kid"), 6 => ml(vec![ent("Other"), ent("Other"), this()]), 7 => this(), _ => ml(vec![v("kid"), ent("Stage")]) }
}
/// The statements of an action of script `id`.
pub fn act(a: A, id: &str) -> Vec<Stmt> {
    let l = |k: &str| log(id, k);
    match a {
        A::Nop => vec![],
        A::Y => vec![wait0()],
        A::L2 => vec![repeat(n(2.0), vec![l("+")])],
        A::W2 => vec![warp(vec![repeat(n(2.0), vec![l("w")])])],
        A::Forever => vec![forever(vec![l("~")])],
        A::Until => vec![chg("g", n(1.0)), until(ge(v("g"), n(3.0)), vec![l("u"), chg("g", n(1.0))])],
        A::Throw => vec![throw(t("oops"))],
        A::Bad => vec![set("x", div(n(1.0), t("no")))],
        A::Ret => vec![ret(t("done"))],
        A::StopAll => vec![stop(StopMode::All)],
        A::StopThis => vec![stop(StopMode::ThisScript)],
        A::StopBlock => vec![stop(StopMode::ThisBlock)],
        A::StopOthers => vec![stop(StopMode::AllButThisScript)],
        A::StopSprite => vec![stop(StopMode::OtherScriptsInSprite)],
        A::B(m, w) => vec![bcast(t(m), w)],
        A::BMsg(w) => vec![bcast(message(), w)],
        A::To(m, k, w) => vec![bcast_to(t(m), targets(k), w)],
        A::Clone(k) => vec![match k { 0 => set("kid", clone_of(this())), 1 => set("kid", clone_of(ent("Other"))), 2 => clone_(this()), 3 => set("kid", clone_of(v("kid"))), 4 => clone_(ent("Sprite")), 5 => clone_(v("kid")), _ => clone_(ent("Other")) }],
        A::Del => vec![delete_clone()],
        A::Launch => vec![launch(ring(&["q"], &["g"], vec![rsys(&format!("{id}f"), vec![v("q")]), chg("g", n(10.0)), repeat(n(1.0), vec![]), l("F")]), vec![v("g")])],
        A::LaunchLoop => vec![launch(ring(&[], &[], vec![repeat(n(2.0), vec![l("f")])]), vec![])],
        A::LaunchDel => vec![launch(ring(&[], &[], vec![l("f"), delete_clone(), l("F")]), vec![])],
        A::LaunchStop(k) => vec![launch(ring(&[], &[], vec![l("f"), stop(MODES[k].clone()), l("F")]), vec![])],
        A::Set => vec![chg("g", n(1.0)), rsys(&format!("{id}g"), vec![v("g")])],
        A::SetF => vec![chg("fld", n(1.0)), rsys(&format!("{id}fld"), vec![v("fld"), this()])],
        A::CallStop(k) => vec![set("x", callf(&format!("stop{k}"), vec![]))],
        A::RingStop(k) => vec![run(ring(&[], &[], vec![stop(MODES[k].clone()), l("r")]), vec![])],
        A::TellStop(k) => vec![tell(ent("Other"), ring(&[], &[], vec![stop(MODES[k].clone()), l("r")]), vec![])],
        A::CallB(m, w) => vec![runf("bcast", vec![t(m), bo(w)])],
        A::WarpB(m, w) => vec![warp(vec![bcast(t(m), w), l("b"), repeat(n(1.0), vec![])])],
        A::TellB(m, w) => vec![tell(ent("Other"), ring(&[], &[], vec![bcast(t(m), w), l("r")]), vec![])],
        A::TellDel => vec![tell(v("kid"), ring(&[], &[], vec![delete_clone(), l("r")]), vec![])],
        A::TryThrow => vec![try_(vec![throw(t("oops"))], "err", vec![l("c")])],
        A::TryB => vec![try_(vec![bcast(t("m"), true), throw(t("oops"))], "err", vec![l("c"), wait0()])],
        A::Sleep => vec![wait(n(1.0))],
        A::Ask => vec![ask(t("?"))],
        A::Pending => vec![say(t(id))],
        A::Reply(twice) => { let mut b = vec![reply(t(id))]; if twice { b.push(reply(t("again"))); } b }
        A::Pause => vec![pause()],
        A::Show => vec![crate::b::show("g")],
        A::Hide => vec![hide("g")],
        A::Read => vec![rsys(&format!("{id}m"), vec![message()])],
        A::SendW => vec![set("x", send_wait("net", vec![("f", t(id))], t("them")))],
        A::Rpc => vec![set("x", rpc("get", vec![]))],
        A::TellL(k) => vec![tell(targets(k), ring(&[], &[], vec![repeat(n(2.0), vec![l("t")])]), vec![])],
        A::CapF => vec![set("cap", ring(&[], &["fld"], vec![chg("fld", n(5.0)), ret(v("fld"))]))],
        A::UseCap => vec![if_(neq(v("cap"), n(0.0)), vec![rsys(&format!("{id}cap"), vec![call(v("cap"), vec![])])])],
        A::Glide => vec![say_for(t(id), n(1.0))],
    }
}
/// `len` actions of the alphabet, an effect after each.
pub fn body(ch: &mut Chooser, id: &str, alpha: &[A], len: usize) -> Vec<Stmt> { let b = acts(ch, alpha, len); stmts(id, &b) }
pub fn acts(ch: &mut Chooser, alpha: &[A], len: usize) -> Vec<A> {
    let mut v = vec![];
    for _ in 0..len { let a = *ch.pick(alpha); v.push(a); if matches!(a, A::Throw | A::Ret | A::StopAll | A::StopThis | A::StopBlock | A::Forever | A::Bad) { break; } }
    v
}
pub fn stmts(id: &str, b: &[A]) -> Vec<Stmt> {
    let mut v = vec![log(id, "0")];
    for (i, a) in b.iter().enumerate() { v.extend(act(*a, id)); if *a != A::Nop || i == 0 { v.push(log(id, &(i + 1).to_string())); } }
    v
}
pub fn fns() -> Vec<netsblox_vm::ast::Function> {
    let mut f: Vec<_> = MODES.iter().enumerate().map(|(k, m)| func(&format!("stop{k}"), &[], vec![stop(m.clone()), rsys("in block", vec![])])).collect();
    f.push(func("bcast", &["m", "w"], vec![ifelse(v("w"), vec![bcast(v("m"), true)], vec![bcast(v("m"), false)]), rsys("sent", vec![v("m")])]));
    f
}
/// Stage, Sprite, Other with these scripts; field fld, globals g, x, kid (initially the text "none").
pub fn world(stage: Vec<Script>, sprite: Vec<Script>, other: Vec<Script>) -> Role {
    let mut g = nums(&["g", "x", "err", "cap"]);
    g.push(init("kid", Value::String("none".into())));
    let f = |k: f64| vec![init("fld", Value::Number(k))];
    role(g, fns(), vec![entity("Stage", f(100.0), vec![], stage), entity("Sprite", f(200.0), vec![], sprite), entity("Other", f(300.0), vec![], other)])
}
pub fn msg(ty: &str, vals: &[(&str, f64)], id: usize) -> Msg {
    Msg { ty: ty.into(), values: vals.iter().map(|(k, x)| (k.to_string(), SimpleValue::Number(crate::host::num(*x)))).collect(), reply: Some(("client".into(), format!("r{id}"))) }
}
