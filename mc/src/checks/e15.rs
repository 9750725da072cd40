//! E15: what is no longer in use is given back.
use super::common::*;
use crate::vm;
use super::sched::{self, A};
use netsblox_vm::ast::HatKind;

fn lit(x: &Value) -> Expr { match x {
    Value::Number(x) => n(*x), Value::String(x) => t(x), Value::Bool(x) => bo(*x),
    Value::List(x, _) => ml(x.iter().map(lit).collect()),
    _ => n(0.0),
} }
fn resets(v: &[VariableDefInit]) -> Vec<Stmt> { v.iter().map(|g| set(&g.def.name, lit(&g.init))).collect() }
fn judge(what: &str, m: &[isize], early: std::ops::Range<usize>, late: std::ops::Range<usize>) -> Option<String> {
    let hi = m[early.clone()].iter().max().unwrap();
    let lo = m[late.clone()].iter().min().unwrap();
    if lo > hi { Some(format!("bytes in use {what}: {m:?} (at least {lo} in {late:?}, at most {hi} in {early:?})")) } else { None }
}
fn leaf(role: &Role, scn: &Scn, cx: &Ctx, m: &[isize], steps: u64, bad: Option<String>, key: Option<String>) -> Leaf {
    if let Some(why) = bad { return Leaf::fail(key.unwrap_or_else(|| format!("{:016x}", h64(&format!("{:?}{:?}", role, scn)))), format!("{}scenario {:?}\n{why}", show(role), scn)); }
    let base = m.first().copied().unwrap_or(0);
    let mut l = Leaf::ok({ let k = h64(&format!("{role:?}")); let mut d: Vec<u64> = m.iter().map(|x| h64(&(k, x - base))).collect(); d.sort(); d.dedup(); d }, steps);
    if cx.verbose { l.desc = Some(format!("{}scenario {:?}\n--- bytes in use {m:?}", show(role), scn)); }
    l
}
/// The scenario again and again; between the rounds everything is stopped, clones are deleted, variables get their first values again.
pub fn rounds(mut role: Role, mut scn: Scn, cx: &Ctx) -> Leaf {
    let any = |k: fn(&HatKind) -> bool| role.entities.iter().any(|e| e.scripts.iter().any(|s| s.hat.as_ref().is_some_and(|h| k(&h.kind))));
    if any(|k| matches!(k, HatKind::LocalMessage { msg_type: None })) { return Leaf::skip(); } // would run at the clean-up as well
    for (i, e) in role.entities.iter_mut().enumerate() {
        let mut b = resets(&e.fields);
        b.push(delete_clone());
        e.scripts.push(on_msg("@bye", b));
        if i == 0 { let mut b = vec![bcast(t("@bye"), true)]; b.extend(resets(&role.globals)); e.scripts.push(on_custom("@cleanup", &[], b)); }
    }
    scn.cap_events = scn.cap_events.min(60);
    scn.cap_quiet = 300;
    scn.final_state = false;
    let scn = Rc::new(scn);
    match vm::memory_by_rounds(&role, &scn, 26) {
        Ok((m, steps)) => { let bad = judge("after each round, everything stopped and cleaned up", &m, 6..11, 20..26); leaf(&role, &scn, cx, &m, steps, bad, None) }
        Err(e) => leaf(&role, &scn, cx, &[], 0, Some(e), None),
    }
}
/// The scripts of the flag go round for ever; variables get their first values again each time.
/// Scripts that leave are put into a ring, the errors of which are caught.
pub fn ticks(role: Role, scn: Scn, cx: &Ctx) -> Leaf {
    if format!("{role:?}").contains("Clone {") { return Leaf::skip(); } // clones that stay take memory
    ticks_of(role, scn, cx)
}
fn ticks_of(role: Role, mut scn: Scn, cx: &Ctx) -> Leaf {
    scn.cap_events = usize::MAX;
    scn.final_state = false;
    scn.msgs = vec![];
    scn.inputs.truncate(1);
    let scn = Rc::new(scn);
    let mut steps = 0;
    for wrapped in [false, true] {
        let role = looping(role.clone(), wrapped);
        match vm::memory_by_ticks(&role, &scn, 28, 40_000) {
            Ok((m, k)) => {
                steps += k;
                if m.len() < 28 { continue; }
                let bad = judge("each time round", &m, 5..10, 20..28);
                return leaf(&role, &scn, cx, &m, steps, bad, None);
            }
            Err(e) => return leaf(&role, &scn, cx, &[], 0, Some(e), None),
        }
    }
    Leaf::skip()
}
fn looping(mut role: Role, wrapped: bool) -> Role {
    let globals = resets(&role.globals);
    role.globals.push(init("@err", Value::Number(0.0)));
    let mut first = true;
    for e in role.entities.iter_mut() {
        let fields = resets(&e.fields);
        for s in e.scripts.iter_mut() {
            if !s.hat.as_ref().is_some_and(|h| matches!(h.kind, HatKind::OnFlag)) { continue; }
            let mut b = vec![];
            if first { b.extend(globals.clone()); }
            b.extend(fields.clone());
            if wrapped { b.push(try_(vec![run(ring(&[], &[], std::mem::take(&mut s.stmts)), vec![])], "@err", vec![])); } else { b.append(&mut s.stmts); }
            if first { b.push(rsys("@tick", vec![])); }
            first = false;
            s.stmts = vec![forever(b)];
        }
    }
    role
}
/// clones that live for a while and delete themselves, or are deleted
fn clones(ch: &mut Chooser, cx: &Ctx) -> Leaf {
    let alpha = [A::Nop, A::Y, A::L2, A::W2, A::B("m", false), A::B("m", true), A::Launch, A::LaunchLoop, A::Set, A::SetF, A::CapF, A::Show, A::Rpc, A::Ask, A::TryThrow, A::TellL(1), A::CallB("m", true), A::StopSprite];
    let mut life = sched::body(ch, "k", &alpha, 2);
    let how = ch.choose(5);
    let recv = match ch.choose(3) { 0 => vec![], 1 => vec![on_msg("m", vec![rsys("m", vec![])])], _ => vec![on_msg("m", vec![repeat(n(2.0), vec![rsys("m", vec![])])])] };
    let waits = vec![wait0(); ch.choose(3)];
    let mut b = match how {
        0 => { life.push(delete_clone()); vec![clone_(this())] }
        1 => { life.push(delete_clone()); vec![set("kid", clone_of(this())), wait0(), set("kid", n(0.0))] }
        2 => vec![set("kid", clone_of(this())), wait0(), tell(v("kid"), ring(&[], &[], vec![delete_clone()]), vec![])],
        3 => { life.push(launch(ring(&[], &[], vec![delete_clone()]), vec![])); life.push(forever(vec![chg("g", n(1.0))])); vec![clone_(this())] }
        _ => { life.push(bcast(t("die"), false)); life.push(forever(vec![wait0()])); vec![set("kid", clone_of(this())), wait0()] }
    };
    b.extend(waits);
    let mut sp = vec![on_flag(b), on_clone(life)];
    sp.extend(recv);
    if how == 4 { sp.push(on_msg("die", vec![delete_clone()])); }
    ticks_of(sched::world(vec![], sp, vec![on_msg("m", vec![rsys("o", vec![])])]), Scn::default(), cx)
}
pub fn check(quick: bool) -> Check {
    let mut p = super::e14::take(Ask::Rounds, &[
        ("S10", &["captures", "nested launches", "odd rings", "outliving"]), ("S05", &["state of clones", "odd targets"]), ("S04", &["queued events"]), ("S03", &["arrival at every step"]),
        ("S07", &["keys", "arguments"]), ("S09", &["reports"]), ("E05", &["chains of 3", "recursion"]), ("E03", &["errors in operands"]),
    ]);
    p.extend(super::e14::take(Ask::Ticks, &[
        ("E01", &["operands", "nested operands", "loop bounds"]), ("E04", &["warp, chains 3"]), ("E03", &["errors in operands", "handlers, chains 3"]), ("E11", &["operands", "nested blocks"]),
        ("E12", &["lists of media", "sounds"]), ("S10", &["captures", "nested launches", "odd rings"]), ("E06", &["replies"]), ("V03", &["initial values", "sharing"]),
    ]));
    p.push(phase("clones that go", "18 x 18 actions of a clone deleted in 5 ways x 3 receiver scripts x 3 intervals, clones made for ever", clones));
    if !quick {
        p.extend(super::e14::take(Ask::Rounds, &[("E03", &["handlers, chains 3"]), ("S05", &["making clones", "deleting clones", "hats of clones"]), ("S04", &["clones", "stop blocks", "stop button", "stop inside blocks"]), ("S03", &["three messages"]), ("S02", &["clones"]), ("S08", &[]), ("E02", &["capture and upvars, length 4"])]));
        p.extend(super::e14::take(Ask::Ticks, &[("E04", &["warp, nested 2"]), ("E02", &["capture and upvars, length 4"]), ("E11", &["ring bodies", "pairs of actions"]), ("E12", &["two scripts", "changing costumes"]), ("V03", &["queries, two lists", "comparison, two lists"]), ("E05", &["chains of 3"]), ("E04", &["warp, nested 1"])]));
    }
    Check::new("E15", "state = distinct amount of memory in use by a program after a round; transition = one scheduler step of the real VM; trace validated = one program repeated and measured", p)
}
