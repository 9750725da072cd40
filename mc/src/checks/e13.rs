//! E13: a watcher shows the present value of the variable it was made for.
use super::common::*;
use crate::{refi, rv, vm};
use netsblox_vm::ast::Entity;

fn peek() -> Stmt { rsys("peek", vec![]) }
fn caught(x: Vec<Stmt>) -> Stmt { try_(x, "err", vec![rsys("caught", vec![v("err")])]) }
/// equal, but that a watcher of a local variable (marked in `b`) may be gone
fn same(a: &str, b: &str) -> bool {
    let (mut x, mut y) = (a.split(" | "), b.split(" | "));
    loop {
        match (x.next(), y.next()) {
            (None, None) => return true,
            (Some(p), Some(q)) => {
                let local = q.starts_with('~');
                let q = q.trim_start_matches('~');
                if p == q || local && p.ends_with(" = ?") && p.split(" = ").next().unwrap().split(" of ").next() == q.split(" of ").next() { continue; }
                return false;
            }
            _ => return false,
        }
    }
}
/// without and with collections at every step
fn follow(role: Role, scn: Scn, cx: &Ctx) -> Leaf {
    let scn = Rc::new(scn);
    let a = vm::run(&role, &scn);
    vm::collect_often(true);
    let b = vm::run(&role, &scn);
    vm::collect_often(false);
    let role = Rc::new(role);
    let mut want = refi::run(&role, &scn).trace;
    rv::reset();
    want.truncate(scn.cap_events);
    let mut desc = None;
    for (how, t) in [("never collecting", &a.trace), ("collecting after every step", &b.trace)] {
        let mut t = t.clone();
        t.truncate(scn.cap_events);
        let eq = t.len() == want.len() && t.iter().zip(&want).all(|(x, y)| same(x, y));
        let what = || format!("{}scenario {:?}\nimplementation, {how} / reference (~: may be gone)\n{}", show(&role), scn, side_by_side(&t, &want));
        if !eq { return Leaf::fail(format!("{:016x}", h64(&format!("{role:?}{scn:?}"))), what()); }
        if cx.verbose { desc = Some(what()); }
    }
    let mut l = Leaf::ok(histories(0, &a.trace), a.steps + b.steps);
    l.desc = desc;
    l
}
const ACTS: usize = 25;
/// `k` over the variable `x`; `i` makes the values differ
fn act(k: usize, x: &str, i: usize) -> Vec<Stmt> {
    let val = || n(i as f64 * 10.0 + 1.0);
    let show = crate::b::show;
    let watch = |x: &str| vec![show(x), set(x, n(i as f64 * 10.0 + 5.0)), peek()];
    match k {
        0 => vec![show(x)],
        1 => vec![hide(x)],
        2 => vec![set(x, val())],
        3 => vec![chg(x, n(0.5))],
        4 => vec![set(x, ml(vec![val()]))],
        5 => vec![push(v(x), val())],
        6 => vec![decl(&[x])],
        7 => vec![set("r", ring(&[], &[x], vec![set(x, val()), peek(), hide(x)]))],
        8 => vec![set("r", ring(&[], &[x], watch(x)))],
        9 => vec![run(v("r"), vec![])],
        10 => vec![launch(v("r"), vec![]), wait0(), wait0()],
        11 => vec![tell(ent("Other"), v("r"), vec![])],
        12 => vec![tell(ent("Other"), ring(&[], &[], watch(x)), vec![])],
        13 => vec![tell(v("kid"), ring(&[], &[], watch(x)), vec![])],
        14 => vec![s(StmtKind::CallFn { function: fref("up"), args: vec![t(x)], upvars: vec![vref(x)] })],
        15 => vec![runf(if x == "fld" { "pf" } else if x == "g" { "pg" } else { "px" }, vec![v(x)])],
        16 => vec![for_(x, n(1.0), n(2.0), vec![show(x), peek(), chg(x, n(0.25)), peek()])],
        17 => vec![foreach(x, ml(vec![t("a"), v(x)]), vec![show(x), peek()])],
        18 => vec![try_(vec![throw(t("thrown"))], x, vec![show(x), peek(), set(x, val())])],
        19 => vec![set("r2", map(ringe(&[x], &[], cat(vec![v(x), blkx()])), ml(vec![val(), v(x)])))],
        20 => vec![set("kid", clone_of(this()))],
        21 => vec![bcast(t("m"), true)],
        22 => vec![set(x, ask_of(ent("Other"), ringe(&[], &[], v(x)), vec![]))],
        23 => vec![runf("plain", vec![])],
        _ => vec![run(ring(&[x], &[], watch(x)), vec![v(x)])],
    }
}
fn blkx() -> Expr { t("!") }
fn world(script: Vec<Stmt>, one_name: bool) -> Role {
    let watch = |x: &str| vec![crate::b::show(x), chg(x, n(3.0)), peek()];
    let f = if one_name { "g" } else { "fld" };
    let mut r = prog(nums(&["g", "r", "r2", "kid", "err"]), vec![
        funcu("up", &["u"], &["u"], { let mut b = watch("u"); b.push(hide("u")); b.push(crate::b::show("u")); b }),
        func("pf", &["fld"], watch("fld")), func("pg", &["g"], watch("g")), func("px", &["x"], watch("x")),
        func("plain", &[], vec![caught(watch("g")), caught(watch("fld")), caught(watch("x"))]),
    ], vec![on_flag(script), on_msg("m", vec![crate::b::show(f), peek(), chg(f, n(7.0)), wait0(), chg("g", n(1.0)), hide("g")])]);
    r.entities[1].fields = vec![init(f, Value::Number(1.0))];
    r.entities.push(Entity { name: "Other".into(), trans_name: "Other".into(), fields: if one_name { vec![] } else { vec![init("fld", Value::Number(2.0))] }, scripts: vec![on_msg("m", vec![caught(watch(f))])], ..r.entities[1].clone() });
    r
}
fn actions(ch: &mut Chooser, cx: &Ctx, len: usize, one_name: bool) -> Leaf {
    let names: &[&str] = if one_name { &["g"] } else { &["g", "fld", "x"] };
    let mut b = if one_name { vec![] } else { vec![decl(&["x"])] };
    let first = *ch.pick(names);
    b.extend([crate::b::show(first), peek()]);
    for i in 0..len { let x = *ch.pick(names); b.push(caught(act(ch.choose(ACTS), x, i + 1))); b.push(peek()); }
    b.push(hide(first));
    b.push(peek());
    follow(world(b, one_name), Scn { watch: 1, cap_events: 120, ..Default::default() }, cx)
}
/// locals that a ring keeps: their watchers never go
fn kept(ch: &mut Chooser, cx: &Ctx) -> Leaf {
    let late = ch.flag(); // captured after it is shown
    let twice = ch.flag();
    let place = ch.choose(6);
    let keep = |x: &str| push(v("keep"), ring(&[], &[x], vec![chg(x, n(1.0)), ret(v(x))]));
    let made = |x: &str| { let mut b = vec![crate::b::show(x)]; if late { b.push(keep(x)); } else { b.insert(0, keep(x)); } if twice { b.push(keep(x)); b.push(crate::b::show(x)); } b.push(chg(x, n(5.0))); b.push(peek()); b };
    let how = match place {
        0 => { let mut b = vec![decl(&["x"])]; b.extend(made("x")); vec![run(ring(&[], &[], b), vec![])] }
        1 => vec![run(ring(&["x"], &[], made("x")), vec![n(2.0)])],
        2 => vec![runf("p", vec![n(3.0)])],
        3 => vec![for_("x", n(1.0), n(2.0), made("x"))],
        4 => vec![foreach("x", ml(vec![n(10.0), n(20.0)]), made("x"))],
        _ => vec![launch(ring(&["x"], &[], made("x")), vec![n(4.0)]), wait0(), wait0(), wait0()],
    };
    let again = ch.choose(3);
    let mut b = vec![set("keep", ml(vec![]))];
    for _ in 0..=again { b.extend(how.clone()); }
    b.push(peek());
    b.push(foreach("k", v("keep"), vec![rsys("v", vec![call(v("k"), vec![])]), peek()]));
    b.push(peek());
    let r = prog(nums(&["keep", "err"]), vec![func("p", &["x"], made("x"))], vec![on_flag(b)]);
    follow(r, Scn { watch: 2, cap_events: 150, ..Default::default() }, cx)
}
pub fn check(quick: bool) -> Check {
    let mut p = vec![
        phase("two actions", "every pair of 25 actions on a global, a field and a local after one of them was shown; every watcher read after each action, without and with collections at every step", |ch, cx| actions(ch, cx, 2, false)),
        phase("three actions, one name", "every triple of 25 actions on a name that is a global, a field and a local", |ch, cx| actions(ch, cx, 3, true)),
        phase("kept locals", "locals made in 6 ways, 1..3 times, shown before and after a ring captured them", kept),
    ];
    if !quick {
        p.push(phase("three actions", "every triple of 25 actions on a global, a field and a local", |ch, cx| actions(ch, cx, 3, false)));
        p.push(phase("four actions, one name", "every sequence of four of 25 actions on a name that is a global, a field and a local", |ch, cx| actions(ch, cx, 4, true)));
    }
    Check::new("E13", TRACES, p)
}
