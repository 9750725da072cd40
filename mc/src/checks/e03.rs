//! E03: errors, handlers and the state they restore.
use super::common::*;
use super::nest::{nested, K, K::*};
use super::tabs;

/// Every block raising an error in every operand position, inside a handler inside a warp, with operands pending.
fn raised(ch: &mut Chooser, cx: &Ctx) -> Leaf {
    let xs = tabs::exprs();
    let ss = tabs::stmts();
    let k = ch.choose(xs.len() + ss.len());
    let (name, args) = if k < xs.len() { (xs[k].name, xs[k].args.clone()) } else { (ss[k - xs.len()].name, ss[k - xs.len()].args.clone()) };
    let at = ch.choose(args.len());
    let how = ch.choose(3);
    if how == 2 && name == "join" { return Leaf::skip(); } // the display text of a ring is not specified
    let mut a: Vec<Expr> = args.iter().enumerate().map(|(i, x)| callf("tag", vec![n(i as f64), x.clone()])).collect();
    a[at] = match how {
        0 => callf("fails", vec![]),
        1 => div(n(1.0), n(0.0)),
        _ => ring(&[], &[], vec![]), // a value most blocks refuse
    };
    let st = if k < xs.len() { set("x", ml(vec![t("pre"), (xs[k].f)(a), t("post")])) } else { (ss[k - xs.len()].f)(a) };
    let b = vec![
        rsys("outer", vec![t("<"), call(ring(&[], &[], vec![
            try_(vec![warp(vec![rsys("push", vec![n(1.0)]), st])], "err", vec![rsys("caught", vec![v("err"), sys("tok", vec![]), sys("depth", vec![])]), repeat(n(1.0), vec![])]),
            ret(t("reported")),
        ]), vec![]), t(">")]),
        rsys("end", vec![sys("tok", vec![]), sys("depth", vec![])]),
        throw(t("last")),
    ];
    let mut w = tabs::world(vec![], vec![func("fails", &[], vec![rsys("fails", vec![]), repeat(n(1.0), vec![throw(t("deep"))]), ret(n(1.0))])], vec![on_flag(b)]);
    w.globals.push(init("err", Value::Number(0.0)));
    diff_key(w, Scn { cap_events: 80, ..Default::default() }, cx, Some(format!("{name} operand {at} error {how}")))
}
/// values of every kind thrown, at four places
fn thrown(ch: &mut Chooser, cx: &Ctx) -> Leaf {
    let xs = [n(0.0), n(-1.5), n(1e21), n(f64::INFINITY), t(""), t("txt"), t("1.50"), bo(true), bo(false), ml(vec![]), ml(vec![t("a")]), v("l"), ring(&[], &[], vec![]), ringe(&[], &[], n(1.0)), this(), ent("Stage"), worn(), answer(), v("err"), div(n(1.0), n(0.0)), throw_in()];
    let x = ch.of(&xs);
    let place = ch.choose(5);
    let th = throw(x);
    let b = match place {
        0 => vec![th],
        1 => vec![try_(vec![th, says("not reached")], "err", vec![rsys("caught", vec![v("err"), eq(v("err"), v("err"))])]), rsys("after", vec![v("err")])],
        2 => vec![try_(vec![run(ring(&[], &[], vec![warp(vec![th])]), vec![])], "err", vec![rsys("caught", vec![v("err")]), throw(v("err"))])],
        3 => vec![try_(vec![try_(vec![th], "err", vec![throw(cat(vec![t("again "), v("err")]))])], "err", vec![rsys("caught", vec![v("err")])])],
        _ => vec![rsys("sum", vec![add(n(1.0), call(ring(&[], &[], vec![try_(vec![th], "err", vec![ret(str_len(v("err")))])]), vec![]))])],
    };
    let mut b = b;
    b.insert(0, push(v("l"), v("l")));
    let mut w = tabs::world(vec![], vec![], vec![on_flag(b)]);
    w.globals.extend([init("err", Value::String("none".into())), init("l", Value::List(vec![], None))]);
    w.globals.retain({ let mut seen = std::collections::HashSet::new(); move |g| seen.insert(g.def.name.clone()) });
    diff(w, Scn { summaries: true, ..Default::default() }, cx)
}
fn worn() -> Expr { e(ExprKind::Costume) }
fn throw_in() -> Expr { call(ring(&[], &[], vec![throw(t("from inside"))]), vec![]) }
const ALPHA: [K; 14] = [Eff, Throw, OpErr, CallErr, Ret, StopBlock, Push, Probe, Try, TryBoth, Warp, Repeat, RingExpr, Fn2];
pub fn check(quick: bool) -> Check {
    let mut p = vec![
        phase("errors in operands", "every block of the table x every operand position x 3 kinds of failure, inside a handler inside a ring inside an operand", raised),
        phase("thrown values", "21 values (numbers, texts, booleans, lists, rings, sprites, pictures) thrown at 5 places", thrown),
        phase("handlers, nested 2", "every statement nested 2 deep (bodies of 1-2) over 14 statement kinds, then an error outside every handler", |ch, cx| nested(ch, cx, &[Eff, Throw, CallErr, Ret, Push, Try, TryBoth, Warp, Repeat, RingExpr], 2, 1, 2, 1)),
        phase("handlers, nested 1", "every sequence of 2 statements nested 1 deep over 14 statement kinds", |ch, cx| nested(ch, cx, &ALPHA, 1, 2, 2, 1)),
        phase("handlers, chains 3", "every chain of statements nested 3 deep (bodies of 1)", |ch, cx| nested(ch, cx, &ALPHA, 3, 1, 1, 1)),
    ];
    if !quick {
        p.push(phase("handlers, chains 5", "every chain nested 5 deep over 10 kinds", |ch, cx| nested(ch, cx, &[Throw, CallErr, Ret, Push, Try, TryBoth, Warp, Repeat, RingExpr], 4, 1, 1, 1)));
        p.push(phase("handlers, all nested 2", "every statement nested 2 deep (bodies of 1-2) over 14 statement kinds", |ch, cx| nested(ch, cx, &ALPHA, 2, 1, 2, 1)));
    }
    Check::new("E03", TRACES, p).assume("process-level unwinding of host state is observed through the host's own token stack (System process state)")
}
