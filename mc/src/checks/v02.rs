//! V02: list queries and constructors.
use super::common::*;
use super::trees::*;
use crate::b;
use netsblox_vm::ast::TextSplitMode as M;
use std::sync::Arc;

type Alpha = fn() -> Vec<Expr>;
/// runs each expression on its own, showing its value next to the operands; then changes the value and shows the operands again
pub fn each(exprs: Vec<Expr>, shown: &[&str], poke: bool) -> Vec<Stmt> {
    let mut o = vec![];
    for (i, x) in exprs.into_iter().enumerate() {
        let mut args = vec![n(i as f64), v("r")];
        args.extend(shown.iter().map(|x| v(x)));
        let mut body = vec![set("r", x), rsys("v", args)];
        if poke { body.push(try_(vec![push(v("r"), t("new"))], "err", vec![])); }
        o.push(try_(body, "err", vec![rsys("err", vec![n(i as f64), v("err")])]));
    }
    o.push(rsys("now", shown.iter().map(|x| v(x)).collect()));
    o
}
pub fn big() -> Scn { Scn { cap_events: 4000, cap_quiet: 100000, ..Scn::default() } }
fn unary(x: Expr) -> Vec<Expr> {
    let x = || x.clone();
    vec![len(x()), rank(x()), dims(x()), flatten(x()), columns(x()), rev(x()), lines(x()), csv(x()), json(x()), combos(x()), is_empty(x()), cdr(x()), last(x()), copy(x()), lcat(x()), min(x()), b::max(x()), addl(x()), mull(x()), catl(x()), cons(x(), x()), get(x(), n(1.0)), split(json(x()), M::Json), split(csv(x()), M::Csv), columns(columns(x())), rev(rev(x())), reshape(x(), dims(x()))]
}
fn one(ch: &mut Chooser, cx: &Ctx, all: &[Tree], alpha: Alpha) -> Leaf {
    let x = expr(ch.pick(all), &alpha());
    let mut body = vec![set("a", x), set("h", ml(vec![v("a")]))];
    body.extend(each(unary(v("a")), &["h"], true));
    body.push(rsys("eq", vec![eq(v("a"), v("a"))]));
    diff(prog(nums(&["a", "h", "r", "err"]), vec![], vec![on_flag(body)]), big(), cx)
}
fn binary(x: Expr, y: Expr) -> Vec<Expr> {
    let (x, y) = (|| x.clone(), || y.clone());
    vec![cons(x(), y()), get(x(), y()), find(x(), y()), contains(x(), y()), lcat(ml(vec![x(), y()])), combos(ml(vec![x(), y()])), lcat(ml(vec![x(), y(), x()])), combos(ml(vec![y(), x(), y()])), reshape(x(), y()), eq(x(), y()), is(x(), y()), flatten(ml(vec![x(), y()])), columns(ml(vec![x(), y()])), csv(ml(vec![x(), y()])), json(ml(vec![x(), y()])), dims(ml(vec![x(), y()])), rank(ml(vec![x(), y()])), lines(ml(vec![x(), y()])), range(x(), y()), catl(ml(vec![x(), y()]))]
}
fn two(ch: &mut Chooser, cx: &Ctx, all: &[Tree], ys: &[Tree], alpha: Alpha, beta: Alpha) -> Leaf {
    let (x, y) = (expr(ch.pick(all), &alpha()), expr(ch.pick(ys), &beta()));
    let mut body = vec![set("a", x), set("b", y), set("h", ml(vec![v("a"), v("b")]))];
    body.extend(each(binary(v("a"), v("b")), &["h"], true));
    diff(prog(nums(&["a", "b", "h", "r", "err"]), vec![], vec![on_flag(body)]), big(), cx)
}
/// the same operand twice, and operands that share parts
fn shared(ch: &mut Chooser, cx: &Ctx, all: &[Tree]) -> Leaf {
    let x = expr(ch.pick(all), &[n(1.0), t("b")]);
    let y = match ch.choose(5) { 0 => v("a"), 1 => ml(vec![v("a")]), 2 => ml(vec![v("a"), v("a")]), 3 => ml(vec![n(1.0), v("a"), ml(vec![v("a")])]), _ => cons(n(2.0), v("a")) };
    let mut body = vec![set("a", x), set("b", y), set("h", ml(vec![v("a"), v("b")]))];
    let ops = |x: Expr| vec![len(x.clone()), rank(x.clone()), dims(x.clone()), flatten(x.clone()), columns(x.clone()), rev(x.clone()), csv(x.clone()), json(x.clone()), combos(x.clone()), cdr(x.clone()), lcat(x.clone()), lines(x.clone()), catl(x)];
    body.extend(each(ops(v("b")), &["h"], true));
    body.extend(each(vec![cons(v("a"), v("b")), cons(v("b"), v("a")), lcat(ml(vec![v("a"), v("b")])), combos(ml(vec![v("a"), v("b")])), find(v("b"), v("a")), contains(v("b"), v("a")), get(v("b"), n(1.0)), get(v("b"), ml(vec![n(1.0), n(1.0)])), eq(v("a"), v("b")), reshape(v("b"), ml(vec![n(2.0), n(2.0)]))], &["h"], true));
    diff(prog(nums(&["a", "b", "h", "r", "err"]), vec![], vec![on_flag(body)]), big(), cx)
}
fn dims_of() -> Vec<Expr> { vec![n(0.0), n(1.0), n(2.0), n(3.0), t("2"), n(-1.0), n(1.5), t("x"), ml(vec![n(2.0)]), bo(true), n(-0.0), n(4.0)] }
fn shapes(ch: &mut Chooser, cx: &Ctx, max: usize) -> Leaf {
    let d = dims_of();
    let k = ch.choose(max + 1);
    let ds: Vec<Expr> = (0..k).map(|_| ch.of(&d)).collect();
    let src = match ch.choose(6) { 0 => ml(vec![]), 1 => n(5.0), 2 => ml(vec![n(1.0), n(2.0), n(3.0)]), 3 => ml(vec![ml(vec![n(1.0), ml(vec![])]), t("b")]), 4 => t("word"), _ => ml(vec![ml(vec![]), ml(vec![ml(vec![])])]) };
    let fixed = ch.flag();
    let x = if fixed { reshape(v("a"), ml(ds.clone())) } else { reshape(v("a"), v("d")) };
    let mut body = vec![set("a", src)];
    if !fixed { body.push(set("d", ml(ds.clone()))); }
    body.extend(each(vec![x], &["a"], true));
    diff(prog(nums(&["a", "d", "r", "err"]), vec![], vec![on_flag(body)]), big(), cx)
}
fn get_nested(ch: &mut Chooser, cx: &Ctx, idx: &[Tree]) -> Leaf {
    let alpha = [n(1.0), n(2.0), t("3"), n(4.0), n(1.5), t("x")];
    let i = expr(ch.pick(idx), &alpha);
    let l = match ch.choose(4) { 0 => ml(vec![n(10.0), t("b"), ml(vec![n(1.0), n(2.0)])]), 1 => ml(vec![]), 2 => t("abc"), _ => ml(vec![ml(vec![ml(vec![n(7.0)])]), bo(true)]) };
    let mut body = vec![set("a", l), set("i", i)];
    body.extend(each(vec![get(v("a"), v("i"))], &["a", "i"], true));
    diff(prog(nums(&["a", "i", "r", "err"]), vec![], vec![on_flag(body)]), big(), cx)
}
/// numbers from a to b, for every pair
pub fn bounds() -> Vec<Expr> {
    let mut o: Vec<Expr> = (-3..=3).map(|x| n(x as f64)).collect();
    o.extend([0.5, 1.5, -0.5, 2.25, 100.0, 9.125].map(n));
    o.extend([t("2"), t(" 3"), t("x"), t(""), bo(true), ml(vec![]), ml(vec![n(1.0), n(2.0)]), ml(vec![n(1.0), ml(vec![n(3.0)])])]);
    o
}
fn far() -> Vec<f64> {
    let mut o = vec![];
    for p in [52, 53, 54, 55, 60, 62, 63, 64, 100, 1000] { let x = 2f64.powi(p); for d in -3..=3 { o.push(x + d as f64); o.push(-x + d as f64); } }
    o.dedup();
    o
}
fn from_to(ch: &mut Chooser, cx: &Ctx) -> Leaf {
    let bs = bounds();
    let (a, z) = (ch.of(&bs), ch.of(&bs));
    let mut body = vec![set("a", a), set("b", z)];
    body.extend(each(vec![range(v("a"), v("b")), len(range(v("a"), v("b"))), rev(range(v("b"), v("a")))], &["a", "b"], true));
    diff(prog(nums(&["a", "b", "r", "err"]), vec![], vec![on_flag(body)]), big(), cx)
}
fn from_to_far(ch: &mut Chooser, cx: &Ctx) -> Leaf {
    let f = far();
    let a = ch.of(&f);
    let z = ch.of(&f);
    if (a - z).abs() > 40.0 { return Leaf::skip(); }
    let mut body = vec![set("a", n(a)), set("b", n(z))];
    body.extend(each(vec![range(v("a"), v("b")), for_probe()], &["a", "b"], true));
    diff(prog(nums(&["a", "b", "r", "err"]), vec![], vec![on_flag(body)]), big(), cx)
}
fn for_probe() -> Expr { len(range(v("b"), v("a"))) }
/// long lists and wide tables
fn sizes(ch: &mut Chooser, cx: &Ctx, max: usize) -> Leaf {
    let (r, c) = (ch.choose(max), ch.choose(max));
    let ragged = ch.choose(3);
    let rows: Vec<Expr> = (0..r).map(|i| { let w = match ragged { 0 => c, 1 => if i % 2 == 0 { c } else { i % (c + 1) }, _ => i.min(c) }; ml((0..w).map(|j| n((i * 100 + j) as f64)).collect()) }).collect();
    let mut body = vec![set("a", ml(rows)), set("h", ml(vec![v("a")]))];
    body.extend(each(vec![len(v("a")), rank(v("a")), dims(v("a")), flatten(v("a")), columns(v("a")), columns(columns(v("a"))), rev(v("a")), csv(v("a")), json(v("a")), lcat(v("a")), reshape(v("a"), ml(vec![n(r as f64), n(c as f64)])), reshape(v("a"), dims(v("a"))), if r * c <= 12 && r <= 4 { combos(v("a")) } else { n(0.0) }], &["h"], true));
    diff(prog(nums(&["a", "h", "r", "err"]), vec![], vec![on_flag(body)]), big(), cx)
}
/// lines, csv and json as texts, and reading them
fn texts(ch: &mut Chooser, cx: &Ctx, len_: usize) -> Leaf {
    let alpha = ["a", ",", "\"", "\n", "\r", " ", "1", "é"];
    let k = ch.choose(len_ + 1);
    let s: String = (0..k).map(|_| ch.of(&alpha)).collect();
    let mut body = vec![set("a", t(&s))];
    body.extend(each(vec![split(v("a"), M::Csv), split(v("a"), M::LF), split(v("a"), M::CR), split(v("a"), M::Tab), split(v("a"), M::Letter), csv(ml(vec![v("a"), t("b")])), csv(ml(vec![ml(vec![v("a"), t("b")]), ml(vec![v("a")])])), lines(ml(vec![v("a"), v("a")])), json(v("a"))], &["a"], true));
    diff(prog(nums(&["a", "r", "err"]), vec![], vec![on_flag(body)]), big(), cx)
}
pub fn check(quick: bool) -> Check {
    let alpha: Alpha = || vec![n(2.0), t("b"), n(-1.5), t(""), bo(true), t("1,\"2\"\n")];
    let (n1, n2) = if quick { (5, 7) } else { (6, 8) };
    let all6 = Arc::new(up_to(n1, 3, 4));
    let all2 = Arc::new(up_to(n2, 2, 6));
    let rich = Arc::new(up_to(3, 6, 3));
    let pair = Arc::new(up_to(if quick { 4 } else { 5 }, 2, 3));
    let idx = Arc::new(up_to(if quick { 4 } else { 5 }, 6, 3));
    let shp = Arc::new(up_to(if quick { 5 } else { 6 }, 2, 4));
    let (pb, r2) = (pair.clone(), rich.clone());
    let bt: Alpha = || vec![n(2.0), n(1.0)];
    let bt2: Alpha = || vec![n(2.0), n(1.0), t("1"), t("b"), n(0.0), bo(true)];
    Check::new("V02", TRACES, vec![
        phase("shapes of three items", "every nested list of up to 5 nodes (thorough 6) over {2, \"b\", -1.5}, under 27 operations each followed by a change of the result", move |ch, cx| one(ch, cx, &all6, alpha)),
        phase("shapes of two items", "every nested list of up to 7 nodes (thorough 8) over {2, \"b\"}", move |ch, cx| one(ch, cx, &all2, alpha)),
        phase("rich items", "every list of up to 3 nodes over six items", move |ch, cx| one(ch, cx, &rich, alpha)),
        phase("pairs", "every pair of shapes of up to 4 nodes (thorough 5) over {2, \"b\"} and {2, 1}, under 20 operations", move |ch, cx| two(ch, cx, &pair, &pb, alpha, bt)),
        phase("rich pairs", "every pair of lists of up to 3 nodes over six items", move |ch, cx| two(ch, cx, &r2, &r2, a_six, bt2)),
        phase("shared parts", "every shape of up to 5 nodes, inside a list that holds it once, twice or at two depths", move |ch, cx| shared(ch, cx, &shp)),
        phase("reshape", "6 sources x every sequence of up to 2 of 12 sizes (thorough 3), given as blocks and as a list", move |ch, cx| shapes(ch, cx, if quick { 2 } else { 3 })),
        phase("nested indices", "every nested index list of up to 4 nodes (thorough 5) over six indices x 4 lists", move |ch, cx| get_nested(ch, cx, &idx)),
        phase("numbers from to", "every pair of 21 bounds", |ch, cx| from_to(ch, cx)),
        phase("numbers from to, far from zero", "every pair at most 40 apart around the powers of two from 2^52 to 2^1000", |ch, cx| from_to_far(ch, cx)),
        phase("tables", "every number of rows and columns up to the bound, rectangular and ragged", move |ch, cx| sizes(ch, cx, if quick { 12 } else { 36 })),
        phase("written items", "12 list and variadic blocks written with 0..20, 60..70, 120..135, 250..260, 510..515, 1000 and 4097 items (thorough also every count up to 600, and 65534..65538)", move |ch, cx| { let mut z: Vec<usize> = if quick { (0..=20).chain(60..=70).chain(120..=135).chain(250..=260).chain(510..=515).collect() } else { (0..=600).collect() }; z.extend([1000, 4097]); if !quick { z.extend(65534..=65538); } written(ch, cx, &z) }),
        phase("many arguments", "blocks, rings and host calls with 2..20, 60..70, 120..135, 250..260 and 510..515 arguments", move |ch, cx| many_args(ch, cx, &(2..=20).chain(60..=70).chain(120..=135).chain(250..=260).chain(510..=515).collect::<Vec<_>>())),
        phase("texts", "every text of up to 4 (thorough 6) of eight characters, as csv, lines and cells", move |ch, cx| texts(ch, cx, if quick { 4 } else { 6 })),
    ])
}
/// list and variadic blocks written out with many items
fn written(ch: &mut Chooser, cx: &Ctx, sizes: &[usize]) -> Leaf {
    let k = ch.of(sizes);
    let items = || (0..k).map(|i| if i % 3 == 2 { t("b") } else { n((i % 7) as f64) }).collect::<Vec<_>>();
    let numbers = || (0..k).map(|i| n((i % 7) as f64 + 1.0)).collect::<Vec<_>>();
    let lists = || (0..k).map(|i| ml(vec![n(i as f64)])).collect::<Vec<_>>();
    let ones = || (0..k).map(|_| n(1.0)).collect::<Vec<_>>();
    let vals = || (0..k).map(|i| if i % 3 == 2 { Value::String("b".into()) } else { Value::Number(i as f64) }).collect::<Vec<_>>();
    let x = match ch.choose(12) {
        0 => ml(items()),
        1 => e(ExprKind::Value(Value::List(vals(), None))),
        2 => cat(items()),
        3 => lcat(ml(lists())),
        4 => addl(ml(numbers())),
        5 => min(ml(numbers())),
        6 => b::max(ml(numbers())),
        7 => reshape(n(5.0), ml(ones())),
        8 => combos(ml(lists())),
        9 => mull(ml(ones())),
        10 => catl(ml(items())),
        _ => ml((0..3).map(|_| ml(items())).collect()),
    };
    // with values pending below and above
    let body = vec![set("r", ml(vec![t("pre"), x.clone(), t("post")])), rsys("v", vec![v("r")]), rsys("args", vec![x])];
    diff(prog(nums(&["r", "err"]), vec![], vec![on_flag(body)]), big(), cx)
}
fn many_args(ch: &mut Chooser, cx: &Ctx, sizes: &[usize]) -> Leaf {
    let k = ch.of(sizes);
    let names: Vec<String> = (0..k).map(|i| format!("p{i}")).collect();
    let ps: Vec<&str> = names.iter().map(|x| x.as_str()).collect();
    let args = (0..k).map(|i| n(i as f64)).collect::<Vec<_>>();
    let picks = |k: usize| [0, 1, k / 2, k - 2, k - 1].iter().map(|i| v(&format!("p{i}"))).collect::<Vec<_>>();
    let (fs, b): (Vec<_>, Vec<Stmt>) = match ch.choose(3) {
        0 => (vec![func("f", &ps, vec![rsys("in", picks(k)), ret(v(ps[k - 1]))])], vec![rsys("out", vec![t("<"), callf("f", args), t(">")])]),
        1 => (vec![], vec![rsys("out", vec![t("<"), call(ring(&ps, &[], vec![rsys("in", picks(k)), ret(v(ps[k - 1]))]), args), t(">")])]),
        _ => (vec![], vec![rsys("out", args)]),
    };
    diff(prog(nums(&["r", "err"]), fs, vec![on_flag(b)]), big(), cx)
}
fn a_six() -> Vec<Expr> { vec![n(2.0), t("b"), n(-1.5), t(""), bo(true), t("2")] }
