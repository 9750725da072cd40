//! V03: lists that hold themselves or share parts.
use super::common::*;
use super::v02::{big, each};
use crate::b;
use netsblox_vm::ast::TextSplitMode as M;

const NODES: [&str; 3] = ["p", "q", "s"];
/// every graph of `nodes` lists with up to `width` items each, an item being a scalar or one of the lists
fn graph(ch: &mut Chooser, nodes: usize, width: usize, scalar: &Expr) -> Vec<Stmt> {
    let mut o: Vec<Stmt> = NODES[..nodes].iter().map(|x| set(x, ml(vec![]))).collect();
    for x in &NODES[..nodes] {
        for _ in 0..ch.choose(width + 1) { let k = ch.choose(nodes + 1); o.push(push(v(x), if k == 0 { scalar.clone() } else { v(NODES[k - 1]) })); }
    }
    o
}
fn scalars() -> Vec<Expr> { vec![n(2.0), t("a"), bo(true)] }
fn queries(x: Expr) -> Vec<Expr> {
    let x = || x.clone();
    vec![len(x()), rank(x()), dims(x()), flatten(x()), columns(x()), rev(x()), lines(x()), csv(x()), json(x()), combos(x()), is_empty(x()), cdr(x()), last(x()), copy(x()), lcat(x()), min(x()), b::max(x()), addl(x()), mull(x()), catl(x()), cat(vec![x(), t("-"), x()]), reshape(x(), ml(vec![n(2.0), n(2.0)])), reshape(x(), x()), any(x())]
}
fn maths(x: Expr) -> Vec<Expr> {
    let x = || x.clone();
    vec![neg(x()), abs(x()), round(x()), sqrt(x()), floor(x()), ceil(x()), sin(x()), atan(x()), not(x()), str_len(x()), letter_last(x()), letter_any(x()), uni(x()), code(x()), split(x(), M::Letter), split(x(), M::Word), split(x(), M::Csv), split(x(), M::Json), split(x(), M::LF), split(x(), M::Tab)]
}
fn pairs(x: Expr, y: Expr) -> Vec<Expr> {
    let (x, y) = (|| x.clone(), || y.clone());
    vec![add(x(), y()), sub(x(), y()), mul(x(), y()), md(x(), y()), pow(x(), y()), atan2(x(), y()), letter(x(), y()), split_by(x(), y()), range(x(), y()), add(x(), n(1.0)), sub(n(1.0), y()), split_by(x(), t("a"))]
}
fn relations(x: Expr, y: Expr) -> Vec<Expr> {
    let (x, y) = (|| x.clone(), || y.clone());
    vec![eq(x(), y()), neq(x(), y()), lt(x(), y()), le(x(), y()), gt(x(), y()), ge(x(), y()), is(x(), y()), find(x(), y()), contains(x(), y()), get(x(), y()), cons(x(), y()), lcat(ml(vec![x(), y()])), combos(ml(vec![x(), y()])), min(ml(vec![x(), y()])), b::max(ml(vec![x(), y()])), eq(x(), n(2.0)), eq(t("a"), y()), cond(x(), y(), n(1.0)), and(x(), y())]
}
/// everything a list can be given to besides operators
fn uses() -> Vec<Stmt> {
    let p = || v("p");
    let mut o = vec![];
    let mut k = 0.0;
    let mut one = |b: Vec<Stmt>| { k += 1.0; let mut b = b; b.push(rsys("done", vec![n(k)])); o.push(try_(b, "err", vec![rsys("err", vec![n(k), v("err")])])); };
    one(vec![say(p())]);
    one(vec![think(p())]);
    one(vec![rsys("sys", vec![p(), v("q")])]);
    one(vec![set("r", sys("echo", vec![p()])), rsys("r", vec![v("r")])]);
    one(vec![rblk("blk", vec![p()])]);
    one(vec![rsys("rpc", vec![rpc("f", vec![("a", p())])])]);
    one(vec![send("ty", vec![("a", p())], t("x"))]);
    one(vec![send("ty", vec![("a", n(1.0))], p())]);
    one(vec![bcast(p(), false)]);
    one(vec![bcast_to(t("m"), p(), true)]);
    one(vec![wait(p())]);
    one(vec![repeat(p(), vec![rsys("no", vec![])])]);
    one(vec![throw(p())]);
    one(vec![foreach("i", p(), vec![rsys("i", vec![v("i")])])]);
    one(vec![rsys("map", vec![map(ringe(&["a"], &[], ml(vec![v("a"), v("p")])), p())])]);
    one(vec![rsys("keep", vec![keep(ringe(&["a"], &[], eq(v("a"), v("a"))), p())])]);
    one(vec![rsys("keep", vec![keep(ringe(&["a"], &[], is(v("a"), v("p"))), p())])]);
    one(vec![rsys("comb", vec![combine(ringe(&["a", "b"], &[], ml(vec![v("a"), v("b")])), p())])]);
    one(vec![run(p(), vec![])]);
    one(vec![ask(p())]);
    one(vec![reply(p())]);
    one(vec![rsys("wait", vec![send_wait("ty", vec![("a", p())], t("x"))])]);
    one(vec![if_(p(), vec![])]);
    one(vec![chg("q", n(1.0)), rsys("q", vec![v("q")])]);
    one(vec![s(StmtKind::Clone { target: bx(p()) })]);
    one(vec![crate::b::show("p"), hide("p")]);
    one(vec![set("q", ml(vec![n(1.0), n(2.0)])), insert(v("q"), p(), n(9.0)), rsys("q", vec![v("q")])]);
    one(vec![set("q", ml(vec![n(1.0), n(2.0)])), put(v("q"), p(), p()), rsys("q", vec![v("q")])]);
    one(vec![set("q", ml(vec![n(1.0), n(2.0)])), del(v("q"), p()), rsys("q", vec![v("q")])]);
    one(vec![insert(p(), p(), p()), rsys("p", vec![p()])]);
    one(vec![put(p(), n(1.0), p()), rsys("p", vec![p()])]);
    o
}
fn world(body: Vec<Stmt>) -> Role {
    let mut gl = nums(&["p", "q", "s", "r", "i", "err"]);
    gl.push(init("z", Value::Number(0.0)));
    prog(gl, vec![], vec![on_flag(body)])
}
fn go(role: Role, scn: Scn, cx: &Ctx) -> Leaf {
    crate::host::set_flat(true);
    diff(role, scn, cx)
}
fn queried(ch: &mut Chooser, cx: &Ctx, nodes: usize, width: usize) -> Leaf {
    let sc = ch.of(&scalars());
    let mut body = graph(ch, nodes, width, &sc);
    let mut xs = queries(v("p"));
    xs.extend(maths(v("p")));
    body.extend(each(xs, &["p"], false));
    go(world(body), big(), cx)
}
fn paired(ch: &mut Chooser, cx: &Ctx, nodes: usize, width: usize, rel: bool) -> Leaf {
    let sc = ch.of(&scalars());
    let mut body = graph(ch, nodes, width, &sc);
    // the second operand: the other list, the same list, a copy of it, a list holding it, a plain table
    let y = match ch.choose(5) { 0 => v("q"), 1 => v("p"), 2 => copy(v("p")), 3 => ml(vec![v("p"), v("q")]), _ => ml(vec![ml(vec![sc.clone(), sc.clone()]), sc.clone()]) };
    body.push(set("z", y));
    body.extend(each(if rel { relations(v("p"), v("z")) } else { pairs(v("p"), v("z")) }, &["p", "z"], false));
    go(world(body), big(), cx)
}
fn used(ch: &mut Chooser, cx: &Ctx, nodes: usize, width: usize) -> Leaf {
    let sc = ch.of(&scalars());
    let mut body = graph(ch, nodes, width, &sc);
    body.extend(uses());
    let mut r = world(body);
    r.entities[1].scripts.push(on_msg("m", vec![rsys("got", vec![])]));
    let mut scn = big();
    scn.replies = vec![(0, Some(serde_json::json!([1, "x"])))];
    go(r, scn, cx)
}
/// a script that fails, returns or is reported about while such values are in its variables
fn reports(ch: &mut Chooser, cx: &Ctx, nodes: usize, width: usize) -> Leaf {
    let sc = ch.of(&scalars());
    let mut body = vec![decl(&["loc"])];
    body.extend(graph(ch, nodes, width, &sc));
    body.extend([set("loc", v("p")), set("fld", v("q")), set("r", ring(&[], &["loc"], vec![]))]);
    body.push(match ch.choose(5) { 0 => ret(v("p")), 1 => throw(t("over")), 2 => throw(v("p")), 3 => rsys("x", vec![add(v("p"), v("r"))]), _ => rsys("no end", vec![]) });
    let mut r = world(body);
    r.entities[1].fields.push(init("fld", Value::Number(0.0)));
    let mut scn = big();
    scn.log_yield = true;
    go(r, scn, cx)
}
/// the same graphs as initial values of a project
fn initial(ch: &mut Chooser, cx: &Ctx, nodes: usize, width: usize) -> Leaf {
    use netsblox_vm::ast::RefId;
    // node 0 is written where it is first met, and referred to elsewhere
    let items: Vec<Vec<usize>> = (0..nodes).map(|_| { let w = ch.choose(width + 1); (0..w).map(|_| ch.choose(nodes + 1)).collect() }).collect();
    fn emit(k: usize, items: &[Vec<usize>], done: &mut Vec<bool>) -> Value {
        if done[k] { return Value::Ref(RefId(k)); }
        done[k] = true;
        Value::List(items[k].iter().map(|x| if *x == 0 { Value::Number(2.0) } else { emit(x - 1, items, done) }).collect(), Some(RefId(k)))
    }
    let mut done = vec![false; nodes];
    let order = ch.flag();
    let mut vals: Vec<Option<Value>> = (0..nodes).map(|_| None).collect();
    let ks: Vec<usize> = if order { (0..nodes).rev().collect() } else { (0..nodes).collect() };
    for k in &ks { vals[*k] = Some(emit(*k, &items, &mut done)); }
    let body = each(vec![len(v("p")), flatten(v("p")), rank(v("q")), eq(v("p"), v("q")), is(v("p"), v("q")), add(v("p"), n(1.0)), is(v("p"), v("p")), cat(vec![v("p")])], &["p", "q"], false);
    let mut body = body;
    body.insert(0, push(v("p"), t("mark")));
    let mut r = prog(nums(&["r", "err"]), vec![], vec![on_flag(body)]);
    for k in ks { r.globals.push(init(NODES[k], vals[k].take().unwrap())); }
    go(r, big(), cx)
}
/// lists sharing one part many times and chains of sharing
fn shared(ch: &mut Chooser, cx: &Ctx, max: usize) -> Leaf {
    let k = ch.choose(max) + 1;
    let leaf = ch.of(&[n(3.0), ml(vec![n(3.0), n(4.0)]), t("5"), ml(vec![])]);
    let step = ch.choose(4);
    let mut body = vec![set("p", leaf)];
    for i in 0..k { body.push(set("p", match step { 0 => ml(vec![v("p"), v("p")]), 1 => ml(vec![v("p"), n(i as f64), v("p")]), 2 => ml(vec![v("p")]), _ => ml(vec![ml(vec![v("p")]), v("p")]) })); }
    body.push(set("z", copy(v("p"))));
    let mut xs = vec![flatten(v("p")), dims(v("p")), rank(v("p")), json(v("p")), add(v("p"), v("p")), neg(v("p")), eq(v("p"), v("z")), lt(v("p"), v("z")), mul(v("p"), n(2.0)), columns(v("p")), cat(vec![v("p")]), find(v("p"), v("p")), split(json(v("p")), M::Json), sub(v("p"), v("z"))];
    if step == 2 { xs.push(reshape(v("p"), ml(vec![n(2.0)]))); }
    body.extend(each(xs, &["p"], false));
    body.extend([rsys("msg", vec![]), try_(vec![send("ty", vec![("a", v("p"))], t("x"))], "err", vec![rsys("e", vec![v("err")])])]);
    go(world(body), big(), cx)
}
pub fn check(quick: bool) -> Check {
    let mut p = vec![
        phase("queries, two lists", "every graph of 2 lists of up to 3 items x 3 kinds of scalars, under 44 operations", |ch, cx| queried(ch, cx, 2, 3)),
        phase("arithmetic, two lists", "every graph of 2 lists of up to 2 items x 3 scalars x 5 second operands, under 12 operations", |ch, cx| paired(ch, cx, 2, 2, false)),
        phase("comparison, two lists", "every graph of 2 lists of up to 3 items x 3 scalars x 5 second operands, under 19 operations", |ch, cx| paired(ch, cx, 2, 3, true)),
        phase("uses", "every graph of 2 lists of up to 2 items x 3 scalars, in 31 blocks", |ch, cx| used(ch, cx, 2, 2)),
        phase("reports", "every graph of 2 lists of up to 2 items x 3 scalars, held in locals, fields and captures by a script that returns, fails or ends", |ch, cx| reports(ch, cx, 2, 2)),
        phase("initial values", "every graph of 2 lists of up to 3 items given as initial values of the project, in both orders", |ch, cx| initial(ch, cx, 2, 3)),
        phase("sharing", "4 ways of sharing, up to the depth bound, 4 innermost values", move |ch, cx| shared(ch, cx, if quick { 6 } else { 9 })),
        phase("three lists", "every graph of 3 lists of up to 2 items (quick: comparison with 1 item), all operations", move |ch, cx| match ch.choose(3) { 0 => paired(ch, cx, 3, if quick { 1 } else { 2 }, true), 1 => paired(ch, cx, 3, if quick { 1 } else { 2 }, false), _ => queried(ch, cx, 3, if quick { 1 } else { 2 }) }),
    ];
    if !quick { p.push(phase("three initial values", "every graph of 3 lists of up to 2 items given as initial values", |ch, cx| initial(ch, cx, 3, 2))); }
    Check::new("V03", TRACES, p).assume("lists are compared as trees cut at depth 5; stack depth is exercised by nesting up to 10, not by chains of thousands of lists")
}
