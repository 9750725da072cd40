//! E11: higher-order list blocks.
use super::common::*;

/// what the ring does with the list, other variables, or the run of the script
fn act(k: usize, i: usize) -> Vec<Stmt> {
    let d = n(40.0 + i as f64);
    match k {
        0 => vec![],
        1 => vec![push(v("l"), d)],
        2 => vec![if_(not(is_empty(v("l"))), vec![del(v("l"), n(1.0))])],
        3 => vec![if_(not(is_empty(v("l"))), vec![put(v("l"), n(1.0), d)])],
        4 => vec![del_all(v("l"))],
        5 => vec![set("l", ml(vec![d, n(2.0)]))],
        6 => vec![if_(eq(v("a"), n(2.0)), vec![throw(cat(vec![t("no "), v("a")]))])],
        7 => vec![if_(eq(v("a"), n(2.0)), vec![ret(n(77.0))])],
        8 => vec![if_(le(len(v("l")), n(3.0)), vec![rsys("nested", vec![map(ringe(&["b"], &["a"], ml(vec![v("a"), v("b")])), v("l"))])])],
        9 => vec![wait0()],
        10 => vec![rsys("pend", vec![sys("echo", vec![v("a")])])],
        11 => vec![set("l", l_self())],
        12 => vec![insert(v("l"), n(1.0), v("l"))],
        13 => vec![if_(eq(v("a"), n(1.0)), vec![stop(StopMode::ThisScript)])],
        14 => vec![try_(vec![throw(t("x"))], "err", vec![rsys("caught", vec![v("err")])])],
        15 => vec![set("x", find_first(ringe(&["b"], &[], gt(v("b"), n(1.0))), v("l"))), rsys("first", vec![v("x")])],
        16 => vec![foreach("c", v("l"), vec![rsys("each", vec![v("c")]), if_(eq(v("c"), n(2.0)), vec![if_(le(len(v("l")), n(4.0)), vec![push(v("l"), d.clone())])])])],
        17 => vec![repeat(n(2.0), vec![chg("x", n(1.0))])],
        _ => vec![warp(vec![set("x", map(ringe(&["b"], &[], v("b")), v("l")))])],
    }
}
fn l_self() -> Expr { cons(n(9.0), v("l")) }
fn results(kind: usize) -> Vec<Expr> {
    let mut r = vec![v("a"), ml(vec![v("a"), v("l")]), bo(true), gt(v("a"), n(1.0)), eq(v("a"), n(2.0)), bo(false), v("l"), t("")];
    if kind == 3 { r[3] = sub(v("a"), v("p")); r[4] = ml(vec![v("a"), v("p")]); r[5] = v("p"); }
    r
}
fn hof(kind: usize, body: Vec<Stmt>, res: Option<Expr>, l: Expr) -> Vec<Stmt> {
    if kind == 4 { return vec![foreach("a", l, body)]; }
    let mut b = body;
    if let Some(r) = res { b.push(ret(r)); }
    let params: &[&str] = if kind == 3 { &["a", "p"] } else { &["a"] };
    let rg = ring(params, &[], b);
    let x = match kind { 0 => map(rg, l), 1 => keep(rg, l), 2 => find_first(rg, l), _ => combine(rg, l) };
    vec![set("res", x), rsys("res", vec![v("res")])]
}
fn lists(max: usize) -> Vec<Vec<f64>> {
    let mut o = vec![vec![]];
    let mut last = o.clone();
    for _ in 0..max {
        let mut nx = vec![];
        for x in &last { for k in [1.0, 2.0, 3.0] { let mut y: Vec<f64> = x.clone(); y.push(k); nx.push(y); } }
        o.extend(nx.clone());
        last = nx;
    }
    o
}
fn run_one(ch: &mut Chooser, cx: &Ctx, maxlen: usize, nacts: usize, acts: usize, ctx: usize) -> Leaf {
    let ls = lists(maxlen);
    let l = ch.of(&ls);
    let kind = ch.choose(5);
    let mut body = vec![rsys("item", if kind == 3 { vec![v("a"), v("p")] } else { vec![v("a")] })];
    for i in 0..nacts { body.extend(act(ch.choose(acts), i)); }
    let rs = results(kind);
    let res = if kind == 4 { None } else { let k = ch.choose(rs.len() + 1); rs.get(k).cloned() };
    let c = if ctx == 0 { 0 } else { ch.choose(ctx) };
    let mut main = hof(kind, body, res, v("l"));
    if kind == 4 { main.push(rsys("res", vec![])); }
    main.push(rsys("after", vec![v("l")]));
    let b = match c { 1 => vec![warp(main.clone())], 2 => vec![runf("f", vec![])], _ => main.clone() };
    let mut sc = vec![set("l", ml(l.iter().map(|x| n(*x)).collect()))];
    if c != 3 { sc.push(try_(b, "err", vec![rsys("failed", vec![v("err"), v("l")])])); } else { sc.extend(b); }
    sc.push(rsys("end", vec![v("l"), v("x")]));
    let other = on_flag(vec![rsys("o", vec![]), wait0(), rsys("O", vec![v("l")]), if_(gt(len(v("l")), n(0.0)), vec![del_last(v("l"))]), wait0(), rsys("O", vec![v("l")])]);
    let f = func("f", &[], if c == 2 { main } else { vec![] });
    let mut g = nums(&["x", "res", "err"]);
    g.push(init("l", Value::List(vec![], None)));
    let mut scripts = vec![on_flag(sc)];
    if c == 4 { scripts.push(other); }
    diff(prog(g, vec![f], scripts), Scn { plan: vec![(0, Ans::Default), (2, Ans::Default), (1, Ans::Default)], cap_events: 90, ..Default::default() }, cx)
}
/// rings of every shape as the operand: parameter counts, unnamed, results of every type, and things that are not rings
fn operands(ch: &mut Chooser, cx: &Ctx) -> Leaf {
    let kind = ch.choose(5);
    let rings = [ring(&[], &[], vec![ret(n(5.0))]), ringe(&["a"], &[], v("a")), ringe(&["a", "p"], &[], ml(vec![v("a"), v("p")])), ringe(&["a", "p", "q"], &[], v("q")), ring(&["a"], &[], vec![]), ring(&[], &[], vec![]),
        n(3.0), t("ring"), ml(vec![]), bo(true), ent("Other"), v("undefined"), throwing(), ring(&["a", "p"], &[], vec![ret(bo(true))]), ringe(&["a", "a"], &[], v("a")), ringe(&["a"], &[], ringe(&[], &["a"], v("a")))];
    let ls = [ml(vec![]), ml(vec![n(1.0)]), ml(vec![n(1.0), n(2.0)]), ml(vec![n(3.0), n(1.0), n(2.0)]), n(3.0), t("abc"), t(""), bo(false), ml(vec![ml(vec![n(1.0)]), ml(vec![])]), v("undefined"), throwing(), ringe(&[], &[], n(1.0)), v("cyc")];
    let r = ch.of(&rings);
    let l = ch.of(&ls);
    let logged = |k: f64, x: Expr| callf("tag", vec![n(k), x]);
    let (r, l) = (logged(1.0, r), logged(2.0, l));
    let st = match kind {
        0 => rsys("res", vec![map(r, l)]), 1 => rsys("res", vec![keep(r, l)]), 2 => rsys("res", vec![find_first(r, l)]), 3 => rsys("res", vec![combine(r, l)]),
        _ => foreach("i", l, vec![rsys("each", vec![v("i"), call(r, vec![v("i")])])]),
    };
    let mut g = nums(&["err", "i"]);
    let cyc = netsblox_vm::ast::RefId(7);
    g.push(init("cyc", Value::List(vec![Value::Number(1.0), Value::Ref(cyc)], Some(netsblox_vm::ast::RefId(7)))));
    let mut w = super::tabs::world(g, vec![], vec![on_flag(vec![try_(vec![st], "err", vec![rsys("failed", vec![v("err")])]), rsys("end", vec![])])]);
    w.funcs.retain(|f| f.name == "tag");
    diff(w, Scn::default(), cx)
}
fn throwing() -> Expr { div(n(1.0), t("no")) }
/// blocks inside blocks: every pair, over lists of lists, the inner working on the outer's item or on the same list
fn nested(ch: &mut Chooser, cx: &Ctx) -> Leaf {
    let (a, b) = (ch.choose(5), ch.choose(5));
    let mutate = act(ch.choose(6), 0);
    let inner_list = match ch.choose(3) { 0 => v("l"), 1 => v("a"), _ => ml(vec![v("a"), n(2.0), v("l")]) };
    let stop_kind = ch.choose(5);
    let mut ib = vec![rsys("in", vec![v("c")])];
    ib.extend(mutate);
    match stop_kind { 1 => ib.push(if_(eq(v("c"), n(2.0)), vec![throw(t("in"))])), 2 => ib.push(stop(StopMode::ThisBlock)), 3 => ib.push(wait0()), 4 => ib.push(if_(eq(v("c"), n(1.0)), vec![stop(StopMode::ThisScript)])), _ => {} }
    let mut mk = |k: usize, p: &str, p2: &str, body: Vec<Stmt>, l: Expr, id: &str| -> Vec<Stmt> {
        if k == 4 { return vec![foreach(p, l, body)]; }
        let mut b = body;
        b.push(ret(match k { 0 => ml(vec![v(p)]), 1 | 2 => neq(v(p), n(1.0)), _ => ml(vec![v(p), v(p2)]) }));
        let ps: Vec<&str> = if k == 3 { vec![p, p2] } else { vec![p] };
        let rg = ring(&ps, &["a"], b);
        vec![rsys(id, vec![match k { 0 => map(rg, l), 1 => keep(rg, l), 2 => find_first(rg, l), _ => combine(rg, l) }])]
    };
    let inner = mk(b, "c", "d", ib, inner_list, "inner");
    let mut ob = vec![rsys("out", vec![v("a")])];
    ob.extend(inner);
    let outer = mk(a, "a", "b", ob, v("l"), "outer");
    let warped = ch.flag();
    let mut sc = vec![decl(&["a"]), set("l", ml(vec![ml(vec![n(1.0), n(2.0)]), n(2.0), ml(vec![])]))];
    sc.push(try_(if warped { vec![warp(outer)] } else { outer }, "err", vec![rsys("failed", vec![v("err")])]));
    sc.push(rsys("end", vec![v("l")]));
    let mut g = nums(&["x", "err"]);
    g.push(init("l", Value::List(vec![], None)));
    diff(prog(g, vec![], vec![on_flag(sc), on_flag(vec![rsys("o", vec![]), wait0(), rsys("o", vec![v("l")])])]), Scn { cap_events: 90, ..Default::default() }, cx)
}
pub fn check(quick: bool) -> Check {
    let mut p = vec![
        phase("ring bodies", "map/keep/find first/combine/for each over every list of 0..3 items from {1,2,3} x 19 ring actions x 9 ring results x 5 surroundings", |ch, cx| run_one(ch, cx, 3, 1, 19, 5)),
        phase("pairs of actions", "lists of 0..2 items x every pair of 14 ring actions x 9 results", |ch, cx| run_one(ch, cx, 2, 2, 14, 0)),
        phase("operands", "16 rings and non-rings x 13 lists and non-lists x 5 blocks, order of evaluation logged", operands),
        phase("nested blocks", "every pair of 5 blocks, inner over the same list / item / new list, 6 mutations, 5 endings, warp", nested),
    ];
    if !quick {
        p.push(phase("pairs of all actions", "lists of 0..3 items x every pair of 19 ring actions x 9 results x 5 surroundings", |ch, cx| run_one(ch, cx, 3, 2, 19, 5)));
    }
    Check::new("E11", TRACES, p)
}
