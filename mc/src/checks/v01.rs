//! V01: list updates.
use super::common::*;

fn indices() -> Vec<Expr> {
    let l = |xs: &[f64]| ml(xs.iter().map(|x| n(*x)).collect());
    vec![
        n(1.0), n(2.0), n(3.0), n(4.0), n(0.0), n(-1.0), n(1.5), t("2"), t(" 2 "), t("last"), t(""), bo(true),
        l(&[]), l(&[1.0]), l(&[3.0, 1.0]), l(&[1.0, 1.0, 2.0]), ml(vec![n(2.0), l(&[1.0, 3.0])]), l(&[1.0, 9.0]), l(&[9.0, 1.0]), ml(vec![n(1.0), t("x")]), ml(vec![n(1.0), n(1.5)]), ml(vec![n(1.0), bo(false)]), ml(vec![l(&[]), t("1")]),
        v("a"), v("b"), ml(vec![v("a")]), ml(vec![n(1.0), v("b")]),
        n(9223372036854775807.0), n(-9223372036854775808.0), n(1e300), n(4294967297.0), n(18446744073709551617.0), t("0x1"), t("1e0"), n(5e-324), ring(&[], &[], vec![]),
    ]
}
fn few() -> Vec<Expr> { vec![n(1.0), n(2.0), n(0.0), t("2"), ml(vec![n(2.0), n(1.0)]), ml(vec![n(1.0), n(9.0)]), v("a"), ml(vec![n(1.0), v("b")]), n(1.5)] }
/// lists a and b: separate, aliased, copied, one inside the other, both inside a third
fn setups() -> Vec<fn() -> Vec<Stmt>> {
    fn l(xs: &[f64]) -> Expr { ml(xs.iter().map(|x| n(*x)).collect()) }
    vec![
        || vec![set("a", l(&[10.0, 20.0, 30.0])), set("b", v("a"))],
        || vec![set("a", l(&[10.0, 20.0, 30.0])), set("b", copy(v("a")))],
        || vec![set("a", l(&[])), set("b", v("a"))],
        || vec![set("a", l(&[3.0, 1.0])), set("b", l(&[2.0, 2.0, 1.0]))],
        || vec![set("b", l(&[1.0, 2.0])), set("a", ml(vec![v("b"), n(5.0), v("b")]))],
        || vec![set("a", l(&[2.0])), push(v("a"), v("a")), set("b", v("a"))],
        || vec![set("a", l(&[1.0])), set("b", ml(vec![v("a")])), push(v("a"), v("b"))],
        || vec![set("a", l(&[1.0, 2.0, 3.0, 4.0, 5.0, 6.0, 7.0])), set("b", cdr(v("a")))],
        || vec![set("a", ml(vec![l(&[1.0, 2.0]), l(&[3.0])])), set("b", copy(v("a")))],
    ]
}
fn val(ch: &mut Chooser, k: usize) -> Expr { match ch.choose(3) { 0 => n(90.0 + k as f64), 1 => v("a"), _ => ml(vec![v("b")]) } }
/// one update of list `l`
fn op(ch: &mut Chooser, ix: &[Expr], k: usize, vals: bool) -> (Stmt, bool) {
    let l = v(if ch.flag() { "b" } else { "a" });
    let w = |ch: &mut Chooser| if vals { val(ch, k) } else { n(90.0 + k as f64) };
    match ch.choose(10) {
        0 => { let i = ch.of(ix); (insert(l, i, w(ch)), false) }
        1 => { let i = ch.of(ix); (del(l, i), false) }
        2 => { let i = ch.of(ix); (put(l, i, w(ch)), false) }
        3 => (push(l, w(ch)), false),
        4 => (put_last(l, w(ch)), false),
        5 => (del_last(l), false),
        6 => (del_all(l), false),
        7 => (insert_any(l, w(ch)), true),
        8 => (put_any(l, w(ch)), true),
        _ => (set("b", v("a")), false),
    }
}
fn ops(ch: &mut Chooser, cx: &Ctx, depth: usize, rich: usize, vals: bool) -> Leaf {
    let (full, small) = (indices(), few());
    let su = setups();
    let mut body = ch.pick(&su)();
    body.push(set("c", ml(vec![v("a"), v("b"), copy(v("a"))])));
    let mut random = false;
    for k in 0..depth {
        let (s, r) = op(ch, if k < rich { &full } else { &small }, k, vals);
        random |= r;
        body.push(try_(vec![s, rsys("done", vec![])], "err", vec![rsys("failed", vec![v("err")])]));
        body.push(rsys("now", vec![v("a"), v("b"), v("c")]));
    }
    let mut scn = Scn::default();
    if random { scn.rand_den = 4; scn.rand_num = ch.choose(4) as u64; }
    diff(prog(nums(&["a", "b", "c", "err"]), vec![], vec![on_flag(body)]), scn, cx)
}
/// updates of long lists: every length and every position around the ends and the middle
fn long(ch: &mut Chooser, cx: &Ctx, max: usize) -> Leaf {
    let k = ch.choose(max);
    let ps: Vec<f64> = vec![1.0, 2.0, (k / 2) as f64, k as f64 - 1.0, k as f64, k as f64 + 1.0, k as f64 + 2.0];
    let p = ch.of(&ps);
    let rot = ch.choose(4);
    // the list is filled so that its first item lies anywhere in its buffer
    let mut b = vec![set("a", ml((0..k).map(|i| n(i as f64)).collect()))];
    for i in 0..rot { b.push(try_(vec![del(v("a"), n(1.0)), push(v("a"), n(100.0 + i as f64))], "err", vec![])); }
    let set_ = ch.choose(3);
    let i = match set_ { 0 => n(p), 1 => ml(vec![n(p), n(1.0)]), _ => range(n(1.0), n(p)) };
    b.push(set("c", copy(v("a"))));
    b.push(try_(vec![match ch.choose(3) { 0 => insert(v("a"), i, n(-1.0)), 1 => del(v("a"), i), _ => put(v("a"), i, n(-1.0)) }], "err", vec![rsys("failed", vec![v("err")])]));
    b.push(rsys("now", vec![v("a"), v("c")]));
    diff(prog(nums(&["a", "c", "err"]), vec![], vec![on_flag(b)]), Scn::default(), cx)
}
/// updates through every path that leads to the same list: variables of each scope, items, captures, fields, parameters
fn paths(ch: &mut Chooser, cx: &Ctx) -> Leaf {
    let small = few();
    let at: Vec<fn() -> Expr> = vec![|| v("a"), || v("fld"), || v("loc"), || get(v("holder"), n(2.0)), || callf("give", vec![]), || callf("same", vec![v("a")]), || cond(bo(true), v("a"), n(0.0)), || last(v("holder")), || get(lcat(ml(vec![v("holder"), ml(vec![n(1.0)])])), n(2.0)), || copy(v("a")), || call(v("rg"), vec![]), || get(columns(ml(vec![v("a")])), n(1.0))];
    let w = ch.pick(&at)();
    let w2 = ch.pick(&at)();
    let body = vec![decl(&["loc"]), set("a", ml(vec![n(10.0), n(20.0), n(30.0)])), set("b", ml(vec![n(1.0)])), set("loc", v("a")), set("fld", v("a")), set("holder", ml(vec![n(0.0), v("a")])), set("rg", ringe(&[], &["loc"], v("loc")))];
    let mut body = body;
    for (k, l) in [w, w2].into_iter().enumerate() {
        let s = match ch.choose(6) { 0 => { let i = ch.of(&small); insert(l, i, n(k as f64)) } 1 => { let i = ch.of(&small); del(l, i) } 2 => { let i = ch.of(&small); put(l, i, n(k as f64)) } 3 => push(l, n(k as f64)), 4 => del_last(l), _ => put_last(l, n(k as f64)) };
        body.push(try_(vec![s], "err", vec![rsys("failed", vec![v("err")])]));
        body.push(rsys("now", vec![v("a"), v("fld"), v("loc"), v("holder")]));
    }
    let mut r = prog(nums(&["a", "b", "holder", "rg", "err"]), vec![func("give", &[], vec![ret(v("fld"))]), func("same", &["p"], vec![push(v("p"), t("seen")), ret(v("p"))])], vec![on_flag(body)]);
    r.entities[1].fields.push(init("fld", Value::Number(0.0)));
    diff(r, Scn::default(), cx)
}
/// operands that are no lists
fn kinds(ch: &mut Chooser, cx: &Ctx) -> Leaf {
    let l = match ch.choose(5) { 0 => n(1.0), 1 => t("abc"), 2 => bo(true), 3 => this(), _ => ring(&[], &[], vec![]) };
    let i = match ch.choose(5) { 0 => n(1.0), 1 => t("x"), 2 => ml(vec![]), 3 => this(), _ => v("a") };
    let s = match ch.choose(9) { 0 => insert(l, i, n(5.0)), 1 => del(l, i), 2 => put(l, i, n(5.0)), 3 => push(l, n(5.0)), 4 => put_last(l, n(5.0)), 5 => del_last(l), 6 => del_all(l), 7 => insert_any(l, n(5.0)), _ => put_any(l, n(5.0)) };
    diff(prog(nums(&["a", "err"]), vec![], vec![on_flag(vec![set("a", ml(vec![n(1.0)])), try_(vec![s], "err", vec![rsys("failed", vec![v("err")])]), rsys("a", vec![v("a")])])]), Scn::default(), cx)
}
pub fn check(quick: bool) -> Check {
    let mut p = vec![
        phase("two updates", "9 arrangements of two lists x 2 updates x (insert/remove/replace with 36 index forms | push | last | random (4 outcomes) | clear | re-alias) on either list, new items a number", |ch, cx| ops(ch, cx, 2, 2, false)),
        phase("items", "9 arrangements x 2 updates with 9 index forms where the new item is a number, the list itself or a list holding it", |ch, cx| ops(ch, cx, 2, 0, true)),
        phase("long lists", "every length up to the bound x 7 positions x 4 rotations of the buffer x single/pair/all positions x 3 updates", move |ch, cx| long(ch, cx, if quick { 40 } else { 140 })),
        phase("paths", "2 updates through every pair of 12 ways to reach the same list", |ch, cx| paths(ch, cx)),
        phase("kinds", "5 operands that are no list x 5 indices x 9 updates", |ch, cx| kinds(ch, cx)),
    ];
    if !quick { p.push(phase("three updates", "9 arrangements x 3 updates with 9 index forms", |ch, cx| ops(ch, cx, 3, 0, false))); }
    Check::new("V01", TRACES, p)
}
