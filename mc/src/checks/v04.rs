//! V04: comparison.
use super::common::*;
use super::trees::*;
use super::v02::{big, each};
use crate::b;
use std::sync::Arc;

/// numbers, numeric texts, other texts, truth values and values without an order
pub fn scalars() -> Vec<Expr> {
    let mut o: Vec<Expr> = [0.0, -0.0, 1.0, -1.0, 2.0, 10.0, 9.0, 0.1, 0.2, 0.30000000000000004, 0.3, 255.0, 1e15, 1e16, 9007199254740991.0, 9007199254740992.0, 9007199254740994.0, 5e-324, 2.2250738585072014e-308, -1e308, 1.7976931348623157e308, 1e21].map(n).to_vec();
    o.extend(["0", "-0", "1", " 1", "1 ", "\t1\n", "+1", "1.0", "1.", "01", "1e0", "1E0", "0x1", "0b1", "0o1", "0xff", "0xFF", "10", "9", ".3", "3e-1", "1e308", "1e309", "9007199254740993", "NaN", "inf", "Infinity", "-inf", "1_0", "1,0", "½", "١"].map(t));
    o.extend(["", " ", "  ", "a", "A", "b", "B", "a ", " a", "aa", "Ab", "aB", "é", "É", "e\u{301}", "z", "Z", "[", "_", "`", "ab", "\u{1d11e}", "\u{ffff}", "true", "True", "false", "\n", "Ω", "ω", "Д", "д"].map(t));
    o.extend([bo(true), bo(false)]);
    o
}
fn handles() -> Vec<Expr> {
    vec![v("ring"), ringe(&[], &[], n(1.0)), v("copy"), ent("Sprite"), ent("Stage"), this(), n(1.0), t("Sprite"), t("Closure"), t(""), bo(true), ml(vec![]), ml(vec![v("ring")]), ml(vec![this()]), ml(vec![ringe(&[], &[], n(1.0))]), v("lst"), ml(vec![v("lst")])]
}
/// every block that compares, on `a` and `b` both ways round
fn both(a: &str, c: &str) -> Vec<Expr> {
    let mut o = vec![];
    for (x, y) in [(a, c), (c, a)] {
        let (x, y) = (|| v(x), || v(y));
        o.extend([eq(x(), y()), neq(x(), y()), lt(x(), y()), le(x(), y()), gt(x(), y()), ge(x(), y()), is(x(), y())]);
        o.extend([find(ml(vec![x(), t("?")]), y()), find(ml(vec![t("?"), x(), x()]), y()), contains(ml(vec![x()]), y()), contains(ml(vec![t("??"), x()]), y()), min(ml(vec![x(), y()])), b::max(ml(vec![x(), y()]))]);
        o.extend([eq(ml(vec![x()]), ml(vec![y()])), lt(ml(vec![x()]), ml(vec![y()])), ge(ml(vec![x(), n(1.0)]), ml(vec![y(), n(2.0)])), is(ml(vec![x()]), ml(vec![y()]))]);
    }
    o
}
fn pair(x: Expr, y: Expr, poke: bool, cx: &Ctx) -> Leaf {
    let mut body = vec![set("a", x), set("b", y)];
    body.extend(each(both("a", "b"), &[], poke));
    diff(prog(nums(&["a", "b", "r", "err"]), vec![], vec![on_flag(body)]), big(), cx)
}
/// the operands written into the blocks instead of held by variables
fn literal(ch: &mut Chooser, cx: &Ctx, all: fn() -> Vec<Expr>) -> Leaf {
    let all = all();
    let (x, y) = (ch.of(&all), ch.of(&all));
    let (x, y) = (|| x.clone(), || y.clone());
    let ops = vec![eq(x(), y()), neq(x(), y()), lt(x(), y()), le(x(), y()), gt(x(), y()), ge(x(), y()), is(x(), y()), min(ml(vec![x(), y()])), b::max(ml(vec![x(), y()])), find(ml(vec![x()]), y())];
    diff(prog(nums(&["r", "err"]), vec![], vec![on_flag(each(ops, &[], false))]), big(), cx)
}
fn handle_pairs(ch: &mut Chooser, cx: &Ctx) -> Leaf {
    let hs = handles();
    let (x, y) = (ch.of(&hs), ch.of(&hs));
    let mut body = vec![set("ring", ringe(&[], &[], n(7.0))), set("copy", v("ring")), set("lst", ml(vec![v("ring"), n(1.0)])), set("a", x), set("b", y)];
    body.extend(each(both("a", "b"), &[], false));
    diff(prog(nums(&["a", "b", "r", "err", "ring", "copy", "lst"]), vec![], vec![on_flag(body)]), big(), cx)
}
fn lists(ch: &mut Chooser, cx: &Ctx, xs: &[Tree], alpha: fn() -> Vec<Expr>) -> Leaf {
    let (x, y) = (expr(ch.pick(xs), &alpha()), expr(ch.pick(xs), &alpha()));
    pair(x, y, false, cx)
}
/// smallest, largest and first equal of three, in every order
fn triple(ch: &mut Chooser, cx: &Ctx, all: fn() -> Vec<Expr>) -> Leaf {
    let all = all();
    let (x, y, z) = (ch.of(&all), ch.of(&all), ch.of(&all));
    let mut body = vec![set("a", x), set("b", y), set("c", z), set("l", ml(vec![v("a"), v("b"), v("c")]))];
    let l = || v("l");
    body.extend(each(vec![min(l()), b::max(l()), find(l(), v("b")), find(l(), v("c")), contains(l(), v("c")), min(ml(vec![v("a"), v("b"), v("c")])), b::max(ml(vec![v("a"), v("b"), v("c")])), min(rev(l())), b::max(rev(l())), eq(l(), rev(l())), lt(l(), rev(l())), find(ml(vec![l(), rev(l())]), rev(l())), min(ml(vec![l(), rev(l())]))], &[], false));
    diff(prog(nums(&["a", "b", "c", "l", "r", "err"]), vec![], vec![on_flag(body)]), big(), cx)
}
fn some() -> Vec<Expr> { vec![n(1.0), n(-0.0), n(10.0), t("1"), t("10"), t("9"), t("a"), t("A"), t("B"), t(""), t(" "), t("1e1"), t("0xa"), bo(true), bo(false), t("true"), ml(vec![]), ml(vec![n(1.0)]), ml(vec![t("1")]), t("NaN"), n(2.0), ml(vec![t("a"), n(2.0)]), ml(vec![t("A")]), t("aB")] }
/// all texts over a few characters that matter for numbers and letter case
fn texts(ch: &mut Chooser, cx: &Ctx, len_: usize) -> Leaf {
    let alpha = ["1", "0", ".", "e", "-", " ", "A", "x", "a"];
    let mut one = |ch: &mut Chooser| { let k = ch.choose(len_ + 1); (0..k).map(|_| ch.of(&alpha)).collect::<String>() };
    let (x, y) = (one(ch), one(ch));
    pair(t(&x), t(&y), false, cx)
}
/// a number against every text near a way of writing it
fn spelled(ch: &mut Chooser, cx: &Ctx, len_: usize) -> Leaf {
    let alpha = ["1", "0", ".", "e", "-", "+", " ", "x", "b", "a", "\n"];
    let k = ch.choose(len_ + 1);
    let s: String = (0..k).map(|_| ch.of(&alpha)).collect();
    let x = ch.of(&[n(1.0), n(0.0), n(10.0), n(-1.0), n(0.1)]);
    pair(x, t(&s), false, cx)
}
pub fn check(quick: bool) -> Check {
    let items: fn() -> Vec<Expr> = || vec![n(1.0), t("1"), t("a"), t("A"), bo(true), t(""), n(2.0)];
    let duo: fn() -> Vec<Expr> = || vec![n(1.0), t("a")];
    let short = Arc::new(up_to(if quick { 3 } else { 4 }, if quick { 7 } else { 5 }, 2));
    let deep = Arc::new(up_to(if quick { 5 } else { 6 }, 2, 4));
    Check::new("V04", TRACES, vec![
        phase("scalars", "every ordered pair of 87 numbers, texts and truth values, under 34 comparing operations", |ch, cx| { let a = scalars(); let (x, y) = (ch.of(&a), ch.of(&a)); pair(x, y, false, cx) }),
        phase("literals", "every ordered pair of the same values, written into the blocks", |ch, cx| literal(ch, cx, scalars)),
        phase("rings and sprites", "every ordered pair of 17 values that are, hold or look like rings, sprites and shared lists", |ch, cx| handle_pairs(ch, cx)),
        phase("lists", "every ordered pair of lists of up to 3 nodes over seven items (thorough 4 over five)", move |ch, cx| lists(ch, cx, &short, items)),
        phase("nested lists", "every ordered pair of nested lists of up to 5 nodes (thorough 6) over two items", move |ch, cx| lists(ch, cx, &deep, duo)),
        phase("three values", "every triple of 24 values", |ch, cx| triple(ch, cx, some)),
        phase("texts", "every ordered pair of texts of up to 2 (thorough 3) of nine characters", move |ch, cx| texts(ch, cx, if quick { 2 } else { 3 })),
        phase("spellings of numbers", "five numbers against every text of up to 3 (thorough 5) of eleven characters", move |ch, cx| spelled(ch, cx, if quick { 3 } else { 5 })),
    ])
}
