//! V05: arithmetic.
use super::common::*;
use super::trees::*;
use super::v02::{big, each};
use crate::b;
use std::sync::Arc;

/// boundaries of the number format, of rounding and of angles, texts that do and do not spell numbers, and other values
pub fn scalars() -> Vec<Expr> {
    let mut o: Vec<Expr> = [0.0, -0.0, 1.0, -1.0, 2.0, -2.0, 3.0, -3.0, 4.0, -4.0, 7.0, -7.0, 10.0, 0.5, -0.5, 0.1, -0.1, 0.3, 1.5, -1.5, 2.5, -2.5, 0.49999999999999994, -0.49999999999999994, 1.0 / 3.0, 12.0, 30.0, -30.0, 45.0, 60.0, 90.0, -90.0, 180.0, 270.0, 360.0, -360.0, 361.0, 720.0, 255.0, 1e-20, -1e-20, 5e-324, -5e-324, 2.2250738585072014e-308, 1e-300, 1e100, 1e154, 1.3407807929942596e154, 1e155, -1e155, 1e200, 1e308, 8.98846567431158e307, -8.98846567431158e307, f64::MAX, f64::MIN, 4503599627370495.5, 4503599627370497.5, 9007199254740991.0, 9007199254740992.0, -9007199254740993.0, 1e16, 4294967296.0, 4294967295.0, 1.0000000000000002, 0.9999999999999999].map(n).to_vec();
    o.extend(["5", " 2 ", "-3", "0x10", "0b11", "1e2", "1e400", "-0", ".5", "5.", "", " ", "x", "NaN", "inf", "-Infinity", "1,5", "0x", "0x1.8"].map(t));
    o.extend([bo(true), bo(false), ent("Sprite"), ringe(&[], &[], n(1.0)), ml(vec![])]);
    o
}
const NAMES: [&str; 4] = ["a", "b", "r", "err"];
fn binary(x: &str, y: &str) -> Vec<Expr> {
    let (x, y) = (|| v(x), || v(y));
    vec![add(x(), y()), sub(x(), y()), mul(x(), y()), div(x(), y()), md(x(), y()), addl(ml(vec![x(), y()])), mull(ml(vec![x(), y()])), addl(ml(vec![x(), y(), x()])), mull(ml(vec![y(), x(), y()])), sub(add(x(), y()), y()), mul(div(x(), y()), y()), add(md(x(), y()), n(0.0))]
}
fn approx(x: &str, y: &str) -> Vec<Expr> { let (x, y) = (|| v(x), || v(y)); vec![pow(x(), y()), log(x(), y()), atan2(x(), y())] }
fn unary(x: &str) -> Vec<Expr> {
    let x = || v(x);
    vec![neg(x()), abs(x()), sqrt(x()), floor(x()), ceil(x()), round(x()), neg(neg(x())), sub(n(0.0), x()), addl(ml(vec![x()])), mull(ml(vec![x()])), addl(x()), mull(x()), abs(neg(x())), floor(neg(x())), round(md(x(), n(7.0))), md(x(), n(360.0)), md(x(), n(-360.0))]
}
fn trig(x: &str) -> Vec<Expr> { let x = || v(x); vec![sin(x()), cos(x()), tan(x()), asin(x()), acos(x()), atan(x()), ln(x())] }
fn ln(x: Expr) -> Expr { log(x, n(std::f64::consts::E)) }
fn world(x: Expr, y: Expr) -> Vec<Stmt> { vec![set("a", x), set("b", y)] }
fn run_(body: Vec<Stmt>, cx: &Ctx) -> Leaf { diff(prog(nums(&NAMES), vec![], vec![on_flag(body)]), big(), cx) }
fn pair(ch: &mut Chooser, cx: &Ctx, all: fn() -> Vec<Expr>, near: bool) -> Leaf {
    let all = all();
    let (x, y) = (ch.of(&all), ch.of(&all));
    let mut body = world(x, y);
    body.extend(each(if near { approx("a", "b") } else { binary("a", "b") }, &["a", "b"], false));
    if near { diff_near(prog(nums(&NAMES), vec![], vec![on_flag(body)]), big(), cx, 1e-12) } else { run_(body, cx) }
}
fn one(ch: &mut Chooser, cx: &Ctx, all: fn() -> Vec<Expr>, near: bool) -> Leaf {
    let all = all();
    let mut body = world(ch.of(&all), n(0.0));
    body.extend(each(if near { trig("a") } else { unary("a") }, &["a"], false));
    if near { diff_near(prog(nums(&NAMES), vec![], vec![on_flag(body)]), big(), cx, 1e-12) } else { run_(body, cx) }
}
/// whole numbers, halves and quarters
fn grid(ch: &mut Chooser, cx: &Ctx, r: i32) -> Leaf {
    let d = ch.of(&[1.0, 2.0, 4.0, 10.0]);
    let (x, y) = (ch.choose((2 * r + 1) as usize) as f64 - r as f64, ch.choose((2 * r + 1) as usize) as f64 - r as f64);
    let mut body = world(n(x / d), n(y / d));
    body.extend(each(binary("a", "b"), &[], false));
    if y == 0.0 { body.extend(each(unary("a"), &[], false)); }
    run_(body, cx)
}
/// every power of two and its neighbours against a few others
fn powers(ch: &mut Chooser, cx: &Ctx, step: usize) -> Leaf {
    let e = ch.choose(2098 / step) as i32 * step as i32 - 1074;
    let p = if e < -1022 { f64::from_bits(1u64 << (e + 1074)) } else if e > 1023 { f64::MAX } else { 2f64.powi(e) };
    let x = match ch.choose(3) { 0 => p, 1 => f64::from_bits(p.to_bits() - 1), _ => if p == f64::MAX { -p } else { f64::from_bits(p.to_bits() + 1) } };
    let y = ch.of(&[3.0, -0.1, 1e10, -360.0, x, -x, 1.0 / x.max(1e-300), p * 0.75]);
    let mut body = world(n(x), n(y));
    body.extend(each(binary("a", "b"), &[], false));
    body.extend(each(unary("a"), &[], false));
    run_(body, cx)
}
fn changes(ch: &mut Chooser, cx: &Ctx) -> Leaf {
    let all = scalars();
    let (x, y) = (ch.of(&all), ch.of(&all));
    let mut body = world(x, y);
    body.push(try_(vec![chg("a", v("b")), rsys("v", vec![v("a"), v("b")])], "err", vec![rsys("err", vec![v("err"), v("a")])]));
    body.push(try_(vec![chg("b", v("b")), rsys("v", vec![v("b")])], "err", vec![rsys("err", vec![v("err"), v("b")])]));
    run_(body, cx)
}
fn lists(ch: &mut Chooser, cx: &Ctx, xs: &[Tree], ys: &[Tree], alpha: fn() -> Vec<Expr>) -> Leaf {
    let (x, y) = (expr(ch.pick(xs), &alpha()), expr(ch.pick(ys), &alpha()));
    let mut body = world(x, y);
    let mut ops = binary("a", "b");
    ops.extend([neg(v("a")), round(v("a")), pow(v("a"), v("b")), b::max(ml(vec![v("a"), v("b")]))]);
    body.extend(each(ops, &["a", "b"], true));
    diff_flat(prog(nums(&NAMES), vec![], vec![on_flag(body)]), big(), cx)
}
/// sums and products of lists
fn sums(ch: &mut Chooser, cx: &Ctx, max: usize) -> Leaf {
    let items = [n(0.1), n(-2.0), n(1e308), t("3"), t("x"), n(1e-320), ml(vec![n(1.0), n(2.0)])];
    let k = ch.choose(max + 1);
    let l: Vec<Expr> = (0..k).map(|_| ch.of(&items)).collect();
    let mut body = world(ml(l.clone()), n(0.0));
    body.extend(each(vec![addl(v("a")), mull(v("a")), addl(ml(l.clone())), mull(ml(l)), addl(rev(v("a")))], &["a"], true));
    run_(body, cx)
}
fn small(x: Vec<f64>) -> Vec<Expr> { x.into_iter().map(n).collect() }
fn angles() -> Vec<Expr> { let mut o: Vec<f64> = (-72..=72).map(|k| k as f64 * 7.5).collect(); o.extend((-40..=40).map(|k| k as f64 / 40.0)); o.extend([1.0000001, -1.0000001, 1e5, 1e-8, 1e10]); small(o) }
fn bases() -> Vec<Expr> { let mut o = small(vec![0.0, 1.0, -1.0, 2.0, -2.0, 3.0, -3.0, 0.5, -0.5, 0.1, 10.0, 100.0, 1e-10, 1e10, 1e100, 1e308, 1e-308, 5e-324, 1.0 / 3.0, -1.0 / 3.0, 7.0, 64.0, 1024.0, 0.999, 1.001, 1e5, -8.0, 53.0, 308.0, -308.0, 1023.0]); o.extend([t("2"), t("x"), t("0x10"), bo(true)]); o }
pub fn check(quick: bool) -> Check {
    let alpha: fn() -> Vec<Expr> = || vec![n(2.0), t("-3")];
    let rich: fn() -> Vec<Expr> = || vec![n(2.0), t("-3"), n(1e308), n(0.0), t("x"), n(0.1)];
    let t1 = Arc::new(up_to(if quick { 5 } else { 6 }, 2, 3));
    let t2 = Arc::new(up_to(if quick { 3 } else { 4 }, 6, 3));
    Check::new("V05", TRACES, vec![
        phase("scalars", "every ordered pair of 91 operands under 12 exact operations", |ch, cx| pair(ch, cx, scalars, false)),
        phase("single operands", "every operand under 17 exact operations", |ch, cx| one(ch, cx, scalars, false)),
        phase("grid", "every pair of whole numbers, halves, quarters and tenths in a range of 12 (thorough 40) either side of zero", move |ch, cx| grid(ch, cx, if quick { 12 } else { 40 })),
        phase("powers of two", "every 3rd (thorough every) power of two and its two neighbours against eight operands", move |ch, cx| powers(ch, cx, if quick { 3 } else { 1 })),
        phase("powers and logarithms", "every ordered pair of 35 operands, compared to a relative error of 1e-12", |ch, cx| pair(ch, cx, bases, true)),
        phase("angles", "231 angles and ratios, compared to a relative error of 1e-12", |ch, cx| one(ch, cx, angles, true)),
        phase("changing variables", "every ordered pair of the 91 operands", |ch, cx| changes(ch, cx)),
        phase("lists", "every ordered pair of nested lists of up to 5 nodes (thorough 6) over two items, under 16 operations each followed by a change of the result", move |ch, cx| lists(ch, cx, &t1, &t1, alpha)),
        phase("lists of extremes", "every ordered pair of nested lists of up to 3 nodes (thorough 4) over six items", move |ch, cx| lists(ch, cx, &t2, &t2, rich)),
        phase("sums and products", "every list of up to 4 (thorough 6) of seven items", move |ch, cx| sums(ch, cx, if quick { 4 } else { 6 })),
    ])
}
