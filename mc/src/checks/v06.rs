//! V06: numbers as texts and texts as numbers.
use super::common::*;
use super::v02::{big, each};
use crate::rv;
use netsblox_vm::ast::TextSplitMode as M;

const NAMES: [&str; 4] = ["a", "b", "r", "err"];
fn go(body: Vec<Stmt>, cx: &Ctx) -> Leaf { diff(prog(nums(&NAMES), vec![], vec![on_flag(body)]), big(), cx) }
/// text blocks on a number, and what they give read as a number again
fn shown(x: Expr) -> Vec<Expr> {
    let x = || x.clone();
    vec![split(x(), M::Letter), str_len(x()), split_by(x(), t("e")), cat(vec![x()]), cat(vec![t("<"), x(), t(">")]), sub(cat(vec![x()]), x()), sub(split_by(x(), t("?")), x()), eq(cat(vec![x()]), x()), sub(lines(ml(vec![x()])), x()), sub(csv(ml(vec![x()])), x()), code(x()), mul(split_by(cat(vec![x()]), t(",")), n(1.0))]
}
fn number(x: f64, cx: &Ctx) -> Leaf {
    let mut body = vec![set("a", n(x))];
    let mut ops = shown(v("a"));
    if tie(x) { for i in [10, 2, 0] { ops.remove(i); } } // two equally short and equally close texts: only what is read back is compared
    body.extend(each(ops, &["a"], false));
    let l = go(body, cx);
    if l.violation.is_some() { return l; }
    // the text agreed on by both is the shortest one that reads back
    let s = rv::num_text(if x == 0.0 { 0.0 } else { x });
    if rv::parse_num(&s) != Some(x) { return Leaf::fail(format!("{x:?}"), format!("{s} does not read back as {x:?}")); }
    let digits = s.split('e').next().unwrap().trim_start_matches('-').replace('.', "").trim_matches('0').len();
    if digits > 1 && digits <= 17 && format!("{:.*e}", digits - 2, x).parse() == Ok(x) { return Leaf::fail(format!("{x:?}"), format!("{s} has more digits than {x:?} needs")); }
    if x == x.trunc() && x.abs() < 1e15 && s != format!("{}", x as i64) { return Leaf::fail(format!("{x:?}"), format!("whole number {x} is written {s}")); }
    l
}
/// whether the exact value is halfway between the shortest text that reads back and another of the same length
fn tie(x: f64) -> bool {
    let digits = |s: String| s.trim_start_matches('-').split('e').next().unwrap().replace('.', "");
    let short = digits(format!("{x:e}")).len();
    digits(format!("{x:.1100e}"))[short..].trim_end_matches('0') == "5"
}
fn near(x: f64, d: usize) -> f64 {
    match d { 0 => x, 1 => f64::from_bits(x.to_bits().saturating_sub(1)), 2 => if x >= f64::MAX { x } else { f64::from_bits(x.to_bits() + 1) }, 3 => -x, _ => -f64::from_bits(x.to_bits().saturating_sub(1)) }
}
fn powers_of_two(ch: &mut Chooser, cx: &Ctx) -> Leaf {
    let e = ch.choose(2098) as i32 - 1074;
    let p = if e < -1022 { f64::from_bits(1u64 << (e + 1074)) } else { 2f64.powi(e) };
    number(near(p, ch.choose(5)), cx)
}
fn powers_of_ten(ch: &mut Chooser, cx: &Ctx, mant: &[u32]) -> Leaf {
    let e = ch.choose(632) as i32 - 323;
    let m = ch.of(mant);
    let x: f64 = format!("{m}e{e}").parse().unwrap();
    if !x.is_finite() || x == 0.0 { return Leaf::skip(); }
    number(near(x, ch.choose(5)), cx)
}
fn fractions(ch: &mut Chooser, cx: &Ctx, max: usize) -> Leaf {
    let q = 1 + ch.choose(max);
    let p = ch.choose(4 * max) as f64 - 2.0 * max as f64;
    number(p / q as f64, cx)
}
fn whole(ch: &mut Chooser, cx: &Ctx, width: usize) -> Leaf {
    let base = ch.of(&[0.0, 1000.0, 65536.0, 1e6, 4294967296.0, 1e9, 1e12, 1e14, 1e15, 1e16, 4503599627370496.0, 9007199254740992.0, 9223372036854775808.0, 18446744073709551616.0, 1e17, 1e18, 1e20, 1e21, 1e22, 1e23]);
    let s = if ch.flag() { -1.0 } else { 1.0 };
    number(s * (base + ch.choose(width) as f64 - width as f64 / 2.0), cx)
}
/// blocks that read a text as a number
fn read(s: &str, cx: &Ctx) -> Leaf {
    let mut body = vec![set("a", t(s))];
    body.extend(each(vec![add(v("a"), n(0.0)), neg(v("a")), eq(v("a"), n(1.0)), lt(v("a"), n(2.0)), get(ml(vec![t("p"), t("q")]), v("a"))], &[], false));
    if !rv::parse_num(s).is_some_and(tie) { body.extend(each(vec![split_by(add(v("a"), n(0.0)), t("?"))], &[], false)); }
    body.push(try_(vec![set("b", n(1.0)), chg("b", v("a")), rsys("chg", vec![v("b")])], "err", vec![rsys("err", vec![v("err")])]));
    go(body, cx)
}
fn texts(ch: &mut Chooser, cx: &Ctx, len_: usize, alpha: &[&str]) -> Leaf {
    let k = ch.choose(len_ + 1);
    let s: String = (0..k).map(|_| ch.of(alpha)).collect();
    read(&s, cx)
}
/// a well-formed number with one piece replaced or inserted
fn edits(ch: &mut Chooser, cx: &Ctx, second: bool) -> Leaf {
    let bases = ["1", "-12.5", "+.5e3", "6.02e-23", "0x1F", "0b101", "0o17", "1e308", " 7 ", "0XaB", "00012", "9007199254740993", "0x7fffffffffffffff", "1.7976931348623157e308", "4.9e-324", "0B11", "0O7", "-0x5", "0e5"];
    let parts = ["", "0", "1", "9", ".", "-", "+", "e", "E", "x", "X", "b", "o", "f", "F", " ", "\t", "\n", "\u{a0}", "\u{2003}", "\u{feff}", "_", ",", "'", "∞", "٣", "３", "\u{0}", "n", "inf", "%", "ı", "é"];
    let mut s: Vec<String> = ch.of(&bases).chars().map(|c| c.to_string()).collect();
    for _ in 0..if second { 2 } else { 1 } {
        let at = ch.choose(s.len() + 1);
        let p = ch.of(&parts).to_string();
        if ch.flag() { if at < s.len() { s[at] = p } else { return Leaf::skip() } } else { if p.is_empty() { return Leaf::skip(); } s.insert(at, p) }
    }
    read(&s.concat(), cx)
}
fn long(ch: &mut Chooser, cx: &Ctx) -> Leaf {
    let k = ch.of(&[15, 16, 17, 18, 19, 20, 30, 63, 64, 100, 300, 307, 308, 309, 310, 323, 324, 325, 400, 800, 1100]);
    let rep = |s: &str| s.repeat(k);
    let sign = ch.of(&["", "-", "+"]);
    let s = match ch.choose(16) {
        0 => rep("1"), 1 => format!("1{}", rep("0")), 2 => format!("0.{}1", rep("0")), 3 => format!("{}.5", rep("0")), 4 => rep("9"), 5 => format!("0.{}", rep("9")), 6 => format!("1e{k}"), 7 => format!("1e-{k}"), 8 => format!("{}e-{k}", rep("7")), 9 => format!("0.{}3e{k}", rep("0")),
        10 => format!("0x{}", rep("0")), 11 => format!("0x{}1", rep("0")), 12 => format!("0b{}", rep("1")), 13 => format!("1e{}", rep("0")), 14 => format!("1e-{}", rep("0") + "9"), _ => format!("{}1{}", rep(" "), rep("\n")),
    };
    read(&format!("{sign}{s}"), cx)
}
/// texts exactly halfway between two neighbouring numbers, and just off it; the expected value is found with whole numbers only
fn halfway(ch: &mut Chooser, cx: &Ctx) -> Leaf {
    let m = (1u64 << 52) + ch.of(&[0u64, 1, 2, 3, 5, 6, 1234567, (1 << 52) - 2, (1 << 52) - 1, (1 << 51) + 1, 777777777777777]); // the lower of two neighbours, doubled: m odd or even is what decides
    let y = (m as u128) * 2 + 1; // between m and m+1
    let p = ch.choose(56) as i32 - 30; // the value is y * 2^p
    let off = ch.choose(3) as i32 - 1;
    let text = if p >= 0 {
        let w = y << p;
        match off { 0 => format!("{w}"), 1 => format!("{w}.000000000000000000001"), _ => format!("{}.99999999999999999999", w - 1) }
    } else {
        let k = (-p) as u32;
        let w = y * 5u128.pow(k);
        let s = format!("{:0>width$}", w, width = k as usize + 1);
        let (a, b) = s.split_at(s.len() - k as usize);
        match off { 0 => format!("{a}.{b}"), 1 => format!("{a}.{b}00000000000001"), _ => { let w = w - 1; let s = format!("{:0>width$}", w, width = k as usize + 1); let (a, b) = s.split_at(s.len() - k as usize); format!("{a}.{b}99999999999999") } }
    };
    let up = match off { 0 => m % 2 == 1, 1 => true, _ => false };
    let want = (m + up as u64) as f64 * 2f64.powi(p + 1);
    if rv::parse_num(&text) != Some(want) { return Leaf::fail("oracle", format!("HARNESS: {text} should be {want:?}")); }
    read(&text, cx)
}
pub fn check(quick: bool) -> Check {
    let mant: Vec<u32> = if quick { vec![1, 2, 5, 9, 12, 123, 9007] } else { (1..100).chain([123, 9007, 65537, 123456789]).collect() };
    let alpha = ["0", "1", "9", ".", "e", "-", "+", "x", "b", "a", "f", " ", "E", "o"];
    let tiny = ["0", "1", "7", ".", "e", "-", "x", "b", "+"];
    Check::new("V06", TRACES, vec![
        phase("powers of two", "all 2098 powers of two, both neighbours, and negatives, through 12 text operations", powers_of_two),
        phase("powers of ten", "multiples of all powers of ten with 7 (thorough 103) leading parts, and neighbours", move |ch, cx| powers_of_ten(ch, cx, &mant)),
        phase("fractions", "all fractions with a denominator up to 32 (thorough 128) and a numerator up to twice that", move |ch, cx| fractions(ch, cx, if quick { 32 } else { 128 })),
        phase("whole numbers", "60 (thorough 1000) whole numbers around each of 20 places", move |ch, cx| whole(ch, cx, if quick { 60 } else { 1000 })),
        phase("texts", "every text of up to 4 (thorough 5) of 14 characters", move |ch, cx| texts(ch, cx, if quick { 4 } else { 5 }, &alpha)),
        phase("longer texts", "every text of up to 5 (thorough 7) of nine characters", move |ch, cx| texts(ch, cx, if quick { 5 } else { 7 }, &tiny)),
        phase("edited numbers", "19 texts of numbers with one piece inserted or replaced (thorough two)", move |ch, cx| edits(ch, cx, !quick)),
        phase("long texts", "16 forms of up to 1100 digits, with every sign", long),
        phase("halfway", "texts exactly between two neighbouring numbers or just off, for 11 pairs at 56 scales", halfway),
    ])
}
