//! V09: characters of texts, splitting, joining and code points.
use super::common::*;
use super::v02::{big, each};
use crate::refops::{graphemes, split_by as pieces, words};
use netsblox_vm::ast::TextSplitMode as M;

const NAMES: [&str; 4] = ["a", "b", "r", "err"];
fn go(body: Vec<Stmt>, cx: &Ctx) -> Leaf { diff(prog(nums(&NAMES), vec![], vec![on_flag(body)]), big(), cx) }
fn letter(i: Expr, s: Expr) -> Expr { crate::b::letter(s, i) }
fn text_of(ch: &mut Chooser, len_: usize, alpha: &[&str]) -> String { let k = ch.choose(len_ + 1); (0..k).map(|_| ch.of(alpha)).collect() }
/// everything that looks at the characters of a text
fn looks(k: usize) -> Vec<Expr> {
    let a = || v("a");
    let mut o = vec![str_len(a()), split(a(), M::Letter), letter_last(a()), code(a()), uni(code(a())), len(code(a())), eq(catl(split(a(), M::Letter)), a()), eq(catl(uni(code(a()))), a()), len(split(a(), M::Letter)), str_len(split(a(), M::Letter)), split(catl(rev(split(a(), M::Letter))), M::Letter)];
    for i in 0..=k + 1 { o.push(letter(n(i as f64), a())); }
    o.push(letter(range(n(1.0), str_len(a())), a()));
    o
}
/// whether the oracle's own pieces obey the laws that make splitting and joining inverse
fn laws(s: &str, p: &str) -> Option<String> {
    let v = pieces(s, p);
    if v.join(p) != s { return Some(format!("pieces {v:?} of {s:?} by {p:?} do not join to it")); }
    if !p.is_empty() && v.iter().any(|x| x.contains(p)) { return Some(format!("a piece of {s:?} contains {p:?}")); }
    let g = graphemes(s);
    if g.concat() != s || g.iter().any(|x| x.is_empty()) { return Some(format!("characters {g:?} do not make {s:?}")); }
    None
}
fn chars(ch: &mut Chooser, cx: &Ctx, len_: usize, alpha: &[&str]) -> Leaf {
    let s = text_of(ch, len_, alpha);
    if let Some(w) = laws(&s, "") { return Leaf::fail(format!("{s:?}"), w); }
    let mut body = vec![set("a", t(&s))];
    body.extend(each(looks(graphemes(&s).len()), &["a"], false));
    body.extend(each(vec![split(v("a"), M::Tab), split(v("a"), M::CR), split(v("a"), M::LF), split_by(v("a"), t("\r\n")), split_by(v("a"), t("\n")), split_by(v("a"), t(""))], &["a"], true));
    go(body, cx)
}
fn splits(ch: &mut Chooser, cx: &Ctx, len_: usize, pat: usize, alpha: &[&str]) -> Leaf {
    let p = text_of(ch, pat, alpha);
    let s = text_of(ch, len_, alpha);
    if let Some(w) = laws(&s, &p) { return Leaf::fail(format!("{s:?} {p:?}"), w); }
    let body = [vec![set("a", t(&s)), set("b", t(&p))], each(vec![split_by(v("a"), v("b")), split_by(t(&s), t(&p)), split_by(v("b"), v("a")), join(split_by(v("a"), v("b")), v("b")), eq(join(split_by(v("a"), v("b")), v("b")), v("a"))], &["a", "b"], true)].concat();
    go(body, cx)
}
/// the pieces put together again by a program
fn join(l: Expr, p: Expr) -> Expr { combine(l, ringe(&["x", "y"], &["p"], cat(vec![v("x"), v("p"), v("y")])), p) }
fn combine(l: Expr, f: Expr, p: Expr) -> Expr { call(ringe(&["l", "p"], &[], e(ExprKind::Combine { f: bx(f), list: bx(v("l")) })), vec![l, p]) }
fn wordy(ch: &mut Chooser, cx: &Ctx, len_: usize, alpha: &[&str]) -> Leaf {
    let s = text_of(ch, len_, alpha);
    let w = words(&s);
    let all: String = s.chars().filter(|c| c.is_alphanumeric()).collect();
    if w.concat().chars().filter(|c| c.is_alphanumeric()).collect::<String>() != all { return Leaf::fail(format!("{s:?}"), format!("words {w:?} lose a letter of {s:?}")); }
    let body = [vec![set("a", t(&s))], each(vec![split(v("a"), M::Word), len(split(v("a"), M::Word)), split(split(v("a"), M::Word), M::Letter)], &["a"], true)].concat();
    go(body, cx)
}
/// texts whose size in bytes passes the size up to which texts are kept in place
fn sizes(ch: &mut Chooser, cx: &Ctx, from: usize, to: usize) -> Leaf {
    let fill = ch.of(&["a", "é", "日", "😀"]);
    let odd = ch.of(&["", "z", "é", "e\u{301}", "日", "👍🏽", "\r\n", "🇺🇸", "🇺", "\u{301}", "\0"]);
    let k = from + ch.choose(to - from + 1);
    let at = ch.choose(k + 1);
    let s = fill.repeat(at) + odd + &fill.repeat(k - at);
    let mut body = vec![set("a", t(&s))];
    body.extend(each(looks(graphemes(&s).len()), &["a"], false));
    body.extend(each(vec![split_by(v("a"), t(odd)), split_by(v("a"), t(fill)), cat(vec![v("a"), t(odd)]), cat(vec![t(odd), v("a"), t(odd)]), eq(cat(vec![split_by(v("a"), t("?")), v("a")]), t(&(s.clone() + &s)))], &["a"], true));
    go(body, cx)
}
/// code points in blocks of 64
fn points(ch: &mut Chooser, cx: &Ctx, from: u32, blocks: usize) -> Leaf {
    let at = from + 64 * ch.choose(blocks) as u32;
    let cs: Vec<u32> = (at..at + 64).filter(|x| *x <= 0x10ffff).collect();
    let good: Vec<u32> = cs.iter().copied().filter(|x| char::from_u32(*x).is_some()).collect();
    let mut body = vec![set("a", ml(good.iter().map(|x| n(*x as f64)).collect())), set("b", uni(v("a")))];
    for x in cs.iter().filter(|x| char::from_u32(**x).is_none()) { body.push(try_(vec![rsys("bad", vec![uni(n(*x as f64))])], "err", vec![rsys("err", vec![v("err")])])); }
    body.push(rsys("v", vec![v("b"), code(v("b")), eq(code(v("b")), v("a")), str_len(v("b")), len(v("b")), split_by(v("b"), t("?"))]));
    body.push(rsys("v", vec![letter(n(1.0), v("b")), letter_last(v("b"))]));
    go(body, cx)
}
fn code_points(ch: &mut Chooser, cx: &Ctx) -> Leaf {
    let base = ch.of(&[0.0, 1.0, 10.0, 65.0, 127.0, 128.0, 255.0, 256.0, 2047.0, 2048.0, 55295.0, 55296.0, 56319.0, 57343.0, 57344.0, 65535.0, 65536.0, 128512.0, 1114111.0, 1114112.0, 2147483647.0, 2147483648.0, 4294967295.0, 4294967296.0, 4294967361.0, 9007199254740992.0, 1.8446744073709552e19, 1e300]);
    let off = ch.of(&[0.0, 1.0, -1.0, 0.5, -0.5, 1e-9, 4294967296.0]);
    let x = if ch.flag() { -base } else { base } + off;
    let form = ch.choose(4);
    let arg = match form { 0 => n(x), 1 => t(&crate::rv::num_text(x)), 2 => ml(vec![n(65.0), n(x)]), _ => ml(vec![ml(vec![n(x)]), n(66.0)]) };
    go([vec![set("a", arg)], each(vec![uni(v("a")), code(uni(v("a"))), str_len(uni(v("a")))], &["a"], false)].concat(), cx)
}
fn indices(ch: &mut Chooser, cx: &Ctx) -> Leaf {
    let s = ch.of(&["", "a", "é日", "e\u{301}x😀", "👍🏽\r\nz", "🇺🇸🇬🇧"]);
    let i = || vec![n(1.0), n(2.0), n(3.0), n(4.0), n(0.0), n(-1.0), n(0.5), n(1.5), n(2.999999999), n(1.0000000000000002), n(4294967297.0), n(18446744073709551617.0), n(9223372036854775808.0), n(-9223372036854775808.0), n(1e300), n(-1e300), t("1"), t(" 2 "), t("last"), t("any"), t("random"), t(""), t("x"), t("0x2"), bo(true), bo(false), ml(vec![]), ml(vec![n(2.0), n(1.0)]), ml(vec![n(1.0), n(9.0)]), ml(vec![ml(vec![n(1.0)]), n(2.0)]), v("b"), ent("u")];
    let (x, y) = (ch.choose(i().len()), ch.choose(i().len()));
    let body = [vec![set("a", t(s)), set("b", ml(vec![n(1.0)])), push(v("b"), n(2.0))], each(vec![letter(i().swap_remove(x), v("a")), letter(ml(vec![i().swap_remove(x), i().swap_remove(y)]), v("a")), letter(i().swap_remove(x), t(s)), letter(i().swap_remove(x), ml(vec![v("a"), t("pq")])), letter(n(1.0), letter(i().swap_remove(y), v("a")))], &["a"], true)].concat();
    go(body, cx)
}
/// texts, and other values, in lists: every block works on each item
fn listed(ch: &mut Chooser, cx: &Ctx) -> Leaf {
    let vals = || vec![t("a b"), t(""), t("é\n日"), n(12.5), n(-1e21), bo(true), ml(vec![]), ml(vec![t("x,y"), n(3.0)]), ent("u"), t("\r\n")];
    let k = ch.choose(4);
    let items: Vec<Expr> = (0..k).map(|_| vals().swap_remove(ch.choose(10))).collect();
    let pat = vec![t(" "), t(""), n(1.0), ml(vec![t(","), t(" ")]), bo(false), ent("u")].swap_remove(ch.choose(6));
    let a = || v("a");
    let body = [vec![set("a", ml(items)), set("b", pat)], each(vec![str_len(a()), split(a(), M::Letter), split(a(), M::Word), split(a(), M::LF), split(a(), M::Tab), split(a(), M::CR), letter_last(a()), code(a()), uni(code(a())), letter(n(1.0), a()), split_by(a(), v("b")), split_by(v("b"), a()), cat(vec![a(), v("b")]), catl(a()), cat(vec![t("<"), catl(a()), t(">")])], &["a"], true)].concat();
    diff_flat(prog(nums(&NAMES), vec![], vec![on_flag(body)]), big(), cx)
}
fn joins(ch: &mut Chooser, cx: &Ctx, k: usize) -> Leaf {
    let m = ch.choose(k + 1);
    let vals = || vec![t(""), t("a"), t("0123456789abcd"), t("é日😀"), n(-0.5), n(1e21), bo(false), v("b"), cat(vec![v("b"), t("!")])];
    let mut rhs = vec![];
    for _ in 0..m { rhs.push(vals().swap_remove(ch.choose(9))); }
    let body = [vec![set("b", t("kept")), set("a", cat(rhs.clone()))], each(vec![v("a"), catl(ml(rhs.clone())), cat(vec![cat(rhs.clone()), cat(rhs.clone())]), eq(cat(rhs), v("a")), str_len(v("a"))], &["b"], true)].concat();
    go(body, cx)
}

pub fn check(quick: bool) -> Check {
    let q = quick;
    let l = move |a: usize, b: usize| if q { a } else { b };
    let main = ["a", "é", "\u{301}", "👍", "🏽", "\u{200d}", "🇺", "\r", "\n", ",", "\t", "日"];
    let syll = ["\u{1100}", "\u{1161}", "\u{11a8}", "\u{ac00}", "\u{ac01}", "\u{903}", "\u{600}", "a", "\u{200c}", "\u{200d}", "🇺", "👍", "\u{7f}", "\u{fe0f}", "❤"];
    let wrd = ["a", "Z", "1", "_", "'", ".", ",", ";", " ", "-", "é", "\u{301}", "日", "👍", "\n"];
    let sep = ["a", "b", ",", "é", "\u{301}", "日"];
    Check::new("V09", TRACES, vec![
        phase("characters", "every text of up to 4 (thorough 5) of twelve characters and marks: length, letters, last, code points there and back, every index, lines, tabs", move |ch, cx| chars(ch, cx, l(4, 5), &main)),
        phase("syllables and marks", "every text of up to 3 (thorough 4) of fifteen letters that join", move |ch, cx| chars(ch, cx, l(3, 4), &syll)),
        phase("separators", "every text of up to 4 (thorough 5) and separator of up to 2 (thorough 3) of three characters", move |ch, cx| splits(ch, cx, l(4, 5), l(2, 3), &["a", "b", "é"])),
        phase("separators of many characters", "every text of up to 3 (thorough 4) and separator of up to 2 of six characters", move |ch, cx| splits(ch, cx, l(3, 4), 2, &sep)),
        phase("overlapping separators", "every text of up to 6 (thorough 9) and separator of up to 3 (thorough 4) of a single character and another", move |ch, cx| splits(ch, cx, l(6, 9), l(3, 4), &["a", "é"])),
        phase("words", "every text of up to 4 (thorough 5) of fifteen characters", move |ch, cx| wordy(ch, cx, l(4, 5), &wrd)),
        phase("sizes", "one of eleven characters at every place of texts of up to 18 (thorough 40) of four characters", move |ch, cx| sizes(ch, cx, 0, l(18, 40))),
        phase("all code points", "every number from 0 to 0x10ffff as a code point and every character as a text", |ch, cx| points(ch, cx, 0, 0x110000 / 64)),
        phase("numbers that are no code points", "28 numbers at boundaries, signs, seven offsets, as number, text and in lists", |ch, cx| code_points(ch, cx)),
        phase("indices", "pairs of 32 indices of all types into six texts", |ch, cx| indices(ch, cx)),
        phase("lists of texts", "lists of up to three of ten values, six separators", |ch, cx| listed(ch, cx)),
        phase("joins", "up to 4 (thorough 5) of nine values joined", move |ch, cx| joins(ch, cx, l(4, 5))),
    ])
}
