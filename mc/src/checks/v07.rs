//! V07: values through JSON, the NetsBlox message format, plain values and CSV.
use super::common::*;
use super::trees::*;
use super::v02::{big, each};
use crate::sys::*;
use crate::rv;
use netsblox_vm::ast::TextSplitMode as M;
use netsblox_vm::gc::*;
use netsblox_vm::runtime::{Audio, Image, Number, SimpleValue as SV, Value};
use std::sync::Arc;

fn num(x: f64) -> SV { SV::Number(Number::new(x).unwrap()) }
fn txt(x: &str) -> SV { SV::Text(x.into()) }
fn img(c: &[u8], center: Option<(f64, f64)>, name: &str) -> SV { SV::Image(Image { content: c.to_vec(), center: center.map(|(x, y)| (Number::new(x).unwrap(), Number::new(y).unwrap())), name: name.into() }) }
fn aud(c: &[u8], name: &str) -> SV { SV::Audio(Audio { content: c.to_vec(), name: name.into() }) }
fn media(v: &SV) -> bool { match v { SV::Image(_) | SV::Audio(_) => true, SV::List(l) => l.iter().any(media), _ => false } }
/// a text that itself spells a costume or sound with data cannot be told from one; it may be refused when it is not well-formed
fn spells_media(s: &str) -> bool { s.contains('<') && s.contains('=') && (s.contains("costume") && s.contains("image") || s.matches("sound").count() > 1) }
fn ambiguous(v: &SV) -> bool { match v { SV::Text(s) => spells_media(s), SV::List(l) => l.iter().any(ambiguous), _ => false } }
/// the text parser of the JSON library is allowed its own reading of a number (V07's known finding is about it)
fn misread(v: &SV) -> bool { match v { SV::Number(x) => serde_json::from_str::<f64>(&serde_json::to_string(&x.get()).unwrap()).ok() != Some(x.get()), SV::List(l) => l.iter().any(misread), _ => false } }
struct Slot<'gc> { v: Value<'gc, MC, MSys> }
unsafe impl<'gc> Collect for Slot<'gc> { fn trace(&self, cc: &netsblox_vm::gc::gc_arena::Collection) { self.v.trace(cc) } }
/// through the plain form: into a live value and back
fn plain(v: &SV) -> Result<SV, String> {
    let arena = Arena::<Rootable![Slot<'_>]>::new(|mc| Slot { v: Value::from_simple(mc, v.clone()) });
    arena.mutate(|_, s| s.v.to_simple().map_err(|e| format!("{e:?}")))
}
fn trip(v: &SV) -> Leaf {
    let key = format!("{v:?}");
    let bad = |how: &str, got: String| Leaf::fail(key.clone(), format!("{v:?}\n{how} became\n{got}"));
    match plain(v) { Ok(x) if x == *v => {} x => return bad("through the live form", format!("{x:?}")) }
    let j = v.clone().into_json::<MC, MSys>();
    match (&j, media(v)) {
        (Err(_), true) => {}
        (Ok(j), false) => {
            match SV::from_json(j.clone()) { Ok(x) if x == *v => {} x => return bad("through json", format!("{x:?}")) }
            let text = serde_json::to_string(j).unwrap();
            let back: serde_json::Value = serde_json::from_str(&text).unwrap();
            match SV::from_json(back) { Ok(x) if x == *v || misread(v) => {} x => return bad("through json text", format!("{text}\n{x:?}")) }
        }
        (j, _) => return bad("as json", format!("{:?}", j.as_ref().map_err(|e| format!("{e:?}")))),
    }
    if !ambiguous(v) {
        let j = v.clone().into_netsblox_json();
        match SV::from_netsblox_json(j.clone()) { Ok(x) if x == *v => {} x => return bad("through the message format", format!("{j}\n{x:?}")) }
        let text = serde_json::to_string(&j).unwrap();
        match SV::from_netsblox_json(serde_json::from_str(&text).unwrap()) { Ok(x) if x == *v || misread(v) => {} x => return bad("through message text", format!("{text}\n{x:?}")) }
    } else { let _ = SV::from_netsblox_json(v.clone().into_netsblox_json()); }
    let mut l = Leaf::ok(vec![h64(&key)], 6);
    l.desc = Some(key);
    l
}
fn tree(t: &Tree, alpha: &[SV]) -> SV { match t { Tree::Leaf(k) => alpha[*k].clone(), Tree::List(v) => SV::List(v.iter().map(|x| tree(x, alpha)).collect()) } }
fn leaves() -> Vec<SV> { vec![SV::Bool(true), num(-1.5), txt(""), txt("a\"\\\n"), img(&[1, 255], None, "x"), aud(&[0], "s"), txt("<costume"), num(0.0)] }
fn text_of(ch: &mut Chooser, alpha: &[&str], len_: usize) -> String { let k = ch.choose(len_ + 1); (0..k).map(|_| ch.of(alpha)).collect() }
const MARKUP: [&str; 15] = ["<", "costume", "sound", " ", "name=", "\"", "a", "image=", "/>", ">", "data:image/png;base64,", "AA==", "&amp;", "'", "<costume name=\"n\""];
const CHARS: [&str; 16] = ["a", "\"", "\\", "\n", "\t", "\r", "\u{0}", "\u{1}", "\u{7f}", "é", "\u{2028}", "😀", "<", "&", "/", "u0041"];
const NAMEY: [&str; 13] = ["a", " ", "&", "<", ">", "\"", "'", ";", "&amp;", "\n", "é", "😀", "#x41"];
fn names(ch: &mut Chooser, len_: usize) -> Leaf {
    let s = text_of(ch, &NAMEY, len_);
    let c = ch.of(&[&[][..], &[1, 2, 3], b"name=\"q\""]);
    match ch.choose(4) { 0 => trip(&img(c, None, &s)), 1 => trip(&img(c, Some((1.5, -2.0)), &s)), 2 => trip(&aud(c, &s)), _ => trip(&SV::List(vec![txt(&s), aud(c, &s), img(c, None, &s)])) }
}
fn contents(ch: &mut Chooser, len_: usize) -> Leaf {
    let k = ch.choose(len_ + 1);
    let c: Vec<u8> = (0..k).map(|_| ch.of(&[0u8, 1, 62, 63, 127, 128, 251, 255])).collect();
    if ch.flag() { trip(&aud(&c, "n")) } else { trip(&img(&c, None, "n")) }
}
fn centers(ch: &mut Chooser) -> Leaf {
    let xs = [0.0, 1.0, -1.0, 0.5, 1e21, 1e-7, 1e300, 5e-324, -1.7976931348623157e308, 0.1, 123456789.123, 9007199254740993.0];
    let (x, y) = (ch.of(&xs), ch.of(&xs));
    trip(&img(&[7], Some((x, y)), "c"))
}
fn numbers(ch: &mut Chooser) -> Leaf {
    let x = match ch.choose(3) {
        0 => { let e = ch.choose(2098) as i32 - 1074; let p = if e < -1022 { f64::from_bits(1u64 << (e + 1074)) } else { 2f64.powi(e) }; match ch.choose(3) { 0 => p, 1 => -p, _ => f64::from_bits(p.to_bits() - 1) } }
        1 => { let e = ch.choose(632) as i32 - 323; let m = ch.of(&[1, 3, 12, 99]); let x: f64 = format!("{m}e{e}").parse().unwrap(); if !x.is_finite() { return Leaf::skip(); } x }
        _ => (ch.choose(4001) as f64 - 2000.0) / ch.of(&[1.0, 7.0, 8.0, 100.0]),
    };
    trip(&num(x))
}
/// a costume or sound as a server may write it
fn written(ch: &mut Chooser) -> Leaf {
    let sound = ch.flag();
    let q = ch.of(&["\"", "'"]);
    let mut attrs: Vec<(String, String)> = vec![];
    let name = ch.of(&[None, Some("a"), Some("a &amp; b"), Some("&lt;x&gt;"), Some("")]);
    if let Some(n) = name { attrs.push(("name".into(), n.into())); }
    let ty = ch.of(if sound { &["mpeg", "wav"] } else { &["png", "svg+xml"] });
    attrs.push(if sound { ("sound".into(), format!("data:audio/{ty};base64,AQL/")) } else { ("image".into(), format!("data:image/{ty};base64,AQL/")) });
    let center = if sound { 0 } else { ch.choose(4) };
    if center & 1 != 0 { attrs.push(("center-x".into(), "12.5".into())); }
    if center & 2 != 0 { attrs.push(("center-y".into(), "-3".into())); }
    if ch.flag() { attrs.push(("mediaID".into(), "Sprite_cst_x".into())); }
    let rot = ch.choose(attrs.len());
    attrs.rotate_left(rot);
    if ch.flag() { attrs.reverse(); }
    let tag = if sound { "sound" } else { "costume" };
    let body: String = attrs.iter().map(|(k, v)| format!(" {k}={q}{v}{q}")).collect();
    let end = match ch.choose(4) { 0 => "/>".to_string(), 1 => " />".into(), 2 => format!("></{tag}>"), _ => ">".into() };
    let text = format!("<{tag}{body}{end}");
    let nm = match name { None => "untitled", Some("a &amp; b") => "a & b", Some("&lt;x&gt;") => "<x>", Some(n) => n };
    let want = if sound { aud(&[1, 2, 255], nm) } else { img(&[1, 2, 255], if center == 3 { Some((12.5, -3.0)) } else { None }, nm) };
    match SV::from_netsblox_json(serde_json::Value::String(text.clone())) { Ok(x) if x == want => Leaf::ok(vec![h64(&text)], 1), x => Leaf::fail(text.clone(), format!("{text}\nshould be {want:?}\nbut is {x:?}")) }
}
/// other JSON a server may send
fn received(ch: &mut Chooser, t: &Tree) -> Leaf {
    use serde_json::{json, Value as J};
    let leafs = [J::Null, json!(1), json!(-5i64), json!(18446744073709551615u64), json!(2.5), json!("t"), json!(false)];
    fn build(t: &Tree, obj: bool, leafs: &[J]) -> J {
        match t {
            Tree::Leaf(k) => leafs[*k].clone(),
            Tree::List(v) if obj => J::Object(v.iter().enumerate().map(|(i, x)| (format!("k{}", 9 - i), build(x, !obj, leafs))).collect()),
            Tree::List(v) => J::Array(v.iter().map(|x| build(x, !obj, leafs)).collect()),
        }
    }
    fn want(j: &J) -> Option<SV> {
        Some(match j {
            J::Null => return None,
            J::Bool(x) => SV::Bool(*x),
            J::Number(x) => num(if let Some(i) = x.as_i64() { i as f64 } else if let Some(u) = x.as_u64() { u as f64 } else { x.as_f64().unwrap() }),
            J::String(s) => txt(s),
            J::Array(x) => SV::List(x.iter().map(want).collect::<Option<_>>()?),
            J::Object(x) => { let mut ks: Vec<_> = x.iter().collect(); ks.sort_by(|a, b| a.0.cmp(b.0)); SV::List(ks.into_iter().map(|(k, v)| Some(SV::List(vec![txt(k), want(v)?]))).collect::<Option<_>>()?) }
        })
    }
    let obj = ch.flag();
    let j = build(t, obj, &leafs);
    let w = want(&j);
    let (a, b) = (SV::from_json(j.clone()).ok(), SV::from_netsblox_json(j.clone()).ok());
    if a != w || b != w { return Leaf::fail(format!("{j}"), format!("{j}\nshould be {w:?}\nas json {a:?}\nas message {b:?}")); }
    Leaf::ok(vec![h64(&j.to_string())], 2)
}
// ---------------------------------------------------------------- blocks
fn go(globals: &[&str], body: Vec<Stmt>, cx: &Ctx) -> Leaf { diff_flat(prog(nums(globals), vec![], vec![on_flag(body)]), big(), cx) }
fn json_blocks(ch: &mut Chooser, cx: &Ctx, all: &[Tree]) -> Leaf {
    let alpha = [n(2.0), t("a\"\\\n\u{1}é"), bo(false), n(-0.5), t("1e3")];
    let x = expr(ch.pick(all), &alpha);
    let mut body = vec![set("a", x)];
    body.extend(each(vec![json(v("a")), split(json(v("a")), M::Json), eq(split(json(v("a")), M::Json), v("a")), json(split(json(v("a")), M::Json)), split(json(ml(vec![v("a"), v("a")])), M::Json)], &["a"], true));
    go(&["a", "r", "err"], body, cx)
}
fn json_texts(ch: &mut Chooser, cx: &Ctx, alpha: &[&str], len_: usize) -> Leaf {
    let s = text_of(ch, alpha, len_);
    let mut body = vec![set("a", t(&s))];
    body.extend(each(vec![split(v("a"), M::Json), json(v("a"))], &[], true));
    go(&["a", "r", "err"], body, cx)
}
fn numbers_as_text(ch: &mut Chooser, cx: &Ctx) -> Leaf {
    let x = match ch.choose(2) {
        0 => { let e = ch.choose(420) as i32 * 5 - 1074; let p = if e < -1022 { f64::from_bits(1u64 << (e + 1074)) } else { 2f64.powi(e) }; match ch.choose(3) { 0 => p, 1 => -p, _ => f64::from_bits(p.to_bits() - 1) } }
        _ => (ch.choose(201) as f64 - 100.0) / ch.of(&[1.0, 3.0, 7.0, 8.0, 100.0]),
    };
    let mut body = vec![set("a", n(x))];
    body.extend(each(vec![split(json(v("a")), M::Json), sub(split(json(v("a")), M::Json), v("a"))], &["a"], true));
    let l = go(&["a", "r", "err"], body, cx);
    // the reference uses the library's reading too; that this is not the number written is a finding of its own
    if l.violation.is_none() && misread(&num(x)) { return Leaf::fail("json-text-number-last-digit", format!("the json text of {x:?} is read back as another number: {:?}", serde_json::from_str::<f64>(&format!("{x:?}")))); }
    l
}
fn csv_blocks(ch: &mut Chooser, cx: &Ctx, cells: &[&str], rows: usize, cols: usize) -> Leaf {
    let (r, c) = (1 + ch.choose(rows), 1 + ch.choose(cols));
    let text: Vec<Vec<String>> = (0..r).map(|_| (0..c).map(|_| ch.of(cells).to_string()).collect()).collect();
    let x = ml(text.iter().map(|r| ml(r.iter().map(|x| t(x)).collect())).collect());
    let mut body = vec![set("a", x)];
    body.extend(each(vec![csv(v("a")), split(csv(v("a")), M::Csv), eq(split(csv(v("a")), M::Csv), v("a")), csv(split(csv(v("a")), M::Csv))], &["a"], true));
    let l = go(&["a", "r", "err"], body, cx);
    if l.violation.is_some() { return l; }
    // both agree on the text; it must give the table back
    let s = refops_csv(&text);
    match crate::refops::csv_parse(&s) {
        Some(back) if back == text => l,
        back => Leaf::fail(format!("csv {text:?}"), format!("the table {text:?} as csv {s:?} is read back as {back:?}")),
    }
}
fn refops_csv(t: &[Vec<String>]) -> String { crate::refops::csv_text(&rv::list(t.iter().map(|r| rv::list(r.iter().map(|x| rv::text(x)).collect())).collect())).unwrap() }
/// what cannot be represented is refused and left as it was
fn refused(ch: &mut Chooser, cx: &Ctx) -> Leaf {
    let bad = match ch.choose(5) { 0 => ringe(&[], &[], n(1.0)), 1 => ent("Sprite"), 2 => v("cyc"), 3 => t("fine"), _ => ml(vec![v("cyc"), n(1.0)]) };
    let x = match ch.choose(4) { 0 => bad, 1 => ml(vec![bad]), 2 => ml(vec![n(1.0), ml(vec![t("a"), bad, t("b")]), n(2.0)]), _ => ml(vec![bad, bad2()]) };
    fn bad2() -> Expr { ent("Stage") }
    let mut body = vec![set("cyc", ml(vec![n(5.0)])), push(v("cyc"), v("cyc")), set("a", x)];
    body.push(try_(vec![rsys("json", vec![json(v("a"))])], "err", vec![rsys("err", vec![v("err")])]));
    body.push(try_(vec![rsys("csv", vec![csv(v("a"))])], "err", vec![rsys("err", vec![v("err")])]));
    body.push(try_(vec![send("net", vec![("x", n(1.0)), ("y", v("a"))], t("there")), rsys("sent", vec![])], "err", vec![rsys("err", vec![v("err")])]));
    body.push(try_(vec![send("net", vec![("y", v("a"))], v("a")), rsys("sent", vec![])], "err", vec![rsys("err", vec![v("err")])]));
    go(&["a", "cyc", "r", "err"], body, cx)
}
/// a value in a message arrives as it was sent, as a copy
fn messages(ch: &mut Chooser, cx: &Ctx, all: &[Tree]) -> Leaf {
    let alpha = [num(2.0), txt("a\"<&\n"), SV::Bool(true)];
    let x = tree(ch.pick(all), &alpha);
    let body = vec![rsys("got", vec![v("x"), v("y")]), try_(vec![push(v("x"), t("new"))], "err", vec![]), rsys("now", vec![v("x"), v("y")]), send("back", vec![("p", v("x")), ("q", ml(vec![v("x"), v("y")]))], t("there")), reply(v("y"))];
    let mut s = Scn { inputs: vec![], msgs: vec![], ..big() };
    s.msgs.push((0, Msg { ty: "net".into(), values: vec![("x".into(), x.clone()), ("y".into(), x)], reply: Some(("src".into(), "req".into())) }));
    diff(prog(nums(&["x", "y", "err"]), vec![], vec![on_net("net", &["x", "y"], body)]), s, cx)
}
pub fn check(quick: bool) -> Check {
    let q = quick;
    let (big_, all2) = (Arc::new(up_to(if q { 4 } else { 5 }, 8, 4)), Arc::new(up_to(if q { 7 } else { 9 }, 2, 9)));
    let js = Arc::new(up_to(if q { 4 } else { 5 }, 5, 4));
    let rec = Arc::new(up_to(if q { 5 } else { 6 }, 7, 4));
    let ms = Arc::new(up_to(if q { 5 } else { 6 }, 3, 4));
    let jt = ["[", "]", "{", "}", ",", ":", "\"", "a", "1", "-", ".", "e", "0", " ", "\\", "n", "true", "null", "\n"];
    let jn = ["0", "1", "9", "-", "+", ".", "e", "E"];
    let js_ = ["\"", "\\", "u", "0", "d83d", "de00", "n", "x", "\u{1}", "/", "a"];
    Check::new("V07", TRACES, vec![
        phase("values", "every nested list of up to 4 nodes (thorough 5) over eight items, through the live form, json, json text, the message format and message text", move |ch, _| trip(&tree(ch.pick(&big_), &leaves()))),
        phase("nested values", "every nested list of up to 7 nodes (thorough 9) over two items", move |ch, _| trip(&tree(ch.pick(&all2), &leaves()[1..3]))),
        phase("texts", "every text of up to 4 (thorough 5) of 16 characters", move |ch, _| { let s = text_of(ch, &CHARS, if q { 4 } else { 5 }); trip(&txt(&s)) }),
        phase("texts like markup", "every text of up to 5 (thorough 6) of 15 pieces of markup, except those that spell a costume or sound with data", move |ch, _| { let s = text_of(ch, &MARKUP, if q { 5 } else { 6 }); trip(&txt(&s)) }),
        phase("names", "images and sounds with every name of up to 3 (thorough 5) of 13 pieces", move |ch, _| names(ch, if q { 3 } else { 5 })),
        phase("contents", "images and sounds with every content of up to 4 (thorough 6) of eight bytes", move |ch, _| contents(ch, if q { 4 } else { 6 })),
        phase("centers", "every pair of 12 numbers as rotation center", |ch, _| centers(ch)),
        phase("numbers", "all powers of two and ten, neighbours, and 16004 fractions", |ch, _| numbers(ch)),
        phase("written by others", "costumes and sounds with every order of attributes, both quotes, with and without optional parts", |ch, _| written(ch)),
        phase("received", "every json value of up to 5 nodes (thorough 6) over seven items with lists and objects alternating", move |ch, _| { let x = ch.pick(&rec).clone(); received(ch, &x) }),
        phase("json blocks", "every nested list of up to 4 nodes (thorough 5) over five items", move |ch, cx| json_blocks(ch, cx, &js)),
        phase("json texts", "every text of up to 4 (thorough 5) of 19 pieces of json", move |ch, cx| json_texts(ch, cx, &jt, if q { 4 } else { 5 })),
        phase("json numbers", "every text of up to 5 (thorough 7) of eight characters", move |ch, cx| json_texts(ch, cx, &jn, if q { 5 } else { 7 })),
        phase("json strings", "every text of up to 5 (thorough 6) of eleven pieces", move |ch, cx| json_texts(ch, cx, &js_, if q { 5 } else { 6 })),
        phase("numbers as json text", "every fifth power of two, neighbours, and 1005 fractions", |ch, cx| numbers_as_text(ch, cx)),
        phase("tables", "every table of up to 2x2 cells of nine texts", |ch, cx| csv_blocks(ch, cx, &["", "a", ",", "\"", "\n", "a,b", "\"q\"", " ", "\r"], 2, 2)),
        phase("larger tables", "every table of up to 3x3 cells of two (thorough three) texts", move |ch, cx| csv_blocks(ch, cx, if q { &["", "\""] } else { &["", "\"", ",\n"] }, 3, 3)),
        phase("refused values", "rings, sprites and lists holding themselves at four places, sent and written", |ch, cx| refused(ch, cx)),
        phase("messages", "every nested list of up to 5 nodes (thorough 6) over three items, twice in one message", move |ch, cx| messages(ch, cx, &ms)),
    ])
}
