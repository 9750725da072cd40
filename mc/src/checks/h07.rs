//! H07: notes.
use super::common::*;
use super::v02::big;
use crate::refops::note_name;
use netsblox_vm::runtime::Note;

fn name(ch: &mut Chooser, len_: usize, alpha: &[&str]) -> Leaf { let k = ch.choose(len_ + 1); let s: String = (0..k).map(|_| ch.of(alpha)).collect(); named(&s) }
fn named(s: &str) -> Leaf {
    let got = std::panic::catch_unwind(|| Note::from_name(s).map(|x| x.get_midi().0));
    let want = note_name(s);
    match got {
        Ok(x) if x == want => Leaf::ok(vec![h64(&want)], 1),
        Ok(x) => Leaf::fail(format!("{s:?}"), format!("{s:?} is read as {x:?}, not {want:?}")),
        Err(_) => Leaf::fail(format!("{s:?}"), format!("reading {s:?} fails with a panic")),
    }
}
const SHARP: [&str; 12] = ["C", "C#", "D", "D#", "E", "F", "F#", "G", "G#", "A", "A#", "B"];
const FLAT: [&str; 12] = ["C", "Db", "D", "Eb", "E", "F", "Gb", "G", "Ab", "A", "Bb", "B"];
fn numbers(ch: &mut Chooser) -> Leaf {
    let v = ch.choose(256) as u8;
    let natural = ch.flag();
    let got = Note::from_midi(v, natural);
    let key = format!("{v} {natural}");
    let Some(note) = got else { return if v >= 128 { Leaf::ok(vec![], 1) } else { Leaf::fail(key, format!("number {v} gives no note")) } };
    if v >= 128 { return Leaf::fail(key, format!("number {v} gives a note")); }
    if note.get_midi() != (v, natural) { return Leaf::fail(key, format!("note {v} (natural: {natural}) says it is {:?}", note.get_midi())); }
    let f = 440.0 * 2f64.powf((v as f64 - 69.0) / 12.0);
    if (note.get_frequency().get() - f).abs() > 1e-9 * f { return Leaf::fail(key, format!("note {v} (natural: {natural}) has frequency {}, not {f}", note.get_frequency().get())); }
    for sharps in [true, false] {
        let want = format!("{}{}", if sharps { SHARP } else { FLAT }[v as usize % 12], v as i32 / 12 - 1);
        let s = note.get_name(sharps);
        if s != want { return Leaf::fail(key, format!("note {v} (natural: {natural}) is called {s}, not {want}")); }
        match Note::from_name(&s) { Some(x) if x.get_midi().0 == v => (), x => return Leaf::fail(key, format!("the name {s} of note {v} is read as {x:?}")) }
    }
    Leaf::ok(vec![h64(&(v, natural))], 6)
}
fn octaves(ch: &mut Chooser) -> Leaf {
    let letter = ch.of(&["A", "B", "C", "D", "E", "F", "G", "a", "b", "c", "d", "e", "f", "g", "H", "h", "Ａ"]);
    let acc = ["", "#", "b", "s", "n", "♯", "♭", "♮", "##", "bb", "#b", "ns"];
    let (p, q) = (ch.of(&acc), ch.of(&acc));
    let o = ch.choose(420);
    let far = ["2147483647", "2147483648", "-2147483648", "-2147483649", "178956970", "178956971", "-178956971", "4294967296", "4294967300", "9223372036854775807", "9223372036854775808", "340282366920938463463374607431768211456", "+4", "+04", "0004", "-0", "--1", "+", "-", "", "4 ", "٤"];
    let oct = if o < 398 { format!("{}", o as i32 - 199) } else { far[o - 398].into() };
    let pad = ch.of(&["", " ", "\t"]);
    named(&format!("{pad}{letter}{p}{oct}{q}{pad}"))
}
fn notes() -> Vec<Expr> {
    let mut o: Vec<Expr> = [-1.0, -0.0, 0.0, 1.0, 60.0, 127.0, 128.0, 255.0, 256.0, 300.0, 383.0, 384.0, -128.0, -129.0, -196.0, 60.5, -0.5, 127.5, 65536.0, 65600.0, 4294967296.0, 4294967356.0, -4294967236.0, 9007199254740992.0, 9223372036854775808.0, -9223372036854775808.0, 18446744073709551616.0, 1e300, -1e300].iter().map(|x| n(*x)).collect();
    o.extend(["60", "0x3c", " 61 ", "C4", "c#4", "Bb3", "Bb", "", "C30", "C-2", "A-1", "G#9", "Ab9", "bb4", "C2147483647", "x", "1e2", "3e2"].iter().map(|x| t(x)));
    o.extend([bo(true), bo(false), ent("u"), ml(vec![])]);
    o
}
fn blocks(ch: &mut Chooser, cx: &Ctx) -> Leaf {
    let k = ch.choose(4);
    let pick = |ch: &mut Chooser| { let mut v = notes(); let i = ch.choose(v.len()); v.swap_remove(i) };
    let beats = || vec![n(1.0), n(0.25), n(0.0), n(-1.0), t("2"), t(""), t("x"), bo(true), ml(vec![n(1.0)])];
    let (val, b) = match k {
        0 => (pick(ch), beats().swap_remove(ch.choose(9))),
        1 => (ml(vec![pick(ch)]), beats().swap_remove(ch.choose(9))),
        2 => (ml(vec![pick(ch), pick(ch)]), n(0.5)),
        _ => (ml(vec![n(60.0), ml(vec![pick(ch)])]), n(1.0)),
    };
    let blocking = ch.flag();
    let st = || s(StmtKind::PlayNotes { notes: bx(val.clone()), beats: bx(b.clone()), blocking });
    let body = vec![try_(vec![st(), rsys("after", vec![])], "err", vec![rsys("err", vec![v("err")])]), set("a", val.clone()), set("b", b.clone()), try_(vec![s(StmtKind::PlayNotes { notes: bx(v("a")), beats: bx(v("b")), blocking })], "err", vec![rsys("err", vec![v("err"), v("a")])]), try_(vec![s(StmtKind::Rest { beats: bx(b.clone()) }), rsys("rested", vec![])], "err", vec![rsys("err", vec![v("err")])])];
    diff(prog(nums(&["a", "b", "err"]), vec![], vec![on_flag(body)]), Scn { plan: vec![(1, Ans::Default), (0, Ans::Default), (2, Ans::Default)], ..big() }, cx)
}
pub fn check(quick: bool) -> Check {
    let q = quick;
    let alpha = ["C", "b", "B", "a", "#", "s", "n", "-", "+", "0", "1", "9", "♭", " ", "H"];
    Check::new("H07", "what the note functions say compared with a table of names and the equal-tempered scale; the notes the host is asked to play compared with the reference", vec![
        phase("numbers", "every byte as a note number, natural or not", |ch, _| numbers(ch)),
        phase("names", "every text of up to 4 (thorough 6) of fifteen characters", move |ch, _| name(ch, if q { 4 } else { 6 }, &alpha)),
        phase("octaves", "17 letters, 12 accidentals before and after, octaves from -199 to 198 and 22 others, spaces around", |ch, _| octaves(ch)),
        phase("blocks", "play note and rest blocks: pairs of 51 notes, alone and in lists, nine lengths", |ch, cx| blocks(ch, cx)),
    ])
}
