//! S07: user input.
use super::common::*;
use super::sched::{self, A};

pub fn ev(name: &str, args: &[(&str, f64)], interrupt: bool, max_queue: usize) -> In {
    In::Custom { name: name.into(), args: args.iter().map(|(k, x)| (k.to_string(), SimpleValue::Number(crate::host::num(*x)))).collect(), interrupt, max_queue }
}
/// sequences of inputs at every distance against one listener of each kind
fn sequences(ch: &mut Chooser, cx: &Ctx, len: usize, gaps: usize, delays: usize) -> Leaf {
    let k = KeyCode::Char('a');
    let ins = [In::Start, In::Stop, In::Key(k), In::Key(KeyCode::Up), In::KeyUp(k), ev("ev", &[("f", 1.0)], false, 0), ev("ev", &[("f", 2.0)], false, 1), ev("ev", &[("f", 3.0)], false, 2), ev("ev", &[("f", 4.0)], true, 0), ev("ev", &[], true, 3), ev("nobody", &[], true, 0)];
    let mut inputs = vec![];
    let mut d = vec![];
    let mut at = 0;
    for _ in 0..len { if gaps > 1 { at += ch.choose(gaps); } d.push(if delays > 1 { ch.choose(delays) as u8 } else { 0 }); inputs.push((at, ch.of(&ins))); }
    let alphas: [&[A]; 5] = [&[A::Nop], &[A::L2], &[A::Throw], &[A::StopThis], &[A::B("m", true)]];
    let pick = alphas[ch.choose(5)];
    let f = on_flag(sched::stmts("f", pick));
    let ka = on_key("a", sched::stmts("ka", pick));
    let any = on_key("any key", sched::stmts("any", &[A::Y]));
    let mut b = vec![rsys("ev", vec![v("f")])];
    b.extend(sched::stmts("e", pick));
    diff(sched::world(vec![], vec![f, ka, on_custom("ev", &["f"], b)], vec![any, on_flag(sched::stmts("F", &[A::Y])), on_msg("m", sched::stmts("m", &[A::Y])), on_custom("ev", &["h"], vec![rsys("E", vec![v("h")])])]), Scn { inputs, in_delay: d, cap_events: 60, ..Default::default() }, cx)
}
/// bursts of custom events against queue limits
fn queues(ch: &mut Chooser, cx: &Ctx, n_events: usize) -> Leaf {
    let mut inputs = vec![];
    let mut at = 0;
    for i in 0..n_events { at += ch.of(&[0, 0, 1, 3, 7]); if i == 0 { at = 0; } inputs.push((at, ev("ev", &[("f", i as f64)], ch.flag(), ch.choose(4)))); }
    let alphas: [&[A]; 6] = [&[A::Nop], &[A::L2], &[A::Throw], &[A::StopThis], &[A::Y, A::StopOthers], &[A::Pending]];
    let pick = alphas[ch.choose(6)];
    let mut b = vec![rsys("ev", vec![v("f")])];
    b.extend(sched::stmts("e", pick));
    let second = if ch.flag() { vec![on_custom("ev", &[], sched::stmts("E", &[A::Y]))] } else { vec![] };
    diff(sched::world(vec![], vec![on_custom("ev", &["f"], b)], second), Scn { inputs, cap_events: 70, ..Default::default() }, cx)
}
/// every key against every key hat
fn keys(ch: &mut Chooser, cx: &Ctx) -> Leaf {
    let codes = [KeyCode::Up, KeyCode::Down, KeyCode::Left, KeyCode::Right, KeyCode::Enter, KeyCode::Char(' '), KeyCode::Char('a'), KeyCode::Char('b'), KeyCode::Char('1'), KeyCode::Char('.'), KeyCode::Char('u'), KeyCode::Char('e'), KeyCode::Char('\u{e9}'), KeyCode::Char('\u{4e2d}')];
    let hats = ["any key", "up arrow", "down arrow", "left arrow", "right arrow", "enter", "space", "a", "A", "B", "1", ".", "u", "e", "\u{e9}", "\u{4e2d}", " "];
    let (i, j) = (ch.choose(codes.len()), ch.choose(codes.len()));
    let gap = ch.of(&[0, 2, 40]);
    let scripts = hats.iter().enumerate().map(|(k, h)| on_key(h, vec![rsys(&format!("key {k}"), vec![]), repeat(n(1.0), vec![]), rsys(&format!("KEY {k}"), vec![])])).collect();
    let mid = if ch.flag() { In::KeyUp(codes[i]) } else { In::Stop };
    diff(sched::world(vec![], scripts, vec![]), Scn { inputs: vec![(0, In::Key(codes[i])), (gap, mid), (gap, In::Key(codes[j]))], cap_events: 60, ..Default::default() }, cx)
}
/// arguments of custom events: declared and sent fields in every combination
fn args(ch: &mut Chooser, cx: &Ctx) -> Leaf {
    let names = ["f", "h", "k"];
    let vals = [SimpleValue::Number(crate::host::num(3.0)), SimpleValue::Text("txt".into()), SimpleValue::Bool(false), SimpleValue::List(vec![SimpleValue::Number(crate::host::num(1.0)), SimpleValue::List(vec![])])];
    let order = [[0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]];
    let o = order[ch.choose(6)];
    let cnt = ch.choose(4);
    let decl: Vec<&str> = o[..cnt].iter().map(|i| names[*i]).collect();
    let mut a = vec![];
    for k in ["k", "f", "h", "zz"] { if ch.flag() { a.push((k.to_string(), ch.of(&vals))); } }
    let mut b: Vec<Stmt> = vec![rsys("got", decl.iter().map(|x| v(x)).collect())];
    if cnt > 0 { b.push(set(decl[0], n(9.0))); b.push(rsys("then", decl.iter().map(|x| v(x)).collect())); }
    let e1 = In::Custom { name: "ev".into(), args: a, interrupt: false, max_queue: 1 };
    diff(sched::world(vec![], vec![on_custom("ev", &decl, b)], vec![on_custom("EV", &decl, vec![rsys("never", vec![])])]), Scn { inputs: vec![(0, e1.clone()), (0, e1)], cap_events: 40, ..Default::default() }, cx)
}
pub fn check(quick: bool) -> Check {
    let mut p = vec![
        phase("input sequences", "every sequence of 3 of 11 inputs at gaps 0..3 events x 5 script bodies; listeners of every kind", |ch, cx| sequences(ch, cx, 3, 4, 1)),
        phase("inputs at every step", "2 inputs of 11 kinds at gaps 0..4 events, each held back 0..5 scheduler steps", |ch, cx| sequences(ch, cx, 2, 5, 6)),
        phase("event queues", "3 custom events x interrupt x queue limits 0..3 x 5 gaps x 6 bodies", |ch, cx| queues(ch, cx, 3)),
        phase("keys", "14 keys x 14 keys x 17 key hats x 3 gaps, key releases and the stop button in between", keys),
        phase("arguments", "every selection and order of declared fields x every selection of sent fields x 4 kinds of values", args),
    ];
    if !quick {
        p.push(phase("longer input sequences", "every sequence of 4 of 11 inputs at gaps 0..3", |ch, cx| sequences(ch, cx, 4, 4, 1)));
        p.push(phase("longer event queues", "4 custom events", |ch, cx| queues(ch, cx, 4)));
    }
    Check::new("S07", TRACES, p).assume("an input held back for a few scheduler steps must behave like one arriving at some point up to the next event")
}
