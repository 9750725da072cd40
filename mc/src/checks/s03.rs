//! S03: incoming network messages.
use super::common::*;
use super::sched::{self, A};

fn handler(ch: &mut Chooser, id: &str, alpha: &[A], len: usize) -> Vec<Stmt> {
    let mut b = vec![rsys(&format!("{id}!"), vec![v("f"), v("h")])];
    b.extend(sched::body(ch, id, alpha, len));
    b
}
/// three messages at every distance, handlers with every kind of end, beside other scripts
fn handlers(ch: &mut Chooser, cx: &Ctx, len: usize, msgs: usize, gaps: usize, alpha: &[A], delays: usize) -> Leaf {
    let one = on_net("a", &["f", "h"], handler(ch, "a", alpha, len));
    let two = if ch.flag() { on_net("a", &["h", "f"], handler(ch, "b", &[A::Nop, A::L2, A::Throw, A::StopThis], 1)) } else { on_net("z", &["f"], vec![rsys("never", vec![])]) };
    let busy = ch.choose(3);
    let mut sp = vec![one];
    if busy > 0 { sp.push(on_flag(sched::stmts("x", if busy == 1 { &[A::L2] } else { &[A::Forever] }))); }
    let mut ms = vec![];
    let mut at = 0;
    let vals: [&[(&str, f64)]; 3] = [&[("f", 1.0), ("h", 2.0)], &[("h", 4.0), ("zz", 9.0)], &[("f", 5.0)]];
    let mut d = vec![];
    for i in 0..msgs { at += ch.choose(gaps) + 1; d.push(if delays > 0 { ch.choose(delays) as u8 } else { 0 }); ms.push((at, sched::msg("a", vals[i % 3], i))); }
    diff(sched::world(vec![], sp, vec![two]), Scn { msgs: ms, cap_events: 60, msg_delay: d, after: 100, ..Default::default() }, cx)
}
const ENDS: [A; 14] = [A::Nop, A::Y, A::L2, A::Throw, A::Bad, A::StopThis, A::StopBlock, A::Ret, A::Reply(false), A::Reply(true), A::Pending, A::Sleep, A::B("m", true), A::StopOthers];
/// message types, fields, reply addresses; values of every kind
fn data(ch: &mut Chooser, cx: &Ctx, kinds: usize) -> Leaf {
    let vals = [SimpleValue::Number(crate::host::num(3.0)), SimpleValue::Text("txt".into()), SimpleValue::Bool(true), SimpleValue::List(vec![SimpleValue::Text("a".into()), SimpleValue::List(vec![])])];
    let fields: [&[&str]; 4] = [&["f", "h"], &["h"], &[], &["msg", "f"]];
    let mut scripts = vec![];
    for (i, ty) in ["a", "b", "A", "a"].iter().enumerate() {
        let fs = fields[if i == 0 { ch.choose(4) } else { i }];
        let mut b: Vec<Stmt> = vec![rsys(&format!("h{i}"), fs.iter().map(|x| v(x)).collect())];
        if fs.contains(&"f") { b.push(set("f", n(0.0))); b.push(rsys("f", vec![v("f")])); }
        b.push(reply(t(&format!("reply {i}"))));
        b.push(reply(t("again")));
        scripts.push(on_net(ty, fs, b));
    }
    let mut ms = vec![];
    for i in 0..2 {
        let ty = *ch.pick(&["a", "b", "A", "c", ""]);
        let mut values = vec![];
        for k in ["f", "h", "msg"] { if ch.flag() { values.push((k.to_string(), ch.of(&vals[4 - kinds..]))); } }
        let reply = if ch.flag() { Some((format!("client{i}"), format!("req{i}"))) } else { None };
        ms.push((2 + 3 * i, Msg { ty: ty.into(), values, reply }));
    }
    diff(sched::world(vec![], vec![], scripts), Scn { msgs: ms, cap_events: 60, ..Default::default() }, cx)
}
/// messages beside the stop and start buttons and clones
fn inputs(ch: &mut Chooser, cx: &Ctx) -> Leaf {
    let a = [A::Nop, A::L2, A::Throw, A::Clone(2), A::Del, A::StopAll, A::StopSprite, A::StopThis];
    let h = on_net("a", &["f", "h"], handler(ch, "a", &a, 2));
    let key = on_key("k", sched::body(ch, "k", &[A::StopOthers, A::StopSprite, A::Clone(2), A::Clone(6), A::StopAll], 1));
    let i2 = ch.of(&[In::Stop, In::Start, In::Key(KeyCode::Char('k'))]);
    let at = ch.choose(14);
    let inputs = vec![(at, i2)];
    let mut ms = vec![];
    let mut p = 0;
    for i in 0..3 { p += ch.choose(4) + 1; ms.push((p, sched::msg("a", &[("f", i as f64)], i))); }
    diff(sched::world(vec![], vec![h], vec![key, on_net("a", &["f"], vec![rsys("o", vec![v("f")]), repeat(n(1.0), vec![rsys("o", vec![])])])]), Scn { msgs: ms, inputs, cap_events: 60, ..Default::default() }, cx)
}
/// a handler's reply goes to the sender of the message being handled
fn replies(ch: &mut Chooser, cx: &Ctx) -> Leaf {
    let a = [A::Nop, A::Y, A::Reply(false), A::Reply(true), A::Launch, A::Throw];
    let mk = |ch: &mut Chooser, id: &str| { let mut b = sched::body(ch, id, &a, 2); b.push(call_reply(id)); b };
    let (x, y) = (on_net("a", &["f"], mk(ch, "a")), on_net("a", &["f"], mk(ch, "b")));
    let mut ms = vec![];
    let mut p = 0;
    for i in 0..3 { p += ch.choose(3) * 2 + 1; let mut m = sched::msg("a", &[("f", i as f64)], i); if i == 1 && ch.flag() { m.reply = None; } ms.push((p, m)); }
    diff(sched::world(vec![], vec![x], vec![y]), Scn { msgs: ms, cap_events: 60, ..Default::default() }, cx)
}
/// many messages while the handler of the first is busy
fn bursts(ch: &mut Chooser, cx: &Ctx) -> Leaf {
    let k = ch.choose(36);
    let count = if k < 30 { k + 1 } else { [33, 40, 64, 65, 100, 130][k - 30] };
    let gap = 1 + ch.choose(2);
    let first = ch.choose(4);
    let end = ch.of(&[A::Nop, A::Throw, A::StopThis, A::Ret, A::Reply(false), A::Y]);
    let mut b = vec![rsys("m", vec![v("f")])];
    b.push(match first {
        0 => if_(eq(v("f"), n(0.0)), vec![repeat(n(count as f64 + 5.0), vec![rsys("busy", vec![])])]),
        1 => if_(eq(v("f"), n(0.0)), vec![wait(n(count as f64 / 100.0))]),
        2 => if_(le(v("f"), n(2.0)), vec![warp(vec![repeat(n(20.0), vec![rsys("w", vec![])])]), wait0()]),
        _ => repeat(n(2.0), vec![rsys("each", vec![])]),
    });
    b.extend(sched::act(end, "a"));
    let other = on_net("a", &["f"], vec![rsys("o", vec![v("f")])]);
    let ms = (0..count).map(|i| (1 + i * gap, sched::msg("a", &[("f", i as f64)], i))).collect();
    let tick = on_flag(vec![repeat(n(count as f64), vec![rsys("t", vec![])])]);
    diff(sched::world(vec![tick], vec![on_net("a", &["f"], b)], if ch.flag() { vec![other] } else { vec![] }), Scn { msgs: ms, after: 10, cap_events: 1500, ..Default::default() }, cx)
}
/// replies of every kind of value, from scripts with and without a message to reply to
fn replied(ch: &mut Chooser, cx: &Ctx) -> Leaf {
    let xs = [n(1.5), n(f64::NAN), t(""), t("txt"), bo(true), ml(vec![]), ml(vec![n(1.0), ml(vec![t("a")])]), v("l"), ring(&[], &[], vec![]), ml(vec![this()]), this(), e(ExprKind::Costume), ml(vec![e(ExprKind::Costume)]), div(n(1.0), n(0.0))];
    let (x, y) = (ch.of(&xs), ch.of(&xs));
    let place = ch.choose(5);
    let body = vec![push(v("l"), v("l")), try_(vec![reply(x), rsys("ok", vec![])], "err", vec![rsys("err", vec![v("err")])]), reply(y), rsys("end", vec![])];
    let m = |r: bool| { let mut m = sched::msg("a", &[("f", 1.0)], 0); if !r { m.reply = None; } m };
    let (sc, msgs) = match place {
        0 => (vec![on_flag(body)], vec![]),
        1 => (vec![on_flag(vec![bcast(t("m"), false)]), on_msg("m", body)], vec![]),
        2 => (vec![on_net("a", &["f"], body)], vec![(1, m(false))]),
        3 => (vec![on_net("a", &["f"], body)], vec![(1, m(true))]),
        _ => (vec![on_net("a", &["f"], vec![run(ring(&[], &[], body), vec![])])], vec![(1, m(true)), (2, m(false))]),
    };
    let mut w = sched::world(sc, vec![], vec![]);
    w.globals.extend([init("err", Value::String("none".into())), init("l", Value::List(vec![], None))]);
    w.globals.retain({ let mut seen = std::collections::HashSet::new(); move |g| seen.insert(g.def.name.clone()) });
    diff(w, Scn { msgs, cap_events: 60, ..Default::default() }, cx)
}
fn call_reply(id: &str) -> Stmt { run(ring(&[], &[], vec![reply(t(&format!("ring {id}")))]), vec![]) }

pub fn check(quick: bool) -> Check {
    let few = [A::Nop, A::L2, A::Throw, A::StopThis, A::Pending];
    let mut p = vec![
        phase("three messages", "3 messages at every distance 1..4 events x every pair of 14 handler actions x second listener x busy scripts", |ch, cx| handlers(ch, cx, 2, 3, 4, &ENDS, 0)),
        phase("arrival at every step", "2 messages, the second held back 0..15 scheduler steps after every point 1..7 of the first handler's events x handler endings", move |ch, cx| {
            let a = on_net("a", &["f", "h"], handler(ch, "a", &[A::Nop, A::L2, A::Throw, A::StopThis, A::Pending, A::Ret, A::Bad], 1));
            let second = ch.flag();
            let at = 1 + ch.choose(8);
            let d = ch.choose(16) as u8;
            let o = if second { vec![on_flag(sched::stmts("x", &[A::L2]))] } else { vec![] };
            diff(sched::world(vec![], vec![a], o), Scn { msgs: vec![(1, sched::msg("a", &[("f", 1.0)], 0)), (1 + at, sched::msg("a", &[("f", 2.0)], 1))], msg_delay: vec![0, d], cap_events: 40, ..Default::default() }, cx)
        }),
        phase("arrival at every step, three", "3 messages, each held back 0..7 steps, gaps 1..2, 5 handler actions", move |ch, cx| handlers(ch, cx, 1, 3, 2, &few, 8)),
        phase("data", "message types, declared and sent fields, reply addresses, values of 2 kinds; 4 listeners", |ch, cx| data(ch, cx, 2)),
        phase("inputs", "3 messages at gaps 1..4, one input at every point 0..13, handlers that clone, delete, stop", inputs),
        phase("bursts", "1..30, 33, 40, 64, 65, 100, 130 messages at gaps 1..2 while the handler is busy in 4 ways x 6 endings x second listener", bursts),
        phase("replied values", "every pair of 14 values (among them those that cannot be sent) replied in a script of 5 kinds, with and without a message to reply to", replied),
        phase("replies", "two listeners replying in every order", replies),
    ];
    if !quick {
        p.push(phase("data of every kind", "as above with values of 4 kinds", |ch, cx| data(ch, cx, 4)));
        p.push(phase("arrival at every step, three, gaps 4", "3 messages, each held back 0..9 steps, gaps 1..4", move |ch, cx| handlers(ch, cx, 1, 3, 4, &[A::Nop, A::L2, A::Throw, A::StopThis, A::Pending, A::Ret, A::Bad], 10)));
        p.push(phase("four messages", "4 messages at every distance 1..4 x every sequence of 3 actions", |ch, cx| handlers(ch, cx, 3, 4, 4, &ENDS, 0)));
    }
    Check::new("S03", TRACES, p).assume("a message held back for a few scheduler steps must behave like one arriving at some point up to the next event")
}
