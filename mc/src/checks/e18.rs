//! E18: a host may put a project together itself, or run blocks and scripts on their own.
use super::common::*;
use super::e14::take;
use super::{s07, sched::{self, A}};
use crate::dfs::in_vm;
use crate::vm::{self, Start};
use netsblox_vm::bytecode::{ByteCode, InitInfo};

fn differ(what: &str, role: &Role, scn: &Scn, a: &[String], b: &[String]) -> Leaf {
    Leaf::fail(format!("{:016x}", h64(&format!("{role:?}{scn:?}"))), format!("{}scenario {:?}\n{what}\n{}", show(role), scn, side_by_side(a, b)))
}
/// loaded as a whole and put together script by script
pub fn assembled(role: Role, scn: Scn, _cx: &Ctx) -> Leaf {
    let scn = Rc::new(scn);
    let parts = match vm::parts(&role) { Ok(p) => Rc::new(p), Err(e) if e.starts_with("HARNESS") => panic!("{e}"), Err(_) => return Leaf::skip() };
    let a = vm::run(&role, &scn);
    let all = parts.len();
    vm::assemble(Some((parts, all)));
    let b = vm::run(&role, &scn);
    vm::assemble(None);
    let (mut x, mut y) = (a.trace, b.trace);
    x.truncate(scn.cap_events);
    y.truncate(scn.cap_events);
    if x != y { return differ("loaded as a whole / put together script by script", &role, &scn, &x, &y); }
    Leaf::ok(histories(0, &x), a.steps + b.steps)
}
fn compiled(role: &Role) -> Option<(Rc<ByteCode>, InitInfo)> {
    in_vm(true);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| ByteCode::compile(role).ok().map(|x| (Rc::new(x.0), x.1))));
    in_vm(false);
    r.unwrap_or(None)
}
fn one(role: &Role, scn: &Rc<Scn>, st: Start) -> Result<(Vec<String>, u64), String> {
    let (code, init) = compiled(role).ok_or("SCHED")?;
    vm::run_processes(&code, &init, scn, &[st], &mut |_| (0, 64)).map(|mut v| v.remove(0))
}
/// a project's first script for the flag, the others taken out, started by the flag and run as a process of its own
pub fn process(role: Role, scn: Scn, _cx: &Ctx) -> Leaf {
    if !scn.msgs.is_empty() || scn.inputs.len() != 1 || scn.summaries || scn.watch > 0 { return Leaf::skip(); }
    let mut role = role;
    let mut kept = false;
    for e in &mut role.entities { e.scripts.retain(|s| { let flag = matches!(s.hat.as_ref().map(|h| &h.kind), Some(netsblox_vm::ast::HatKind::OnFlag)); let keep = flag && !kept; kept |= keep; keep }); }
    if !kept { return Leaf::skip(); }
    let scn = Rc::new(scn);
    let parts = match vm::parts(&role) { Ok(p) => p, Err(_) => return Leaf::skip() };
    let a = vm::run(&role, &scn);
    let (mut y, steps) = match one(&role, &scn, Start { entity: parts[0].0.clone(), pos: parts[0].2, locals: vec![] }) {
        Ok(x) => x,
        Err(e) if e == "SCHED" => return Leaf::skip(),
        Err(e) => (vec![e], 0),
    };
    let mut x = a.trace;
    if x.last().is_some_and(|l| l == "SPIN") { x.pop(); }
    let m = scn.cap_events.min(if x.len() > y.len() && x.len() >= scn.cap_events { y.len() } else { scn.cap_events });
    x.truncate(m.max(1));
    y.truncate(m.max(1));
    if x != y { return differ("started by the flag / run as a process", &role, &scn, &x, &y); }
    Leaf::ok(histories(0, &x), a.steps + steps)
}

fn world(funcs: Vec<netsblox_vm::ast::Function>, scripts: Vec<Script>) -> Role {
    role(nums(&["x", "y"]), funcs, vec![entity("Stage", vec![], vec![], vec![]), entity("Sprite", nums(&["fld"]), vec![], scripts), entity("Other", nums(&["fld"]), vec![], vec![])])
}
fn bodies() -> Vec<(&'static str, Vec<Stmt>)> {
    let p = || v("p");
    vec![
        ("nothing", vec![]),
        ("value", vec![rsys("a", vec![p(), v("q")]), ret(cat(vec![p(), t("/"), v("q")]))]),
        ("globals", vec![chg("x", n(1.0)), set("y", p()), rsys("a", vec![v("x"), v("y")]), ret(v("x"))]),
        ("own names", vec![decl(&["x"]), set("x", p()), rsys("a", vec![v("x")]), ret(v("x"))]),
        ("parameter changed", vec![set("p", add(n(5.0), n(1.0))), chg("q", n(1.0)), rsys("a", vec![p(), v("q")]), ret(p())]),
        ("loop", vec![repeat(n(2.0), vec![rsys("a", vec![p()])]), for_("i", n(1.0), n(2.0), vec![wait0(), rsys("i", vec![v("i")])])]),
        ("warp", vec![warp(vec![repeat(n(2.0), vec![rsys("a", vec![])]), ret(p())])]),
        ("error", vec![rsys("a", vec![]), throw(cat(vec![t("bad "), v("q")]))]),
        ("handled", vec![try_(vec![throw(v("q"))], "err", vec![rsys("a", vec![v("err")]), ret(v("err"))]), ret(t("never"))]),
        ("ring", vec![ret(map(ringe(&["y"], &["p"], cat(vec![v("y"), v("p")])), ml(vec![t("u"), t("v")])))]),
        ("asks", vec![ask(p()), rsys("a", vec![answer()]), ret(sys("echo", vec![answer()]))]),
        ("request fails", vec![rsys("flop", vec![]), rsys("a", vec![sys_error()]), rrpc("flop", vec![("k", p())]), ret(rpc_error())]),
        ("calls another", vec![ret(cat(vec![callf("g", vec![p()]), callf("g", vec![v("q")])]))]),
        ("stops itself", vec![rsys("a", vec![]), stop(StopMode::ThisBlock), rsys("b", vec![])]),
        ("item of a list", vec![push(p(), v("q")), ret(len(p()))]),
        ("undefined", vec![rsys("a", vec![v("nowhere")])]),
        ("message", vec![ret(message())]),
        ("self", vec![ret(ml(vec![this(), ent("Stage")]))]),
        ("wait", vec![wait(n(0.02)), rsys("a", vec![])]),
    ]
}
/// every body as a block of the project or of a sprite, between others, called from a script or started by the host
fn blocks(ch: &mut Chooser, cx: &Ctx) -> Leaf {
    let all = bodies();
    let (name, body) = all[ch.choose(all.len())].clone();
    let own = ch.flag();
    let before = ch.choose(4);
    let whose = if own { 1 + ch.choose(2) } else { ch.choose(3) };
    let args = [(n(3.0), SimpleValue::Number(crate::host::num(3.0))), (t("word"), SimpleValue::Text("word".into())), (ml(vec![n(1.0)]), SimpleValue::List(vec![SimpleValue::Number(crate::host::num(1.0))]))];
    let (i, j) = (ch.choose(3), ch.choose(3));
    let soft = ch.flag();
    let mut r = world(vec![func("g", &["p"], vec![rsys("g", vec![v("p")]), ret(cat(vec![v("p"), v("p")]))])], vec![]);
    for k in 0..before {
        let f = func(&format!("pre{k}"), &["z"], vec![rsys("wrong", vec![n(k as f64)]); k + 1]);
        if k % 2 == 0 { r.funcs.insert(0, f) } else { r.entities[whose].funcs.push(f) }
    }
    let f = func("f", &["p", "q"], body);
    if own { r.entities[whose].funcs.push(f) } else { r.funcs.push(f) }
    r.entities[0].funcs.push(func("post", &[], vec![rsys("wrong", vec![t("post")])]));
    r.entities[1].scripts.push(no_hat(vec![rsys("wrong", vec![t("script")])]));
    let mut scripted = r.clone();
    let callee = if own { e(ExprKind::CallFn { function: netsblox_vm::ast::FnRef { name: "f".into(), trans_name: "f".into(), location: netsblox_vm::ast::FnLocation::Method }, args: vec![args[i].0.clone(), args[j].0.clone()], upvars: vec![] }) } else { callf("f", vec![args[i].0.clone(), args[j].0.clone()]) };
    scripted.entities[whose].scripts.push(on_flag(vec![ret(callee)]));
    let scn = Rc::new(Scn { sys_soft: soft, rpc_soft: soft, after: 3, ..Default::default() });
    let a = vm::run(&scripted, &scn);
    let pos = {
        let Ok((_, _, _, info)) = ByteCode::compile(&r) else { return Leaf::fail(name.to_string(), format!("{name}: does not compile")) };
        if own { info.entities[whose].1.funcs.iter().find(|f| f.0.name == "f").map(|x| x.1) } else { info.funcs.iter().find(|f| f.0.name == "f").map(|x| x.1) }
    };
    let Some(pos) = pos else { return Leaf::fail(name.to_string(), format!("{name}: the host is not told where the block is")) };
    let (y, steps) = match one(&r, &scn, Start { entity: r.entities[whose].name.to_string(), pos, locals: vec![("p".into(), args[i].1.clone()), ("q".into(), args[j].1.clone())] }) { Ok(x) => x, Err(e) => (vec![e], 0) };
    let x = a.trace;
    if x != y { return differ(&format!("block {name:?} called by a script / started by the host"), &r, &scn, &x, &y); }
    let _ = cx;
    Leaf::ok(histories(0, &x), a.steps + steps)
}
/// scripts of every kind, with and without hats, several of them, each run as a process
fn scripts(ch: &mut Chooser) -> Leaf {
    let hats: [fn(Vec<Stmt>) -> Script; 7] = [on_flag, on_clone, |b| on_key("a", b), |b| on_msg("m", b), |b| on_net("m", &["p", "q"], b), |b| on_custom("ev", &["p", "q"], b), no_hat];
    let (a, b) = (ch.choose(7), ch.choose(7));
    let which = ch.choose(4);
    let all: Vec<_> = bodies().into_iter().filter(|x| !matches!(x.0, "nothing" | "stops itself")).collect();
    let (name, body) = all[ch.choose(all.len())].clone();
    let filler = |k: usize| vec![rsys("wrong", vec![n(k as f64)])];
    let mut r = world(vec![func("g", &["p"], vec![rsys("g", vec![v("p")]), ret(cat(vec![v("p"), v("p")]))])], vec![]);
    for k in 0..4 { let h = if k % 2 == 0 { a } else { b }; let s = hats[h](if k == which { body.clone() } else { filler(k) }); r.entities[1 + k / 2 % 2].scripts.push(s); }
    let whose = 1 + which / 2;
    let scn = Rc::new(Scn { after: 3, ..Default::default() });
    let mut plain = r.clone();
    for e in &mut plain.entities { e.scripts.clear(); }
    plain.entities[whose].scripts.push(on_custom("ev", &["p", "q"], body));
    let locals = vec![("p".to_string(), SimpleValue::Text("P".into())), ("q".to_string(), SimpleValue::Number(crate::host::num(2.0)))];
    let want = vm::run(&plain, &Rc::new(Scn { inputs: vec![(0, In::Custom { name: "ev".into(), args: locals.clone(), interrupt: false, max_queue: 0 })], ..(*scn).clone() }));
    let pos = { let Ok((_, _, _, info)) = ByteCode::compile(&r) else { return Leaf::fail(name.to_string(), format!("{name}: does not compile")) }; let s = &info.entities[whose].1.scripts; if s.len() != 2 { return Leaf::fail(name.to_string(), format!("{name}: the host is told of {} scripts, not 2", s.len())); } s[which % 2].1 };
    let (y, steps) = match one(&r, &scn, Start { entity: r.entities[whose].name.to_string(), pos, locals }) { Ok(x) => x, Err(e) => (vec![e], 0) };
    if want.trace != y { return differ(&format!("script {name:?} started by its event / by the host"), &r, &scn, &want.trace, &y); }
    Leaf::ok(histories(0, &y), want.steps + steps)
}

/// what one process may hold that another must not see
fn private() -> Vec<(&'static str, Vec<Stmt>)> {
    vec![
        ("locals", vec![decl(&["a"]), set("a", n(1.0)), chg("a", v("id")), rsys("a", vec![v("a")])]),
        ("operands", vec![rsys("a", vec![v("id"), sys("echo", vec![v("id")]), sys("echo", vec![cat(vec![v("id"), t("x")])])])]),
        ("call", vec![decl(&["r"]), set("r", callf("fact", vec![v("id")])), rsys("a", vec![v("r")])]),
        ("handler", vec![try_(vec![runf("thrower", vec![v("id")])], "err", vec![rsys("a", vec![v("err")])])]),
        ("error", vec![rsys("a", vec![]), runf("thrower", vec![v("id")])]),
        ("warp", vec![warp(vec![repeat(n(2.0), vec![rsys("a", vec![v("id")])])]), repeat(n(1.0), vec![])]),
        ("answer", vec![ask(v("id")), rsys("a", vec![answer()]), rsys("b", vec![answer()])]),
        ("errors of requests", vec![rsys("flop", vec![]), rsys("a", vec![sys_error(), rpc_error()])]),
        ("no errors of requests", vec![rsys("echo", vec![v("id")]), rrpc("echo", vec![]), rsys("a", vec![sys_error(), rpc_error(), answer(), message()])]),
        ("rpc", vec![rrpc("flop", vec![("k", v("id"))]), rsys("a", vec![rpc_error(), sys_error()])]),
        ("ring", vec![decl(&["k", "r"]), set("k", v("id")), set("r", ringe(&["y"], &["k"], cat(vec![v("k"), v("y")]))), chg("k", n(10.0)), rsys("a", vec![call(v("r"), vec![t("z")])])]),
        ("list", vec![decl(&["l"]), set("l", ml(vec![n(1.0), n(2.0)])), push(v("l"), v("id")), rsys("a", vec![v("l")])]),
        ("each", vec![foreach("i", ml(vec![v("id"), t("z")]), vec![rsys("a", vec![v("i")])])]),
        ("map", vec![rsys("a", vec![map(ringe(&["y"], &["id"], add(v("y"), v("id"))), ml(vec![n(1.0), n(2.0)]))])]),
        ("upvar", vec![s(StmtKind::CallFn { function: fref("up"), args: vec![t("w"), v("id")], upvars: vec![vref("w")] }), rsys("a", vec![v("id")])]),
        ("tokens", vec![try_(vec![rsys("push", vec![n(7.0)]), throw(v("id"))], "err", vec![rsys("a", vec![sys("tok", vec![])])])]),
        ("result", vec![ret(callf("fact", vec![v("id")]))]),
    ]
}
fn together(ch: &mut Chooser, switches: usize, same: bool) -> Leaf {
    let all = private();
    let i = ch.choose(all.len());
    let j = if same { i } else { ch.choose(all.len()) };
    let pend = ch.choose(2) as u8;
    let r = world(vec![
        func("fact", &["n"], vec![if_(lt(v("n"), n(2.0)), vec![ret(n(1.0))]), ret(mul(v("n"), callf("fact", vec![sub(v("n"), n(1.0))])))]),
        func("thrower", &["m"], vec![decl(&["q"]), set("q", v("m")), throw(cat(vec![t("bad "), v("q")]))]),
        funcu("up", &["w", "m"], &["w"], vec![set("w", v("m"))]),
    ], vec![no_hat(all[i].1.clone()), no_hat(all[j].1.clone())]);
    let Ok((code, init, _, info)) = ByteCode::compile(&r) else { return Leaf::fail("compile".to_string(), "does not compile".to_string()) };
    let at = r.entities.iter().position(|e| e.scripts.len() == 2).unwrap();
    let pos: Vec<usize> = info.entities[at].1.scripts.iter().map(|s| s.1).collect();
    let code = Rc::new(code);
    let scn = Rc::new(Scn { rpc_soft: true, sys_soft: true, plan: vec![(pend, Ans::Same); 40], replies: vec![], cap_events: 400, ..Default::default() });
    let start = |k: usize| Start { entity: r.entities[at].name.to_string(), pos: pos[k], locals: vec![("id".into(), SimpleValue::Number(crate::host::num(3.0 + k as f64)))] };
    let key = format!("{} and {}", all[i].0, all[j].0);
    let mut alone = vec![];
    for k in 0..2 {
        match vm::run_processes(&code, &init, &scn, &[start(k), start(k)], &mut |l| (if l[0] { 0 } else { 1 }, 1 << 20)) { Ok(mut x) => alone.push(x.remove(0)), Err(e) => return Leaf::fail(key.clone(), format!("{key}: alone: {e}")) }
    }
    // so many steps of one, so many of the other, ...; the last runs to its end, then the other
    let mut segs = vec![];
    let mut left = [alone[0].1 as usize, alone[1].1 as usize];
    let mut cur = ch.choose(2);
    for _ in 0..switches {
        if left[cur] <= 1 { break; }
        let k = 1 + ch.choose(left[cur] - 1);
        left[cur] -= k;
        segs.push((cur, k));
        cur = 1 - cur;
    }
    segs.push((cur, 1 << 20));
    segs.push((1 - cur, 1 << 20));
    let mut it = segs.clone().into_iter();
    let got = match vm::run_processes(&code, &init, &scn, &[start(0), start(1)], &mut |alive| it.find(|s| alive[s.0]).unwrap_or((if alive[0] { 0 } else { 1 }, 1 << 20))) { Ok(x) => x, Err(e) => return Leaf::fail(key.clone(), format!("{key}, steps {segs:?}: {e}")) };
    for k in 0..2 {
        if got[k].0 != alone[k].0 { return Leaf::fail(format!("{key} {segs:?}"), format!("{}{key}, requests pending {pend} polls, steps {segs:?}: process {k} alone / with the other\n{}", show(&r), side_by_side(&alone[k].0, &got[k].0))); }
    }
    Leaf::ok(histories(h64(&key), &got[0].0), got[0].1 + got[1].1)
}

/// a script is added while others run; what came before does not reach it
fn late(ch: &mut Chooser, len: usize) -> Leaf {
    let others: [&[A]; 4] = [&[A::Y], &[A::L2], &[A::LaunchLoop], &[A::Clone(1)]];
    let o = ch.choose(4);
    let kinds: [(fn(Vec<Stmt>) -> Script, usize); 4] = [(|b| on_key("b", b), 0), (|b| on_custom("ev", &["f"], b), 1), (|b| on_key("any key", b), 2), (on_flag, 3)];
    let (hat, kind) = kinds[ch.choose(4)];
    let body = vec![rsys("late", vec![]), repeat(n(2.0), vec![rsys("r", vec![])])];
    let first = on_key("a", sched::stmts("ka", others[o]));
    let mut role = sched::world(vec![], vec![first], vec![on_msg("m", sched::stmts("m", &[A::Y]))]);
    let n_before = role.entities.iter().map(|e| e.scripts.len()).sum::<usize>();
    // it comes last in the file as well, so that positions in the order agree
    let last = role.entities.len() - 1;
    role.entities[last].scripts.push(hat(body));
    let ins = [In::Key(KeyCode::Char('a')), match kind { 1 => s07::ev("ev", &[("f", 1.0)], ch.flag(), 0), 3 => In::Start, _ => In::Key(KeyCode::Char('b')) }];
    let when = ch.choose(len + 1);
    let mut seq = vec![];
    let mut at = 0;
    for _ in 0..len { at += ch.of(&[0, 1, 3]); seq.push((at, ch.of(&ins))); }
    let parts = match vm::parts(&role) { Ok(p) => Rc::new(p), Err(e) => return Leaf::fail("parts".to_string(), e) };
    let mut added = seq.clone();
    added.insert(when, (if when < len { seq[when].0 } else { at }, In::Custom { name: "@add".into(), args: vec![("k".into(), SimpleValue::Number(crate::host::num(n_before as f64)))], interrupt: false, max_queue: 0 }));
    // (clones made before it was there do not have it); for the whole project, what came before it was there has to be nothing to it
    let mut plain = seq.clone();
    for (k, x) in plain.iter_mut().enumerate() { if k < when { let only_a = matches!(&x.1, In::Key(KeyCode::Char('a'))); if only_a && (kind == 2 || o == 3) { return Leaf::skip(); } if !only_a { x.1 = In::KeyUp(KeyCode::Up); } } }
    plain.insert(when, (added[when].0, In::KeyUp(KeyCode::Up)));
    let scn = |inputs: Vec<(usize, In)>| Rc::new(Scn { inputs, cap_events: 60, ..Default::default() });
    let a = vm::run(&role, &scn(plain));
    let sb = scn(added);
    vm::assemble(Some((parts, n_before)));
    let b = vm::run(&role, &sb);
    vm::assemble(None);
    let (mut x, mut y) = (a.trace, b.trace);
    x.truncate(60);
    y.truncate(60);
    if x != y { return differ("there from the beginning, with its events taken out / added late", &role, &sb, &x, &y); }
    Leaf::ok(histories(0, &x), a.steps + b.steps)
}
/// the host adds the scripts of several sprites in any order, some of them twice: they take their turns in that order
fn any_order(ch: &mut Chooser) -> Leaf {
    let hats: [fn(Vec<Stmt>) -> Script; 4] = [on_flag, |b| on_key("a", b), |b| on_custom("ev", &[], b), |b| on_net("m", &[], b)];
    let hat = hats[ch.choose(4)];
    let body = |k: usize| vec![rsys(&format!("s{k}"), vec![]), wait0(), rsys(&format!("t{k}"), vec![])];
    let mut r = world(vec![], vec![hat(body(1)), hat(body(2))]);
    r.entities[0].scripts.push(hat(body(0)));
    r.entities[2].scripts.push(hat(body(3)));
    let mut order = vec![];
    let k = 1 + ch.choose(4);
    for _ in 0..k { order.push(ch.choose(4)); }
    let mut one = world(vec![], order.iter().map(|k| hat(body(*k))).collect());
    one.name = r.name.clone();
    let scn = Rc::new(Scn { inputs: vec![(0, In::Start), (0, In::Key(KeyCode::Char('a'))), (0, s07::ev("ev", &[], false, 0))], msgs: vec![(0, sched::msg("m", &[], 0))], ..Default::default() });
    let parts = match vm::parts(&r) { Ok(p) => p, Err(e) => return Leaf::fail("parts".to_string(), e) };
    if parts.len() != 4 { return Leaf::fail("parts".to_string(), format!("the host is told of {} scripts, not 4", parts.len())); }
    let a = vm::run(&one, &scn);
    vm::assemble(Some((Rc::new(order.iter().map(|k| parts[*k].clone()).collect()), order.len())));
    let b = vm::run(&r, &scn);
    vm::assemble(None);
    if a.trace != b.trace { return differ(&format!("scripts of one sprite in that order / scripts of three sprites added in the order {order:?}"), &r, &scn, &a.trace, &b.trace); }
    Leaf::ok(histories(0, &a.trace), a.steps + b.steps)
}
pub fn check(quick: bool) -> Check {
    let len = if quick { 3 } else { 4 };
    let mut p = vec![
        phase("blocks", "19 bodies x block of the project or of a sprite or another x 4 surroundings x 9 pairs of arguments x 2 error schemes", blocks),
        phase("scripts", "17 bodies x 7 x 7 hats (or none) x 4 places", |ch, _| scripts(ch)),
        phase("two processes", "17 x 17 bodies x pending polls x every placement of up to 2 switches", |ch, _| together(ch, 2, false)),
        phase("the same twice", "17 bodies, each started twice, x every placement of up to 3 switches", move |ch, _| together(ch, 3, true)),
        phase("any order", "4 hats x every sequence of up to 4 of the scripts of three sprites, repeats included", |ch, _| any_order(ch)),
        phase("added late", &format!("4 hats x 4 other scripts x every sequence of {len} inputs x spacing x where in it the script is added"), move |ch, _| late(ch, len)),
    ];
    if !quick { p.push(phase("two processes, 3 switches", "17 x 17 bodies x pending polls x every placement of up to 3 switches", |ch, _| together(ch, 3, false))); }
    p.extend(take(Ask::Process, &[("E01", &["operands", "nested operands"]), ("E03", &["errors in operands", "handlers, chains 3"]), ("E04", &["warp, chains 3"]), ("E11", &["ring bodies", "operands"]), ("V03", &["queries, two lists", "reports", "three lists"])]));
    p.extend(take(Ask::Assembled, &[("S07", &["keys", "arguments"]), ("S05", &["hats of clones", "odd targets"]), ("S04", &["queued events"]), ("S10", &["captures", "odd rings"]), ("S09", &["reports"])]));
    if !quick { p.extend(take(Ask::Assembled, &[("S02", &["clones"]), ("S03", &["three messages"]), ("S05", &["making clones", "deleting clones"]), ("E12", &["two scripts"])])); p.extend(take(Ask::Process, &[("E02", &[]), ("E03", &["handlers, nested 2"])])); }
    Check::new("E18", TRACES, p)
}
