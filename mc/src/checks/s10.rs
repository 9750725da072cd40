//! S10: launched closures.
use super::common::*;
use super::sched::{self, A};

/// bodies of launched rings and of their creator, sharing captured variables
fn launched(ch: &mut Chooser, cx: &Ctx) -> Leaf {
    let caps: [&[&str]; 3] = [&[], &["a"], &["a", "b"]];
    let c = caps[ch.choose(3)];
    let params: [&[&str]; 3] = [&[], &["p"], &["p", "a"]];
    let pa = params[ch.choose(3)];
    let act = |k: usize, id: &str| -> Vec<Stmt> { match k {
        0 => vec![],
        1 => vec![wait0()],
        2 => vec![chg("a", n(1.0)), chg("b", n(10.0)), chg("g", n(100.0))],
        3 => vec![repeat(n(2.0), vec![rsys(&format!("{id}+"), vec![v("a")])])],
        4 => vec![throw(t("oops"))],
        5 => vec![stop(StopMode::ThisScript)],
        6 => vec![ret(n(5.0))],
        7 => vec![stop(StopMode::AllButThisScript)],
        8 => vec![set("a", ml(vec![n(1.0)])), push(v("a"), n(2.0))],
        9 => vec![warp(vec![chg("a", n(3.0)), wait0(), chg("a", n(3.0))])],
        _ => vec![delete_clone(), stop(StopMode::OtherScriptsInSprite)],
    } };
    let (i, j) = (ch.choose(11), ch.choose(11));
    let mut inner = vec![rsys("l0", if pa.is_empty() { vec![this()] } else { vec![v("p"), this()] })];
    if c.contains(&"a") || pa.contains(&"a") { inner.push(rsys("l a", vec![v("a")])); }
    inner.extend(if c.len() == 2 || ![2, 9, 3, 8].contains(&i) { act(i, "l") } else { vec![chg("g", n(1.0)), wait0()] });
    inner.push(rsys("l1", vec![v("g")]));
    let k = ch.choose(6);
    let args: Vec<Expr> = (0..pa.len()).map(|x| n(50.0 + x as f64)).collect();
    let mk = || ring(pa, c, inner.clone());
    let go = match k {
        0 => vec![launch(mk(), args)],
        1 => vec![set("r", mk()), launch(v("r"), args.clone()), launch(v("r"), args)],
        2 => vec![warp(vec![launch(mk(), args), rsys("still", vec![])])],
        3 => vec![tell(ent("Other"), ring(&[], &["a", "b"], vec![launch(mk(), args)]), vec![])],
        4 => vec![try_(vec![launch(mk(), args), wait0()], "err", vec![rsys("caught", vec![v("err")])])],
        _ => vec![run(ring(&[], &["a", "b"], vec![decl(&["b"]), set("b", n(77.0)), launch(mk(), args)]), vec![])],
    };
    let mut b = vec![decl(&["a", "b"]), set("a", n(1.0)), set("b", n(2.0))];
    b.extend(go);
    b.push(rsys("c1", vec![v("a"), v("b"), v("g")]));
    b.extend(act(j, "c"));
    b.push(rsys("c2", vec![v("a"), v("b"), v("g")]));
    let mut r = sched::world(vec![], vec![on_flag(b), on_flag(sched::stmts("o", &[A::L2]))], vec![]);
    r.globals.extend(nums(&["r"]));
    diff(r, Scn { cap_events: 60, ..Default::default() }, cx)
}
/// launches from launches, calls, clones, loops; errors when launching
fn nested(ch: &mut Chooser, cx: &Ctx) -> Leaf {
    let leaf = |k: usize| -> Vec<Stmt> { match k { 0 => vec![rsys("x", vec![this(), v("fld")])], 1 => vec![wait0(), rsys("x", vec![answer(), message()])], 2 => vec![rsys("x", vec![sys("depth", vec![]), sys("tok", vec![])])], 3 => vec![throw(t("z"))], 4 => vec![bcast(t("m"), true), rsys("x", vec![])], 5 => vec![ask(t("q")), rsys("x", vec![answer()])], 6 => vec![clone_(this()), rsys("x", vec![])], _ => vec![rsys("x", vec![rpc_error(), sys_error()]), reply(n(1.0))] } };
    let mut b = leaf(ch.choose(8));
    for lvl in 0..2 {
        b = match ch.choose(8) {
            0 => vec![launch(ring(&[], &[], b), vec![]), rsys("launched", vec![n(lvl as f64)])],
            1 => vec![repeat(n(2.0), vec![launch(ring(&[], &[], b), vec![])])],
            2 => vec![run(ring(&[], &[], b), vec![]), rsys("ran", vec![])],
            3 => vec![tell(ent("Other"), ring(&[], &[], b), vec![])],
            4 => vec![set("kid", clone_of(this())), tell(v("kid"), ring(&[], &[], vec![launch(ring(&[], &[], b), vec![])]), vec![])],
            5 => vec![rsys("push", vec![n(3.0)]), ask(t("?")), launch(ring(&[], &[], b), vec![]), rsys("tok", vec![sys("tok", vec![]), answer()])],
            6 => vec![try_(vec![launch(ring(&["need"], &[], b), vec![])], "err", vec![rsys("caught", vec![v("err")])])],
            _ => vec![foreach("it", ml(vec![n(1.0), n(2.0)]), vec![launch(ring(&["q"], &["it"], { let mut c = vec![rsys("it", vec![v("q"), v("it")])]; c.extend(b); c }), vec![v("it")])])],
        };
    }
    b.push(rsys("end", vec![]));
    let sp = vec![on_flag(b.clone()), on_msg("m", sched::stmts("m", &[A::Y])), on_net("a", &[], { let mut c = b; c.push(reply(n(2.0))); c })];
    let mut r = sched::world(vec![], sp, vec![]);
    r.globals.extend(nums(&["it"]));
    diff(r, Scn { msgs: vec![(30, sched::msg("a", &[], 0))], cap_events: 80, ..Default::default() }, cx)
}
/// values that are not rings, wrong argument counts
fn odd(ch: &mut Chooser, cx: &Ctx) -> Leaf {
    let xs = [n(1.0), t("x"), ml(vec![]), v("kid"), ent("Other"), ring(&["a"], &[], vec![rsys("in", vec![v("a")])]), ring(&[], &[], vec![rsys("in", vec![])]), ringe(&["a", "b"], &[], add(v("a"), v("b")))];
    let args = vec![n(1.0); ch.choose(4)];
    let c = ch.of(&xs);
    let st = match ch.choose(3) { 0 => launch(c, args), 1 => run(c, args), _ => set("x", call(c, args)) };
    let mut b = vec![st, rsys("ok", vec![v("x")])];
    if ch.flag() { b = vec![try_(b, "err", vec![rsys("caught", vec![v("err")])])]; }
    b.push(rsys("end", vec![]));
    diff(sched::world(vec![], vec![on_flag(b)], vec![]), Scn { cap_events: 30, ..Default::default() }, cx)
}
/// creator stopped or failed in every way while the launched script runs
fn outlive(ch: &mut Chooser, cx: &Ctx) -> Leaf {
    let ends = [A::Nop, A::Throw, A::StopThis, A::Ret, A::Y, A::B("m", false), A::B("m", true), A::Del];
    let hats = ch.choose(4);
    let b = sched::stmts("a", &[ch.of(&[A::Launch, A::LaunchLoop, A::LaunchDel]), ch.of(&[A::Launch, A::LaunchLoop, A::Nop, A::Y]), ch.of(&ends)]);
    let (sp, inputs) = match hats {
        0 => (vec![on_flag(b)], vec![(0, In::Start), (ch.choose(8) + 1, In::Start)]),
        1 => (vec![on_msg("m", b), on_flag(sched::stmts("s", &[A::B("m", true), A::B("m", false)]))], vec![(0, In::Start)]),
        2 => (vec![on_clone(b), on_flag(sched::stmts("s", &[A::Clone(0), A::Y, A::TellDel]))], vec![(0, In::Start)]),
        _ => (vec![on_key("a", b)], vec![(0, In::Key(KeyCode::Char('a'))), (ch.choose(8) + 1, In::Key(KeyCode::Char('a'))), (14, In::Stop)]),
    };
    diff(sched::world(vec![], sp, vec![on_msg("m", sched::stmts("om", &[A::Y]))]), Scn { inputs, cap_events: 60, ..Default::default() }, cx)
}
pub fn check(quick: bool) -> Check {
    let _ = quick;
    Check::new("S10", TRACES, vec![
        phase("captures", "3 capture sets x 3 parameter lists x 6 ways to launch x 11 actions of the launched x 11 of the creating script", launched),
        phase("nested launches", "8 bodies in 2 of 8 nestings of launch, run, tell, clone, loops, try; also from a message handler", nested),
        phase("odd rings", "8 values x 0..3 arguments x launch/run/call x handler", odd),
        phase("outliving", "creators with 4 hats ended in 8 ways while launched scripts run, restarted at every point", outlive),
    ])
}
