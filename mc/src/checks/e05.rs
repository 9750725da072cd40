//! E05: bounded call depth.
use super::common::*;

const KINDS: usize = 11;
/// A block that makes one call of kind `k` whose body is `inner` (statements reporting a value).
fn link(k: usize, name: &str, inner: Vec<Stmt>, fns: &mut Vec<netsblox_vm::ast::Function>, methods: &mut Vec<netsblox_vm::ast::Function>) -> Stmt {
    let r = |p: &[&str]| ring(p, &[], inner.clone());
    match k {
        0 => { fns.push(func(name, &[], inner.clone())); rsys("got", vec![callf(name, vec![])]) }
        1 => { methods.push(func(name, &[], inner.clone())); runf(name, vec![]) }
        2 => run(r(&[]), vec![]),
        3 => rsys("got", vec![call(r(&[]), vec![])]),
        4 => rsys("got", vec![map(r(&["a"]), ml(vec![n(1.0), n(2.0)]))]),
        5 => rsys("got", vec![keep(r(&["a"]), ml(vec![n(1.0)]))]),
        6 => rsys("got", vec![find_first(r(&["a"]), ml(vec![n(1.0)]))]),
        7 => rsys("got", vec![combine(r(&["a", "b"]), ml(vec![n(1.0), n(2.0)]))]),
        8 => tell(ent("Stage"), r(&[]), vec![]),
        9 => warp(vec![repeat(n(2.0), vec![run(r(&[]), vec![])])]),
        _ => launch(r(&[]), vec![]),
    }
}
fn depth() -> Expr { sys("depth", vec![]) }

/// chains of calls of every mixture, with a handler at every level or none
fn chains(ch: &mut Chooser, cx: &Ctx, len: usize) -> Leaf {
    let limit = ch.choose(len + 2) + 1;
    let guard = ch.choose(3);
    let kinds: Vec<usize> = (0..len).map(|_| ch.choose(KINDS)).collect();
    // a global block cannot call a sprite's own block
    if kinds.iter().position(|k| *k == 0).is_some_and(|i| kinds[i..].contains(&1)) { return Leaf::skip(); }
    let (mut fns, mut ms) = (vec![], vec![]);
    let mut inner = vec![rsys("bottom", vec![depth()]), ret(bo(true))];
    for (i, k) in kinds.iter().enumerate().rev() {
        let st = link(*k, &format!("k{i}"), inner, &mut fns, &mut ms);
        let st = match guard { 0 => st, 1 => try_(vec![st], "err", vec![rsys("caught", vec![n(i as f64), v("err"), depth()])]), _ => if i == 0 { try_(vec![st], "err", vec![rsys("caught", vec![v("err"), depth()])]) } else { st } };
        inner = vec![rsys("at", vec![n(i as f64), depth()]), st, rsys("back", vec![n(i as f64), depth()]), ret(bo(true))];
    }
    // the depth given back can be used again
    let again = try_(vec![run(ring(&[], &[], vec![rsys("again", vec![depth()])]), vec![])], "err", vec![rsys("not again", vec![v("err")])]);
    inner.insert(inner.len() - 1, again);
    let r = role(nums(&["err"]), fns, vec![entity("Stage", vec![], vec![], vec![]), entity("Sprite", vec![], ms, vec![on_flag(inner)])]);
    diff(r, Scn { max_depth: limit, log_yield: false, cap_events: 90, ..Default::default() }, cx)
}
/// unbounded recursion through every pair of call kinds
fn recursion(ch: &mut Chooser, cx: &Ctx) -> Leaf {
    let limits = [1usize, 2, 3, 4, 5, 8, 9, 33, 100];
    let limit = *ch.pick(&limits);
    let (a, b) = (ch.choose(10), ch.choose(10));
    let handler = ch.choose(3);
    // R: a global ring; F: a global block; M: a method
    let rec = |k: usize, args: bool| -> Expr {
        let _ = args;
        match k {
            0 => callf("f", vec![]), 1 => callf("m", vec![]), 2 | 9 => call(v("r"), vec![]), 3 => ask_of(this(), v("r"), vec![]),
            4 => map(ringe(&["q"], &[], call(v("r"), vec![])), ml(vec![n(1.0)])),
            5 => keep(ringe(&["q"], &[], callf("f", vec![])), ml(vec![n(1.0)])),
            6 => find_first(ringe(&["q"], &[], callf("m", vec![])), ml(vec![n(1.0)])),
            7 => combine(ringe(&["q", "p"], &[], callf("f", vec![])), ml(vec![n(1.0), n(2.0)])),
            _ => ask_of(ent("Stage"), v("r2"), vec![]),
        }
    };
    let body = |k: usize| -> Vec<Stmt> {
        let x = rec(k, false);
        let st = if k == 9 { warp(vec![chg("count", n(1.0)), set("res", x)]) } else { set("res", x) };
        let mut bd = vec![chg("count", n(1.0))];
        if handler == 2 { bd.push(try_(vec![st], "err", vec![chg("handled", n(1.0)), if_(le(v("handled"), n(3.0)), vec![rsys("inner", vec![v("err"), depth()])]), throw(v("err"))])) } else { bd.push(st) }
        bd.push(ret(n(1.0)));
        bd
    };
    // a global block cannot call a sprite's own block
    let mut fns = vec![func("g", &[], vec![ret(n(0.0))])];
    let mut ms = vec![func("m", &[], body(b))];
    let local = a == 1 || a == 6;
    if local { ms.push(func("f", &[], body(a))); } else { fns.push(func("f", &[], body(a))); }
    let mut sc = vec![set("r", ring(&[], &[], body(b))), set("r2", ring(&[], &[], body(a)))];
    let go = vec![set("res", callf("f", vec![]))];
    sc.push(rsys("go", vec![depth()]));
    if handler == 0 { sc.extend(go); } else { sc.push(try_(go, "err", vec![rsys("caught", vec![v("err"), depth(), v("count")])])); }
    sc.push(rsys("g", vec![depth(), if limit > 1 { callf("g", vec![]) } else { n(0.0) }, v("count")]));
    let mut stage = entity("Stage", vec![], vec![], vec![]);
    stage.funcs.push(func("m", &[], body(b)));
    if local { stage.funcs.push(func("f", &[], body(a))); }
    let r = role(nums(&["err", "count", "res", "r", "r2", "handled"]), fns, vec![stage, entity("Sprite", vec![], ms, vec![on_flag(sc)])]);
    diff(r, Scn { max_depth: limit, log_yield: false, cap_events: 60, cap_quiet: 30000, ..Default::default() }, cx)
}
pub fn check(quick: bool) -> Check {
    let mut p = vec![
        phase("chains of 2", "every chain of 2 calls of 11 kinds x limits 1..4 x handler placements", |ch, cx| chains(ch, cx, 2)),
        phase("chains of 3", "every chain of 3 calls x limits 1..5", |ch, cx| chains(ch, cx, 3)),
        phase("recursion", "unbounded recursion through every pair of 10 call kinds x limits 1,2,3,4,5,8,9,33,100 x handler placement; depth read at every level", recursion),
        phase("chains of 4", "every chain of 4 calls x limits 1..6", |ch, cx| chains(ch, cx, 4)),
    ];
    if !quick {
        p.push(phase("chains of 5", "every chain of 5 calls x limits 1..7", |ch, cx| chains(ch, cx, 5)));
    }
    Check::new("E05", TRACES, p).assume("the depth of the call stack is read through Process::get_call_stack when a system call is made")
}
