//! V08: random blocks. Each operand is run with every class of generator output; the set of outcomes must be the permitted set.
use super::common::*;
use crate::vm;
use std::collections::BTreeSet;

/// what the program reports with the generator in class `k` of `d`
fn outcome(role: &Role, k: u64, d: u64) -> (String, u64) {
    let s = Rc::new(Scn { rand_num: k, rand_den: d, cap_events: 4000, cap_quiet: 100000, ..Scn::default() });
    let r = vm::run(role, &s);
    (r.trace.iter().filter(|x| x.contains(" syscall ")).map(|x| x.split(" syscall ").nth(1).unwrap().to_string()).collect::<Vec<_>>().join("; "), r.steps)
}
fn all(role: &Role, d: u64) -> (Vec<String>, u64) {
    let mut steps = 0;
    let o = (0..d).map(|k| { let (o, s) = outcome(role, k, d); steps += s; o }).collect();
    (o, steps)
}
fn leaf(role: &Role, got: &[String], steps: u64) -> Leaf {
    let mut l = Leaf::ok(got.iter().map(|x| h64(&(format!("{role:?}"), x))).collect(), steps);
    l.compared = got.len() as u64;
    l.desc = Some(format!("{}outcomes {got:?}", show(role)));
    l
}
fn exactly(role: Role, d: u64, want: BTreeSet<String>) -> Leaf {
    let (got, steps) = all(&role, d);
    let set: BTreeSet<String> = got.iter().cloned().collect();
    if set != want {
        let (extra, missing): (Vec<_>, Vec<_>) = (set.difference(&want).take(5).collect(), want.difference(&set).take(5).collect());
        return Leaf::fail(format!("{:016x}", h64(&format!("{role:?}"))), format!("{}over {d} classes of generator output\nnot permitted but returned: {extra:?}\npermitted but never returned: {missing:?}", show(&role)));
    }
    leaf(&role, &got, steps)
}
/// the outcomes of one block, reported as syscall v
fn one(globals: &[&str], before: Vec<Stmt>, stmts: Vec<Stmt>) -> Role {
    let mut body = before;
    body.push(try_(stmts, "err", vec![rsys("err", vec![v("err")])]));
    prog(nums(globals), vec![], vec![on_flag(body)])
}
fn num_text(x: f64) -> String { format!("{:?}", x + 0.0) }
fn pick(a: Expr, z: Expr, kept: bool) -> Role {
    if kept { one(&["a", "b", "err"], vec![set("a", a), set("b", z)], vec![rsys("v", vec![rnd(v("a"), v("b"))])]) } else { one(&["err"], vec![], vec![rsys("v", vec![rnd(a, z)])]) }
}
fn as_expr(ch: &mut Chooser, x: f64) -> Expr { if ch.flag() { t(&format!("{x}")) } else { n(x) } }
fn whole(ch: &mut Chooser, base: f64, width: usize, twice: bool) -> Leaf {
    let (a, z) = (base + ch.choose(width) as f64, base + ch.choose(width) as f64);
    let (x, y) = (as_expr(ch, a), as_expr(ch, z));
    let (lo, hi) = (a.min(z), a.max(z));
    let role = pick(x, y, ch.flag());
    let mut want: Vec<f64> = vec![];
    let k = (hi - lo) as u64;
    for i in 0..=k { let q = lo + i as f64; if want.last() != Some(&q) { want.push(q); } }
    exactly(role, (k + 1) * if twice { 7 } else { 2 }, want.iter().map(|x| format!("v [{}]", num_text(*x))).collect())
}
/// bounds too far apart to try every outcome: only permitted ones, both ends and the middle reached
fn spread(ch: &mut Chooser, ends: &[f64], d: u64) -> Leaf {
    let (a, z) = (ch.of(ends), ch.of(ends));
    let (lo, hi) = (a.min(z), a.max(z));
    let role = pick(n(a), n(z), ch.flag());
    let (got, mut steps) = all(&role, d);
    let whole = lo == lo.trunc() && hi == hi.trunc();
    let bad = |why: String| Leaf::fail(format!("random {a:?} {z:?}"), format!("pick random {a:?} to {z:?}: {why}"));
    let mut xs = vec![];
    let (first, s1) = outcome(&role, 0, u64::MAX);
    let (last, s2) = outcome(&role, u64::MAX - 1, u64::MAX);
    steps += s1 + s2;
    for o in got.iter().chain([&first, &last]) {
        let Some(x) = o.strip_prefix("v [").and_then(|x| x.strip_suffix("]")).and_then(|x| x.parse::<f64>().ok()) else { return bad(format!("gave {o}")) };
        if !(lo..=hi).contains(&x) { return bad(format!("gave {x:?}, which is outside")); }
        if whole && x != x.trunc() { return bad(format!("gave {x:?}, which is not whole")); }
        xs.push(x);
    }
    if lo < hi {
        let at = |f: f64| lo * (1.0 - f) + hi * f;
        let low = xs.iter().any(|x| *x <= at(0.1)) && xs.iter().any(|x| *x >= at(0.9)) && (hi - lo < 4.0 && whole || !(at(0.3) < at(0.5) && at(0.5) < at(0.7)) || xs.iter().any(|x| *x > at(0.3) && *x < at(0.7)));
        if !low { return bad(format!("only gave {:?}", xs.iter().take(10).collect::<Vec<_>>())); }
        if whole && hi.abs().max(lo.abs()) < 9e15 && (!xs.contains(&lo) || !xs.contains(&hi)) { return bad("never gave one of the bounds".into()); }
    }
    leaf(&role, &got, steps)
}
fn bad_bounds(ch: &mut Chooser, cx: &Ctx) -> Leaf {
    let xs = [n(1.0), t("x"), t(""), bo(true), ent("Sprite"), t("5"), ml(vec![]), ml(vec![n(2.0)]), ml(vec![t("x")]), t(" 3 ")];
    let (a, z) = (ch.of(&xs), ch.of(&xs));
    diff(one(&["a", "r", "err"], vec![set("a", a)], vec![set("r", rnd(v("a"), z)), rsys("v", vec![v("r")])]), Scn::default(), cx)
}
/// bounds in lists: each pair keeps to its own bounds
fn listed(ch: &mut Chooser) -> Leaf {
    let (a, b, c) = (ch.choose(3) as f64, ch.choose(4) as f64, ch.choose(4) as f64);
    let form = ch.choose(3);
    let (x, y) = match form { 0 => (ml(vec![n(a), n(b)]), n(c)), 1 => (n(c), ml(vec![n(a), n(b)])), _ => (ml(vec![n(a), ml(vec![n(b)])]), ml(vec![n(c), n(2.0)])) };
    let role = one(&["err"], vec![], vec![rsys("v", vec![rnd(x, y)])]);
    let (got, steps) = all(&role, 24);
    let span = |a: f64, b: f64| (a.min(b) as i64)..=(a.max(b) as i64);
    let pairs = if form < 2 { [(a, c), (b, c)] } else { [(a, c), (b, 2.0)] };
    let (mut s0, mut s1) = (BTreeSet::new(), BTreeSet::new());
    for o in &got {
        let xs: Vec<f64> = o.trim_start_matches("v [#0[").replace("#1[", "").split([',', ']']).filter_map(|x| x.trim().parse().ok()).collect();
        if xs.len() != 2 || xs.iter().any(|x| x.trunc() != *x) { return Leaf::fail(format!("{role:?}"), format!("{}gave {o}", show(&role))); }
        s0.insert(xs[0] as i64);
        s1.insert(xs[1] as i64);
    }
    if s0 != span(pairs[0].0, pairs[0].1).collect() || s1 != span(pairs[1].0, pairs[1].1).collect() { return Leaf::fail(format!("{role:?}"), format!("{}first {s0:?} second {s1:?}", show(&role))); }
    leaf(&role, &got, steps)
}
fn show_list(xs: &[String]) -> String { format!("#0[{}]", xs.join(", ")) }
fn items(ch: &mut Chooser, max: usize) -> Leaf {
    let k = ch.choose(max + 1);
    let l = || ml((0..k).map(|i| n(i as f64)).collect());
    let xs: Vec<String> = (0..k).map(|i| num_text(i as f64)).collect();
    let d = 3 * (k as u64 + 1) * (k as u64).max(1);
    let empty = |e: &str| BTreeSet::from([format!("err [{e:?}]")]);
    let oob = "IndexOutOfBounds { index: 1, len: 0 }";
    let (role, want) = match ch.choose(5) {
        0 => (one(&["l", "err"], vec![set("l", l())], vec![rsys("v", vec![any(v("l"))])]), if k == 0 { empty(oob) } else { xs.iter().map(|x| format!("v [{x}]")).collect() }),
        1 => (one(&["l", "err"], vec![set("l", l())], vec![insert_any(v("l"), t("x")), rsys("v", vec![v("l")])]), (0..=k).map(|i| { let mut y = xs.clone(); y.insert(i, "\"x\"".into()); format!("v [{}]", show_list(&y)) }).collect()),
        2 => (one(&["l", "err"], vec![set("l", l())], vec![put_any(v("l"), t("x")), rsys("v", vec![v("l")])]), if k == 0 { empty(oob) } else { (0..k).map(|i| { let mut y = xs.clone(); y[i] = "\"x\"".into(); format!("v [{}]", show_list(&y)) }).collect() }),
        3 => (one(&["err"], vec![], vec![rsys("v", vec![any(l())])]), if k == 0 { empty(oob) } else { xs.iter().map(|x| format!("v [{x}]")).collect() }),
        _ => (one(&["l", "err"], vec![set("l", l())], vec![del_any(v("l")), rsys("v", vec![v("l")])]), BTreeSet::new()),
    };
    if want.is_empty() { return Leaf::skip(); }
    exactly(role, d, want)
}
fn del_any(l: Expr) -> Stmt { del(l, n(1.0)) }
fn letters(ch: &mut Chooser, len_: usize) -> Leaf {
    let alpha = ["a", "é", "e\u{301}", "😀", "👍🏽", "\r\n", "日"];
    let k = ch.choose(len_ + 1);
    let cs: Vec<&str> = (0..k).map(|_| ch.of(&alpha)).collect();
    let s = cs.concat();
    let g = crate::refops::graphemes(&s);
    let want = if g.is_empty() { BTreeSet::from([format!("err [{:?}]", "IndexOutOfBounds { index: 1, len: 0 }")]) } else { g.iter().map(|x| format!("v [{x:?}]")).collect() };
    let role = if ch.flag() { one(&["a", "err"], vec![set("a", t(&s))], vec![rsys("v", vec![letter_any(v("a"))])]) } else { one(&["err"], vec![], vec![rsys("v", vec![letter_any(t(&s))])]) };
    exactly(role, 6 * (g.len() as u64).max(1), want)
}
/// what a list of draws looks like: every list in it a list of its own
#[derive(Clone)]
enum Out { One(String), Many(Vec<Out>) }
fn shown(o: &Out, ids: &mut usize) -> String {
    match o {
        Out::One(x) => x.clone(),
        Out::Many(xs) => { let k = *ids; *ids += 1; format!("#{k}[{}]", xs.iter().map(|x| shown(x, ids)).collect::<Vec<_>>().join(", ")) }
    }
}
/// replaces each leaf (a number of choices) by every choice: the product
fn product(shape: &Out, choices: &[String]) -> Vec<Out> {
    match shape {
        Out::One(_) => choices.iter().map(|x| Out::One(x.clone())).collect(),
        Out::Many(xs) => {
            let mut all: Vec<Vec<Out>> = vec![vec![]];
            for x in xs { let p = product(x, choices); all = all.into_iter().flat_map(|a| p.iter().map(move |q| { let mut a = a.clone(); a.push(q.clone()); a })).collect(); }
            all.into_iter().map(Out::Many).collect()
        }
    }
}
fn draws_of(o: &Out) -> u32 { match o { Out::One(_) => 1, Out::Many(xs) => xs.iter().map(draws_of).sum() } }
/// several draws in one program: every combination of outcomes is possible, also when the operands share lists
fn several(ch: &mut Chooser, most: u32) -> Leaf {
    let k = 2 + ch.choose(2) as u64;
    let texts: Vec<String> = ["a", "b", "c"][..k as usize].iter().map(|x| format!("{x:?}")).collect();
    let numbers: Vec<String> = (1..=k).map(|x| num_text(x as f64)).collect();
    let word = t(["ab", "abc"][k as usize - 2]);
    let one_ = || Out::One(String::new());
    let two_ = || Out::Many(vec![one_(), one_()]);
    // operands of a block that draws for each item: shapes with shared lists
    let shape = ch.choose(7);
    let source = |leaf: &Expr| -> (Vec<Stmt>, Expr, Out) {
        let l2 = ml(vec![leaf.clone(), leaf.clone()]);
        match shape {
            0 => (vec![], leaf.clone(), one_()),
            1 => (vec![], l2, two_()),
            2 => (vec![set("l", ml(vec![leaf.clone()]))], ml(vec![v("l"), v("l")]), Out::Many(vec![Out::Many(vec![one_()]), Out::Many(vec![one_()])])),
            3 => (vec![set("l", l2)], ml(vec![v("l"), v("l")]), Out::Many(vec![two_(), two_()])),
            4 => (vec![set("l", ml(vec![leaf.clone()]))], ml(vec![v("l"), leaf.clone(), v("l")]), Out::Many(vec![Out::Many(vec![one_()]), one_(), Out::Many(vec![one_()])])),
            5 => (vec![set("l", ml(vec![leaf.clone()]))], ml(vec![v("l"), ml(vec![v("l")])]), Out::Many(vec![Out::Many(vec![one_()]), Out::Many(vec![Out::Many(vec![one_()])])])),
            _ => (vec![set("m", ml(vec![leaf.clone()])), set("l", ml(vec![v("m"), v("m")]))], ml(vec![v("l"), v("l")]), Out::Many(vec![Out::Many(vec![Out::Many(vec![one_()]); 2]); 2])),
        }
    };
    let (before, x, out, choices) = match ch.choose(5) {
        0 => { let (b, x, o) = source(&word); (b, letter_any(x), o, texts) }
        1 => { let (b, x, o) = source(&n(1.0)); (b, rnd(x, n(k as f64)), o, numbers) }
        2 => { let (b, x, o) = source(&n(k as f64)); (b, rnd(t("1"), x), o, numbers) }
        3 => { if shape == 4 { return Leaf::skip() } let (b, x, o) = source(&n(1.0)); let (b2, x2, _) = source(&n(k as f64)); let ren = |s: Stmt| s; (b.into_iter().chain([set("p", x)]).chain(b2.into_iter().map(ren)).chain([set("q", x2)]).collect(), rnd(v("p"), v("q")), o, numbers) }
        _ => { // both operands the same list of lists: each item drawn between itself and itself: always that
            if shape == 4 { return Leaf::skip() }
            let (b, x, o) = source(&n(1.0));
            (b.into_iter().chain([set("p", x)]).collect(), rnd(v("p"), v("p")), o, vec![num_text(1.0)])
        }
    };
    // how often the block runs: once, twice in one expression, twice in a loop
    let (st, out) = match ch.choose(3) {
        0 => (vec![rsys("v", vec![x])], out),
        1 => (vec![rsys("v", vec![ml(vec![x.clone(), x])])], Out::Many(vec![out.clone(), out])),
        _ => (vec![set("r", ml(vec![])), repeat(n(2.0), vec![push(v("r"), x)]), rsys("v", vec![v("r")])], Out::Many(vec![out.clone(), out])),
    };
    let m = draws_of(&out);
    if m > most || (k as u64).pow(m) > 300 { return Leaf::skip(); }
    let want: BTreeSet<String> = product(&out, &choices).iter().map(|o| format!("v [{}]", shown(o, &mut 0))).collect();
    let role = one(&["l", "m", "p", "q", "r", "err"], before, st);
    let (mut got, mut steps) = (vec![], 0);
    for i in 0..k.pow(m) {
        let seq = (0..m).map(|j| i / k.pow(j) % k).collect();
        let r = vm::run(&role, &Rc::new(Scn { rand_seq: seq, rand_den: k, cap_events: 4000, cap_quiet: 100000, ..Scn::default() }));
        steps += r.steps;
        got.push(r.trace.iter().filter(|x| x.contains(" syscall ")).map(|x| x.split(" syscall ").nth(1).unwrap().to_string()).collect::<Vec<_>>().join("; "));
    }
    let set: BTreeSet<String> = got.iter().cloned().collect();
    if set != want {
        let (extra, missing): (Vec<_>, Vec<_>) = (set.difference(&want).take(5).collect(), want.difference(&set).take(5).collect());
        return Leaf::fail(format!("{:016x}", h64(&format!("{role:?}"))), format!("{}over every sequence of {m} draws\nnot permitted but returned: {extra:?}\npermitted but never returned: {missing:?}", show(&role)));
    }
    leaf(&role, &got, steps)
}
pub fn check(quick: bool) -> Check {
    let q = quick;
    let far = [0.0, 1.0, -1.0, 1000.0, -1e6, 1e6, 4294967296.0, -4294967297.0, 9007199254740991.0, -9007199254740991.0, 9223372036854775807.0, -9223372036854775808.0, 9223372036854774784.0, 9223372036854777856.0, 1e19, -1e19, 2e19, 1e300, -1e300, f64::MAX, f64::MIN, 8.98846567431158e307];
    let fr = [0.5, -0.5, 0.0, 1.0, 1.5, -2.25, 0.1, 1e-300, 5e-324, -5e-324, 10.0, 1e15, 4503599627370495.5, 1e300, f64::MAX, f64::MIN, 8.98846567431158e307, -8.98846567431158e307];
    Check::new("V08", TRACES, vec![
        phase("whole bounds", "every pair of whole bounds in a range of 24 (thorough 60) around zero, as numbers and texts, written and kept, every class of generator output twice", move |ch, _| { let w = if q { 24 } else { 60 }; whole(ch, -((w / 2) as f64), w, true) }),
        phase("wide bounds", "every pair of bounds in a range of 16 (thorough 60) up to 300 apart from 1000", move |ch, _| { let w = if q { 16 } else { 60 }; let b = ch.of(&[1000.0, -300.0, 4294967290.0, 1e15, -2147483650.0]); whole(ch, b, w, false) }),
        phase("far bounds", "every ordered pair of 22 whole bounds up to the largest number, 48 classes of generator output and both extremes", move |ch, _| spread(ch, &far, 48)),
        phase("fractional bounds", "every ordered pair of 18 bounds, 48 classes of generator output and both extremes", move |ch, _| spread(ch, &fr, 48)),
        phase("other bounds", "every ordered pair of ten bounds that are no numbers", |ch, cx| bad_bounds(ch, cx)),
        phase("lists of bounds", "lists of bounds against a bound and against lists", |ch, _| listed(ch)),
        phase("list items", "random item, insertion and replacement in lists of up to 16 (thorough 40) items", move |ch, _| items(ch, if q { 16 } else { 40 })),
        phase("several draws", "random letters and numbers over operands of 7 shapes (lists that occur twice among them), drawn once, twice in one expression or twice in a loop, of 2 or 3 outcomes: every sequence of generator output, up to 8 draws; every combination of outcomes must occur", |ch, _| several(ch, 8)),
        phase("letters", "every text of up to 3 (thorough 4) of seven characters", move |ch, _| letters(ch, if q { 3 } else { 4 })),
    ])
}
