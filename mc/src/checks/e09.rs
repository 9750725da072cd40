//! E09: errors are reported at the block that raised them.
use super::common::*;
use super::nest::{nested_role, K, K::*};
use super::tabs;
use crate::vm;
use netsblox_vm::ast::{Function, Value};

fn scn() -> Scn { Scn { summaries: true, cap_events: 80, max_depth: 24, ..Default::default() } }
struct Off;
impl Drop for Off { fn drop(&mut self) { locate(0) } }
fn on(ch: &mut Chooser) -> (Off, u8) { let m = 1 + ch.choose(3) as u8; locate(m); (Off, m) }

/// a statement that fails, and what it needs, somewhere in a program
fn placed(ch: &mut Chooser, places: usize, mk: &dyn Fn() -> Stmt, fs: Vec<Function>) -> Role {
    let mut fs = fs;
    let mut ex = vec![];
    let after = |x: Stmt| vec![rsys("before", vec![]), x, rsys("after", vec![])];
    let body = match ch.choose(places) {
        0 => vec![mk()],
        1 => after(mk()),
        2 => vec![if_(bo(true), vec![mk()])],
        3 => vec![ifelse(bo(true), after(mk()), vec![says("no")]), says("after")],
        4 => vec![ifelse(bo(false), vec![says("no")], vec![mk()])],
        5 => vec![repeat(n(2.0), after(mk()))],
        6 => vec![for_("i", n(1.0), n(2.0), vec![mk()]), says("x")],
        7 => vec![foreach("i", ml(vec![n(1.0)]), vec![mk()])],
        8 => vec![until(bo(false), vec![mk()])],
        9 => vec![forever(vec![mk()])],
        10 => vec![warp(vec![mk()]), says("x")],
        11 => vec![try_(vec![throw(t("first"))], "err", vec![mk()])],
        12 => { fs.push(func("f", &["p"], after(mk()))); vec![decl(&["loc"]), runf("f", vec![add(n(1.0), n(2.0))]), says("x")] }
        13 => { fs.push(func("f", &["p"], vec![if_(eq(v("p"), n(2.0)), vec![mk()]), ret(callf("f", vec![add(v("p"), n(1.0))]))])); vec![decl(&["loc"]), set("x", add(n(1.0), callf("f", vec![n(0.0)])))] }
        14 => vec![decl(&["loc"]), run(ring(&["q"], &["loc"], after(mk())), vec![n(5.0)])],
        15 => vec![set("x", ml(vec![n(1.0), call(ring(&[], &[], vec![mk(), ret(n(1.0))]), vec![]), n(2.0)]))],
        16 => vec![set("x", map(ring(&["q"], &[], vec![mk(), ret(n(1.0))]), ml(vec![n(3.0), n(4.0)])))],
        17 => vec![says("x"), launch(ring(&["q"], &[], vec![mk()]), vec![n(7.0)]), says("y")],
        18 => vec![tell(ent("Other"), ring(&[], &[], after(mk())), vec![])],
        19 => { ex.push(on_msg("m", vec![mk()])); vec![bcast(t("m"), true), says("y")] }
        20 => vec![try_(vec![try_(vec![runf("bad", vec![])], "err", vec![runf("bad", vec![])])], "err", vec![mk()])],
        21 => vec![set("x", keep(ring(&["q"], &[], vec![if_(gt(v("q"), n(3.0)), vec![mk()]), ret(bo(true))]), ml(vec![n(3.0), n(4.0)])))],
        22 => vec![set("x", find_first(ring(&["q"], &[], vec![mk(), ret(bo(false))]), ml(vec![n(3.0), n(4.0)]))), says("x")],
        _ => vec![set("x", combine(ring(&["q", "r"], &[], vec![mk(), ret(bo(false))]), ml(vec![n(3.0), n(4.0)]))), says("x")],
    };
    fs.push(func("bad", &[], vec![wait0(), throw(t("bad"))]));
    let mut sc = vec![on_flag(body)];
    sc.extend(ex);
    tabs::world(nums(&["err"]), fs, sc)
}
const PLACES: usize = 24;
/// every block with every operand failing or of a kind it refuses
fn operands(ch: &mut Chooser, cx: &Ctx, places: usize) -> Leaf {
    let (_off, _) = on(ch);
    let (xs, ss) = (tabs::exprs(), tabs::stmts());
    let k = ch.choose(xs.len() + ss.len());
    let (name, args) = if k < xs.len() { (xs[k].name, xs[k].args.clone()) } else { (ss[k - xs.len()].name, ss[k - xs.len()].args.clone()) };
    let (at, how) = (ch.choose(args.len()), ch.choose(4));
    if how == 2 && name == "join" { return Leaf::skip(); }
    if how == 3 && matches!(name, "say" | "think" | "say for") { return Leaf::skip(); }
    let mk = || {
        let mut a = args.clone();
        a[at] = match how {
            0 => callf("bad", vec![]),
            1 => div(n(1.0), add(n(0.0), n(0.0))),
            2 => ring(&[], &[], vec![]),
            _ => v("no such variable"),
        };
        if k < xs.len() { set("x", ml(vec![t("pre"), (xs[k].f)(a), t("post")])) } else { (ss[k - xs.len()].f)(a) }
    };
    diff(placed(ch, places, &mk, vec![]), scn(), cx)
}
/// control blocks failing by themselves after, before and around other blocks
fn control(ch: &mut Chooser, cx: &Ctx) -> Leaf {
    let (_off, _) = on(ch);
    let bad: fn(usize) -> Expr = |w| match w { 0 => t("neither"), 1 => add(n(1.0), ml(vec![t("x")])), 2 => v("nope"), 3 => ring(&[], &[], vec![]), _ => sys("T", vec![]) };
    let (w, shape) = (ch.choose(5), ch.choose(21));
    let body = || vec![set("x", add(v("x"), n(1.0))), if_(gt(v("x"), n(100.0)), vec![says("big")])];
    let mk = || match shape {
        0 => repeat(bad(w), body()),
        1 => until(bad(w), body()),
        2 => if_(bad(w), body()),
        3 => ifelse(bad(w), body(), body()),
        4 => for_("i", bad(w), n(2.0), body()),
        5 => for_("i", n(1.0), bad(w), body()),
        6 => foreach("i", bad(w), body()),
        7 => wait_until(bad(w)),
        8 => set("x", cond(bad(w), add(n(1.0), n(2.0)), n(3.0))),
        9 => set("x", and(bo(true), bad(w))),
        10 => set("x", and(bad(w), eq(n(1.0), n(1.0)))),
        11 => set("x", or(eq(n(1.0), n(2.0)), bad(w))),
        12 => throw(bad(w)),
        13 => set("nope", add(n(1.0), n(2.0))),
        14 => chg("x", bad(w)),
        15 => until(gt(v("x"), bad(w)), body()),
        16 => s(StmtKind::ShowVar { var: vref("nope") }),
        17 => run(bad(w), vec![add(n(1.0), n(2.0))]),
        18 => set("x", map(bad(w), ml(vec![n(1.0)]))),
        19 => set("x", keep(ring(&["q"], &[], vec![says("in"), ret(t("neither"))]), ml(vec![n(1.0)]))),
        _ => bcast(bad(w), true),
    };
    diff(placed(ch, PLACES, &mk, vec![]), scn(), cx)
}
/// errors from the host, at the call and while waiting
fn host(ch: &mut Chooser, cx: &Ctx) -> Leaf {
    let (_off, _) = on(ch);
    let (k, wait, how) = (ch.choose(13), ch.choose(3) as u8, ch.choose(3));
    let mk = || match k {
        0 => set("x", add(n(1.0), sys("get", vec![n(1.0)]))),
        1 => rsys("do", vec![add(n(1.0), n(2.0))]),
        2 => set("x", ml(vec![rpc("get", vec![("a", add(n(1.0), n(2.0)))])])),
        3 => rrpc("do", vec![("a", n(1.0))]),
        4 => ask(cat(vec![t("q"), t("r")])),
        5 => set("x", blk("thing", vec![n(1.0)])),
        6 => rblk("act", vec![n(1.0)]),
        7 => say(cat(vec![t("a"), t("b")])),
        8 => s(StmtKind::GotoXY { x: bx(add(n(1.0), n(1.0))), y: bx(n(2.0)) }),
        9 => set("x", add(n(1.0), e(ExprKind::XPos))),
        10 => s(StmtKind::Forward { distance: bx(n(1.0)) }),
        11 => s(StmtKind::StopSounds),
        _ => s(StmtKind::SetX { value: bx(n(1.0)) }),
    };
    let plan = vec![(wait, match how { 0 => Ans::Err("bad luck".into()), 1 => Ans::Refuse("refused".into()), _ => Ans::PollErr("broken".into()) })];
    let body = match ch.choose(5) {
        0 => vec![mk()],
        1 => vec![if_(bo(true), vec![mk()]), wait0()],
        2 => vec![repeat(n(1.0), vec![wait0(), mk()])],
        3 => vec![decl(&["l"]), run(ring(&["p"], &["l"], vec![mk()]), vec![n(1.0)]), wait0()],
        _ => vec![warp(vec![set("y", map(ring(&["p"], &[], vec![mk(), ret(v("p"))]), ml(vec![n(1.0)])))])],
    };
    diff(tabs::world(vec![], vec![], vec![on_flag(body)]), Scn { plan, ..scn() }, cx)
}
/// too deep recursion: as many entries as there are calls
fn deep(ch: &mut Chooser, cx: &Ctx) -> Leaf {
    let (_off, _) = on(ch);
    let (limit, how) = (1 + ch.choose(9), ch.choose(4));
    let f = func("f", &["k"], match how {
        0 => vec![ret(add(n(1.0), callf("f", vec![add(v("k"), n(1.0))])))],
        1 => vec![if_(bo(true), vec![runf("f", vec![add(v("k"), n(1.0))])])],
        2 => vec![run(ring(&["q"], &[], vec![runf("f", vec![v("q")])]), vec![add(v("k"), n(1.0))])],
        _ => vec![set("x", map(ring(&["q"], &[], vec![ret(callf("f", vec![add(v("q"), n(1.0))]))]), ml(vec![v("k")])))],
    });
    diff(tabs::world(vec![], vec![f], vec![on_flag(vec![decl(&["top"]), set("top", t("t")), set("x", callf("f", vec![n(0.0)]))])]), Scn { max_depth: limit, ..scn() }, cx)
}
/// what is visible: values of every kind in locals, fields and globals
fn vars(ch: &mut Chooser, cx: &Ctx) -> Leaf {
    let (_off, _) = on(ch);
    let val: fn(usize) -> Expr = |k| match k { 0 => n(1.5), 1 => n(-3.0), 2 => n(1e21), 3 => t(""), 4 => t("say \"hi\"\n"), 5 => bo(true), 6 => ml(vec![]), 7 => ml(vec![n(1.0), t("two"), ml(vec![bo(false)])]), 8 => this(), 9 => ring(&[], &[], vec![]), 10 => call(ring(&[], &[], vec![decl(&["c"]), set("c", ml(vec![n(1.0)])), push(v("c"), v("c")), ret(ml(vec![v("c"), v("c")]))]), vec![]), 11 => call(ring(&["c"], &[], vec![ret(ml(vec![v("c"), ml(vec![v("c")])]))]), vec![ml(vec![t("in")])]), _ => n(0.1) };
    let (a, b) = (ch.choose(13), ch.choose(13));
    let body = match ch.choose(5) {
        0 => vec![decl(&["p", "q"]), set("p", val(a)), set("q", val(b)), throw(t("z"))],
        1 => vec![decl(&["p"]), set("p", val(a)), set("x", val(b)), runf("f", vec![val(b)])],
        2 => vec![set("fld", val(a)), tell(ent("Other"), ring(&["p"], &[], vec![set("fld", val(b)), throw(t("z"))]), vec![n(1.0)])],
        3 => vec![set("x", val(a)), run(ring(&["x"], &[], vec![decl(&["fld"]), set("fld", v("x")), throw(t("z"))]), vec![val(b)])],
        _ => vec![try_(vec![decl(&["inner"]), set("inner", val(a)), throw(t("one"))], "err", vec![]), for_("i", n(1.0), n(2.0), vec![foreach("it", ml(vec![val(b)]), vec![throw(t("z"))])])],
    };
    diff(tabs::world(vec![], vec![func("f", &["a"], vec![decl(&["b"]), set("b", v("x")), throw(v("b"))])], vec![on_flag(body)]), scn(), cx)
}
fn nest(ch: &mut Chooser, cx: &Ctx, depth: usize, max_w: usize) -> Leaf {
    let (_off, _) = on(ch);
    const A: [K; 13] = [Throw, OpErr, CallErr, Undef, Try, If, Repeat, ForEach, Ring, RingExpr, MapBody, Fn2, Launch];
    let role = nested_role(ch, &A, depth, 1, max_w, 1);
    diff(role, Scn { cap_events: 100, ..scn() }, cx)
}

/// The documented family: one prefix, integers joined by one separator, one suffix.
fn documented(locs: &[&str]) -> bool {
    fn toks(s: &str) -> (Vec<String>, Vec<String>) {
        // alternating texts without digits or '-', and runs of digits and '-'
        let (mut texts, mut nums, mut cur, mut num) = (vec![], vec![], String::new(), false);
        for c in s.chars() {
            let d = c == '-' || c.is_ascii_digit();
            if d != num { if num { nums.push(std::mem::take(&mut cur)) } else { texts.push(std::mem::take(&mut cur)) } num = d; }
            cur.push(c);
        }
        if num { nums.push(cur); texts.push(String::new()) } else { texts.push(cur) }
        (texts, nums)
    }
    let mut pre = None; let mut suf = None; let mut sep: Option<String> = None;
    for l in locs {
        let (tx, nm) = toks(l);
        if nm.is_empty() || nm.iter().any(|x| x.parse::<i32>().map(|y| y.to_string() != *x).unwrap_or(true)) { return false; }
        if *pre.get_or_insert(tx[0].clone()) != tx[0] || *suf.get_or_insert(tx[tx.len() - 1].clone()) != tx[tx.len() - 1] { return false; }
        for m in &tx[1..tx.len() - 1] { if *sep.get_or_insert(m.clone()) != *m { return false; } }
    }
    true
}
fn scheme(locs: &[&str]) -> Leaf {
    // one failing command per location; each alone is executed by its own script
    let stmts: Vec<Stmt> = locs.iter().map(|l| sat(throw(t("x")), l)).collect();
    let role = prog(vec![], vec![], stmts.into_iter().map(|x| on_flag(vec![x])).collect());
    let bad = |why: String| Leaf::fail(format!("locations {locs:?}"), format!("locations {locs:?}: {why}"));
    let (code, init, l) = match vm::compile(&role) {
        Ok(x) => x,
        Err(e) if e.starts_with("InvalidLocation") => { return if documented(locs) { bad(format!("refused: {e}")) } else { Leaf::ok(vec![h64(&("refused", locs.len()))], 1) } }
        Err(e) => return bad(e),
    };
    // reading the table back must not change it
    let l: netsblox_vm::bytecode::Locations = serde_json::from_str(&serde_json::to_string(&l).unwrap()).unwrap();
    let r = vm::run_code(&code, &init, &l, &Rc::new(Scn { summaries: true, final_state: false, log_yield: false, cap_events: 40, ..Default::default() }));
    let got: Vec<&String> = r.trace.iter().filter(|x| x.starts_with("summary") || x.starts_with("PANIC")).collect();
    for (i, l) in locs.iter().enumerate() {
        let want = format!("[{l}()]");
        if !got.get(i).is_some_and(|g| g.contains(&want)) { return bad(format!("reported {got:#?}, the {}th was {want}", i + 1)); }
    }
    Leaf::ok(histories(0, &r.trace), r.steps)
}
fn words(alpha: &[&str], max: usize) -> Vec<String> {
    let (mut all, mut last) = (vec![String::new()], vec![String::new()]);
    for _ in 0..max { let mut nx = vec![]; for x in &last { for c in alpha { nx.push(format!("{x}{c}")); } } all.extend(nx.clone()); last = nx; }
    all
}
fn schemes(ch: &mut Chooser, _: &Ctx, all: &[String], k: usize) -> Leaf {
    let ls: Vec<String> = (0..k).map(|_| ch.of(all)).collect();
    scheme(&ls.iter().map(|x| x.as_str()).collect::<Vec<_>>())
}
fn family(ch: &mut Chooser, _: &Ctx, second: usize) -> Leaf {
    let ids: Vec<String> = ["0", "1", "-1", "9", "10", "63", "64", "127", "128", "129", "16383", "16384", "2147483647", "-2147483648", "9223372036854775807", "9223372036854775806", "-9223372036854775808", "9223372036854775808", "00", "-0", "--1", "-", "1-1", "+1"].iter().map(|x| x.to_string()).collect();
    let (pre, sep, suf) = (ch.of(&["", "collab_", "é", "a b", "_"]), ch.of(&["_", ",", "::", "日", " "]), ch.of(&["", "&", "_", "é"]));
    let mut ls = vec![];
    for k in 0..2 {
        let mut l = pre.to_string();
        for i in 0..1 + ch.choose(2) { if i > 0 { l += sep; } l += &ids[ch.choose(if k == 0 { ids.len() } else { second })]; }
        ls.push(l + suf);
    }
    scheme(&ls.iter().map(|x| x.as_str()).collect::<Vec<_>>())
}
pub fn check(quick: bool) -> Check {
    let p2 = words(&["a", "1", "-", "_"], if quick { 3 } else { 4 });
    let p3 = words(&["a", "1", "-", "_"], 2);
    let p4 = words(&["1", "-", "_", "0", "9", "b"], 2);
    let mut p = vec![
        phase("operands", "every block x every operand position x 4 kinds of failure x 12 places in a program x 3 ways of naming blocks (all, commands only, reporters only)", |ch, cx| operands(ch, cx, 12)),
        phase("control blocks", "21 control and variable blocks failing by themselves x 5 bad operands x 24 places x 3 ways of naming", control),
        phase("host errors", "13 kinds of host calls x pending polls 0..2 x 3 kinds of failure x 5 places x 3 ways of naming", host),
        phase("depth", "4 kinds of recursion x limits 1..9 x 3 ways of naming", deep),
        phase("variables", "every pair of 13 values (lists that contain themselves among them) in 5 arrangements of locals, parameters, fields and globals", vars),
        phase("nested 2", "every statement nested 2 deep over 13 kinds ending in an error", |ch, cx| nest(ch, cx, 2, 1)),
        phase("pairs of names", "every pair of words of length <= 3 over {a,1,-,_}", move |ch, cx| schemes(ch, cx, &p2, 2)),
        phase("triples of names", "every triple of words of length <= 2 over {a,1,-,_}", move |ch, cx| schemes(ch, cx, &p3, 3)),
        phase("pairs of numbered names", "every pair of words of length <= 2 over {1,-,_,0,9,b}", move |ch, cx| schemes(ch, cx, &p4, 2)),
        phase("schemes", "5 prefixes x 5 separators x 4 suffixes x one or two of 24 identifiers, then one or two of 6 identifiers", |ch, cx| family(ch, cx, 6)),
    ];
    if !quick {
        p.push(phase("operands, all places", "every block x operand x failure x 24 places x 3 ways of naming", |ch, cx| operands(ch, cx, PLACES)));
        p.push(phase("all schemes", "5 prefixes x 5 separators x 4 suffixes x every pair of one or two of 24 identifiers", |ch, cx| family(ch, cx, 24)));
        p.push(phase("nested 3", "every statement nested 3 deep over 13 kinds ending in an error", |ch, cx| nest(ch, cx, 3, 1)));
        p.push(phase("nested 2 pairs", "every statement nested 2 deep with bodies of 1-2 over 13 kinds", |ch, cx| nest(ch, cx, 2, 2)));
    }
    let _ = Value::Bool(true);
    Check::new("E09", TRACES, p).assume("blocks without a location of their own are reported as the innermost enclosing block that has one; blocks outside of any located block are not required to have a location")
}
