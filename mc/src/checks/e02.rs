//! E02: scoping, capture by reference, upvars.
use super::common::*;

fn fncall(f: &str, args: Vec<Expr>, ups: &[&str]) -> Stmt { s(StmtKind::CallFn { function: fref(f), args, upvars: ups.iter().map(|x| vref(x)).collect() }) }
fn read(k: &str) -> Stmt { rsys(k, vec![v("x")]) }

const OPS: usize = 22;
fn op(k: usize, i: usize) -> Vec<Stmt> {
    let fresh = n(100.0 + i as f64);
    match k {
        0 => vec![read("x")],
        1 => vec![set("x", fresh)],
        2 => vec![chg("x", n(1.0))],
        3 => vec![decl(&["x"])],
        4 => vec![set("r", ring(&[], &["x"], vec![chg("x", n(1.0)), read("in r")]))],
        5 => vec![set("q", ring(&["x"], &[], vec![chg("x", n(10.0)), read("in q")]))],
        6 => vec![run(v("r"), vec![])],
        7 => vec![run(v("q"), vec![fresh])],
        8 => vec![runf("f", vec![])],
        9 => vec![fncall("up", vec![n(7.0)], &["x"])],
        10 => vec![for_("x", n(1.0), n(2.0), vec![read("for"), chg("x", n(50.0))])],
        11 => vec![foreach("x", ml(vec![t("a"), t("b")]), vec![read("each"), set("r", ring(&[], &["x"], vec![read("in each ring")]))])],
        12 => vec![try_(vec![throw(t("boom"))], "x", vec![read("catch")])],
        13 => vec![tell(ent("Other"), ring(&[], &[], vec![chg("x", n(2.0)), read("at other")]), vec![])],
        // a ring that declares its own and hands out a ring over it
        14 => vec![set("r", call(ring(&[], &[], vec![decl(&["x"]), chg("x", n(5.0)), ret(ring(&[], &["x"], vec![chg("x", n(1.0)), read("in inner")]))]), vec![]))],
        // two rings over the same variable
        15 => vec![set("r", ring(&[], &["x"], vec![chg("x", n(3.0)), read("left")])), set("q", ring(&["y"], &["x"], vec![chg("x", v("y")), read("right")]))],
        16 => vec![runf("m", vec![v("x")])],
        17 => vec![set("x", callf("g", vec![v("x")]))],
        // the upvar block keeps a ring over the caller's variable
        18 => vec![fncall("keep", vec![], &["x"])],
        19 => vec![runf("rec", vec![n(2.0)])],
        20 => vec![tell(ent("Other"), v("r"), vec![])],
        _ => vec![launch(v("r"), vec![]), wait0()],
    }
}

fn program(ch: &mut Chooser, cx: &Ctx, len: usize, menu: &[usize]) -> Leaf {
    let (g, fld, loc) = (ch.flag(), ch.choose(3), ch.flag());
    let place = ch.choose(3);
    let mut b = vec![];
    if loc { b.push(decl(&["x"])); }
    for i in 0..len { b.extend(op(*ch.pick(menu), i)); }
    b.push(read("end"));
    let u = "u";
    let fs = vec![
        // declares, assigns and reads x on its own
        func("f", &[], vec![set("x", t("from f")), read("in f"), decl(&["x"]), read("fresh in f"), set("x", t("local of f")), read("in f")]),
        func("g", &["x"], vec![chg("x", n(1.0)), read("in g"), decl(&["x"]), ret(ml(vec![v("x")]))]),
        funcu("up", &["a", u], &[u], vec![rsys("up", vec![v(u)]), chg(u, v("a")), rsys("up", vec![v(u)]), read("x in up")]),
        funcu("keep", &[u], &[u], vec![set("r", ring(&[], &[u], vec![chg(u, n(1.0)), rsys("kept", vec![v(u)])])), set(u, n(40.0))]),
        func("rec", &["d"], vec![decl(&["x"]), set("x", v("d")), if_(gt(v("d"), n(0.0)), vec![runf("rec", vec![sub(v("d"), n(1.0))])]), read("after rec")]),
        func("m", &["a"], vec![rsys("global m", vec![v("a")])]),
    ];
    // upvar parameters receive the variable's name
    let fix = |mut st: Vec<Stmt>| { fix_ups(&mut st); st };
    let b = fix(b);
    let method = func("m", &["x"], vec![read("method m"), chg("x", n(1.0)), read("method m")]);
    let scripts = match place {
        0 => vec![on_flag(b.clone())],
        1 => vec![on_flag(vec![decl(&["x"]), set("x", t("script x")), runf("body", vec![t("arg")]), read("outer")])],
        _ => vec![on_flag(vec![decl(&["x"]), set("x", t("script x")), run(ring(&["y"], &["x"], b.clone()), vec![t("arg")]), read("outer")])],
    };
    let mut fs = fs;
    if place == 1 { fs.push(func("body", &["y"], b)); }
    let mut globals = nums(&["r", "q"]);
    if g { globals.push(init("x", Value::String("global".into()))); }
    let mut ents = vec![entity("Stage", vec![], vec![], vec![]), entity("Sprite", if fld > 0 { vec![init("x", Value::String("field".into()))] } else { vec![] }, vec![method], scripts), entity("Other", if fld > 1 { vec![init("x", Value::String("other field".into()))] } else { vec![] }, vec![], vec![])];
    if fld == 2 { ents[2].funcs.push(func("m", &["x"], vec![read("other m")])); }
    diff(role(globals, fs, ents), Scn { log_yield: false, cap_events: 80, ..Default::default() }, cx)
}
/// the argument bound to an upvar parameter is the text of the chosen name
fn fix_ups(st: &mut Vec<Stmt>) {
    for x in st.iter_mut() {
        if let StmtKind::CallFn { args, upvars, .. } = &mut x.kind { for u in upvars.iter() { args.push(t(&u.name)); } }
    }
}

pub fn check(quick: bool) -> Check {
    let all: Vec<usize> = (0..OPS).collect();
    let a = all.clone();
    let core = vec![0, 2, 3, 4, 6, 8, 9, 14, 15, 18];
    let mut p = vec![
        phase("all operations, length 3", "every sequence of 3 of 22 scoping operations x global/field/local declared or not x script, custom block, ring", move |ch, cx| program(ch, cx, 3, &a)),
        phase("capture and upvars, length 4", "every sequence of 4 of the 10 capture operations in the same settings", move |ch, cx| program(ch, cx, 4, &core)),
    ];
    if !quick {
        let core = vec![0, 2, 3, 4, 6, 9, 15, 18];
        p.push(phase("all operations, length 4", "every sequence of 4 of 22 scoping operations in the same settings", move |ch, cx| program(ch, cx, 4, &all)));
        p.push(phase("capture and upvars, length 6", "every sequence of 6 of 8 capture operations", move |ch, cx| program(ch, cx, 6, &core)));
    }
    Check::new("E02", TRACES, p).assume("variable names and translated names coincide (default name transformer)")
}
