//! E08: the meaning of a program does not depend on its size, layout or literals.
use super::common::*;
use super::tabs;
use crate::vm;

/// programs that jump, call and handle errors in every way; `pad` is never executed
fn bases() -> Vec<fn(&[Stmt]) -> Vec<Stmt>> {
    fn eff(k: f64) -> Stmt { rsys("e", vec![n(k)]) }
    fn dead(p: &[Stmt]) -> Stmt { if_(bo(false), p.to_vec()) }
    vec![
        |p| vec![eff(1.0), dead(p), eff(2.0)],
        |p| vec![ifelse(bo(true), vec![eff(1.0)], p.to_vec()), eff(2.0)],
        |p| vec![ifelse(bo(false), p.to_vec(), vec![eff(1.0)]), eff(2.0)],
        |p| vec![repeat(n(2.0), vec![eff(1.0), dead(p), eff(2.0)]), eff(3.0)],
        |p| vec![repeat(n(0.0), p.to_vec()), eff(3.0)],
        |p| vec![for_("i", n(1.0), n(2.0), vec![rsys("i", vec![v("i")]), dead(p)]), eff(3.0)],
        |p| vec![for_("i", n(2.0), n(1.0), vec![dead(p), rsys("i", vec![v("i")])]), eff(3.0)],
        |p| vec![foreach("i", ml(vec![n(1.0), t("b")]), vec![rsys("i", vec![v("i")]), dead(p)]), eff(3.0)],
        |p| vec![foreach("i", ml(vec![]), p.to_vec()), eff(3.0)],
        |p| vec![until(ge(v("x"), n(2.0)), vec![chg("x", n(1.0)), dead(p), eff(1.0)]), eff(3.0)],
        |p| vec![forever(vec![chg("x", n(1.0)), dead(p), if_(gt(v("x"), n(2.0)), vec![ret(v("x"))])])],
        |p| vec![try_(vec![eff(1.0), dead(p), throw(t("a"))], "err", vec![rsys("c", vec![v("err")])]), eff(3.0)],
        |p| vec![try_(vec![eff(1.0)], "err", p.to_vec()), eff(3.0)],
        |p| vec![run(ring(&["q"], &[], vec![dead(p), rsys("q", vec![v("q")])]), vec![n(1.0)]), rsys("r", vec![call(ringe(&[], &[], n(7.0)), vec![])])],
        |p| vec![rsys("m", vec![map(ring(&["q"], &[], vec![dead(p), ret(neg(v("q")))]), ml(vec![n(1.0), n(2.0)]))]), rsys("k", vec![keep(ringe(&["q"], &[], gt(v("q"), n(1.0))), ml(vec![n(1.0), n(2.0)]))])],
        |p| vec![dead(p), rsys("f", vec![find_first(ringe(&["q"], &[], gt(v("q"), n(1.0))), ml(vec![n(1.0), n(2.0)])), combine(ringe(&["q", "p"], &[], sub(v("q"), v("p"))), ml(vec![n(1.0), n(2.0), n(3.0)]))])],
        |p| vec![rsys("l", vec![and(bo(true), or(bo(false), bo(true))), cond(bo(true), n(1.0), n(2.0)), cond(bo(false), n(1.0), n(2.0)), and(bo(false), v("nope")), or(bo(true), v("nope"))]), dead(p), eff(3.0)],
        |p| vec![rsys("two", vec![callf("two", vec![n(5.0), n(3.0)])]), dead(p), runf("two", vec![n(6.0), n(3.0)])],
        |p| vec![launch(ring(&["q"], &[], vec![dead(p), rsys("q", vec![v("q")])]), vec![n(1.0)]), wait0(), eff(2.0)],
        |p| vec![warp(vec![repeat(n(2.0), vec![dead(p), eff(1.0)])]), repeat(n(1.0), vec![eff(2.0)])],
        |p| vec![wait_until(bo(true)), dead(p), bcast(t("m"), true), eff(2.0)],
        |p| { let mut b = vec![eff(1.0), stop(StopMode::ThisScript)]; b.extend(p.to_vec()); b.push(eff(2.0)); b },
    ]
}
fn padded(ch: &mut Chooser, cx: &Ctx, from: usize, to: usize, places: usize) -> Leaf {
    let b = bases();
    let base = b[ch.choose(b.len())];
    let place = ch.choose(places);
    let k = from + ch.choose(to - from);
    let pad: Vec<Stmt> = (0..k).map(|_| pause()).collect();
    let small = [pause()];
    let (mut fs, mut ex) = (vec![], vec![]);
    let body = match place {
        0 => base(&pad),
        1 => { fs.push(func("dead", &[], pad)); base(&small) }
        2 => { ex.push(on_msg("never", pad)); base(&small) }
        _ => { let mut b = vec![set("x", ring(&[], &[], pad)), set("x", n(0.0))]; b.extend(base(&small)); b }
    };
    let mut sc = vec![on_flag(body), on_msg("m", vec![rsys("got m", vec![])])];
    if k % 2 == 0 { ex.extend(sc); sc = ex; } else { sc.extend(ex); }
    let mut w = tabs::world(nums(&["err", "i"]), vec![], sc);
    fs.extend(std::mem::take(&mut w.funcs));
    w.funcs = fs;
    diff(w, Scn::default(), cx)
}
/// programs grown by statements of every kind (of every encoded length) before, after and between
fn mixed(ch: &mut Chooser, cx: &Ctx) -> Leaf {
    let all = tabs::stmts();
    let sb = ch.pick(&all);
    let unit = (sb.f)(sb.args.clone());
    let k = 1 + ch.choose(40);
    let b = bases();
    let base = b[ch.choose(b.len())];
    let pad: Vec<Stmt> = (0..k).map(|_| unit.clone()).collect();
    diff(tabs::world(nums(&["err", "i"]), vec![], vec![on_flag(base(&pad)), on_msg("m", vec![rsys("got m", vec![])])]), Scn::default(), cx)
}
/// dead blocks and scripts in every order
fn order(ch: &mut Chooser, cx: &Ctx) -> Leaf {
    let mut rest: Vec<netsblox_vm::ast::Function> = vec![
        func("a", &["x"], vec![rsys("a", vec![v("x")]), ret(add(callf("b", vec![]), v("x")))]), func("b", &[], vec![ret(n(3.0))]),
        func("dead", &["x"], vec![forever(vec![rsys("dead", vec![callf("a", vec![n(0.0)])])])]), func("rec", &["k"], vec![if_(gt(v("k"), n(0.0)), vec![rsys("rec", vec![v("k")]), runf("rec", vec![sub(v("k"), n(1.0))])])]),
    ];
    let mut fs = vec![];
    while !rest.is_empty() { let i = ch.choose(rest.len()); fs.push(rest.remove(i)); }
    let drop_dead = ch.flag();
    if drop_dead { fs.retain(|f| f.name != "dead"); }
    // a sprite's own block of the same name wins there
    let mut own = vec![func("own", &["x"], vec![ret(ml(vec![t("own"), v("x")]))])];
    if ch.flag() { own.insert(ch.choose(2), func("b", &[], vec![ret(n(50.0))])); }
    let mut sc = vec![on_flag(vec![rsys("r", vec![callf("a", vec![n(2.0)]), callf("b", vec![]), callf("own", vec![n(1.0)])]), runf("rec", vec![n(2.0)])])];
    for _ in 0..ch.choose(3) { let d = on_msg("nobody", vec![rsys("no", vec![callf("own", vec![n(1.0)])])]); let at = ch.choose(sc.len() + 1); sc.insert(at, d); }
    let ents = vec![entity("Stage", vec![], vec![], vec![on_flag(vec![rsys("stage", vec![callf("b", vec![])])])]), entity("Sprite", vec![], own, sc), entity("Other", vec![], vec![func("b", &[], vec![ret(t("other's"))])], vec![on_flag(vec![rsys("o", vec![callf("b", vec![]), callf("a", vec![n(1.0)])])])])];
    diff(role(nums(&["x"]), fs, ents), Scn::default(), cx)
}
pub fn nasty() -> Vec<String> {
    let mut o: Vec<String> = ["", " ", "a", "A", "ab", "abc", "b", "bc", "\n", "\t", "\"", "\\", "\\0", "'", "{}", "{:?}", "%s", "é", "e\u{301}", "日本", "🎉", "\u{1}", "\u{7f}", "\u{feff}", "\u{2028}", "<x>", "&amp;", "a b", "a,b", "0", "1", "-1", "+1", "-0", "00", "007", "1.0", "1e3", "63", "64", "-64", "-65", "127", "128", "-128", "-129", "255", "256", "8191", "8192", "-8192", "-8193", "16383", "16384", "32767", "65535", "65536", "1048575", "1048576", "2097151", "2097152", "2147483647", "2147483648", "-2147483648", "-2147483649", "99999999999", "0x10", "0X1F", "0b1", " 1", "1 ", "true", "false", "NaN", "inf", "nativeCallSyscall", "self", "undefined", "[...]", "any key", "٣"].iter().map(|x| x.to_string()).collect();
    for k in [62, 63, 64, 65, 126, 127, 128, 129, 200, 255, 256, 300, 16383, 16384, 16385] { o.push("x".repeat(k)); o.push("日".repeat(k / 3) + &"y".repeat(k % 3)); }
    o
}
/// every text in every place texts occur
fn texts(ch: &mut Chooser, cx: &Ctx) -> Leaf {
    let all = nasty();
    let s = ch.of(&all);
    let q = s.as_str();
    let mut gl = nums(&["err", "i"]);
    let mut fs = vec![];
    let place = ch.choose(16);
    let mut ex = vec![];
    let mut scn = Scn::default();
    let b = match place {
        0 => vec![rsys("lit", vec![t(q), eq(t(q), t(q)), str_len(t(q))])],
        1 => vec![decl(&[q]), set(q, n(5.0)), chg(q, n(1.0)), rsys("var", vec![v(q)])],
        2 => { gl.push(init(q, Value::String(s.clone().as_str().into()))); vec![rsys("global", vec![v(q)])] }
        3 => { fs.push(func("p", &["first", q, "last"], vec![rsys("p", vec![v("first"), v(q), v("last")])])); vec![runf("p", vec![n(1.0), n(2.0), n(3.0)])] }
        4 => { fs.push(func(q, &["a"], vec![ret(v("a"))])); vec![rsys("fn", vec![callf(q, vec![n(4.0)])])] }
        5 => vec![decl(&["l"]), set("l", t("lv")), run(ring(&["pre", q], &["l"], vec![rsys("ring", vec![v("pre"), v(q), v("l")])]), vec![n(1.0), n(2.0)])],
        6 => vec![decl(&[q, "other"]), set(q, n(9.0)), set("other", n(8.0)), run(ring(&["z"], &["other", q], vec![rsys("cap", vec![v("z"), v("other"), v(q)]), chg(q, n(1.0))]), vec![n(1.0)]), rsys("after", vec![v(q)])],
        7 => { ex.push(on_msg(q, vec![rsys("got", vec![message()])])); ex.push(on_any_msg(vec![rsys("any", vec![message()])])); vec![bcast(t(q), true), rsys("sent", vec![])] }
        8 => { ex.push(on_net(q, &["a", "b"], vec![rsys("net", vec![v("a"), v("b")])])); scn.msgs.push((1, Msg { ty: s.clone(), values: vec![("a".into(), SimpleValue::Text(q.into())), ("b".into(), SimpleValue::Bool(true))], reply: None })); vec![send(q, vec![("f", t(q))], t(q))] }
        9 => { ex.push(on_net("ty", &["a", q], vec![rsys("net", vec![v("a"), v(q)])])); scn.msgs.push((1, Msg { ty: "ty".into(), values: vec![(s.clone(), SimpleValue::Text("val".into())), ("a ".into(), SimpleValue::Bool(true))], reply: None })); vec![send("ty", vec![("f", n(1.0)), (q, n(2.0))], ml(vec![t("x"), t(q)]))] }
        10 => vec![rsys("rpc", vec![e(ExprKind::CallRpc { host: None, service: s.clone().as_str().into(), rpc: s.clone().as_str().into(), args: vec![("a".into(), n(1.0)), (s.as_str().into(), n(2.0))] })])],
        11 => vec![rsys(q, vec![n(1.0)]), rsys("r", vec![sys(q, vec![n(2.0)])])],
        12 => { if q.starts_with("native") { return Leaf::skip(); } vec![rblk(q, vec![n(1.0)]), rsys("b", vec![blk(q, vec![n(2.0)])])] }
        13 => { ex.push(on_custom(q, &["f", q], vec![rsys("ev", vec![v("f"), v(q)])])); scn.inputs.push((2, In::Custom { name: s.clone(), args: vec![("f".into(), SimpleValue::Bool(true)), (s.clone(), SimpleValue::Text("arg".into()))], interrupt: false, max_queue: 0 })); vec![rsys("go", vec![])] }
        14 => vec![try_(vec![throw(t(q))], q, vec![rsys("caught", vec![v(q)])]), for_(q, n(1.0), n(2.0), vec![rsys("for", vec![v(q)])]), foreach(q, ml(vec![t(q)]), vec![rsys("each", vec![v(q)])])],
        _ => { fs.push(funcu("up", &["pre"], &[q], vec![chg(q, n(1.0))])); vec![decl(&["mine"]), set("mine", n(3.0)), s_upvar("up", &["mine"]), rsys("up", vec![v("mine")])] }
    };
    if place == 13 && q == "f" || place == 3 && (q == "first" || q == "last") { return Leaf::skip(); }
    let mut sc = vec![on_flag(b)];
    sc.extend(ex);
    let mut r = prog(gl, fs, sc);
    r.entities[1].fields.push(init("fld", Value::String(s.as_str().into())));
    diff(r, scn, cx)
}
fn s_upvar(f: &str, ups: &[&str]) -> Stmt { s(StmtKind::CallFn { function: fref(f), args: vec![n(0.0)], upvars: ups.iter().map(|x| vref(x)).collect() }) }
/// texts sharing storage with one another: every sequence of three over a small alphabet
fn pool(ch: &mut Chooser, cx: &Ctx, len: usize) -> Leaf {
    let mut all = vec![String::new()];
    let mut last = all.clone();
    for _ in 0..3 { let mut nx = vec![]; for x in &last { for c in ["a", "b", "é"] { nx.push(format!("{x}{c}")); } } all.extend(nx.clone()); last = nx; }
    let xs: Vec<String> = (0..len).map(|_| ch.of(&all)).collect();
    diff(prog(nums(&["x"]), vec![], vec![on_flag(vec![rsys("r", xs.iter().map(|x| t(x)).collect()), rsys("ab", vec![t("ab"), t("ba")])])]), Scn::default(), cx)
}
fn numbers() -> Vec<f64> {
    let mut o = vec![0.0, -0.0, 0.1, 0.5, -0.5, 1.5, 1e-7, 1e21, 1e300, -1e300, f64::MAX, f64::MIN, f64::MIN_POSITIVE, 5e-324, std::f64::consts::PI, 1.0 / 3.0];
    for k in 0..63 { let x = (1u64 << k) as f64; for d in [-1.0, 0.0, 1.0, 0.5] { o.push(x + d); o.push(-x - d); } }
    for k in 1..20 { o.push(10f64.powi(k)); o.push(-(10f64.powi(k))); o.push(10f64.powi(-k)); }
    o
}
fn nums_lit(ch: &mut Chooser, cx: &Ctx) -> Leaf {
    let all = numbers();
    let (a, neg_, place) = (ch.of(&all), ch.flag(), ch.choose(4));
    let a = if neg_ { -a } else { a };
    let mut r = prog(nums(&["x"]), vec![], vec![on_flag(match place {
        0 => vec![rsys("n", vec![n(a), n(1.0), n(a)])],
        1 => vec![set("x", n(a)), rsys("n", vec![v("x"), neg(n(a))])],
        2 => vec![rsys("n", vec![v("g"), v("l")])],
        _ => vec![ret(n(a))],
    })]);
    r.globals.push(init("g", Value::Number(a)));
    r.globals.push(init("l", Value::List(vec![Value::Number(a), Value::List(vec![Value::Number(a)], None)], None)));
    diff(r, Scn::default(), cx)
}
/// lists, calls, parameters and fields in every number
fn counts(ch: &mut Chooser, cx: &Ctx, max: usize) -> Leaf {
    let kind = ch.choose(13);
    let k = ch.choose(max);
    if kind >= 6 && k > 300 { return Leaf::skip(); }
    let es: Vec<Expr> = (0..k).map(|i| n(i as f64)).collect();
    let names: Vec<String> = (0..k).map(|i| format!("p{i}")).collect();
    let nr: Vec<&str> = names.iter().map(|x| x.as_str()).collect();
    let vs: Vec<Expr> = nr.iter().map(|x| v(x)).collect();
    let pairs: Vec<(&str, Expr)> = nr.iter().copied().zip(es.clone()).collect();
    let mut fs = vec![];
    let mut ex = vec![];
    let mut scn = Scn::default();
    let b = match kind {
        0 => vec![rsys("l", vec![ml(es)])],
        1 => vec![rsys("l", es)],
        2 => vec![rsys("sum", vec![addl(ml(es))])],
        3 => vec![rsys("cat", vec![cat(es)])],
        4 => vec![rsys("app", vec![lcat(ml(es.into_iter().map(|x| ml(vec![x])).collect()))])],
        5 => { let mut q = es; q.push(n(-1.0)); vec![rsys("max", vec![max_(ml(q.clone())), min(ml(q))])] }
        6 => { fs.push(func("f", &nr, vec![rsys("f", vs)])); vec![runf("f", es)] }
        7 => vec![run(ring(&nr, &[], vec![rsys("r", vs)]), es)],
        8 => { let mut b = vec![decl(&nr)]; for x in &nr { b.push(set(x, t(x))); } b.push(run(ring(&[], &nr, vec![rsys("c", vs)]), vec![])); b }
        9 => vec![rsys("rpc", vec![rpc("r", pairs)])],
        10 => vec![send("m", pairs, t("x")), rsys("blk", vec![blk("b", es)])],
        11 => { ex.push(on_net("ty", &nr, vec![rsys("net", vs)])); scn.msgs.push((1, Msg { ty: "ty".into(), values: names.iter().map(|x| (x.clone(), SimpleValue::Text(x.as_str().into()))).collect(), reply: None })); vec![rsys("go", vec![])] }
        _ => { ex.push(on_custom("ev", &nr, vec![rsys("ev", vs)])); scn.inputs.push((2, In::Custom { name: "ev".into(), args: names.iter().map(|x| (x.clone(), SimpleValue::Text(x.as_str().into()))).collect(), interrupt: false, max_queue: 0 })); vec![rsys("go", vec![])] }
    };
    let mut sc = vec![on_flag(b)];
    sc.extend(ex);
    diff(prog(nums(&["x"]), fs, sc), scn, cx)
}
fn max_(x: Expr) -> Expr { crate::b::max(x) }

/// the dump is one contiguous instruction stream and every address in it is the start of an instruction
fn dump_of(role: &Role) -> Leaf {
    let (code, _, _) = match vm::compile(role) { Ok(x) => x, Err(e) => return Leaf::fail("compile", e) };
    let (again, _, _) = vm::compile(role).unwrap();
    let (mut a, mut b, mut d) = (vec![], vec![], vec![]);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| code.dump_code(&mut a)));
    let key = format!("dump {:016x}", h64(&format!("{role:?}")));
    if r.is_err() { return Leaf::fail(key, format!("{}the dump panicked: {}", show(role), panic_text(&0))); }
    again.dump_code(&mut b).unwrap();
    code.dump_data(&mut d).unwrap();
    let text = String::from_utf8_lossy(&a).into_owned();
    let bad = |why: String| Leaf::fail(key.clone(), format!("{}{why}\n{text}", show(role)));
    if a != b { return bad("compiling twice gives different code".into()); }
    let (mut starts, mut targets, mut pos, mut states) = (vec![], vec![], 0usize, vec![]);
    for line in text.lines() {
        let off = line[..8].trim();
        let hex: Vec<&str> = line[11..11 + 30.min(line.len() - 11)].split_whitespace().collect();
        if !off.is_empty() {
            if off.parse::<usize>() != Ok(pos) { return bad(format!("offset {off} where {pos} was expected")); }
            starts.push(pos);
            let ins = &line[11 + 30..];
            for key in ["to: ", "pos: ", "goto: "] {
                if let Some(i) = ins.find(key) { if i == 0 || !ins.as_bytes()[i - 1].is_ascii_alphanumeric() { let x: String = ins[i + key.len()..].chars().take_while(|c| c.is_ascii_digit()).collect(); if let Ok(x) = x.parse::<usize>() { targets.push(x); } } }
            }
            states.push(h64(ins));
        }
        pos += hex.len();
    }
    let data: usize = String::from_utf8_lossy(&d).lines().map(|l| l[11..11 + 30].split_whitespace().count()).sum();
    if pos + data != code.total_size() { return bad(format!("the dumps show {pos} + {data} bytes of {}", code.total_size())); }
    for x in &targets { if starts.binary_search(x).is_err() { return bad(format!("{x} is not the start of an instruction")); } }
    Leaf::ok(states, starts.len() as u64)
}
fn dumps(ch: &mut Chooser, _: &Ctx) -> Leaf {
    let (xs, ss, bs) = (tabs::exprs(), tabs::stmts(), bases());
    let i = ch.choose(xs.len() + ss.len() + bs.len());
    let k = ch.choose(140);
    let pad: Vec<Stmt> = (0..k).map(|_| pause()).collect();
    let body = if i < xs.len() { vec![if_(bo(false), pad), rsys("x", vec![(xs[i].f)(xs[i].args.clone())])] } else if i < xs.len() + ss.len() { let q = &ss[i - xs.len()]; vec![if_(bo(false), pad), (q.f)(q.args.clone())] } else { bs[i - xs.len() - ss.len()](&pad) };
    dump_of(&tabs::world(nums(&["err", "i"]), vec![], vec![on_flag(body)]))
}
pub fn check(quick: bool) -> Check {
    let mut p = vec![
        phase("code size around 128", "22 programs x 4 places x every size of unexecuted code from 0 to 159 bytes", |ch, cx| padded(ch, cx, 0, 160, 4)),
        phase("unexecuted code of every kind", "22 programs x every statement block x 1..40 copies", mixed),
        phase("code size around 16384", "22 programs x 2 places x every size of unexecuted code from 16200 to 16399 bytes", |ch, cx| padded(ch, cx, 16200, 16400, 2)),
        phase("order", "every order of 4 custom blocks, presence of dead code, shadowing sprite blocks, dead scripts in every place", order),
        phase("texts", "108 texts (control, multi-byte, numeric spellings at encoding boundaries, lengths to 16385) in each of 16 places", texts),
        phase("shared storage", "every sequence of three texts of length 0..3 over {a,b,é}", |ch, cx| pool(ch, cx, 3)),
        phase("numbers", "all powers of two and ten, neighbours and halves, both signs, in 4 places", nums_lit),
        phase("counts", "0..300 items, operands, parameters, captures, arguments and fields (0..400 for lists)", |ch, cx| counts(ch, cx, 400)),
        phase("dump", "every block and base program after 0..139 bytes of unexecuted code: the dump is contiguous, complete, deterministic and every address is an instruction start", dumps),
    ];
    if !quick {
        p.push(phase("code size around 16384, all places", "22 programs x 4 places x every size from 15900 to 16420 bytes", |ch, cx| padded(ch, cx, 15900, 16420, 4)));
        p.push(phase("code size around 2097152", "22 programs x 2 places x every size of unexecuted code from 2097000 to 2097160 bytes", |ch, cx| padded(ch, cx, 2097000, 2097160, 2)));
        p.push(phase("counts to 17000", "lists and operands of 0..16999 items", |ch, cx| counts(ch, cx, 17000)));
    }
    Check::new("E08", TRACES, p)
}
