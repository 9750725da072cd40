//! E01: control flow and order of effects.
use super::common::*;
use super::tabs;

/// State of the program generator: fresh effect ids.
struct Gen<'a> { ch: &'a mut Chooser, id: f64, loops: usize }
impl<'a> Gen<'a> {
    fn id(&mut self) -> Expr { self.id += 1.0; n(self.id) }
    /// an effect that yields a truth value
    fn cnd(&mut self) -> Expr { let x = self.ch.of(&["T", "F"]); let i = self.id(); sys(x, vec![i]) }
    fn stmt(&mut self, d: usize) -> (Stmt, bool) {
        let k = if d == 0 { 5 } else { 13 };
        let pick = self.ch.choose(k);
        self.loops += 1;
        let lv = format!("i{}", self.loops);
        let st = match pick {
            0 => { let i = self.id(); rsys("eff", vec![i]) }
            1 => { let i = self.id(); ret(sys("echo", vec![i])) }
            2 => stop(StopMode::ThisBlock),
            3 => stop(StopMode::ThisScript),
            4 => { let i = self.id(); runf("f", vec![i]) }
            5 => { let c = self.cnd(); if_(c, self.body(d - 1)) }
            6 => { let c = self.cnd(); ifelse(c, self.body(d - 1), self.body(d - 1)) }
            7 => { let i = self.id(); repeat(sys("echo", vec![n(2.0), i]), self.body(d - 1)) }
            8 => { let mut b = self.body(d - 1); b.insert(0, chg(&lv, n(1.0))); until(ge(sys("echo", vec![v(&lv)]), n(2.0)), b) }
            9 => { let mut b = self.body(d - 1); b.push(if_(ge(v(&lv), n(2.0)), vec![ret(t("out"))])); b.push(chg(&lv, n(1.0))); forever(b) }
            10 => { let mut b = self.body(d - 1); b.insert(0, rsys("eff", vec![v("k")])); for_("k", sys("echo", vec![n(2.0)]), sys("echo", vec![n(1.0)]), b) }
            11 => { let mut b = self.body(d - 1); b.insert(0, rsys("eff", vec![v("j")])); foreach("j", sys("list", vec![]), b) }
            _ => { let b = self.body(d - 1); run(ring(&[], &[], b), vec![]) }
        };
        (st, (1..=3).contains(&pick))
    }
    /// statements; nothing is placed behind an unconditional exit
    fn body(&mut self, d: usize) -> Vec<Stmt> { let w = self.ch.choose(2) + 1; self.seq(d, w) }
    fn seq(&mut self, d: usize, w: usize) -> Vec<Stmt> {
        let mut b = vec![];
        for _ in 0..w { let (s, end) = self.stmt(d); b.push(s); if end { break; } }
        b
    }
}

fn structured(ch: &mut Chooser, cx: &Ctx, depth: usize, width: usize) -> Leaf {
    let place = ch.choose(3);
    let mut g = Gen { ch, id: 0.0, loops: 0 };
    let mut b = g.seq(depth, width);
    let vars: Vec<String> = (1..=g.loops).map(|i| format!("i{i}")).collect();
    let vars: Vec<&str> = vars.iter().map(|x| x.as_str()).collect();
    b.push(rsys("end", vec![]));
    let f = func("f", &["x"], vec![rsys("in f", vec![v("x")]), if_(gt(v("x"), n(3.0)), vec![ret(t("big"))]), repeat(n(1.0), vec![ret(t("small"))])]);
    let sc = Scn { log_yield: false, cap_events: 120, ..Default::default() };
    diff(match place {
        0 => prog(nums(&vars), vec![f], vec![on_flag(b)]),
        // the same statements inside a custom block whose result is used between other operands
        1 => prog(nums(&vars), vec![f, func("body", &[], b)], vec![on_flag(vec![rsys("result", vec![n(1.0), callf("body", vec![]), n(2.0)]), ret(t("done"))])]),
        // and inside a ring called in the middle of an expression inside a loop
        _ => prog(nums(&vars), vec![f], vec![on_flag(vec![repeat(n(2.0), vec![rsys("result", vec![cat(vec![t("<"), call(ring(&[], &[], b), vec![]), t(">")])])]), ret(t("done"))])]),
    }, sc, cx)
}

/// Every block with every operand computed by an effect: each operand once, in order.
fn operands(ch: &mut Chooser, cx: &Ctx, pairs: bool) -> Leaf {
    let xs = tabs::exprs();
    let ss = tabs::stmts();
    let wrap = |k: usize, x: Expr| callf("tag", vec![n(k as f64), x]);
    let k = ch.choose(xs.len() + ss.len());
    let args = if k < xs.len() { &xs[k].args } else { &ss[k - xs.len()].args };
    let mut a: Vec<Expr> = args.iter().enumerate().map(|(i, x)| wrap(i, x.clone())).collect();
    if pairs {
        // an operand that is itself another block with effects, in the middle of which the script is interrupted
        let at = ch.choose(a.len());
        let inner = ch.pick(&xs);
        let ia = inner.args.iter().enumerate().map(|(i, x)| wrap(10 + i, x.clone())).collect();
        let x = (inner.f)(ia);
        a[at] = callf("tag", vec![x, args[at].clone()]);
    }
    let st = if k < xs.len() { rsys("result", vec![t("pre"), (xs[k].f)(a), t("post")]) } else { (ss[k - xs.len()].f)(a) };
    let role = tabs::world(vec![], vec![], vec![on_flag(vec![set("y", t("before")), st, rsys("after", vec![v("x"), v("y"), v("fld")]), ret(v("y"))])]);
    let name = if k < xs.len() { xs[k].name } else { ss[k - xs.len()].name };
    diff_key(role, Scn { log_yield: true, cap_events: 120, ..Default::default() }, cx, if pairs { None } else { Some(format!("operands of {name}")) })
}

/// Lazy expressions over effects.
fn lazy(ch: &mut Chooser, cx: &Ctx, depth: usize) -> Leaf {
    fn x(ch: &mut Chooser, id: &mut f64, d: usize) -> Expr {
        match ch.choose(if d == 0 { 2 } else { 6 }) {
            k @ 0..=1 => { *id += 1.0; sys(["F", "T"][k], vec![n(*id)]) }
            2 => and(x(ch, id, d - 1), x(ch, id, d - 1)),
            3 => or(x(ch, id, d - 1), x(ch, id, d - 1)),
            4 => not(x(ch, id, d - 1)),
            _ => { let c = x(ch, id, d - 1); cond(c, x(ch, id, 0), x(ch, id, d - 1)) }
        }
    }
    let place = ch.choose(4);
    let mut id = 0.0;
    let c = x(ch, &mut id, depth);
    let b = match place {
        0 => vec![rsys("result", vec![t("a"), c, t("b")])],
        1 => vec![ifelse(c, vec![rsys("then", vec![])], vec![rsys("else", vec![])])],
        2 => vec![set("x", c), rsys("x", vec![v("x")])],
        _ => vec![ret(c)],
    };
    diff(prog(nums(&["x"]), vec![], vec![on_flag(b)]), Scn { log_yield: false, ..Default::default() }, cx)
}

/// Loop bounds are evaluated once; the loop variable and the bound variables may be changed by the body.
fn bounds(ch: &mut Chooser, cx: &Ctx) -> Leaf {
    let vals: Vec<Expr> = vec![n(-2.0), n(-1.0), n(0.0), n(0.5), n(1.0), n(1.5), n(2.0), n(2.5), n(3.0), t("2"), t(""), t("x"), bo(true), ml(vec![n(1.0), n(2.0)]), n(1e300), n(-1e300)];
    let kind = ch.choose(4);
    let a = ch.choose(vals.len());
    let z = if kind == 0 { ch.choose(vals.len()) } else { 0 };
    let body = match ch.choose(5) {
        0 => vec![rsys("i", vec![v("i")])],
        1 => vec![rsys("i", vec![v("i")]), chg("i", n(1.0))],
        2 => vec![rsys("i", vec![v("i")]), set("a", n(5.0)), set("z", n(-5.0))],
        3 => vec![rsys("i", vec![v("i")]), if_(ge(v("y"), n(2.0)), vec![ret(t("left"))]), chg("y", n(1.0))],
        _ => vec![push(v("l"), v("y")), rsys("i", vec![v("i")]), chg("y", n(1.0)), if_(gt(v("y"), n(6.0)), vec![stop(StopMode::ThisScript)])],
    };
    let mut b = vec![set("a", vals[a].clone()), set("z", vals[z].clone()), set("l", ml(vec![n(7.0), n(8.0)])), set("i", t("outer"))];
    b.push(match kind {
        0 => for_("i", v("a"), v("z"), body),
        1 => repeat(v("a"), body),
        2 => foreach("i", v("l"), body),
        _ => foreach("i", v("a"), body),
    });
    b.push(rsys("end", vec![v("i"), v("a"), v("z"), v("l")]));
    diff(prog(nums(&["a", "z", "l", "i", "y"]), vec![], vec![on_flag(b)]), Scn { log_yield: true, cap_events: 40, ..Default::default() }, cx)
}

/// What kind of value it is, for every kind of value and every kind asked for.
fn kinds(ch: &mut Chooser, cx: &Ctx) -> Leaf {
    use netsblox_vm::ast::ValueType as T;
    let vals: Vec<Expr> = vec![n(0.0), n(-2.5), t(""), t("5"), t("abc"), t("true"), bo(true), bo(false), ml(vec![]), ml(vec![n(1.0)]), ml(vec![ml(vec![])]), ring(&["a"], &[], vec![]), ringe(&[], &[], n(1.0)), this(), ent("Other"), e(ExprKind::Costume), e(ExprKind::CostumeList), get(e(ExprKind::SoundList), n(1.0)), answer(), message(), rpc_error(), clone_of(this()), neg(t("5")), cat(vec![n(5.0)]), sys("num", vec![]), v("x"), clock(netsblox_vm::ast::TimeQuery::Year)];
    let x = ch.pick(&vals).clone();
    let ty = ch.of(&[T::Number, T::Text, T::Bool, T::List, T::Sprite, T::Costume, T::Sound]);
    let q = |x: Expr| e(ExprKind::TypeQuery { value: bx(x), ty: ty.clone() });
    let b = match ch.choose(4) { 0 => vec![rsys("is", vec![q(x)])], 1 => vec![set("x", x), rsys("is", vec![t("<"), q(v("x")), t(">")])], 2 => vec![ifelse(q(x), vec![rsys("yes", vec![])], vec![rsys("no", vec![])])], _ => vec![rsys("is", vec![map(ringe(&["a"], &[], q(v("a"))), ml(vec![x.clone(), n(1.0), x]))])] };
    let mut r = tabs::world(vec![], vec![], vec![on_flag(b)]);
    r.entities[1].costumes = vec![init("c", Value::Image(Rc::new((vec![1, 2], None, "c".into()))))];
    r.entities[1].active_costume = if ch.flag() { Some(0) } else { None };
    r.entities[1].sounds = vec![init("s", Value::Audio(Rc::new((vec![3], "s".into()))))];
    diff(r, Scn { real: Some((0, 0)), cap_events: 40, ..Default::default() }, cx)
}
/// Blocks without operands, one after the other.
fn plain(ch: &mut Chooser, cx: &Ctx, len: usize) -> Leaf {
    let all = || vec![
        s(StmtKind::PenClear), s(StmtKind::ClearEffects), s(StmtKind::StopSounds), s(StmtKind::NextCostume), s(StmtKind::SetPenDown { value: true }), s(StmtKind::SetPenDown { value: false }),
        s(StmtKind::SetVisible { value: true }), s(StmtKind::SetVisible { value: false }), s(StmtKind::SetPenColor { color: (200, 30, 7, 255) }), s(StmtKind::ResetTimer), s(StmtKind::DeleteClone),
        s(StmtKind::CallRpc { host: None, service: "Svc".into(), rpc: "get".into(), args: vec![] }), s(StmtKind::UnknownBlock { name: "thing".into(), args: vec![] }), s(StmtKind::DeclareLocals { vars: vec![] }), s(StmtKind::Warp { stmts: vec![] }), s(StmtKind::If { condition: bx(bo(true)), then: vec![] }),
    ];
    let mut b = vec![];
    for i in 0..len { b.push(ch.pick(&all()).clone()); b.push(rsys("done", vec![n(i as f64)])); }
    let b = if ch.flag() { vec![try_(b, "err", vec![rsys("caught", vec![v("err")])])] } else { b };
    let plan = (0..len).map(|_| (ch.of(&[0, 1]), ch.pick(&[Ans::Default, Ans::Err("no".into()), Ans::PollErr("broken".into())]).clone())).collect();
    diff(tabs::world(nums(&["err"]), vec![], vec![on_flag(b), on_flag(vec![rsys("other", vec![])])]), Scn { plan, cap_events: 40, ..Default::default() }, cx)
}
/// A value of every kind in every place that wants a truth value, as a literal and computed.
fn conditions(ch: &mut Chooser, cx: &Ctx) -> Leaf {
    let vals: Vec<Expr> = vec![bo(true), bo(false), t("true"), t("false"), t("True"), t("TRUE"), t("yes"), t(""), t("0"), t("1"), n(0.0), n(1.0), n(-1.0), ml(vec![]), ml(vec![bo(true)]), ml(vec![bo(false), bo(true)]), ml(vec![t("true")]), ring(&[], &[], vec![ret(bo(true))]), v("unset")];
    let val = ch.pick(&vals).clone();
    let computed = ch.flag();
    let place = ch.choose(13);
    let handled = ch.flag();
    let c = || if computed { v("c") } else { val.clone() };
    let eff = |k: f64| sys("T", vec![n(k)]);
    let mut b = vec![set("c", val.clone())];
    let x = match place {
        0 => not(c()), 1 => and(c(), eff(1.0)), 2 => and(eff(1.0), c()), 3 => or(c(), eff(1.0)), 4 => or(sys("F", vec![n(1.0)]), c()),
        5 => cond(c(), eff(1.0), eff(2.0)), 6 => not(not(c())), 7 => and(c(), c()),
        _ => n(0.0),
    };
    let st = match place {
        0..=7 => vec![rsys("result", vec![x])],
        8 => vec![if_(c(), vec![rsys("then", vec![])])],
        9 => vec![ifelse(c(), vec![rsys("then", vec![])], vec![rsys("else", vec![])])],
        10 => vec![until(c(), vec![rsys("round", vec![]), set("c", bo(true)), chg("k", n(1.0)), if_(ge(v("k"), n(3.0)), vec![stop(StopMode::ThisScript)])])],
        11 => vec![wait_until(c())],
        _ => vec![if_(and(or(c(), sys("F", vec![n(1.0)])), not(c())), vec![rsys("then", vec![])])],
    };
    if handled { b.push(try_(st, "e", vec![rsys("caught", vec![v("e")])])); } else { b.extend(st); }
    b.push(rsys("end", vec![]));
    diff(prog(nums(&["c", "k", "unset"]), vec![], vec![on_flag(b)]), Scn { log_yield: true, cap_events: 40, ..Default::default() }, cx)
}

pub fn check(quick: bool) -> Check {
    let mut p = vec![
        phase("operands", "every expression and statement block of the table with every operand computed by a custom block with an effect", |ch, cx| operands(ch, cx, false)),
        phase("nested operands", "every block x operand position x every expression block inside it, all operands with effects", |ch, cx| operands(ch, cx, true)),
        phase("loop bounds", "4 loop kinds x 16 start values x 16 stop values (for) x 5 bodies that change loop variable, bounds or list, or leave the loop", bounds),
        phase("kinds", "27 values of every kind, 7 kinds asked for, 4 uses", kinds),
        phase("plain commands", "every pair of 16 blocks without operands, handled or not, and host answers to them", |ch, cx| plain(ch, cx, 2)),
        phase("conditions", "19 values of every kind, literal or computed, in 13 places that want a truth value, handled or not", conditions),
        phase("lazy operators 2", "every and/or/not/conditional tree of depth 2 over true/false effects, in 4 places", |ch, cx| lazy(ch, cx, 2)),
        phase("statements", "every sequence of up to 4 plain statements in a script, a custom block and a ring", |ch, cx| structured(ch, cx, 0, 4)),
        phase("nesting 1", "every sequence of 2 statements nested up to 1 deep, bodies of 1-2 statements, in a script, a custom block and a ring", |ch, cx| structured(ch, cx, 1, 2)),
    ];
    if !quick {
        p.push(phase("lazy operators 3", "every and/or/not/conditional tree of depth 3 over true/false effects, in 4 places", |ch, cx| lazy(ch, cx, 3)));
        p.push(phase("nesting 2", "every single statement nested up to 2 deep, bodies of 1-2 statements, in a script, a custom block and a ring", |ch, cx| structured(ch, cx, 2, 1)));
        p.push(phase("nesting 1 wide", "every sequence of 3 statements nested up to 1 deep", |ch, cx| structured(ch, cx, 1, 3)));
    }
    Check::new("E01", TRACES, p).assume("the reference interpreter (mc/src/refi.rs) states the documented block semantics").assume("effects are observed through system calls of the scripted host")
}
