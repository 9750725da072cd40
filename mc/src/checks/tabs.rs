//! Tables of all blocks with well-typed sample operands.
use super::common::*;
use netsblox_vm::ast::{EffectKind, PenAttribute, ValueType};

#[derive(Clone)]
pub struct XB { pub name: &'static str, pub args: Vec<Expr>, pub f: fn(Vec<Expr>) -> Expr }
#[derive(Clone)]
pub struct SB { pub name: &'static str, pub args: Vec<Expr>, pub f: fn(Vec<Expr>) -> Stmt }

pub fn l3() -> Expr { ml(vec![n(30.0), n(10.0), n(20.0)]) }
pub fn l22() -> Expr { ml(vec![ml(vec![n(1.0), n(2.0)]), ml(vec![n(3.0), n(4.0)])]) }
fn p1(mut v: Vec<Expr>) -> Expr { v.remove(0) }
macro_rules! take { ($v:ident $($a:ident)*) => { let mut it = $v.into_iter(); $(let $a = it.next().unwrap();)* let _ = it; } }
macro_rules! x1 { ($o:ident; $($f:ident $a:expr;)*) => { $( $o.push(XB { name: stringify!($f), args: vec![$a], f: |v| $f(p1(v)) }); )* } }
macro_rules! x2 { ($o:ident; $($f:ident $a:expr, $b:expr;)*) => { $( $o.push(XB { name: stringify!($f), args: vec![$a, $b], f: |v| { take!(v a b); $f(a, b) } }); )* } }

/// Every expression block with operands.
pub fn exprs() -> Vec<XB> {
    let mut o = vec![];
    x2!(o; sub n(7.0), n(2.0); div n(7.0), n(2.0); md n(7.0), n(4.0); pow n(3.0), n(2.0); log n(8.0), n(2.0); atan2 n(1.0), n(1.0);
        eq n(1.0), t("1"); neq t("a"), t("A"); lt n(1.0), n(2.0); le n(2.0), n(2.0); gt n(1.0), n(2.0); ge n(2.0), n(2.0); is t("a"), t("a");
        and bo(true), bo(true); or bo(false), bo(true); rnd n(1.0), n(6.0); range n(1.0), n(3.0);
        cons n(9.0), l3(); find l3(), n(10.0); contains l3(), n(10.0); get l3(), n(2.0); letter t("hello"), n(2.0);
        split_by t("a,b,c"), t(","); reshape l3(), ml(vec![n(2.0), n(2.0)]););
    x1!(o; not bo(true); neg n(3.0); abs n(-3.0); sqrt n(16.0); floor n(2.5); ceil n(2.5); round n(2.5); sin n(30.0); cos n(60.0); tan n(45.0);
        asin n(0.5); acos n(0.5); atan n(1.0); len l3(); rank l22(); dims l22(); flatten l22(); columns l22(); rev l3(); lines ml(vec![t("a"), t("b")]); csv l22();
        combos l22(); is_empty l3(); cdr l3(); last l3(); any l3(); copy l3(); lcat l22(); str_len t("hello"); uni n(65.0); code t("A"); letter_last t("hello"); letter_any t("hello");
        min l3(); max l3(); addl l3(); mull l3(); catl l3(););
    o.push(XB { name: "list", args: vec![n(1.0), t("x"), bo(true)], f: |v| ml(v) });
    o.push(XB { name: "sum", args: vec![n(1.0), n(2.0), n(3.0)], f: |v| addl(ml(v)) });
    o.push(XB { name: "product", args: vec![n(1.0), n(2.0), n(3.0)], f: |v| mull(ml(v)) });
    o.push(XB { name: "minimum", args: vec![n(3.0), n(2.0)], f: |v| min(ml(v)) });
    o.push(XB { name: "maximum", args: vec![n(3.0), n(2.0)], f: |v| max(ml(v)) });
    o.push(XB { name: "join", args: vec![t("a"), n(2.0), t("c")], f: |v| cat(v) });
    o.push(XB { name: "append", args: vec![l3(), l3()], f: |v| lcat(ml(v)) });
    o.push(XB { name: "combine lists", args: vec![l3(), l3()], f: |v| combos(ml(v)) });
    o.push(XB { name: "reshape to", args: vec![l3(), n(2.0), n(1.0)], f: |v| { take!(v a b c); reshape(a, ml(vec![b, c])) } });
    o.push(XB { name: "if then else", args: vec![bo(true), t("yes"), t("no")], f: |v| { take!(v a b c); cond(a, b, c) } });
    o.push(XB { name: "if not else", args: vec![bo(false), t("yes"), t("no")], f: |v| { take!(v a b c); cond(a, b, c) } });
    for (nm, m) in [("letters", |v| split(p1(v), TextSplitMode::Letter)), ("words", |v| split(p1(v), TextSplitMode::Word)), ("tabs", |v| split(p1(v), TextSplitMode::Tab)), ("crs", |v| split(p1(v), TextSplitMode::CR)), ("lfs", |v| split(p1(v), TextSplitMode::LF)), ("from csv", |v| split(p1(v), TextSplitMode::Csv))] as [(&'static str, fn(Vec<Expr>) -> Expr); 6] {
        o.push(XB { name: nm, args: vec![t("ab c")], f: m });
    }
    o.push(XB { name: "is a", args: vec![n(1.0)], f: |v| e(ExprKind::TypeQuery { value: bx(p1(v)), ty: ValueType::Number }) });
    o.push(XB { name: "custom block", args: vec![n(1.0), n(2.0)], f: |v| callf("two", v) });
    o.push(XB { name: "ring call", args: vec![ringe(&["a", "b"], &[], sub(v("a"), v("b"))), n(5.0), n(3.0)], f: |mut v| { let c = v.remove(0); call(c, v) } });
    o.push(XB { name: "ring call at", args: vec![ent("Other"), ringe(&["a"], &[], ml(vec![v("a"), v("fld")])), n(3.0)], f: |mut v| { let a = v.remove(0); let c = v.remove(0); ask_of(a, c, v) } });
    o.push(XB { name: "map", args: vec![ringe(&["a"], &[], neg(v("a"))), l3()], f: |v| { take!(v a b); map(a, b) } });
    o.push(XB { name: "keep", args: vec![ringe(&["a"], &[], gt(v("a"), n(15.0))), l3()], f: |v| { take!(v a b); keep(a, b) } });
    o.push(XB { name: "find first", args: vec![ringe(&["a"], &[], lt(v("a"), n(15.0))), l3()], f: |v| { take!(v a b); find_first(a, b) } });
    o.push(XB { name: "combine", args: vec![ringe(&["a", "b"], &[], sub(v("a"), v("b"))), l3()], f: |v| { take!(v a b); combine(a, b) } });
    o.push(XB { name: "syscall", args: vec![t("echo"), n(1.0), n(2.0)], f: |mut v| { let a = v.remove(0); e(ExprKind::UnknownBlock { name: "nativeCallSyscall".into(), args: vec![a, ml(v)] }) } });
    o.push(XB { name: "rpc", args: vec![n(1.0), n(2.0)], f: |v| { take!(v a b); rpc("get", vec![("x", a), ("y", b)]) } });
    o.push(XB { name: "host block", args: vec![n(1.0), n(2.0)], f: |v| blk("thing", v) });
    o.push(XB { name: "send and wait", args: vec![t("there"), n(1.0), n(2.0)], f: |v| { take!(v a b c); send_wait("net", vec![("p", b), ("q", c)], a) } });
    o
}
fn eff(k: fn() -> EffectKind, x: Expr) -> Stmt { s(StmtKind::SetEffect { kind: k(), value: bx(x) }) }
macro_rules! s1 { ($o:ident; $($nm:literal $a:expr, |$x:ident| $b:expr;)*) => { $( $o.push(SB { name: $nm, args: vec![$a], f: |v| { let $x = p1(v); $b } }); )* } }
/// Every (non-control) statement block with operands.
pub fn stmts() -> Vec<SB> {
    let mut o = vec![];
    s1!(o;
        "set" n(1.0), |x| set("x", x); "change" n(2.0), |x| chg("x", x); "set field" n(2.0), |x| set("fld", x);
        "say" t("hi"), |x| say(x); "think" t("hm"), |x| think(x); "wait" n(0.0), |x| wait(x); "ask" t("q"), |x| ask(x);
        "delete last" l3(), |x| del_last(x); "delete all" l3(), |x| del_all(x);
        "broadcast" t("nobody"), |x| bcast(x, false); "broadcast wait" t("nobody"), |x| bcast(x, true);
        "reply" t("r"), |x| reply(x); "send" t("there"), |x| send("net", vec![], x); "wait until" bo(true), |x| wait_until(x);
        "forward" n(5.0), |x| s(StmtKind::Forward { distance: bx(x) }); "set x" n(5.0), |x| s(StmtKind::SetX { value: bx(x) }); "change x" n(5.0), |x| s(StmtKind::ChangeX { delta: bx(x) });
        "set y" n(5.0), |x| s(StmtKind::SetY { value: bx(x) }); "change y" n(5.0), |x| s(StmtKind::ChangeY { delta: bx(x) });
        "heading" n(50.0), |x| s(StmtKind::SetHeading { value: bx(x) }); "right" n(15.0), |x| s(StmtKind::TurnRight { angle: bx(x) }); "left" n(15.0), |x| s(StmtKind::TurnLeft { angle: bx(x) });
        "size" n(50.0), |x| s(StmtKind::SetSize { value: bx(x) }); "change size" n(5.0), |x| s(StmtKind::ChangeSize { delta: bx(x) });
        "pen size" n(5.0), |x| s(StmtKind::SetPenSize { value: bx(x) }); "change pen size" n(5.0), |x| s(StmtKind::ChangePenSize { delta: bx(x) });
        "effect" n(5.0), |x| eff(|| EffectKind::Ghost, x); "change effect" n(5.0), |x| s(StmtKind::ChangeEffect { kind: EffectKind::Whirl, delta: bx(x) });
        "pen hue" n(5.0), |x| s(StmtKind::SetPenAttr { attr: PenAttribute::Hue, value: bx(x) }); "change pen hue" n(5.0), |x| s(StmtKind::ChangePenAttr { attr: PenAttribute::Hue, delta: bx(x) });
        "goto" ml(vec![n(1.0), n(2.0)]), |x| s(StmtKind::Goto { target: bx(x) }); "point towards" ml(vec![n(1.0), n(2.0)]), |x| s(StmtKind::PointTowards { target: bx(x) });
        "costume" t(""), |x| s(StmtKind::SetCostume { costume: bx(x) }); "sound" t(""), |x| s(StmtKind::PlaySound { sound: bx(x), blocking: true });
        "run ring" ring(&[], &[], vec![rsys("inside", vec![])]), |x| run(x, vec![]); "throw in try" t("boom"), |x| try_(vec![throw(x)], "err", vec![rsys("caught", vec![v("err")])]););
    o.push(SB { name: "insert", args: vec![l3(), n(2.0), n(7.0)], f: |v| { take!(v a b c); insert(a, b, c) } });
    o.push(SB { name: "push", args: vec![l3(), n(7.0)], f: |v| { take!(v a b); push(a, b) } });
    o.push(SB { name: "insert any", args: vec![l3(), n(7.0)], f: |v| { take!(v a b); insert_any(a, b) } });
    o.push(SB { name: "delete", args: vec![l3(), n(2.0)], f: |v| { take!(v a b); del(a, b) } });
    o.push(SB { name: "put", args: vec![l3(), n(2.0), n(7.0)], f: |v| { take!(v a b c); put(a, b, c) } });
    o.push(SB { name: "put last", args: vec![l3(), n(7.0)], f: |v| { take!(v a b); put_last(a, b) } });
    o.push(SB { name: "put any", args: vec![l3(), n(7.0)], f: |v| { take!(v a b); put_any(a, b) } });
    o.push(SB { name: "say for", args: vec![t("hi"), n(0.0)], f: |v| { take!(v a b); say_for(a, b) } });
    o.push(SB { name: "goto xy", args: vec![n(3.0), n(7.0)], f: |v| { take!(v a b); s(StmtKind::GotoXY { x: bx(a), y: bx(b) }) } });
    o.push(SB { name: "point xy", args: vec![n(3.0), n(7.0)], f: |v| { take!(v a b); s(StmtKind::PointTowardsXY { x: bx(a), y: bx(b) }) } });
    o.push(SB { name: "run custom", args: vec![n(1.0), n(2.0)], f: |v| runf("two", v) });
    o.push(SB { name: "run with", args: vec![ring(&["a", "b"], &[], vec![rsys("in", vec![v("a"), v("b")])]), n(5.0), n(3.0)], f: |mut v| { let c = v.remove(0); run(c, v) } });
    o.push(SB { name: "tell", args: vec![ent("Other"), ring(&["a"], &[], vec![rsys("in", vec![v("a"), v("fld")])]), n(5.0)], f: |mut v| { let a = v.remove(0); let c = v.remove(0); tell(a, c, v) } });
    o.push(SB { name: "launch", args: vec![ring(&["a"], &[], vec![rsys("launched", vec![v("a")])]), n(5.0)], f: |mut v| { let c = v.remove(0); launch(c, v) } });
    o.push(SB { name: "broadcast to", args: vec![t("nobody"), ent("Other")], f: |v| { take!(v a b); bcast_to(a, b, false) } });
    o.push(SB { name: "send values", args: vec![t("there"), n(1.0), n(2.0)], f: |v| { take!(v a b c); send("net", vec![("p", b), ("q", c)], a) } });
    o.push(SB { name: "run syscall", args: vec![t("run"), n(1.0), n(2.0)], f: |mut v| { let a = v.remove(0); s(StmtKind::UnknownBlock { name: "nativeRunSyscall".into(), args: vec![a, ml(v)] }) } });
    o.push(SB { name: "run rpc", args: vec![n(1.0), n(2.0)], f: |v| { take!(v a b); rrpc("get", vec![("x", a), ("y", b)]) } });
    o.push(SB { name: "run host block", args: vec![n(1.0), n(2.0)], f: |v| rblk("thing", v) });
    o.push(SB { name: "repeat", args: vec![n(2.0)], f: |v| repeat(p1(v), vec![rsys("body", vec![])]) });
    o.push(SB { name: "for", args: vec![n(1.0), n(3.0)], f: |v_| { let mut it = v_.into_iter(); for_("i", it.next().unwrap(), it.next().unwrap(), vec![rsys("body", vec![v("i")])]) } });
    o.push(SB { name: "for each", args: vec![l3()], f: |v_| foreach("i", p1(v_), vec![rsys("body", vec![v("i")])]) });
    o.push(SB { name: "until", args: vec![bo(true)], f: |v_| until(p1(v_), vec![rsys("body", vec![])]) });
    o.push(SB { name: "if", args: vec![bo(true)], f: |v_| if_(p1(v_), vec![rsys("body", vec![])]) });
    o.push(SB { name: "if else", args: vec![bo(false)], f: |v_| ifelse(p1(v_), vec![rsys("body", vec![])], vec![rsys("other", vec![])]) });
    o
}
/// custom blocks the table relies on, and "tag": logs its first argument and reports the second
pub fn funcs() -> Vec<netsblox_vm::ast::Function> {
    vec![
        func("two", &["a", "b"], vec![rsys("two", vec![v("a"), v("b")]), ret(sub(v("a"), v("b")))]),
        func("tag", &["k", "val"], vec![rsys("tag", vec![v("k")]), ret(v("val"))]),
    ]
}
/// Stage, Sprite (with the scripts) and Other; both have a field "fld".
pub fn world(mut globals: Vec<VariableDefInit>, mut fs: Vec<netsblox_vm::ast::Function>, scripts: Vec<Script>) -> Role {
    globals.extend(nums(&["x", "y"]));
    fs.extend(funcs());
    role(globals, fs, vec![
        entity("Stage", vec![], vec![], vec![]),
        entity("Sprite", vec![init("fld", Value::String("sprite".into()))], vec![], scripts),
        entity("Other", vec![init("fld", Value::String("other".into()))], vec![], vec![]),
    ])
}
