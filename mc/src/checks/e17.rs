//! E17: what cannot be run is refused when the project is loaded.
use super::common::*;
use super::tabs;
use netsblox_vm::ast::{ClosureKind, Hat, HatKind, RefId, ValueType};
use netsblox_vm::bytecode::ByteCode;
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone)]
enum Bad { S(Stmt), X(Expr), H(HatKind) }
fn x(k: ExprKind) -> Bad { Bad::X(at(e(k), "bad_7")) }
fn st(k: StmtKind) -> Bad { let mut b = s(k); b.info.location = Some("bad_7".into()); Bad::S(b) }
/// blocks the VM has no support for
fn unsupported() -> Vec<Bad> {
    let me = || bx(this());
    vec![
        st(StmtKind::GotoMouse), st(StmtKind::GotoRandom), st(StmtKind::SetHeadingRandom), st(StmtKind::BounceOffEdge), st(StmtKind::Stamp), st(StmtKind::Write { content: bx(t("hi")), font_size: bx(n(12.0)) }), st(StmtKind::Stop { mode: StopMode::AllScenes }),
        x(ExprKind::Sign { value: bx(n(3.0)) }), x(ExprKind::StageWidth), x(ExprKind::StageHeight), x(ExprKind::MouseX), x(ExprKind::MouseY), x(ExprKind::Latitude), x(ExprKind::Longitude), x(ExprKind::KeyDown { key: bx(t("a")) }),
        x(ExprKind::ImageOfEntity { entity: me() }), x(ExprKind::ImageOfDrawings), x(ExprKind::IsTouchingEntity { entity: me() }), x(ExprKind::IsTouchingMouse), x(ExprKind::IsTouchingEdge), x(ExprKind::IsTouchingDrawings),
        x(ExprKind::CostumeWidth { costume: bx(t("")) }), x(ExprKind::CostumeHeight { costume: bx(t("")) }), x(ExprKind::CostumePixels { costume: bx(t("")) }),
        x(ExprKind::SoundDuration { sound: bx(t("")) }), x(ExprKind::SoundSampleRate { sound: bx(t("")) }), x(ExprKind::SoundSamples { sound: bx(t("")) }), x(ExprKind::SoundSamplesLength { sound: bx(t("")) }), x(ExprKind::SoundChannelCount { sound: bx(t("")) }),
        x(ExprKind::TypeQuery { value: bx(n(1.0)), ty: ValueType::Command }), x(ExprKind::TypeQuery { value: bx(n(1.0)), ty: ValueType::Reporter }), x(ExprKind::TypeQuery { value: bx(n(1.0)), ty: ValueType::Predicate }),
        st(StmtKind::UnknownBlock { name: "nativeRunSyscall".into(), args: vec![] }), st(StmtKind::UnknownBlock { name: "nativeRunSyscall".into(), args: vec![t("a")] }), st(StmtKind::UnknownBlock { name: "nativeRunSyscall".into(), args: vec![t("a"), ml(vec![]), n(1.0)] }),
        x(ExprKind::UnknownBlock { name: "nativeCallSyscall".into(), args: vec![] }), x(ExprKind::UnknownBlock { name: "nativeCallSyscall".into(), args: vec![t("a")] }), x(ExprKind::UnknownBlock { name: "nativeCallSyscall".into(), args: vec![t("a"), ml(vec![]), n(1.0)] }), x(ExprKind::UnknownBlock { name: "nativeSyscallError".into(), args: vec![n(1.0)] }),
    ]
}
fn hats() -> Vec<Bad> {
    use HatKind::*;
    vec![Bad::H(MouseDown), Bad::H(MouseUp), Bad::H(MouseEnter), Bad::H(MouseLeave), Bad::H(ScrollUp), Bad::H(ScrollDown), Bad::H(Dropped), Bad::H(Stopped), Bad::H(When { condition: bx(bo(true)) }), Bad::H(OnKey { key: "".into() }), Bad::H(OnKey { key: "page up".into() }), Bad::H(OnKey { key: "ab".into() })]
}
/// how the refusal names the culprit
fn blamed(b: &Bad) -> String {
    match b {
        Bad::S(Stmt { kind: StmtKind::UnknownBlock { .. }, .. }) | Bad::X(Expr { kind: ExprKind::UnknownBlock { .. }, .. }) => "InvalidBlock { loc: Some(\"bad_7\") }".into(),
        Bad::X(Expr { kind: ExprKind::TypeQuery { .. }, .. }) => "CurrentlyUnsupported {".into(),
        Bad::S(b) => format!("UnsupportedStmt {{ kind: {:?} }}", b.kind),
        Bad::X(b) => format!("UnsupportedExpr {{ kind: {:?} }}", b.kind),
        Bad::H(HatKind::OnKey { key }) => format!("BadKeycode {{ key: {:?} }}", key.as_str()),
        Bad::H(b) => format!("UnsupportedEvent {{ kind: {b:?} }}"),
    }
}
const STMT_PLACES: usize = 20;
fn holding(k: usize, b: Stmt) -> (Vec<Stmt>, Vec<Stmt>) {
    let say0 = || rsys("a", vec![]);
    let mut f = vec![];
    let body = match k {
        0 => vec![b], 1 => vec![say0(), b, say0()], 2 => vec![if_(bo(false), vec![b])], 3 => vec![ifelse(bo(true), vec![say0()], vec![b])], 4 => vec![ifelse(bo(true), vec![b], vec![])],
        5 => vec![repeat(n(0.0), vec![b])], 6 => vec![forever(vec![say0(), b])], 7 => vec![until(bo(true), vec![b])], 8 => vec![for_("i", n(1.0), n(0.0), vec![b])], 9 => vec![foreach("i", ml(vec![]), vec![b])],
        10 => vec![warp(vec![b])], 11 => vec![try_(vec![b], "err", vec![])], 12 => vec![try_(vec![say0()], "err", vec![say0(), b])], 13 => vec![ret(n(1.0)), b], 14 => vec![stop(StopMode::ThisScript), b],
        15 => vec![set("x", ring(&["a"], &["y"], vec![say0(), b]))], 16 => vec![run(ring(&[], &[], vec![ret(ring(&[], &[], vec![b]))]), vec![])], 17 => vec![launch(ring(&[], &[], vec![b]), vec![])],
        18 => vec![rsys("m", vec![map(e(ExprKind::Closure { kind: ClosureKind::Reporter, params: vec![], captures: vec![], stmts: vec![b] }), ml(vec![]))])],
        _ => { f = vec![b]; vec![say0()] }
    };
    (body, f)
}
fn refused(role: &Role) -> Result<Option<String>, String> {
    in_vm(true);
    let r = catch_unwind(AssertUnwindSafe(|| ByteCode::compile(role).err().map(|e| format!("{e:?}"))));
    in_vm(false);
    r.map_err(|p| panic_text(&*p))
}
/// the project with the bad block is refused for it, and the same project without it is not
fn judge(role: Role, same: Role, want: &str, key: String) -> Leaf {
    match refused(&role) {
        Err(p) => return Leaf::fail(key.clone(), format!("{key}: loading panicked: {p}")),
        Ok(None) => return Leaf::fail(key.clone(), format!("{key}: the project was accepted; expected {want}")),
        Ok(Some(e)) if !(e == want || want.ends_with('{') && e.starts_with(want)) => return Leaf::fail(key.clone(), format!("{key}: refused with {e}; expected {want}")),
        Ok(Some(_)) => (),
    }
    match refused(&same) {
        Ok(None) => Leaf::ok(vec![h64(&key)], 2),
        Ok(Some(e)) => Leaf::fail(key.clone(), format!("{key}: the same project without it was refused: {e}")),
        Err(p) => Leaf::fail(key.clone(), format!("{key}: the same project without it: loading panicked: {p}")),
    }
}
/// the script sits in the sprite, another sprite, the stage, or a clone's start; its other part in a block nobody calls, of the project or of the sprite
fn place(body: Vec<Stmt>, aside: Vec<Stmt>, own: bool, whose: usize, hat: usize) -> Role {
    let sc = match hat { 0 => on_flag(body), 1 => on_clone(body), 2 => on_msg("m", body), _ => on_key("a", body) };
    let mut r = tabs::world(nums(&["err", "i"]), if own { vec![] } else { vec![func("unused", &[], aside.clone())] }, vec![on_flag(vec![rsys("first", vec![])])]);
    if own { r.entities[whose].funcs.push(func("unused", &[], aside)); }
    r.entities[whose].scripts.push(sc);
    r
}
fn blocks(ch: &mut Chooser, _: &Ctx, deep: bool) -> Leaf {
    let all = unsupported();
    let k = ch.choose(all.len());
    let bad = all[k].clone();
    let (xs, ss) = (tabs::exprs(), tabs::stmts());
    // an expression is the operand of a block, or is reported
    let (with, without, how) = match &bad {
        Bad::S(b) => (b.clone(), rsys("fine", vec![]), String::new()),
        Bad::X(b) => {
            let i = ch.choose(xs.len() + ss.len() + 1);
            if i == xs.len() + ss.len() { (ret(b.clone()), ret(n(1.0)), "reported".to_string()) } else {
                let (nm, args) = if i < xs.len() { (xs[i].name, &xs[i].args) } else { (ss[i - xs.len()].name, &ss[i - xs.len()].args) };
                let p = ch.choose(args.len());
                let make = |y: Expr| { let mut a = args.clone(); a[p] = y; if i < xs.len() { rsys("r", vec![(xs[i].f)(a)]) } else { (ss[i - xs.len()].f)(a) } };
                (make(b.clone()), make(args[p].clone()), format!("operand {p} of {nm}"))
            }
        }
        Bad::H(_) => unreachable!(),
    };
    let stmt = matches!(bad, Bad::S(_));
    let at = if stmt || deep { ch.choose(STMT_PLACES) } else { ch.of(&[0, 3, 12, 15, 19]) };
    let second = if stmt { ch.choose(STMT_PLACES - 1) } else { 0 };
    let (own, whose, hat) = if stmt || deep { (ch.flag(), ch.choose(3), ch.choose(4)) } else { (false, 1, 0) };
    if own && at != STMT_PLACES - 1 { return Leaf::skip(); }
    let build = |b: Stmt| { let (body, aside) = holding(at, b); if at == STMT_PLACES - 1 { let (b2, _) = holding(second, aside.into_iter().next().unwrap()); (body, b2) } else { (body.into_iter().flat_map(|x| if second == 0 { vec![x] } else { holding(second, x).0 }).collect(), aside) } };
    // (dead code after a second wrapping changes nothing for the culprit)
    let (wb, wa) = build(with);
    let (ob, oa) = build(without);
    let key = format!("{} {how} in place {at}/{second} of sprite {whose}, hat {hat}{}", blamed(&bad), if own { ", own block" } else { "" });
    judge(place(wb, wa, own, whose, hat), place(ob, oa, own, whose, hat), &blamed(&bad), key)
}
fn events(ch: &mut Chooser, _: &Ctx) -> Leaf {
    let all = hats();
    let bad = all[ch.choose(all.len())].clone();
    let Bad::H(h) = &bad else { unreachable!() };
    let (whose, at, empty) = (ch.choose(3), ch.choose(3), ch.flag());
    let mk = |hat: Option<HatKind>| {
        let mut r = tabs::world(vec![], vec![], vec![on_flag(vec![rsys("a", vec![])]), on_msg("m", vec![rsys("b", vec![])])]);
        let body = if empty { vec![] } else { vec![rsys("c", vec![])] };
        let sc = Script { hat: hat.map(|kind| Box::new(Hat { kind, info: BlockInfo::none() })), stmts: body };
        let v = &mut r.entities[whose].scripts;
        v.insert(at.min(v.len()), sc);
        r
    };
    judge(mk(Some(h.clone())), mk(Some(HatKind::OnFlag)), &blamed(&bad), format!("{} at {at} of sprite {whose}{}", blamed(&bad), if empty { ", empty" } else { "" }))
}
/// initial values that are no values
fn initial(ch: &mut Chooser, _: &Ctx) -> Leaf {
    let (bad, want): (Value, &str) = [
        (Value::Number(f64::INFINITY), "BadNumber { error: Infinity }"), (Value::Number(f64::NEG_INFINITY), "BadNumber { error: Infinity }"), (Value::Number(f64::NAN), "BadNumber { error: Nan }"), (Value::Ref(RefId(99)), "UndefinedRef {"),
    ][ch.choose(4)].clone();
    let depth = ch.choose(3);
    let (place, extra) = (ch.choose(3), ch.flag());
    let wrap = |v: Value| { let mut v = v; for i in 0..depth { let mut l = vec![v]; if extra { l.insert(0, Value::Number(i as f64)); l.push(Value::List(vec![], Some(RefId(i + 5)))); } v = Value::List(l, if extra { None } else { Some(RefId(i)) }); } v };
    let mk = |v: Value| {
        let mut r = tabs::world(vec![], vec![], vec![on_flag(vec![rsys("a", vec![])])]);
        match place { 0 => r.globals.push(init("g", v)), 1 => r.entities[1].fields.push(init("f", v)), _ => r.entities[0].fields.insert(0, init("f", v)) }
        r
    };
    let key = format!("{bad:?} at depth {depth} of place {place}{}", if extra { " among others" } else { "" });
    judge(mk(wrap(bad.clone())), mk(wrap(Value::Number(1.0))), want, key)
}
fn numbers(ch: &mut Chooser, _: &Ctx) -> Leaf {
    let bad = ch.of(&[f64::INFINITY, f64::NEG_INFINITY, f64::NAN]);
    let (what, whose) = (ch.choose(8), ch.choose(3));
    let picture = |c: (f64, f64)| Value::Image(std::rc::Rc::new((vec![1, 2, 3], Some(c), "c".into())));
    let mk = |v: f64| { let mut r = tabs::world(vec![], vec![], vec![]); let en = &mut r.entities[whose]; match what { 0 => en.scale = v, 1 => en.pos.0 = v, 2 => en.pos.1 = v, 3 => en.heading = v, 4 => en.costumes.push(init("c", picture((v, 1.0)))), 5 => en.costumes.insert(0, init("c", picture((2.0, v)))), 6 => en.fields.push(init("p", picture((v, v)))), _ => r.globals.push(init("p", Value::List(vec![picture((1.0, 2.0)), picture((3.0, v))], None))) } r };
    let key = format!("property {what} of sprite {whose} is {bad:?}");
    judge(mk(bad), mk(7.0), "BadNumber {", key)
}
pub fn check(quick: bool) -> Check {
    Check::new("E17", "loading projects that hold one thing the VM cannot run, and the same projects without it", vec![
        phase("blocks", "7 commands, 25 reporters and 7 misused system calls the VM does not support; commands in every pair of 20 places (branches, loops, handlers, rings, dead code, blocks nobody calls) of 3 sprites and 4 kinds of script, reporters as every operand of every block in 5 (thorough: all) places", move |ch, cx| blocks(ch, cx, !quick)),
        phase("events", "12 kinds of event the VM does not support, in every position of the scripts of 3 sprites", events),
        phase("initial values", "infinite and undefined numbers and dangling references, at 3 depths of lists in globals and fields", initial),
        phase("sprite numbers", "infinite and undefined places, headings, sizes and centers of pictures of 3 sprites", numbers),
    ]).assume("the set of unsupported blocks is that of the pinned commit; adding support for one changes the property's list")
}
