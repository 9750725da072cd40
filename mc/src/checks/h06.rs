//! H06: the graphical state of a sprite (the helpers of `Properties` a host builds on, and the blocks that reach them).
use super::common::*;
use crate::host::num;
use crate::sys::{taken, ReqK, V, MC, MSys};
use netsblox_vm::ast::{EffectKind, PenAttribute};
use netsblox_vm::runtime::{Properties, Property, Value};

#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind { Plain, Wrap, Part, Pos, Flag, Color }
use Kind::*;
const PROPS: [(Property, Kind); 24] = [
    (Property::XPos, Plain), (Property::YPos, Plain), (Property::Heading, Wrap), (Property::Size, Pos), (Property::PenSize, Pos),
    (Property::PenColorH, Wrap), (Property::PenColorS, Part), (Property::PenColorV, Part), (Property::PenColorT, Part),
    (Property::Tempo, Plain), (Property::Volume, Plain), (Property::Balance, Plain),
    (Property::ColorH, Wrap), (Property::ColorS, Part), (Property::ColorV, Part), (Property::ColorT, Part),
    (Property::Fisheye, Plain), (Property::Whirl, Plain), (Property::Pixelate, Plain), (Property::Mosaic, Plain), (Property::Negative, Plain),
    (Property::Visible, Flag), (Property::PenDown, Flag), (Property::PenColor, Color),
];
const X: usize = 0;
const Y: usize = 1;
const HEADING: usize = 2;
const PEN: usize = 5;
const EFFECTS: std::ops::Range<usize> = 12..21;
const VISIBLE: usize = 21;

/// what the properties should be; flags are 0 or 1
type M = [f64; 23];
fn start() -> M { let mut m = [0.0; 23]; m[3] = 100.0; m[4] = 1.0; m[9] = 60.0; m[10] = 100.0; m[VISIBLE] = 1.0; m }
fn fields(p: &Properties) -> M {
    let b = |x| x as u8 as f64;
    let e = &p.effects;
    [p.pos.0.get(), p.pos.1.get(), p.heading.get(), p.size.get(), p.pen_size.get(), p.pen_color_h.get(), p.pen_color_s.get(), p.pen_color_v.get(), p.pen_color_t.get(), p.tempo.get(), p.volume.get(), p.balance.get(),
        e.color_h.get(), e.color_s.get(), e.color_v.get(), e.color_t.get(), e.fisheye.get(), e.whirl.get(), e.pixelate.get(), e.mosaic.get(), e.negative.get(), b(p.visible), b(p.pen_down)]
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum A { Num(f64), Text(&'static str), Bool(bool), Bad }
impl A {
    fn value<'gc>(self) -> V<'gc> { match self { A::Num(x) => Value::Number(num(x)), A::Text(x) => Value::Text(x.into()), A::Bool(x) => Value::Bool(x), A::Bad => Value::Image(Rc::new(netsblox_vm::runtime::Image { content: vec![1], center: None, name: "i".into() })) } }
    fn num(self) -> Option<f64> { match self { A::Num(x) => Some(x), A::Text("") | A::Text("abc") | A::Text("true") | A::Text("1e999") => None, A::Text(x) => Some(x.trim().parse().expect("HARNESS")), _ => None } }
}
#[derive(Clone, Copy, Debug)]
enum Op { Get(usize), Set(usize, A), Change(usize, A), Clear, Goto(f64, f64), Towards(f64, f64), Forward(f64) }

fn wrap(x: f64) -> f64 { x.rem_euclid(360.0) }
fn fit(k: Kind, x: f64) -> f64 { match k { Plain => x, Wrap => wrap(x), Part => x.clamp(0.0, 100.0), Pos => x.max(0.0), Flag | Color => unreachable!() } }
fn near(a: f64, b: f64) -> bool { (a - b).abs() <= 1e-9 * (1.0 + a.abs().max(b.abs())) }
fn turn(a: f64, b: f64, eps: f64) -> bool { let d = (a - b).rem_euclid(360.0); d.min(360.0 - d) <= eps }
/// one operation on both sides; the model then continues from what the library holds, after it was compared
fn step(p: &mut Properties, m: &mut M, op: Op) -> Result<(), String> {
    let _ = taken();
    let (old, mut want) = (*m, Some(*m));
    let mut loose: Vec<usize> = vec![]; // compared up to rounding
    let mut ans: Option<Option<SimpleValue>> = Some(None); // None: some error
    let key = || ReqK { id: 0 };
    match op {
        Op::Get(i) => {
            let _ = p.perform_get_property::<MC, MSys>(key(), PROPS[i].0);
            ans = Some(match PROPS[i].1 {
                Color => None,
                Flag => Some(SimpleValue::Bool(old[i] == 1.0)),
                _ => Some(SimpleValue::Number(num(old[i]))),
            });
        }
        Op::Set(i, a) | Op::Change(i, a) => {
            let set = matches!(op, Op::Set(..));
            if set { let _ = p.perform_set_property::<MC, MSys>(key(), PROPS[i].0, a.value()); } else { let _ = p.perform_change_property::<MC, MSys>(key(), PROPS[i].0, a.value()); }
            let w = want.as_mut().unwrap();
            match (PROPS[i].1, a) {
                (Flag, A::Bool(b)) => w[i] = if set { b as u8 as f64 } else { (b != (old[i] == 1.0)) as u8 as f64 },
                (Flag, _) => want = None,
                (Color, _) if !set => want = None,
                (Color, _) => match a.num() {
                    None => want = None,
                    Some(x) => {
                        let [al, r, g, b] = (x as u32).to_be_bytes();
                        let (h, s, v, al) = netsblox_vm::runtime::Color { r, g, b, a: al }.to_hsva(); // (this computation is the subject of H08)
                        for (k, x) in [h as f64, s as f64 * 100.0, v as f64 * 100.0, (1.0 - al as f64) * 100.0].into_iter().enumerate() { w[PEN + k] = x; loose.push(PEN + k); }
                    }
                },
                (k, _) => match a.num().map(|x| if set { x } else { old[i] + x }) {
                    Some(x) if x.is_finite() || k == Part => { w[i] = fit(k, x); loose.push(i); }
                    Some(x) if k == Pos && x < 0.0 => { w[i] = 0.0; }
                    _ => want = None,
                },
            }
            if want.is_none() { ans = None; }
        }
        Op::Clear => { let _ = p.perform_clear_effects::<MC, MSys>(key()); want.as_mut().unwrap()[EFFECTS].fill(0.0); }
        Op::Goto(x, y) => { let _ = p.perform_goto_xy::<MC, MSys>(key(), num(x), num(y)); let w = want.as_mut().unwrap(); (w[X], w[Y]) = (x, y); }
        Op::Forward(d) => {
            let _ = p.perform_forward::<MC, MSys>(key(), num(d));
            let a = old[HEADING] * (std::f64::consts::PI / 180.0);
            let (x, y) = (old[X] + d * a.sin(), old[Y] + d * a.cos());
            if x.is_finite() && y.is_finite() {
                let w = want.as_mut().unwrap();
                // (the tolerance is relative to the distance too, which may cancel against the position)
                let g = fields(p);
                let eps = 1e-9 * (1.0 + d.abs() + old[X].abs() + old[Y].abs());
                w[X] = if (g[X] - x).abs() <= eps { g[X] } else { x };
                w[Y] = if (g[Y] - y).abs() <= eps { g[Y] } else { y };
            } else { want = None; ans = None; }
        }
        Op::Towards(x, y) => {
            let _ = p.perform_point_towards_xy::<MC, MSys>(key(), num(x), num(y));
            let g = fields(p)[HEADING];
            let w = want.as_mut().unwrap();
            let (dx, dy) = (x / 2.0 - old[X] / 2.0, y / 2.0 - old[Y] / 2.0);
            // where the sprite already is, any direction is right
            w[HEADING] = if (dx == 0.0 && dy == 0.0) && (0.0..=360.0).contains(&g) { g } else {
                let d = wrap(90.0 - dy.atan2(dx).to_degrees());
                let far = 2.0 * dx.abs().max(dy.abs());
                if !far.is_finite() || turn(d, g, 1e-6) && (0.0..=360.0).contains(&g) { g } else { d }
            };
        }
    }
    let got = fields(p);
    let fin = want.unwrap_or(old);
    for i in 0..23 {
        let ok = got[i] == fin[i] || loose.contains(&i) && match PROPS[i].1 {
            Wrap => turn(got[i], fin[i], 1e-9) && (0.0..=360.0).contains(&got[i]), // (a tiny negative number wraps to 360 by rounding)
            k => near(got[i], fin[i]) && (k != Part || (0.0..=100.0).contains(&got[i])),
        };
        if !ok { return Err(format!("{op:?} leaves {:?} at {}, not {}", PROPS[i].0, got[i], fin[i])); }
    }
    let res = taken().ok_or_else(|| format!("{op:?} is never completed"))?;
    match (res, ans, op) {
        (Ok(Some(SimpleValue::Number(c))), _, Op::Get(i)) if PROPS[i].1 == Color => {
            let [a, r, g, b] = (c.get() as u32).to_be_bytes();
            let q = netsblox_vm::runtime::Color::from_hsva(old[PEN] as f32, (old[PEN + 1] / 100.0) as f32, (old[PEN + 2] / 100.0) as f32, (1.0 - old[PEN + 3] / 100.0) as f32);
            if [(q.a, a), (q.r, r), (q.g, g), (q.b, b)].iter().any(|(x, y)| x.abs_diff(*y) > 1) { return Err(format!("pen color {:x} for components {:?}", c.get() as u32, &old[PEN..PEN + 4])); }
        }
        (Ok(Some(SimpleValue::Number(x))), Some(Some(SimpleValue::Number(y))), _) if x.get() == y.get() => (),
        (Ok(Some(SimpleValue::Bool(x))), Some(Some(SimpleValue::Bool(y))), _) if x == y => (),
        (Ok(None), Some(None), _) | (Err(_), None, _) => (),
        (got, want, _) => return Err(format!("{op:?} in state {old:?} answers {got:?}; expected {}", match want { Some(Some(x)) => format!("{x:?}"), Some(None) => "success".into(), None => "an error".into() })),
    }
    *m = got;
    Ok(())
}
fn values() -> Vec<A> {
    let mut o: Vec<A> = [0.0, 1.0, -1.0, 45.0, 90.0, 99.5, 100.0, 100.5, 180.0, 270.0, 359.5, 360.0, 361.0, -0.5, -360.0, -361.0, 725.0, -1e-300, 1e15, 4294967295.0, 4278255873.0, f64::MAX, -f64::MAX].iter().map(|x| A::Num(*x)).collect();
    o.extend([A::Text("12"), A::Text(" -3.5 "), A::Text("abc"), A::Text(""), A::Text("1e999"), A::Text("true"), A::Bool(true), A::Bool(false), A::Bad]);
    o
}
fn all() -> Vec<Op> {
    let mut o = vec![Op::Clear];
    for i in 0..24 {
        o.push(Op::Get(i));
        for a in values() {
            if PROPS[i].1 != Color || a.num().is_none_or(|x| (0.0..=4294967295.0).contains(&x)) { o.push(Op::Set(i, a)); }
            o.push(Op::Change(i, a));
        }
    }
    for d in [0.0, 1.0, -1.0, 10.0, 1e6, f64::MAX, -f64::MAX] { o.push(Op::Forward(d)); }
    for (x, y) in [(0.0, 0.0), (3.0, 4.0), (-3.0, 4.0), (-5.0, -12.0), (1e-3, -1e-3), (f64::MAX, f64::MAX), (-f64::MAX, 1.0), (100.0, 0.0), (1.0, 1.0)] { o.push(Op::Goto(x, y)); o.push(Op::Towards(x, y)); }
    o
}
fn few() -> Vec<Op> {
    let mut o = vec![Op::Clear, Op::Forward(10.0), Op::Forward(-f64::MAX), Op::Goto(3.0, 4.0), Op::Goto(f64::MAX, -f64::MAX), Op::Towards(3.0, 4.0), Op::Towards(-7.0, 2.0)];
    for i in 0..24 {
        let vs: &[A] = match PROPS[i].1 { Plain => &[A::Num(7.0), A::Num(f64::MAX)], Wrap => &[A::Num(350.0), A::Num(-700.0)], Part => &[A::Num(60.0), A::Num(-f64::MAX)], Pos => &[A::Num(60.0), A::Num(-f64::MAX)], Flag => &[A::Bool(true), A::Bool(false)], Color => &[A::Num(2158067712.0), A::Num(255.0)] };
        for a in vs { o.push(Op::Set(i, *a)); if PROPS[i].1 != Color { o.push(Op::Change(i, *a)); } }
    }
    o.extend([Op::Get(23), Op::Set(HEADING, A::Bad), Op::Change(23, A::Num(1.0))]);
    o
}
fn seqs(ch: &mut Chooser, ops: &[Op], first: usize, depth: usize) -> Leaf {
    let (mut p, mut m) = (Properties::default(), start());
    let mut l = Leaf::ok(vec![], 0);
    if fields(&p) != m { return Leaf::fail("start", format!("a new sprite starts with {:?}", fields(&p))); }
    let mut path: Vec<Op> = vec![];
    for _ in 0..first { path.push(ops[ch.choose(ops.len())]); }
    for o in &path { if let Err(w) = step(&mut p, &mut m, *o) { return Leaf::fail(format!("{path:?}"), format!("after {path:?}: {w}")); } }
    fn go(p: &Properties, m: &M, ops: &[Op], depth: usize, path: &mut Vec<Op>, l: &mut Leaf) -> Result<(), String> {
        if depth == 0 { return Ok(()); }
        for o in ops {
            let (mut p, mut m) = (*p, *m);
            path.push(*o);
            l.transitions += 1;
            step(&mut p, &mut m, *o).map_err(|w| format!("after {path:?}: {w}"))?;
            if depth == 1 { l.states.push(h64(&m.map(f64::to_bits))); }
            go(&p, &m, ops, depth - 1, path, l)?;
            path.pop();
        }
        Ok(())
    }
    match go(&p, &m, ops, depth, &mut path, &mut l) { Ok(()) => l, Err(w) => Leaf::fail(format!("{path:?}"), w) }
}
/// pointing towards a place and walking the distance arrives there; walking there and back returns
fn places(ch: &mut Chooser, r: i32) -> Leaf {
    let c = |i: usize| (i as i32 - r) as f64;
    let n = (2 * r + 1) as usize;
    let unit = ch.of(&[1.0, 0.001, 1000.0, 1e8]);
    let (x, y) = (c(ch.choose(n)) * unit, c(ch.choose(n)) * unit);
    let mut l = Leaf::ok(vec![], 0);
    for i in 0..n { for j in 0..n {
        let (u, v) = (c(i) * unit * 1.5, c(j) * unit * 1.25);
        let (mut p, mut m) = (Properties::default(), start());
        let d = (u - x).hypot(v - y);
        let mut go = || -> Result<(), String> {
            step(&mut p, &mut m, Op::Goto(x, y))?;
            step(&mut p, &mut m, Op::Towards(u, v))?;
            step(&mut p, &mut m, Op::Forward(d))?;
            if (m[X] - u).hypot(m[Y] - v) > 1e-9 * (d + unit) { return Err(format!("from {x} {y}, pointing towards {u} {v} and going forward {d} arrives at {} {}", m[X], m[Y])); }
            step(&mut p, &mut m, Op::Change(HEADING, A::Num(180.0)))?;
            step(&mut p, &mut m, Op::Forward(d))?;
            if (m[X] - x).hypot(m[Y] - y) > 1e-9 * (d + unit) { return Err(format!("from {x} {y} to {u} {v} and back arrives at {} {}", m[X], m[Y])); }
            Ok(())
        };
        if let Err(w) = go() { return Leaf::fail(format!("{x} {y} {u} {v}"), w); }
        l.transitions += 5;
        l.states.push(h64(&(x.to_bits(), y.to_bits(), u.to_bits(), v.to_bits())));
    } }
    l
}
/// every heading in small steps: forward moves along it, left and right turns add up
fn headings(ch: &mut Chooser, step_: f64) -> Leaf {
    let h = ch.choose((360.0 / step_) as usize) as f64 * step_;
    let k = ch.of(&[-1080.0, -360.0, 0.0, 360.0, 36000.0]);
    let (mut p, mut m) = (Properties::default(), start());
    let mut go = || -> Result<(), String> {
        step(&mut p, &mut m, Op::Set(HEADING, A::Num(h + k)))?;
        step(&mut p, &mut m, Op::Forward(100.0))?;
        let a = h.to_radians();
        if (m[X] - 100.0 * a.sin()).abs() > 1e-7 || (m[Y] - 100.0 * a.cos()).abs() > 1e-7 { return Err(format!("heading {} goes to {} {}", h + k, m[X], m[Y])); }
        for d in [1.0, 90.0, -90.0, 359.75, -720.25] { step(&mut p, &mut m, Op::Change(HEADING, A::Num(d)))?; step(&mut p, &mut m, Op::Change(HEADING, A::Num(-d)))?; if !turn(m[HEADING], h, 1e-7) { return Err(format!("turning {d} and back from {} leaves {}", h + k, m[HEADING])); } }
        Ok(())
    };
    match go() { Ok(()) => Leaf::ok(vec![h64(&(h + k).to_bits())], 12), Err(w) => Leaf::fail(format!("{h} {k}"), w) }
}
/// the state a sprite of the project starts with, and the one its clones start with
fn starts(ch: &mut Chooser, cx: &Ctx) -> Leaf {
    let c = [0u8, 1, 128, 255];
    let k = ch.choose(4);
    let color = if k == 0 { (ch.of(&c), ch.of(&c), ch.of(&c), ch.of(&c)) } else { (0, 128, 255, 255) };
    let pos = if k == 1 { (ch.of(&[0.0, -3.5, 1e9]), ch.of(&[0.0, -3.5, 1e9])) } else { (1.0, 2.0) };
    let heading = if k == 2 { ch.of(&[0.0, 90.0, 359.0, 360.0, -90.0, 725.5, -360.0]) } else { 90.0 };
    let (scale, visible) = if k == 3 { (ch.of(&[0.0, 0.25, 1.0, 7.0]), ch.flag()) } else { (1.0, true) };
    let report = || rsys("list", [ExprKind::XPos, ExprKind::YPos, ExprKind::Heading, ExprKind::PenDown, ExprKind::Size, ExprKind::IsVisible].into_iter().chain([PenAttribute::Hue, PenAttribute::Saturation, PenAttribute::Brightness, PenAttribute::Transparency, PenAttribute::Size].into_iter().map(|attr| ExprKind::PenAttr { attr })).map(e).collect());
    let mut role = prog(nums(&["x"]), vec![], vec![on_flag(vec![report(), set("x", clone_of(e(ExprKind::This)))]), on_clone(vec![report()])]);
    for en in role.entities.iter_mut() { (en.color, en.pos, en.heading, en.scale, en.visible) = (color, pos, heading, scale, visible); }
    diff(role, super::v02::big(), cx)
}
/// the blocks that change and report these properties
fn blocks(ch: &mut Chooser, cx: &Ctx, depth: usize) -> Leaf {
    use EffectKind as E;
    use PenAttribute as P;
    let eff = || [E::Color, E::Saturation, E::Brightness, E::Ghost, E::Fisheye, E::Whirl, E::Pixelate, E::Mosaic, E::Negative];
    let pen = || [P::Size, P::Hue, P::Saturation, P::Brightness, P::Transparency];
    let vals = || vec![n(25.0), n(-30.0), t("7.5"), t("seven"), ml(vec![n(1.0)]), bo(true), v("undefined")];
    let mut stmts: Vec<Stmt> = vec![];
    for _ in 0..depth {
        let k = ch.choose(eff().len() * 2 + pen().len() * 2 + 10 + 6);
        let val = |ch: &mut Chooser| bx(vals().swap_remove(ch.choose(if depth == 1 { 7 } else { 2 })));
        stmts.push(s(match k {
            0..9 => StmtKind::SetEffect { kind: eff()[k].clone(), value: val(ch) },
            9..18 => StmtKind::ChangeEffect { kind: eff()[k - 9].clone(), delta: val(ch) },
            18..23 => StmtKind::SetPenAttr { attr: pen()[k - 18].clone(), value: val(ch) },
            23..28 => StmtKind::ChangePenAttr { attr: pen()[k - 23].clone(), delta: val(ch) },
            28 => StmtKind::SetX { value: val(ch) }, 29 => StmtKind::SetY { value: val(ch) }, 30 => StmtKind::ChangeX { delta: val(ch) }, 31 => StmtKind::ChangeY { delta: val(ch) },
            32 => StmtKind::SetHeading { value: val(ch) }, 33 => StmtKind::TurnRight { angle: val(ch) }, 34 => StmtKind::TurnLeft { angle: val(ch) },
            35 => StmtKind::SetSize { value: val(ch) }, 36 => StmtKind::ChangeSize { delta: val(ch) }, 37 => StmtKind::SetPenSize { value: val(ch) },
            38 => StmtKind::ChangePenSize { delta: val(ch) },
            39 => StmtKind::SetVisible { value: ch.flag() }, 40 => StmtKind::SetPenDown { value: ch.flag() },
            41 => StmtKind::SetPenColor { color: ch.of(&[(1, 2, 3, 4), (255, 0, 128, 255)]) },
            42 => StmtKind::ClearEffects,
            _ => StmtKind::Forward { distance: val(ch) },
        }));
    }
    let mut get: Vec<Expr> = eff().into_iter().map(|kind| e(ExprKind::Effect { kind })).collect();
    get.extend(pen().into_iter().map(|attr| e(ExprKind::PenAttr { attr })));
    get.extend([ExprKind::XPos, ExprKind::YPos, ExprKind::Heading, ExprKind::PenDown, ExprKind::Size, ExprKind::IsVisible].map(e));
    stmts.push(rsys("list", get));
    let body = vec![try_(stmts, "err", vec![rsys("err", vec![v("err")])]), rsys("echo", vec![e(ExprKind::XPos)])];
    diff(prog(nums(&["x", "err"]), vec![], vec![on_flag(body)]), super::v02::big(), cx)
}
pub fn check(quick: bool) -> Check {
    let q = quick;
    Check::new("H06", "every property compared with a plain model after every operation; places reached checked by their coordinates", vec![
        phase("pairs of operations", "all pairs of the operations on 24 properties (set and change with 32 values, get, clear, goto, towards, forward)", |ch, _| seqs(ch, &all(), 1, 1)),
        phase("histories", "all histories of 3 (thorough 4) operations of 101", move |ch, _| seqs(ch, &few(), if q { 1 } else { 2 }, 2)),
        phase("places", "all pairs of places on a grid of 7 by 7 (thorough 15 by 15), in four sizes: towards, there, back", move |ch, _| places(ch, if q { 3 } else { 7 })),
        phase("headings", "headings in steps of 1/4 (thorough 1/32) degree in five turns", move |ch, _| headings(ch, if q { 0.25 } else { 0.03125 })),
        phase("starts", "the properties a sprite and its clones start with: 256 colors, 9 places, 7 headings, 4 sizes, shown or hidden", |ch, cx| starts(ch, cx)),
        phase("blocks", "every block of these properties with seven values, then all reporters", |ch, cx| blocks(ch, cx, 1)),
        phase("pairs of blocks", "every pair of these blocks with two values each, then all reporters", |ch, cx| blocks(ch, cx, 2)),
    ])
}
