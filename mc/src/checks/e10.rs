//! E10: loading reproduces the saved project state.
use super::common::*;
use super::tabs;
use crate::sys::*;
use crate::vm::{self, Env, EnvArena};
use netsblox_vm::ast::{RefId, Value};
use netsblox_vm::bytecode::{ByteCode, InitInfo, Locations};
use netsblox_vm::gc::*;
use netsblox_vm::project::Project;
use netsblox_vm::runtime;
use std::cell::RefCell;
use std::collections::HashMap;
use std::panic::{catch_unwind, AssertUnwindSafe};

// ---------------------------------------------------------------- what was loaded
#[derive(Default)]
struct Ids { lists: HashMap<usize, usize>, media: HashMap<usize, usize> }
fn num(x: f64) -> String { format!("{:?}", x + 0.0) }
fn live(v: &V, ids: &mut Ids, out: &mut String) {
    use runtime::Value as R;
    match v {
        R::Bool(x) => *out += &format!("{x}"),
        R::Number(x) => *out += &num(x.get()),
        R::Text(x) => *out += &format!("{:?}", x.as_str()),
        R::List(l) => {
            let (p, k) = (Gc::as_ptr(*l) as *const () as usize, ids.lists.len());
            if let Some(k) = ids.lists.get(&p) { *out += &format!("#{k}"); return; }
            ids.lists.insert(p, k);
            *out += &format!("#{k}[");
            for x in l.borrow().iter() { live(x, ids, out); out.push(' '); }
            out.push(']');
        }
        R::Image(x) => { let k = ids.media.len(); let k = *ids.media.entry(Rc::as_ptr(x) as usize).or_insert(k); *out += &format!("img{k}({:?} {:?} {:?})", x.content, x.center.map(|c| (num(c.0.get()), num(c.1.get()))), x.name); }
        R::Audio(x) => { let k = ids.media.len(); let k = *ids.media.entry(Rc::as_ptr(x) as usize).or_insert(k); *out += &format!("aud{k}({:?} {:?})", x.content, x.name); }
        _ => out.push('?'),
    }
}
type Colors = Vec<[f64; 4]>;
fn near(a: &Colors, b: &Colors) -> bool { a.len() == b.len() && a.iter().flatten().zip(b.iter().flatten()).all(|(a, b)| (a - b).abs() < 0.001) }
fn loaded(code: &Rc<ByteCode>, init: &InitInfo) -> (String, Colors) {
    let scn = Rc::new(Scn::default());
    let h = Rc::new(RefCell::new(crate::host::Host::new(scn)));
    set_host(Some(h.clone()));
    in_vm(true);
    let r = catch_unwind(AssertUnwindSafe(|| {
        let env = EnvArena::new(|mc| Env { proj: Gc::new(mc, RefLock::new(Project::from_init(mc, init, code.clone(), Default::default(), Rc::new(MSys { h: h.clone() })))), dead: Gc::new(mc, RefLock::new(vec![])), watched: Gc::new(mc, RefLock::new(vec![])) });
        env.mutate(|_, env| {
            let (mut ids, mut out, mut colors) = (Ids::default(), String::new(), vec![]);
            let proj = env.proj.borrow();
            let g = proj.get_global_context();
            let g = g.borrow();
            out += &format!("project {:?}\n", g.proj_name.as_str());
            let vars = |s: &runtime::SymbolTable<MC, MSys>, ids: &mut Ids, out: &mut String| {
                let mut xs: Vec<_> = s.iter().map(|(k, v)| (k.to_string(), v.get().clone())).collect();
                xs.sort_by(|a, b| a.0.cmp(&b.0));
                for (k, v) in xs { *out += &format!(" {k}="); live(&v, ids, out); }
            };
            vars(&g.globals, &mut ids, &mut out);
            for (k, e) in g.entities.iter() {
                let e = e.borrow();
                out += &format!("\nentity {k:?} kind {} original {}:", e.state.kind, e.original.is_some());
                vars(&e.fields, &mut ids, &mut out);
                for (k, v) in e.costume_list.iter() { out += &format!(" costume {k}:"); live(&runtime::Value::Image(v.clone()), &mut ids, &mut out); }
                for (k, v) in e.sound_list.iter() { out += &format!(" sound {k}:"); live(&runtime::Value::Audio(v.clone()), &mut ids, &mut out); }
                if let Some(c) = &e.costume { out += " wears "; live(&runtime::Value::Image(c.clone()), &mut ids, &mut out); }
                let p = &e.state.props;
                out += &format!(" at {} {} heading {} size {} visible {} pen {} {}", num(p.pos.0.get()), num(p.pos.1.get()), num(p.heading.get()), num(p.size.get()), p.visible, p.pen_down, num(p.pen_size.get()));
                colors.push([p.pen_color_h.get(), p.pen_color_s.get(), p.pen_color_v.get(), p.pen_color_t.get()]);
                for f in [p.effects.color_h, p.effects.color_s] { out += &num(f.get()); }
            }
            (out, colors)
        })
    }));
    in_vm(false);
    set_host(None);
    match r { Ok(x) => x, Err(e) => { std::mem::forget(h); (format!("PANIC {}", panic_text(&*e)), vec![]) } }
}
// ---------------------------------------------------------------- what was saved
fn defs<'a>(v: &'a Value, out: &mut HashMap<usize, &'a Value>) { if let Value::List(xs, id) = v { if let Some(i) = id { out.insert(i.0, v); } for x in xs { defs(x, out); } } }
fn saved(v: &Value, d: &HashMap<usize, &Value>, ids: &mut Ids, out: &mut String) {
    match v {
        Value::Bool(x) => *out += &format!("{x}"),
        Value::Number(x) => *out += &num(*x),
        Value::Constant(netsblox_vm::ast::Constant::Pi) => *out += &num(std::f64::consts::PI),
        Value::Constant(_) => *out += &num(std::f64::consts::E),
        Value::String(x) => *out += &format!("{:?}", x.as_str()),
        Value::Ref(i) => saved(d[&i.0], d, ids, out),
        Value::List(xs, id) => {
            let (p, k) = (match id { Some(i) => i.0, None => xs as *const _ as usize }, ids.lists.len());
            if let Some(k) = ids.lists.get(&p) { *out += &format!("#{k}"); return; }
            ids.lists.insert(p, k);
            *out += &format!("#{k}[");
            for x in xs { saved(x, d, ids, out); out.push(' '); }
            out.push(']');
        }
        Value::Image(x) => { let k = ids.media.len(); let k = *ids.media.entry(Rc::as_ptr(x) as usize).or_insert(k); *out += &format!("img{k}({:?} {:?} {:?})", x.0, x.1.map(|c| (num(c.0), num(c.1))), x.2); }
        Value::Audio(x) => { let k = ids.media.len(); let k = *ids.media.entry(Rc::as_ptr(x) as usize).or_insert(k); *out += &format!("aud{k}({:?} {:?})", x.0, x.1); }
    }
}
fn hsv(c: (u8, u8, u8, u8)) -> [f64; 4] {
    let (r, g, b) = (c.0 as f64 / 255.0, c.1 as f64 / 255.0, c.2 as f64 / 255.0);
    let (hi, lo) = (r.max(g).max(b), r.min(g).min(b));
    let d = hi - lo;
    let h = if d == 0.0 { 0.0 } else if hi == r { 60.0 * ((g - b) / d).rem_euclid(6.0) } else if hi == g { 60.0 * ((b - r) / d + 2.0) } else { 60.0 * ((r - g) / d + 4.0) };
    [h, if hi == 0.0 { 0.0 } else { d / hi * 100.0 }, hi * 100.0, (1.0 - c.3 as f64 / 255.0) * 100.0]
}
fn expected(r: &Role) -> (String, Colors) {
    let (mut d, mut ids, mut out, mut colors) = (HashMap::new(), Ids::default(), String::new(), vec![]);
    for g in &r.globals { defs(&g.init, &mut d); }
    for e in &r.entities { for f in &e.fields { defs(&f.init, &mut d); } }
    out += &format!("project {:?}\n", r.name.as_str());
    let vars = |xs: &[VariableDefInit], ids: &mut Ids, out: &mut String| {
        let mut xs: Vec<_> = xs.iter().collect();
        xs.sort_by(|a, b| a.def.name.cmp(&b.def.name));
        for x in xs { *out += &format!(" {}=", x.def.name); saved(&x.init, &d, ids, out); }
    };
    vars(&r.globals, &mut ids, &mut out);
    for (i, e) in r.entities.iter().enumerate() {
        out += &format!("\nentity {:?} kind {} original false:", e.name, (i > 0) as u8);
        vars(&e.fields, &mut ids, &mut out);
        for c in &e.costumes { out += &format!(" costume {}:", c.def.name); saved(&c.init, &d, &mut ids, &mut out); }
        for c in &e.sounds { out += &format!(" sound {}:", c.def.name); saved(&c.init, &d, &mut ids, &mut out); }
        if let Some(c) = e.active_costume.and_then(|i| e.costumes.get(i)) { out += " wears "; saved(&c.init, &d, &mut ids, &mut out); }
        colors.push(hsv(e.color));
        out += &format!(" at {} {} heading {} size {} visible {} pen false 1.00.00.0", num(e.pos.0), num(e.pos.1), num(e.heading.rem_euclid(360.0)), num(e.scale * 100.0), e.visible);
    }
    (out, colors)
}
/// loads the project directly and after storing and reading back; `undefined` = it must be refused
fn state(role: &Role, undefined: bool) -> Leaf {
    let bad = |why: String| Leaf::fail(format!("{:016x}", h64(&format!("{role:?}"))), format!("{}{why}", show(role)));
    let (code, init, locs) = match vm::compile(role) {
        Ok(x) => x,
        Err(e) if e.starts_with("UndefinedRef") => return if undefined { Leaf::ok(vec![h64("undefined")], 1) } else { bad(format!("refused: {e}")) },
        Err(e) => return bad(e),
    };
    if undefined { return bad("a reference to a value that does not exist was accepted".into()); }
    let want = expected(role);
    let got = loaded(&code, &init);
    if got.0 != want.0 || !near(&got.1, &want.1) { return bad(format!("loaded:\n{} {:?}\nsaved:\n{} {:?}", got.0, got.1, want.0, want.1)); }
    let (code, init, _) = reread(&code, &init, &locs);
    let got = loaded(&code, &init);
    if got.0 != want.0 || !near(&got.1, &want.1) { return bad(format!("loaded from the stored form:\n{} {:?}\nsaved:\n{} {:?}", got.0, got.1, want.0, want.1)); }
    Leaf::ok(vec![h64(&want.0)], 2)
}
fn reread(code: &ByteCode, init: &InitInfo, locs: &Locations) -> (Rc<ByteCode>, InitInfo, Locations) {
    use serde_json::{from_value, to_value};
    (Rc::new(from_value(to_value(code).unwrap()).unwrap()), from_value(to_value(init).unwrap()).unwrap(), from_value(to_value(locs).unwrap()).unwrap())
}
/// graphs of lists
struct Gr<'a> { ch: &'a mut Chooser, nodes: Vec<Vec<usize>>, defined: Vec<bool>, used: Vec<bool>, base: usize }
impl Gr<'_> {
    /// item codes: 0 = number, 1 = text, 2 = fresh list, 3.. = node
    fn item(&mut self, x: usize) -> Value {
        match x {
            0 => Value::Number(7.0),
            1 => Value::String("t".into()),
            2 => Value::List(vec![Value::Bool(true)], None),
            x => {
                let i = x - 3;
                self.used[i] = true;
                if self.defined[i] || self.ch.flag() { return Value::Ref(RefId(self.base + i * 10)); }
                self.defined[i] = true;
                let items = self.nodes[i].clone();
                Value::List(items.into_iter().map(|x| self.item(x)).collect(), Some(RefId(self.base + i * 10)))
            }
        }
    }
}
fn graph(ch: &mut Chooser, k: usize, scalars: &[usize], len: usize, roots: usize) -> Option<(Role, bool)> {
    let mut alpha = scalars.to_vec();
    alpha.extend((0..k).map(|i| 3 + i));
    let nodes: Vec<Vec<usize>> = (0..k).map(|_| { let l = ch.choose(len + 1); (0..l).map(|_| ch.of(&alpha)).collect() }).collect();
    let mut root = vec![3];
    for _ in 1..roots { root.push(ch.of(&alpha)); }
    // every node in use
    let mut seen: Vec<bool> = vec![false; k];
    let mut todo: Vec<usize> = root.iter().copied().filter(|x| *x >= 3).collect();
    while let Some(x) = todo.pop() { if !std::mem::replace(&mut seen[x - 3], true) { todo.extend(nodes[x - 3].iter().copied().filter(|x| *x >= 3)); } }
    if seen.contains(&false) { return None; }
    let mut g = Gr { ch, nodes, defined: vec![false; k], used: vec![false; k], base: 4 };
    let vals: Vec<Value> = root.iter().map(|x| g.item(*x)).collect();
    let undefined = g.used.iter().zip(&g.defined).any(|(u, d)| *u && !d);
    let mut it = vals.into_iter();
    let names = ["b", "a", "c"];
    let mut r = prog(vec![], vec![], vec![]);
    r.globals.push(init(names[0], it.next().unwrap()));
    if let Some(x) = it.next() { r.entities[1].fields.push(init(names[1], x)); }
    if let Some(x) = it.next() { r.globals.push(init(names[2], x)); r.globals.push(init("d", Value::String("t".into()))); }
    Some((r, undefined))
}
fn graphs(ch: &mut Chooser, _: &Ctx, k: usize, scalars: &[usize], len: usize, roots: usize) -> Leaf {
    match graph(ch, k, scalars, len, roots) { Some((r, u)) => state(&r, u), None => Leaf::skip() }
}
/// the loaded lists behave as one list or several
fn behave(ch: &mut Chooser, cx: &Ctx) -> Leaf {
    let Some((mut r, undefined)) = graph(ch, 2, &[0], 2, 3) else { return Leaf::skip() };
    if undefined { return Leaf::skip(); }
    let tgt = v(["b", "a", "c"][ch.choose(3)]);
    let body = vec![
        rsys("loaded", vec![ml(vec![v("a"), v("b"), v("c"), v("d")])]),
        try_(vec![match ch.choose(4) { 0 => push(tgt, t("new")), 1 => put(tgt, n(1.0), t("new")), 2 => del_all(tgt), _ => push(get(tgt, n(1.0)), t("new")) }], "err", vec![rsys("err", vec![])]),
        rsys("changed", vec![ml(vec![v("a"), v("b"), v("c"), v("d")]), is(v("a"), v("b")), is(v("b"), v("c"))]),
    ];
    r.entities[1].scripts.push(on_flag(body));
    diff(r, Scn::default(), cx)
}
fn media(ch: &mut Chooser, _: &Ctx) -> Leaf {
    let img: Vec<Value> = [(vec![1u8, 2, 255, 0], None, "i"), (vec![], Some((1.5, -3.0)), "i"), (vec![1, 2, 255, 0], Some((0.0, 0.0)), "j")].into_iter().map(|(a, b, c)| Value::Image(Rc::new((a, b, c.into())))).collect();
    let aud: Vec<Value> = [(vec![9u8, 8], "s"), (vec![], "")].into_iter().map(|(a, c)| Value::Audio(Rc::new((a, c.into())))).collect();
    let mut r = prog(vec![], vec![], vec![]);
    // the stage uses the same pictures and sounds as the sprite
    let (k, kc) = (ch.choose(4), ch.choose(3));
    for i in 0..k { let x = ch.of(&img); r.entities[1].costumes.push(init(&format!("z{}", 9 - i), x)); }
    for i in 0..kc { let x = ch.of(&img); r.entities[0].costumes.push(init(&format!("z{i}"), x)); }
    for i in 0..ch.choose(3) { let x = ch.of(&aud); r.entities[1].sounds.push(init(&format!("s{}", 5 - i), x)); }
    r.entities[1].active_costume = match ch.choose(k + 2) { 0 => None, i => Some(i - 1) };
    r.entities[0].active_costume = if kc > 0 { Some(kc - 1) } else { None };
    if ch.flag() { let (x, y) = (ch.of(&img), ch.of(&aud)); r.globals.push(init("g", Value::List(vec![x.clone(), y, x], Some(RefId(3))))); r.entities[1].fields.push(init("f", Value::Ref(RefId(3)))); }
    state(&r, false)
}
/// pictures and sounds that differ in exactly one of bytes, center, name
fn similar_media(ch: &mut Chooser, _: &Ctx) -> Leaf {
    let img: Vec<Value> = [(vec![1u8, 2], Some((1.0, 2.0)), "i"), (vec![1, 2], Some((1.0, 3.0)), "i"), (vec![1, 2], Some((0.0, 2.0)), "i"), (vec![1, 2], None, "i"), (vec![1, 2], Some((1.0, 2.0)), "j"), (vec![1, 3], Some((1.0, 2.0)), "i"), (vec![1], Some((1.0, 2.0)), "i")].into_iter().map(|(a, b, c)| Value::Image(Rc::new((a, b, c.into())))).collect();
    let aud: Vec<Value> = [(vec![9u8, 8], "s"), (vec![9, 8], "i"), (vec![9], "s"), (vec![1, 2], "i")].into_iter().map(|(a, c)| Value::Audio(Rc::new((a, c.into())))).collect();
    let mut r = prog(vec![], vec![], vec![]);
    for k in 0..2 {
        let (x, y) = (ch.of(&img), ch.of(&aud));
        r.entities[k].costumes.push(init("c", x));
        r.entities[k].sounds.push(init("s", y));
        if ch.flag() { r.entities[k].active_costume = Some(0); }
    }
    let (x, y, z) = (ch.of(&img), ch.of(&aud), ch.of(&["s", "i"]));
    r.globals.push(init("g", Value::List(vec![x, Value::String(z.into()), y], None)));
    state(&r, false)
}
fn props(ch: &mut Chooser, _: &Ctx) -> Leaf {
    let mut r = prog(vec![], vec![], vec![]);
    r.name = ch.of(&["role", "", "é\"\n"]).into();
    let xs = [0.0, 0.1, -0.1, 3.0, -240.0, 1e300, -1e-300, 1.0 / 3.0];
    let hs = [0.0, 90.0, -90.0, 359.5, 360.0, 450.0, -450.0, 720.25];
    let which = ch.choose(2);
    for e in 0..2 {
        let e = &mut r.entities[e];
        if ch.flag() { e.visible = false; }
        match which {
            0 => { e.pos = (ch.of(&xs), ch.of(&xs)); }
            _ => { e.heading = ch.of(&hs); e.scale = ch.of(&[1.0, 0.0, 0.5, 2.25]); }
        }
    }
    state(&r, false)
}
fn colors(ch: &mut Chooser, _: &Ctx) -> Leaf {
    let mut r = prog(vec![], vec![], vec![]);
    let cs = [0u8, 1, 2, 63, 127, 128, 254, 255];
    r.entities[1].color = (ch.of(&cs), ch.of(&cs), ch.of(&cs), ch.of(&cs));
    r.entities[0].color = (r.entities[1].color.2, r.entities[1].color.0, 77, 255);
    state(&r, false)
}
/// values and names of every kind
fn values(ch: &mut Chooser, _: &Ctx) -> Leaf {
    let names = super::e08::nasty();
    let mut vals: Vec<Value> = names.iter().map(|x| Value::String(x.as_str().into())).collect();
    for x in [0.0, -0.0, 0.1, 1e300, -1e300, 5e-324, f64::MAX, 1.0 / 3.0, 9007199254740993.0, 1e21, 123456789.125, -1.0] { vals.push(Value::Number(x)); }
    vals.extend([Value::Bool(true), Value::Bool(false), Value::Constant(netsblox_vm::ast::Constant::Pi), Value::Constant(netsblox_vm::ast::Constant::E), Value::List(vec![], None)]);
    let a = ch.of(&vals);
    let (place, name) = (ch.choose(4), ch.of(&names));
    let mut r = prog(vec![], vec![], vec![]);
    let other = Value::List(vec![a.clone(), Value::List(vec![a.clone(), Value::String("x".into())], None)], None);
    match place {
        0 => r.globals.push(init(&name, a)),
        1 => { r.entities[1].fields.push(init(&name, a)); r.entities[0].fields.push(init(&name, other)) }
        2 => { r.entities[1].name = name.as_str().into(); r.entities[1].trans_name = name.as_str().into(); if name == "Stage" { return Leaf::skip(); } r.globals.push(init("q", other)) }
        _ => { r.entities[1].costumes.push(init(&name, Value::Image(Rc::new((vec![5], None, name.as_str().into()))))); r.globals.push(init("q", a)) }
    }
    state(&r, false)
}
/// programs behave the same after being stored and read back
fn stored(ch: &mut Chooser, _: &Ctx) -> Leaf {
    let (xs, ss) = (tabs::exprs(), tabs::stmts());
    let i = ch.choose(xs.len() + ss.len());
    let fail = ch.flag();
    locate(1);
    let mk = |mut a: Vec<Expr>| { if fail { a[0] = div(t("no"), n(1.0)); } a };
    let st = if i < xs.len() { set("x", ml(vec![t("pre"), (xs[i].f)(mk(xs[i].args.clone())), n(0.1)])) } else { (ss[i - xs.len()].f)(mk(ss[i - xs.len()].args.clone())) };
    let hat = ch.choose(6);
    let mut w = tabs::world(nums(&["err", "i"]), vec![], vec![]);
    let b = vec![st, rsys("end", vec![v("x"), v("p")])];
    let mut scn = Scn { summaries: true, ..Default::default() };
    let args = vec![("p".to_string(), SimpleValue::Text("arg".into()))];
    w.entities[1].scripts = match hat {
        0 => vec![on_flag(b)],
        1 => vec![on_clone(b), on_flag(vec![clone_(this())])],
        2 => { scn.inputs = vec![(0, In::Key(KeyCode::Char('k'))), (0, In::Key(KeyCode::Left))]; vec![on_key("K", b), on_key("left arrow", vec![says("left")]), on_key("any key", vec![says("any")])] }
        3 => vec![on_msg("m", b), on_any_msg(vec![rsys("any", vec![message()])]), on_flag(vec![bcast(t("m"), true)])],
        4 => { scn.msgs = vec![(1, Msg { ty: "net".into(), values: args, reply: Some(("p".into(), "id".into())) })]; vec![on_net("net", &["p"], b), on_flag(vec![says("go")])] }
        _ => { scn.inputs = vec![(0, In::Custom { name: "ev".into(), args, interrupt: false, max_queue: 1 })]; vec![on_custom("ev", &["p"], b)] }
    };
    locate(0);
    let key = || format!("stored {i} {fail} {hat}");
    let scn = Rc::new(scn);
    let (code, init, locs) = match vm::compile(&w) { Ok(x) => x, Err(e) => return Leaf::fail(key(), e) };
    let a = vm::run_code(&code, &init, &locs, &scn);
    let (c2, i2, l2) = reread(&code, &init, &locs);
    let b = vm::run_code(&c2, &i2, &l2, &scn);
    if a.trace != b.trace { return Leaf::fail(key(), format!("{}{}", show(&w), side_by_side(&a.trace, &b.trace))); }
    // through text, where numbers of the initial state are whole
    let txt = |x: serde_json::Value| x.to_string();
    use serde_json::{from_str, to_value};
    let c3: Result<ByteCode, _> = from_str(&txt(to_value(&*code).unwrap()));
    let (c3, i3, l3) = match (c3, from_str::<InitInfo>(&txt(to_value(&init).unwrap())), from_str::<Locations>(&txt(to_value(&locs).unwrap()))) {
        (Ok(a), Ok(b), Ok(c)) => (Rc::new(a), b, c),
        (a, b, c) => return Leaf::fail(key(), format!("cannot be read back from json text: {:?} {:?} {:?}", a.err(), b.err(), c.err())),
    };
    let c = vm::run_code(&c3, &i3, &l3, &scn);
    if a.trace != c.trace { return Leaf::fail(key(), format!("{}{}", show(&w), side_by_side(&a.trace, &c.trace))); }
    Leaf::ok(histories(0, &a.trace), a.steps + b.steps + c.steps)
}
pub fn check(quick: bool) -> Check {
    let mut p = vec![
        phase("lists, 1 node", "one list of up to 4 items over {number, text, fresh list, itself}, reached from 2 variables, every place of its definition", |ch, cx| graphs(ch, cx, 1, &[0, 1, 2], 4, 2)),
        phase("lists, 2 nodes", "every graph of 2 lists of up to 2 items over {number, text, fresh list, the lists}, 3 variables, every place of the definitions (also none)", |ch, cx| graphs(ch, cx, 2, &[0, 1, 2], 2, 3)),
        phase("lists, 3 nodes", "every graph of 3 lists of up to 2 items over {number, the lists}, 2 variables, every place of the definitions (also none)", |ch, cx| graphs(ch, cx, 3, &[0], 2, 2)),
        phase("behaviour of lists", "every graph of 2 lists with up to 2 items, then 4 changes through each of 3 variables", behave),
        phase("media", "up to 3 costumes, 2 stage costumes, 2 sounds over shared pictures and sounds, every active costume, media in variables", media),
        phase("similar media", "two sprites and a variable with pictures out of 7 and sounds out of 4 that differ in one of bytes, center, name", similar_media),
        phase("properties", "positions, headings, sizes, visibility of stage and sprite", props),
        phase("colors", "8 values of each color component", colors),
        phase("values and names", "108 texts, 12 numbers and others, in 4 places under 108 names", values),
        phase("stored programs", "every block, working or failing, under 6 hats, executed after storing and reading back", stored),
    ];
    if !quick {
        p.push(phase("lists, 2 nodes of 3", "every graph of 2 lists of up to 3 items over {number, text, the lists}, 3 variables", |ch, cx| graphs(ch, cx, 2, &[0, 1], 3, 3)));
        p.push(phase("lists, 3 nodes, 3 variables", "every graph of 3 lists of up to 2 items over {number, the lists}, 3 variables", |ch, cx| graphs(ch, cx, 3, &[0], 2, 3)));
    }
    Check::new("E10", "state = distinct loaded project state or observable history; transition = one load or scheduler step; trace validated = one project", p)
}
