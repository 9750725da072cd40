//! H05: layered host configuration.
use super::common::*;
use crate::host::num;
use crate::sys::{render, taken, ReqK, MC, MSys, P, V};
use netsblox_vm::gc::Mutation;
use netsblox_vm::project::ProjectStep;
use netsblox_vm::runtime::{Audio, Command, CommandStatus, Config, Feature, Image, Key, Note, PrintStyle, Property, Request, RequestStatus, Value};
use std::cell::RefCell;

type Cfg = Config<MC, MSys>;
/// what a layer does with a request (or command) it is offered
#[derive(Clone, Copy, Debug, PartialEq)]
enum L { Absent, Takes, Declines, Swaps, Completes, Picky }
const LAYERS: [L; 6] = [L::Absent, L::Takes, L::Declines, L::Swaps, L::Completes, L::Picky];

/// what happened: (layer, key, description) of each offer, in order
type Log = Rc<RefCell<Vec<(usize, usize, String)>>>;

fn same(v: &V<'_>) -> String { format!("{}@{}", render(v), match v { Value::List(l) => netsblox_vm::gc::Gc::as_ptr(*l) as *const () as usize, Value::Image(x) => Rc::as_ptr(x) as usize, Value::Audio(x) => Rc::as_ptr(x) as usize, _ => 0 }) }
fn show_r(r: &Request<'_, MC, MSys>) -> String {
    match r {
        Request::Input { prompt } => format!("input {:?}", prompt.as_ref().map(same)),
        Request::Syscall { name, args } => format!("syscall {name} {:?}", args.iter().map(same).collect::<Vec<_>>()),
        Request::Rpc { host, service, rpc, args } => format!("rpc {host:?} {service} {rpc} {:?}", args.iter().map(|(k, v)| format!("{k}={}", same(v))).collect::<Vec<_>>()),
        Request::Property { prop } => format!("property {prop:?}"),
        Request::UnknownBlock { name, args } => format!("block {name} {:?}", args.iter().map(same).collect::<Vec<_>>()),
    }
}
fn show_c(c: &Command<'_, '_, MC, MSys>) -> String {
    match c {
        Command::Print { style, value } => format!("print {style:?} {:?}", value.as_ref().map(same)),
        Command::SetProperty { prop, value } => format!("set {prop:?} {}", same(value)),
        Command::ChangeProperty { prop, delta } => format!("change {prop:?} {}", same(delta)),
        Command::ClearEffects => "clear effects".into(), Command::ClearDrawings => "clear drawings".into(), Command::SetCostume => "costume".into(), Command::StopSounds => "stop sounds".into(),
        Command::PlaySound { sound, blocking } => format!("sound {:?} {blocking}", Rc::as_ptr(sound)),
        Command::PlayNotes { notes, beats, blocking } => format!("notes {notes:?} {} {blocking}", beats.get()),
        Command::GotoXY { x, y } => format!("goto {} {}", x.get(), y.get()),
        Command::GotoEntity { target } => format!("goto entity {:p}", *target),
        Command::PointTowardsXY { x, y } => format!("point {} {}", x.get(), y.get()),
        Command::PointTowardsEntity { target } => format!("point entity {:p}", *target),
        Command::Forward { distance } => format!("forward {}", distance.get()),
    }
}
fn requests<'gc>(l: &V<'gc>) -> Vec<(Request<'gc, MC, MSys>, Feature)> {
    let img: V<'gc> = Value::Image(Rc::new(Image { content: vec![1], center: None, name: "i".into() }));
    let mut args = netsblox_vm::vecmap::VecMap::new();
    args.insert("a".into(), l.clone());
    args.insert("b".into(), Value::Number(num(2.0)));
    let props = [Property::XPos, Property::PenColorT, Property::Negative];
    let mut o = vec![
        (Request::Input { prompt: None }, Feature::Input), (Request::Input { prompt: Some(l.clone()) }, Feature::Input),
        (Request::Syscall { name: "s".into(), args: vec![l.clone(), img] }, Feature::Syscall { name: "s".into() }),
        (Request::Rpc { host: Some("h".into()), service: "s".into(), rpc: "r".into(), args }, Feature::Rpc { service: "s".into(), rpc: "r".into() }),
        (Request::Rpc { host: None, service: "t".into(), rpc: "".into(), args: Default::default() }, Feature::Rpc { service: "t".into(), rpc: "".into() }),
        (Request::UnknownBlock { name: "b".into(), args: vec![Value::Bool(true), l.clone()] }, Feature::UnknownBlock { name: "b".into() }),
    ];
    o.extend(props.map(|prop| (Request::Property { prop }, Feature::GetProperty { prop })));
    o
}
fn commands<'gc, 'a>(l: &V<'gc>, ent: &'a netsblox_vm::runtime::Entity<'gc, MC, MSys>) -> Vec<(Command<'gc, 'a, MC, MSys>, Feature)> {
    let sound = Rc::new(Audio { content: vec![1], name: "a".into() });
    let x = |v: f64| num(v);
    vec![
        (Command::Print { style: PrintStyle::Say, value: Some(l.clone()) }, Feature::Print), (Command::Print { style: PrintStyle::Think, value: None }, Feature::Print),
        (Command::SetProperty { prop: Property::XPos, value: l.clone() }, Feature::SetProperty { prop: Property::XPos }), (Command::ChangeProperty { prop: Property::Size, delta: Value::Number(x(1.0)) }, Feature::ChangeProperty { prop: Property::Size }),
        (Command::ClearEffects, Feature::ClearEffects), (Command::ClearDrawings, Feature::ClearDrawings), (Command::SetCostume, Feature::SetCostume),
        (Command::PlaySound { sound: sound.clone(), blocking: true }, Feature::PlaySound { blocking: true }), (Command::PlaySound { sound, blocking: false }, Feature::PlaySound { blocking: false }),
        (Command::PlayNotes { notes: vec![Note::from_midi(60, false).unwrap(), Note::from_midi(1, true).unwrap()], beats: x(0.5), blocking: true }, Feature::PlayNotes { blocking: true }),
        (Command::PlayNotes { notes: vec![], beats: x(2.0), blocking: false }, Feature::PlayNotes { blocking: false }), (Command::StopSounds, Feature::StopSounds),
        (Command::GotoXY { x: x(1.0), y: x(2.0) }, Feature::GotoXY), (Command::GotoEntity { target: ent }, Feature::GotoEntity), (Command::PointTowardsXY { x: x(3.0), y: x(4.0) }, Feature::PointTowardsXY),
        (Command::PointTowardsEntity { target: ent }, Feature::PointTowardsEntity), (Command::Forward { distance: x(5.0) }, Feature::Forward),
    ]
}
/// a configuration with one layer for requests and one for commands
fn layer(i: usize, r: L, c: L, log: &Log) -> Cfg {
    let (a, b) = (log.clone(), log.clone());
    Config {
        request: if r == L::Absent { None } else {
            Some(Rc::new(move |_: &Mutation<'_>, key: ReqK, request: Request<'_, MC, MSys>, _: &mut P<'_>| {
                a.borrow_mut().push((i, key.id, show_r(&request)));
                match r {
                    L::Takes => RequestStatus::Handled,
                    L::Completes => { Key::<Result<crate::sys::Inter, netsblox_vm::compact_str::CompactString>>::complete(key, Ok(SimpleValue::Number(num(i as f64)).into())); RequestStatus::Handled }
                    L::Swaps => RequestStatus::UseDefault { key: ReqK { id: key.id + 100 }, request: Request::Syscall { name: format!("from{i}").as_str().into(), args: vec![] } },
                    L::Picky => if matches!(request, Request::Property { .. } | Request::Syscall { .. }) { RequestStatus::Handled } else { RequestStatus::UseDefault { key, request } },
                    _ => RequestStatus::UseDefault { key, request },
                }
            }))
        },
        command: if c == L::Absent { None } else {
            Some(Rc::new(move |_: &Mutation<'_>, key: ReqK, command: Command<'_, '_, MC, MSys>, _: &mut P<'_>| {
                b.borrow_mut().push((i, key.id, show_c(&command)));
                match c {
                    L::Takes => CommandStatus::Handled,
                    L::Completes => { Key::<Result<(), netsblox_vm::compact_str::CompactString>>::complete(key, Err(format!("by {i}").as_str().into())); CommandStatus::Handled }
                    L::Swaps => CommandStatus::UseDefault { key: ReqK { id: key.id + 100 }, command: Command::Forward { distance: num(i as f64) } },
                    L::Picky => if matches!(command, Command::Forward { .. } | Command::SetCostume | Command::GotoEntity { .. }) { CommandStatus::Handled } else { CommandStatus::UseDefault { key, command } },
                    _ => CommandStatus::UseDefault { key, command },
                }
            }))
        },
    }
}
/// all ways to put a chain together with `fallback`
fn shapes(xs: &[Cfg]) -> Vec<Cfg> {
    if xs.len() == 1 { return vec![xs[0].clone()]; }
    let mut o = vec![];
    for k in 1..xs.len() { for a in shapes(&xs[..k]) { for b in shapes(&xs[k..]) { o.push(a.fallback(&b)); } } }
    o
}
/// what the chain should do: offers, and what is left over
fn expect(ls: &[L], what: String, picky: bool, swapped: impl Fn(usize) -> String) -> (Vec<(usize, usize, String)>, Option<(usize, String)>) {
    let (mut key, mut what, mut picky, mut o) = (7, what, picky, vec![]);
    for (i, l) in ls.iter().enumerate() {
        if *l == L::Absent { continue; }
        o.push((i, key, what.clone()));
        match l { L::Takes | L::Completes => return (o, None), L::Picky if picky => return (o, None), L::Swaps => { key += 100; what = swapped(i); picky = true; } _ => () }
    }
    (o, Some((key, what)))
}
fn chains(ch: &mut Chooser, len_: usize, cmds: &[L]) -> Leaf {
    let rs: Vec<L> = (0..len_).map(|_| ch.of(&LAYERS)).collect();
    let cs: Vec<L> = (0..len_).map(|_| ch.of(cmds)).collect();
    let role = prog(nums(&["x"]), vec![], vec![on_flag(vec![set("x", n(1.0))])]);
    crate::vm::with_steps(&role, &Rc::new(Scn::default()), 20, |mc, steps| {
        let Some(mut proc) = steps.into_iter().find_map(|x| if let ProjectStep::ProcessTerminated { proc, .. } = x { Some(proc) } else { None }) else { panic!("HARNESS: no process") };
        let ent = proc.get_call_stack().first().map(|x| x.entity);
        let log: Log = Default::default();
        let layers: Vec<Cfg> = (0..len_).map(|i| layer(i, rs[i], cs[i], &log)).collect();
        let l: V = Value::List(netsblox_vm::gc::Gc::new(mc, netsblox_vm::gc::RefLock::new([Value::Number(num(1.0))].into_iter().collect())));
        let mut leaf = Leaf::ok(vec![h64(&(format!("{rs:?}"), format!("{cs:?}")))], 0);
        for (si, cfg) in shapes(&layers).into_iter().enumerate() {
            for cfg in [cfg.clone(), Cfg::default().fallback(&cfg), cfg.fallback(&Cfg::default())] {
                if cfg.request.is_none() != rs.iter().all(|x| *x == L::Absent) || cfg.command.is_none() != cs.iter().all(|x| *x == L::Absent) { return Leaf::fail(format!("{rs:?} {cs:?} {si}"), format!("shape {si} of {rs:?} {cs:?} has a request handler: {}, a command handler: {}", cfg.request.is_some(), cfg.command.is_some())); }
                if let Some(f) = &cfg.request {
                    for (r, feature) in requests(&l) {
                        if format!("{:?}", r.feature()) != format!("{feature:?}") { return Leaf::fail("feature", format!("{} is the feature {:?}", show_r(&r), r.feature())); }
                        let _ = taken();
                        log.borrow_mut().clear();
                        let want = expect(&rs, show_r(&r), matches!(r, Request::Property { .. } | Request::Syscall { .. }), |i| format!("syscall from{i} []"));
                        let d = show_r(&r);
                        let got = match f(mc, ReqK { id: 7 }, r, &mut proc) { RequestStatus::Handled => None, RequestStatus::UseDefault { key, request } => Some((key.id, show_r(&request))) };
                        let done = taken();
                        let by = want.0.last().filter(|x| rs[x.0] == L::Completes).map(|x| x.0);
                        let ok = match (&done, by) { (None, None) => true, (Some(Ok(Some(SimpleValue::Number(x)))), Some(i)) => x.get() == i as f64, _ => false };
                        leaf.transitions += 1;
                        if (log.borrow().clone(), got.clone()) != want || !ok { return Leaf::fail(format!("{rs:?} {si} {d}"), format!("layers {rs:?} in shape {si}, request {d}: offered {:?}, left {got:?}, completed {done:?}; expected {want:?}", log.borrow())); }
                    }
                }
                if let (Some(f), Some(ent)) = (&cfg.command, ent) {
                    let ent = ent.borrow();
                    for (c, feature) in commands(&l, &ent) {
                        if format!("{:?}", c.feature()) != format!("{feature:?}") { return Leaf::fail("feature", format!("{} is the feature {:?}", show_c(&c), c.feature())); }
                        let _ = taken();
                        log.borrow_mut().clear();
                        let want = expect(&cs, show_c(&c), matches!(c, Command::Forward { .. } | Command::SetCostume | Command::GotoEntity { .. }), |i| format!("forward {i}"));
                        let d = show_c(&c);
                        let got = match f(mc, ReqK { id: 7 }, c, &mut proc) { CommandStatus::Handled => None, CommandStatus::UseDefault { key, command } => Some((key.id, show_c(&command))) };
                        let done = taken();
                        let by = want.0.last().filter(|x| cs[x.0] == L::Completes).map(|x| x.0);
                        let ok = match (&done, by) { (None, None) => true, (Some(Err(x)), Some(i)) => *x == format!("by {i}"), _ => false };
                        leaf.transitions += 1;
                        if (log.borrow().clone(), got.clone()) != want || !ok { return Leaf::fail(format!("{cs:?} {si} {d}"), format!("layers {cs:?} in shape {si}, command {d}: offered {:?}, left {got:?}, completed {done:?}; expected {want:?}", log.borrow())); }
                    }
                }
            }
        }
        leaf
    })
}
pub fn check(quick: bool) -> Check {
    let q = quick;
    Check::new("H05", "offers to every layer, the key and content they carry, and what is left over, compared with a walk along the chain", vec![
        phase("one layer", "every layer behaviour for requests and for commands, alone and next to an empty configuration", |ch, _| chains(ch, 1, &LAYERS)),
        phase("two layers", "every pair of layers: absent, takes, declines, completes at once, takes some, passes on something else", |ch, _| chains(ch, 2, &LAYERS)),
        phase("three layers", "every chain of three, put together in both ways", |ch, _| chains(ch, 3, &LAYERS)),
        phase("four layers", "every chain of four request layers with chains of four command layers of fewer behaviours, in all five shapes", move |ch, _| chains(ch, 4, if q { &LAYERS[2..4] } else { &LAYERS[..4] })),
    ])
}
