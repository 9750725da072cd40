//! The controlled `System` the VM runs on.
use crate::host::*;
use netsblox_vm::gc::*;
use netsblox_vm::compact_str::CompactString;
use netsblox_vm::json::Json;
use netsblox_vm::process::*;
use netsblox_vm::real_time::{OffsetDateTime, UtcOffset};
use netsblox_vm::runtime::*;
use netsblox_vm::vecmap::VecMap;
use rand::distr::uniform::{SampleRange, SampleUniform};
use std::cell::{Cell, RefCell};
use std::collections::HashMap;
use std::rc::Rc;

thread_local! { static CUR: RefCell<Option<Rc<RefCell<Host>>>> = const { RefCell::new(None) }; }
pub fn set_host(h: Option<Rc<RefCell<Host>>>) { CUR.with(|c| *c.borrow_mut() = h) }
fn cur() -> Rc<RefCell<Host>> { CUR.with(|c| c.borrow().clone().expect("no host")) }

pub struct MC;
#[derive(Debug)]
pub struct Nat(pub u32);
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct NatT;
impl GetType for Nat { type Output = NatT; fn get_type(&self) -> NatT { NatT } }
pub enum Inter { S(SimpleValue) }
impl From<SimpleValue> for Inter { fn from(x: SimpleValue) -> Self { Inter::S(x) } }

pub struct EntS { pub id: usize, pub props: Properties, pub kind: u8 }
impl From<EntityKind<'_, '_, MC, MSys>> for EntS {
    fn from(k: EntityKind<MC, MSys>) -> Self {
        let h = cur();
        let mut h = h.borrow_mut();
        let id = h.next_ent;
        h.next_ent += 1;
        match k {
            EntityKind::Stage { props } => EntS { id, props, kind: 0 },
            EntityKind::Sprite { props } => EntS { id, props, kind: 1 },
            EntityKind::Clone { parent } => EntS { id, props: parent.state.props, kind: 2 },
        }
    }
}
pub struct ProcS { pub uid: usize, pub pid: Cell<Option<usize>>, pub tokens: Vec<u32> }
impl ProcS {
    pub fn pid(&self, h: &mut Host) -> usize {
        match self.pid.get() { Some(x) => x, None => { let x = h.next_pid; h.next_pid += 1; self.pid.set(Some(x)); x } }
    }
}
impl From<ProcessKind<'_, '_, MC, MSys>> for ProcS {
    fn from(_: ProcessKind<MC, MSys>) -> Self {
        let h = cur();
        let mut h = h.borrow_mut();
        h.next_proc += 1;
        ProcS { uid: h.next_proc, pid: Cell::new(None), tokens: vec![] }
    }
}
impl Unwindable for ProcS {
    type UnwindPoint = usize;
    fn get_unwind_point(&self) -> usize { self.tokens.len() }
    fn unwind_to(&mut self, p: &usize) { self.tokens.truncate(*p) }
}
impl CustomTypes<MSys> for MC {
    type NativeValue = Nat;
    type Intermediate = Inter;
    type EntityState = EntS;
    type ProcessState = ProcS;
    fn from_intermediate<'gc>(mc: &Mutation<'gc>, v: Inter) -> Value<'gc, MC, MSys> { match v { Inter::S(x) => Value::from_simple(mc, x) } }
}
pub type V<'gc> = Value<'gc, MC, MSys>;
pub type P<'gc> = Process<'gc, MC, MSys>;
pub type EC = ErrorCause<MC, MSys>;

pub struct ReqK { pub id: usize }
thread_local! { static DONE: RefCell<Option<Result<Option<SimpleValue>, String>>> = const { RefCell::new(None) }; }
/// What the last key completed by library code (see H06) was completed with; completing twice shows as an error.
pub fn taken() -> Option<Result<Option<SimpleValue>, String>> { DONE.with(|d| d.borrow_mut().take()) }
fn done(x: Result<Option<SimpleValue>, String>) { DONE.with(|d| { let mut d = d.borrow_mut(); *d = Some(if d.is_some() { Err("completed twice".into()) } else { x }) }) }
impl Key<Result<Inter, CompactString>> for ReqK { fn complete(self, x: Result<Inter, CompactString>) { done(x.map(|Inter::S(x)| Some(x)).map_err(|e| e.to_string())) } }
impl Key<Result<(), CompactString>> for ReqK { fn complete(self, x: Result<(), CompactString>) { done(x.map(|_| None).map_err(|e| e.to_string())) } }

pub struct MSys { pub h: Rc<RefCell<Host>> }

struct FixedRng { n: u64, d: u64 }
impl rand::RngCore for FixedRng {
    fn next_u32(&mut self) -> u32 { (self.next_u64() >> 32) as u32 }
    fn next_u64(&mut self) -> u64 { (((2 * self.n as u128 + 1) << 63) / self.d as u128).min(u64::MAX as u128) as u64 }
    fn fill_bytes(&mut self, dst: &mut [u8]) { for b in dst { *b = self.next_u64() as u8; } }
}

/// Canonical rendering with list identity.
pub fn render(v: &V) -> String { let mut s = String::new(); if crate::host::flat() { flat_to(v, 0, &mut 0, &mut s) } else { render_to(v, &mut HashMap::new(), &mut s) } s }
fn flat_to(v: &V, d: usize, k: &mut usize, out: &mut String) {
    *k += 1;
    match v {
        Value::List(_) if d >= crate::host::FLAT_DEPTH || *k > crate::host::FLAT_NODES => out.push('…'),
        Value::List(l) => { out.push('['); for (i, x) in l.borrow().iter().enumerate() { if i > 0 { out.push_str(", "); } flat_to(x, d + 1, k, out); } out.push(']'); }
        x => render_to(x, &mut HashMap::new(), out),
    }
}
/// how the content of a picture or sound shows in traces
pub fn mark(x: &[u8]) -> String { x.iter().take(6).map(|b| format!("'{b:x}")).collect() }
fn render_to(v: &V, seen: &mut HashMap<usize, usize>, out: &mut String) {
    use std::fmt::Write;
    match v {
        Value::Bool(x) => write!(out, "{x}").unwrap(),
        Value::Number(x) => write!(out, "{:?}", x.get()).unwrap(),
        Value::Text(x) => write!(out, "{:?}", x.as_str()).unwrap(),
        Value::Image(x) => write!(out, "<img {}{}>", x.name, mark(&x.content)).unwrap(),
        Value::Audio(x) => write!(out, "<aud {}{}>", x.name, mark(&x.content)).unwrap(),
        Value::Native(_) => out.push_str("<native>"),
        Value::Closure(_) => out.push_str("<ring>"),
        Value::Entity(e) => write!(out, "<{}#{}>", e.borrow().name.as_str(), e.borrow().state.id).unwrap(),
        Value::List(l) => {
            let p = Gc::as_ptr(*l) as *const () as usize;
            let n = seen.len();
            match seen.get(&p) {
                Some(k) => write!(out, "#{k}").unwrap(),
                None => {
                    seen.insert(p, n);
                    write!(out, "#{n}[").unwrap();
                    for (i, x) in l.borrow().iter().enumerate() { if i > 0 { out.push_str(", "); } render_to(x, seen, out); }
                    out.push(']');
                }
            }
        }
    }
}
/// Conversion to a simple value, independent of the VM's own.
pub fn simple(v: &V) -> SimpleValue { simple_at(v, 0, &mut 600) }
fn simple_at(v: &V, d: usize, left: &mut usize) -> SimpleValue {
    *left = left.saturating_sub(1);
    match v {
        Value::List(_) if d > 6 || *left == 0 => SimpleValue::Text("deep".into()),
        Value::Bool(x) => SimpleValue::Bool(*x),
        Value::Number(x) => SimpleValue::Number(*x),
        Value::Text(x) => SimpleValue::Text(x.as_str().into()),
        Value::List(l) => SimpleValue::List(l.borrow().iter().map(|x| simple_at(x, d + 1, left)).collect()),
        _ => SimpleValue::Text("opaque".into()),
    }
}
pub fn cause_text(c: &EC) -> String { match c { ErrorCause::Custom { msg } => msg.to_string(), x => format!("{x:?}") } }

impl MSys {
    fn res<'gc>(&self, mc: &Mutation<'gc>, r: Option<Res>) -> Result<AsyncResult<Result<V<'gc>, CompactString>>, EC> {
        Ok(match r {
            None => AsyncResult::Pending,
            Some(Res::Ok(x)) => AsyncResult::Completed(Ok(Value::from_simple(mc, x))),
            Some(Res::Err(e)) => AsyncResult::Completed(Err(e.as_str().into())),
            Some(Res::Fatal(e)) => return Err(ErrorCause::Custom { msg: e.as_str().into() }),
        })
    }
}
pub fn prop_name(p: Property) -> String { format!("{p:?}") }

impl System<MC> for MSys {
    type RequestKey = ReqK;
    type CommandKey = ReqK;
    fn rand<T: SampleUniform, R: SampleRange<T>>(&self, range: R) -> T {
        let mut h = self.h.borrow_mut();
        let n = match h.scn.rand_seq.len() { 0 => h.scn.rand_num, k => h.scn.rand_seq[h.draws % k] };
        h.draws += 1;
        let mut r = FixedRng { n, d: h.scn.rand_den };
        drop(h);
        range.sample_single(&mut r).unwrap()
    }
    fn time(&self, precision: Precision) -> SysTime {
        let h = self.h.borrow();
        if let Some((zone, age)) = h.scn.real {
            let ms = if precision == Precision::High { h.now() } else { h.now().saturating_sub(age) };
            let t = OffsetDateTime::from_unix_timestamp_nanos(ms as i128 * 1_000_000 + 999_999).unwrap();
            return SysTime::Real { local: t.to_offset(UtcOffset::from_whole_seconds(zone * 60).unwrap()) };
        }
        if h.scn.timeless { SysTime::Timeless } else { SysTime::Arbitrary { ms: h.now() } }
    }
    fn perform_request<'gc>(&self, _mc: &Mutation<'gc>, request: Request<'gc, MC, Self>, proc: &mut P<'gc>) -> Result<ReqK, EC> {
        let mut h = self.h.borrow_mut();
        let pid = proc.state.pid(&mut h);
        let uid = proc.state.uid;
        let ent = proc.get_call_stack().last().unwrap().entity;
        let list = |args: &[V<'gc>]| args.iter().map(render).collect::<Vec<_>>().join(", ");
        let r = match &request {
            Request::Input { prompt } => { let d = format!("p{pid} ask {}", prompt.as_ref().map(render).unwrap_or("-".into())); h.begin(uid, d, |k| default_answer("ask", "text", &[], k)) }
            Request::Syscall { name, args } => {
                let d = format!("p{pid} syscall {name} [{}]", list(args));
                match name.as_str() {
                    "push" if !h.lean => { proc.state.tokens.push(match args.first() { Some(Value::Number(x)) => x.get() as u32, _ => 999 }); }
                    _ => {}
                }
                let toks = format!("{:?}", proc.state.tokens);
                let sargs: Vec<_> = args.iter().map(simple).collect();
                let n = name.to_string();
                let depth = proc.get_call_stack().len();
                h.begin(uid, d, move |k| if n == "depth" { Res::Ok(SimpleValue::Number(num(depth as f64))) } else if n == "tok" { Res::Ok(SimpleValue::Text(toks.as_str().into())) } else { default_answer("syscall", &n, &sargs, k) })
            }
            Request::Rpc { host, service, rpc, args } => {
                let d = format!("p{pid} rpc {}{service}.{rpc} {{{}}}", host.as_deref().map(|x| format!("{x}/")).unwrap_or_default(), args.iter().map(|x| format!("{}: {}", x.0, render(x.1))).collect::<Vec<_>>().join(", "));
                let sargs: Vec<_> = args.iter().map(|x| simple(x.1)).collect();
                let n = rpc.to_string();
                h.begin(uid, d, move |k| default_answer("rpc", &n, &sargs, k))
            }
            Request::Property { prop } => {
                let d = format!("p{pid} get {} of #{}", prop_name(*prop), ent.borrow().state.id);
                let v = get_prop(&ent.borrow().state.props, *prop);
                h.begin(uid, d, move |_| Res::Ok(v))
            }
            Request::UnknownBlock { name, args } => {
                let d = format!("p{pid} block {name} [{}]", list(args));
                let sargs: Vec<_> = args.iter().map(simple).collect();
                let n = name.to_string();
                h.begin(uid, d, move |k| default_answer("block", &n, &sargs, k))
            }
        };
        match r { Ok(id) => Ok(ReqK { id }), Err(e) => Err(ErrorCause::Custom { msg: e.as_str().into() }) }
    }
    fn poll_request<'gc>(&self, mc: &Mutation<'gc>, key: &ReqK, proc: &mut P<'gc>) -> Result<AsyncResult<Result<V<'gc>, CompactString>>, EC> {
        let r = self.h.borrow_mut().poll(key.id, proc.state.uid);
        self.res(mc, r)
    }
    fn perform_command<'gc>(&self, mc: &Mutation<'gc>, command: Command<'gc, '_, MC, Self>, proc: &mut P<'gc>) -> Result<ReqK, EC> {
        let mut h = self.h.borrow_mut();
        let pid = proc.state.pid(&mut h);
        let uid = proc.state.uid;
        let ent = proc.get_call_stack().last().unwrap().entity;
        let eid = ent.borrow().state.id;
        let d = match &command {
            Command::Print { style, value } => format!("p{pid} {} {}", match style { PrintStyle::Say => "say", PrintStyle::Think => "think" }, value.as_ref().map(render).unwrap_or("-".into())),
            Command::SetProperty { prop, value } => { let d = format!("p{pid} set {} {} of #{eid}", prop_name(*prop), render(value)); set_prop(&mut ent.borrow_mut(mc).state.props, *prop, value, false); d }
            Command::ChangeProperty { prop, delta } => { let d = format!("p{pid} change {} {} of #{eid}", prop_name(*prop), render(delta)); set_prop(&mut ent.borrow_mut(mc).state.props, *prop, delta, true); d }
            Command::ClearEffects => format!("p{pid} cleareffects of #{eid}"),
            Command::ClearDrawings => format!("p{pid} cleardrawings of #{eid}"),
            Command::SetCostume => format!("p{pid} costume {} of #{eid}", ent.borrow().costume.as_ref().map(|x| format!("{}{}", x.name, mark(&x.content))).unwrap_or("-".into())),
            Command::PlaySound { sound, blocking } => format!("p{pid} sound {}{} {blocking}", sound.name, mark(&sound.content)),
            Command::PlayNotes { notes, beats, blocking } => format!("p{pid} notes {:?} {:?} {blocking}", notes.iter().map(|x| x.get_midi().0).collect::<Vec<_>>(), beats.get()),
            Command::StopSounds => format!("p{pid} stopsounds"),
            Command::GotoXY { x, y } => format!("p{pid} goto {:?} {:?} of #{eid}", x.get(), y.get()),
            Command::GotoEntity { target } => format!("p{pid} goto entity #{} of #{eid}", target.state.id),
            Command::PointTowardsXY { x, y } => format!("p{pid} point {:?} {:?} of #{eid}", x.get(), y.get()),
            Command::PointTowardsEntity { target } => format!("p{pid} point entity #{} of #{eid}", target.state.id),
            Command::Forward { distance } => format!("p{pid} forward {:?} of #{eid}", distance.get()),
        };
        match h.begin(uid, d, |_| Res::Ok(SimpleValue::Bool(true))) { Ok(id) => Ok(ReqK { id }), Err(e) => Err(ErrorCause::Custom { msg: e.as_str().into() }) }
    }
    fn poll_command<'gc>(&self, _mc: &Mutation<'gc>, key: &ReqK, proc: &mut P<'gc>) -> Result<AsyncResult<Result<(), CompactString>>, EC> {
        Ok(match self.h.borrow_mut().poll(key.id, proc.state.uid) {
            None => AsyncResult::Pending,
            Some(Res::Ok(_)) => AsyncResult::Completed(Ok(())),
            Some(Res::Err(e)) => AsyncResult::Completed(Err(e.as_str().into())),
            Some(Res::Fatal(e)) => return Err(ErrorCause::Custom { msg: e.as_str().into() }),
        })
    }
    fn send_message(&self, msg_type: CompactString, values: VecMap<CompactString, Json, false>, targets: Vec<CompactString>, expect_reply: bool) -> Result<Option<ExternReplyKey>, EC> {
        let mut h = self.h.borrow_mut();
        let d = format!("send {msg_type} {{{}}} to {targets:?}{}", values.iter().map(|x| format!("{}: {}", x.0, x.1)).collect::<Vec<_>>().join(", "), if expect_reply { " wait" } else { "" });
        h.log(d);
        Ok(if expect_reply { let k = h.begin_reply(); Some(ExternReplyKey { request_id: format!("{k}").as_str().into() }) } else { None })
    }
    fn poll_reply(&self, key: &ExternReplyKey) -> AsyncResult<Option<Json>> {
        match self.h.borrow_mut().poll_reply(key.request_id.parse().unwrap()) { None => AsyncResult::Pending, Some(x) => AsyncResult::Completed(x) }
    }
    fn send_reply(&self, key: InternReplyKey, value: Json) -> Result<(), EC> {
        let mut h = self.h.borrow_mut();
        h.log(format!("reply to {}/{} {}", key.src_id, key.request_id, value));
        Ok(())
    }
    fn receive_message(&self) -> Option<IncomingMessage> {
        let mut h = self.h.borrow_mut();
        if !h.msg_ready() { return None; }
        let m = h.next_msg().unwrap();
        Some(IncomingMessage {
            msg_type: m.ty.as_str().into(),
            values: { let mut r = VecMap::new(); for (k, v) in m.values { r.insert(k.as_str().into(), v); } r },
            reply_key: m.reply.map(|(a, b)| InternReplyKey { src_id: a.as_str().into(), request_id: b.as_str().into() }),
        })
    }
}

fn prop_slot(p: &mut Properties, prop: Property) -> Option<&mut Number> {
    Some(match prop {
        Property::XPos => &mut p.pos.0,
        Property::YPos => &mut p.pos.1,
        Property::Heading => &mut p.heading,
        Property::Size => &mut p.size,
        Property::PenSize => &mut p.pen_size,
        Property::PenColorH => &mut p.pen_color_h,
        Property::PenColorS => &mut p.pen_color_s,
        Property::PenColorV => &mut p.pen_color_v,
        Property::PenColorT => &mut p.pen_color_t,
        Property::Tempo => &mut p.tempo,
        Property::Volume => &mut p.volume,
        Property::Balance => &mut p.balance,
        Property::ColorH => &mut p.effects.color_h,
        Property::ColorS => &mut p.effects.color_s,
        Property::ColorV => &mut p.effects.color_v,
        Property::ColorT => &mut p.effects.color_t,
        Property::Fisheye => &mut p.effects.fisheye,
        Property::Whirl => &mut p.effects.whirl,
        Property::Pixelate => &mut p.effects.pixelate,
        Property::Mosaic => &mut p.effects.mosaic,
        Property::Negative => &mut p.effects.negative,
        _ => return None,
    })
}
/// A deliberately simple host: properties are plain number slots without clamping (H06 uses the library's own host functions).
pub fn get_prop(p: &Properties, prop: Property) -> SimpleValue {
    let mut q = *p;
    match prop {
        Property::Visible => SimpleValue::Bool(p.visible),
        Property::PenDown => SimpleValue::Bool(p.pen_down),
        _ => SimpleValue::Number(prop_slot(&mut q, prop).map(|x| *x).unwrap_or(num(0.0))),
    }
}
fn set_prop(p: &mut Properties, prop: Property, v: &V, rel: bool) {
    match prop {
        Property::Visible => if let Value::Bool(b) = v { p.visible = *b },
        Property::PenDown => if let Value::Bool(b) = v { p.pen_down = *b },
        _ => if let (Some(s), Value::Number(x)) = (prop_slot(p, prop), v) { *s = if rel { num(s.get() + x.get()) } else { *x } },
    }
}
