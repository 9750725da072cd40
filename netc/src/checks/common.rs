//! The system under test, its projects, and what they print.
pub use crate::b::*;
pub use crate::dfs::*;
pub use crate::report::Check;
pub use crate::server::*;
use crate::clock;
pub use netsblox_vm::compact_str::CompactString;
use netsblox_vm::bytecode::ByteCode;
use netsblox_vm::gc::*;

use netsblox_vm::project::*;
use netsblox_vm::real_time::UtcOffset;
pub use netsblox_vm::runtime::*;
pub use netsblox_vm::std_system::StdSystem;
use netsblox_vm::std_util::Clock;
pub use netsblox_vm::vecmap::VecMap;
pub use serde_json::{json, Value as J};
use std::cell::RefCell;
use std::panic::{catch_unwind, AssertUnwindSafe};
pub use std::rc::Rc;
use std::sync::Arc;
use std::time::{Duration, Instant};

pub type V<'gc> = netsblox_vm::runtime::Value<'gc, NC, NSys>;
pub type Cfg = Config<NC, NSys>;
pub struct NC;
pub type NSys = StdSystem<NC>;
#[derive(Debug)]
pub enum NoNative {}
impl GetType for NoNative { type Output = NoNativeType; fn get_type(&self) -> Self::Output { match *self {} } }
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum NoNativeType {}
pub struct Nothing;
impl From<EntityKind<'_, '_, NC, NSys>> for Nothing { fn from(_: EntityKind<'_, '_, NC, NSys>) -> Self { Nothing } }
impl From<ProcessKind<'_, '_, NC, NSys>> for Nothing { fn from(_: ProcessKind<'_, '_, NC, NSys>) -> Self { Nothing } }
impl Unwindable for Nothing { type UnwindPoint = (); fn get_unwind_point(&self) {} fn unwind_to(&mut self, _: &()) {} }
impl CustomTypes<NSys> for NC {
    type NativeValue = NoNative;
    type Intermediate = SimpleValue;
    type EntityState = Nothing;
    type ProcessState = Nothing;
    fn from_intermediate<'gc>(mc: &Mutation<'gc>, value: SimpleValue) -> V<'gc> { netsblox_vm::runtime::Value::from_simple(mc, value) }
}

/// A system under test and the server it talks to.
pub struct World { pub sys: Rc<NSys>, pub srv: Session, pub clock: Arc<Clock>, pub client: String, pub project: String, pub startup: Vec<(String, String, String)>, pub stash: Vec<IncomingMessage>, now: i64, cached: bool, synced: usize }
pub const T0: i64 = 1_700_000_000_000;
impl World {
    pub fn new(project: Option<&str>, cfg: Cfg, cached: bool) -> Result<World, String> {
        let mut srv = Session::new();
        clock::set(Some(T0));
        let clock = Arc::new(Clock::new(UtcOffset::UTC, cached.then_some(Precision::Medium)));
        in_vm(true);
        let r = catch_unwind(AssertUnwindSafe(|| StdSystem::new_sync(CompactString::new(&srv.base), project, cfg, clock.clone())));
        in_vm(false);
        let sys = Rc::new(r.map_err(|e| format!("the system failed to start: {}", panic_text(&*e)))?);
        let startup: Vec<_> = srv.http.try_iter().collect();
        let hello = srv.next_json().ok_or("the system did not announce itself")?;
        let client = hello["clientId"].as_str().unwrap_or("").to_string();
        if hello != json!({ "type": "set-uuid", "clientId": client }) || client.is_empty() { return Err(format!("the system announced itself with {hello}")); }
        Ok(World { sys, srv, clock, client, project: project.unwrap_or("untitled").into(), startup, stash: vec![], now: T0, cached, synced: 0 })
    }
    pub fn public_id(&self) -> String { format!("{}@{}#vm", self.project, self.client) }
    /// milliseconds since the start
    pub fn now(&self) -> i64 { self.now - T0 }
    pub fn advance(&mut self, ms: i64) { self.now += ms; clock::set(Some(self.now)); if self.cached { self.clock.update(); } }
    /// Everything the server has sent so far has been dealt with by the system when this returns; messages received meanwhile are kept.
    pub fn settle(&mut self) -> Result<(), String> {
        self.synced += 1;
        let tag = format!("__sync {}", self.synced);
        self.srv.send(&json!({ "type": "message", "msgType": tag, "content": {} }).to_string());
        let t = Instant::now();
        loop {
            match self.sys.receive_message() {
                Some(m) if m.msg_type == tag => return Ok(()),
                Some(m) => self.stash.push(m),
                None => { if t.elapsed() > PATIENCE { return Err("a well-formed message never arrived".into()); } std::thread::sleep(Duration::from_micros(200)); }
            }
        }
    }
    /// Nothing else is on its way to the server when this returns.
    pub fn flush(&mut self) -> Result<Vec<J>, String> {
        self.synced += 1;
        let tag = format!("__end {}", self.synced);
        self.sys.send_message(tag.as_str().into(), VecMap::new(), vec![], false).map_err(|e| format!("send_message failed: {e:?}"))?;
        let mut o = vec![];
        loop {
            let Some(f) = self.srv.next_json() else { return Err("a message handed to the system never reached the server".into()) };
            if f["msgType"] == tag { return Ok(o); }
            o.push(f);
        }
    }
}
impl Drop for World { fn drop(&mut self) { clock::set(None); } }

/// what printing produced: (kind of entry, text)
pub type Out = Rc<RefCell<Vec<String>>>;
pub fn show(v: &SimpleValue) -> String {
    match v {
        SimpleValue::Bool(b) => format!("bool {b}"), SimpleValue::Number(x) => format!("num {}", x.get()), SimpleValue::Text(t) => format!("text {t:?}"),
        SimpleValue::Image(i) => format!("image {:?} {:?} {}", i.content, i.center.map(|(a, b)| (a.get(), b.get())), i.name), SimpleValue::Audio(a) => format!("audio {:?} {}", a.content, a.name),
        SimpleValue::List(l) => format!("[{}]", l.iter().map(show).collect::<Vec<_>>().join(", ")),
    }
}
pub fn shown(v: &V<'_>) -> String { match v.to_simple() { Ok(s) => show(&s), Err(e) => format!("? {e:?}") } }
/// a configuration that prints into `out`
pub fn printing(out: &Out) -> Cfg {
    let o = out.clone();
    Config {
        request: None,
        command: Some(Rc::new(move |_, key, command, _| match command {
            Command::Print { value, .. } => { o.borrow_mut().push(value.map(|v| shown(&v)).unwrap_or("text \"\"".into())); key.complete(Ok(())); CommandStatus::Handled }
            _ => CommandStatus::UseDefault { key, command },
        })),
    }
}
#[derive(Collect)]
#[collect(no_drop)]
pub struct Env<'gc> { pub proj: Gc<'gc, RefLock<Project<'gc, NC, NSys>>> }
pub type EnvArena = Arena<Rootable![Env<'_>]>;
/// A project on a system under test; everything printed and every error goes to `out`.
pub struct Running { env: EnvArena, pub out: Out, pub steps: u64 }
pub fn cause(c: &ErrorCause<NC, NSys>) -> String { match c { ErrorCause::Custom { msg } => format!("error {msg:?}"), ErrorCause::Promoted { error } => format!("error {error:?}"), ErrorCause::NotSupported { feature } => format!("unsupported {feature:?}"), c => format!("error {}", format!("{c:?}").split([' ', '{', '(']).next().unwrap()) } }
impl Running {
    pub fn new(role: &Role, w: &World, out: &Out, soft: bool) -> Running {
        let (code, init, _, _) = ByteCode::compile(role).expect("HARNESS: compile");
        let settings = Settings { rpc_error_scheme: if soft { ErrorScheme::Soft } else { ErrorScheme::Hard }, ..Settings::default() };
        let env = EnvArena::new(|mc| { let mut p = Project::from_init(mc, &init, Rc::new(code), settings, w.sys.clone()); p.input(mc, Input::Start); Env { proj: Gc::new(mc, RefLock::new(p)) } });
        Running { env, out: out.clone(), steps: 0 }
    }
    /// one step; whether it was idle
    pub fn step(&mut self) -> Result<bool, String> {
        self.steps += 1;
        in_vm(true);
        let o = self.out.clone();
        let r = catch_unwind(AssertUnwindSafe(|| self.env.mutate(|mc, env| match env.proj.borrow_mut(mc).step(mc) {
            ProjectStep::Idle => true,
            ProjectStep::Error { error, .. } => { o.borrow_mut().push(cause(&error.cause)); false }
            _ => false,
        })));
        in_vm(false);
        r.map_err(|e| format!("panic: {}", panic_text(&*e)))
    }
    pub fn steps(&mut self, k: usize) -> Result<bool, String> { let mut idle = false; for _ in 0..k { idle = self.step()?; } Ok(idle) }
    /// runs until `n` entries were printed
    pub fn until(&mut self, n: usize, what: &str) -> Result<(), String> {
        let t = Instant::now();
        loop {
            self.steps(20)?;
            if self.out.borrow().len() >= n { return Ok(()); }
            if t.elapsed() > PATIENCE { return Err(format!("{what} (printed so far: {:?})", self.out.borrow())); }
            std::thread::sleep(Duration::from_micros(100));
        }
    }
}

/// runs one execution against the implementation; panics of the implementation are failures
pub fn guarded(f: impl FnOnce() -> Result<Vec<u64>, String>) -> Result<Vec<u64>, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(x) => x,
        Err(e) => { let p = panic_text(&*e); if p.starts_with("HARNESS") { panic!("{p}") } Err(format!("panic: {p}")) }
    }
}
