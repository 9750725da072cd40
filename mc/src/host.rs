//! The environment of an execution: one deterministic host model shared by the real VM and by the reference,
//! driven only by the scenario (how long calls stay pending, what they answer, when inputs/messages arrive, what the clock says).
use netsblox_vm::runtime::{KeyCode, SimpleValue};
use std::collections::VecDeque;

#[derive(Clone, Debug)]
pub enum In {
    Start,
    Stop,
    Key(KeyCode),
    KeyUp(KeyCode),
    Custom { name: String, args: Vec<(String, SimpleValue)>, interrupt: bool, max_queue: usize },
}
#[derive(Clone, Debug)]
pub struct Msg { pub ty: String, pub values: Vec<(String, SimpleValue)>, pub reply: Option<(String, String)> }

#[derive(Clone, Debug)]
pub enum Ans {
    /// the answer the named call has by default
    Default,
    /// the same, whichever call it is
    Same,
    Ok(SimpleValue),
    Err(String),
    /// the host refuses the call when it is issued
    Refuse(String),
    /// the host fails while being polled
    PollErr(String),
}

#[derive(Clone, Debug)]
pub struct Scn {
    pub max_depth: usize,
    pub rpc_soft: bool,
    pub sys_soft: bool,
    /// inputs become due when the trace has at least that many events
    pub inputs: Vec<(usize, In)>,
    pub msgs: Vec<(usize, Msg)>,
    /// for the k-th host call: how many polls stay pending, and the answer
    pub plan: Vec<(u8, Ans)>,
    /// replies to blocking network messages: pending polls, reply
    pub replies: Vec<(u8, Option<serde_json::Value>)>,
    /// clock advance when the trace reaches its k-th event, then `after` per event
    pub ticks: Vec<u64>,
    pub after: u64,
    pub clock0: u64,
    pub timeless: bool,
    /// the host has a calendar; minutes of its local time east of Greenwich, and the age in ms of what it answers when asked for less than full precision
    pub real: Option<(i32, u64)>,
    pub cap_events: usize,
    pub cap_quiet: usize,
    /// log the results of processes and step results other than effects
    pub log_yield: bool,
    /// poke every global/field into the trace when the execution ends
    pub final_state: bool,
    /// fraction of the range returned by the random source
    pub rand_num: u64,
    pub rand_den: u64,
    /// classes of successive draws (over rand_den), repeating; empty = rand_num for each
    pub rand_seq: Vec<u64>,
    /// follow watchers: the syscall `peek` shows what they show; 1 = those of locals may be gone, 2 = none may
    pub watch: u8,
    /// collect garbage after every event
    pub gc: bool,
    /// log what the error summary reports for failing scripts
    pub summaries: bool,
    /// extra scheduler steps of the VM (within the same quiet stretch) before the k-th message / input is delivered
    pub msg_delay: Vec<u8>,
    pub in_delay: Vec<u8>,
}
impl Default for Scn {
    fn default() -> Self {
        Scn { max_depth: 1024, rpc_soft: false, sys_soft: false, inputs: vec![(0, In::Start)], msgs: vec![], plan: vec![], replies: vec![], ticks: vec![], after: 0, clock0: 1000, timeless: false, real: None, cap_events: 60, cap_quiet: 3000, log_yield: true, final_state: true, rand_num: 1, rand_den: 2, rand_seq: vec![], watch: 0, gc: false, summaries: false, msg_delay: vec![], in_delay: vec![] }
    }
}

#[derive(Clone, Debug)]
pub enum Res { Ok(SimpleValue), Err(String), Fatal(String) }

struct Call { left: u8, res: Option<Res>, owner: usize }

fn ready(delay: &[u8], w: &mut (usize, u8, usize), len: usize) -> bool {
    if w.1 == 0 { w.2 = len; }
    if w.2 == len && w.1 < delay.get(w.0).copied().unwrap_or(0) { w.1 += 1; return false; }
    true
}
/// Per-execution environment state.
pub struct Host {
    pub scn: std::rc::Rc<Scn>,
    pub trace: Vec<String>,
    calls: Vec<Call>,
    replies: Vec<(u8, Option<Option<serde_json::Value>>)>,
    pub inputs: VecDeque<(usize, In)>,
    pub msgs: VecDeque<(usize, Msg)>,
    pub next_pid: usize,
    pub draws: usize,
    pub next_ent: usize,
    pub next_proc: usize,
    /// (how many delivered, how long the next one has been waiting)
    pub msg_wait: (usize, u8, usize),
    pub in_wait: (usize, u8, usize),
    /// memory measurements: events are only counted, and host state has a fixed size
    pub lean: bool,
    pub seen: usize,
    since: usize,
    pub ticks_seen: usize,
    ncalls: usize,
    nreplies: usize,
}
/// calls remembered by a lean host
const RING: usize = 1 << 12;
impl Host {
    pub fn new(scn: std::rc::Rc<Scn>) -> Host {
        Host { inputs: scn.inputs.iter().cloned().collect(), msgs: scn.msgs.iter().cloned().collect(), scn, trace: vec![], calls: vec![], replies: vec![], next_pid: 0, draws: 0, next_ent: 0, next_proc: 0, msg_wait: (0, 0, 0), in_wait: (0, 0, 0), lean: false, seen: 0, since: 0, ticks_seen: 0, ncalls: 0, nreplies: 0 }
    }
    pub fn lean(scn: std::rc::Rc<Scn>) -> Host {
        let mut h = Host::new(scn);
        h.lean = true;
        h.calls = (0..RING).map(|_| Call { left: 0, res: None, owner: 0 }).collect();
        h.replies = (0..RING).map(|_| (0, None)).collect();
        h
    }
    /// the next round asks the plan from its beginning again
    pub fn round(&mut self) { self.since = self.seen; self.inputs = self.scn.inputs.iter().cloned().collect(); self.msgs = self.scn.msgs.iter().cloned().collect(); self.msg_wait = (0, 0, 0); self.in_wait = (0, 0, 0); self.ncalls = 0; self.nreplies = 0; for c in &mut self.calls { c.res = None; } for c in &mut self.replies { c.1 = None; } }
    /// a lean host forgets the calls of long ago
    fn put(&mut self, k: usize, c: Call) { if self.lean { self.calls[k % RING] = c } else { self.calls.push(c) } self.ncalls = k + 1; }
    pub fn log(&mut self, s: String) { if self.lean { self.seen += 1; if s.ends_with("syscall @tick []") { self.ticks_seen += 1; } } else { self.trace.push(s) } }
    pub fn len(&self) -> usize { if self.lean { self.seen - self.since } else { self.trace.len() } }
    /// nothing more arrives
    pub fn silence(&mut self) { self.inputs = Default::default(); self.msgs = Default::default(); }
    pub fn full(&self) -> bool { self.len() >= self.scn.cap_events }
    pub fn input_due(&self) -> bool { self.inputs.front().is_some_and(|x| x.0 <= self.len()) }
    pub fn msg_due(&self) -> bool { self.msgs.front().is_some_and(|x| x.0 <= self.len()) }
    /// A due message or input may be held back for a few steps (of the VM; or break points of the reference), at most until the next event.
    pub fn msg_ready(&mut self) -> bool { self.msg_due() && ready(&self.scn.msg_delay, &mut self.msg_wait, self.seen.max(self.trace.len())) }
    pub fn input_ready(&mut self) -> bool { self.input_due() && ready(&self.scn.in_delay, &mut self.in_wait, self.seen.max(self.trace.len())) }
    pub fn next_msg(&mut self) -> Option<Msg> { self.msg_wait = (self.msg_wait.0 + 1, 0, 0); self.msgs.pop_front().map(|x| x.1) }
    pub fn next_input(&mut self) -> Option<In> { self.in_wait = (self.in_wait.0 + 1, 0, 0); self.inputs.pop_front().map(|x| x.1) }
    pub fn now(&self) -> u64 {
        if self.lean { return self.scn.clock0 + 7 * self.seen as u64; }
        let n = self.trace.len();
        let mut t = self.scn.clock0;
        for k in 0..n { t = t.saturating_add(self.scn.ticks.get(k).copied().unwrap_or(self.scn.after)); }
        t
    }
    /// `Err` = refused when issued. `default` computes the default answer.
    pub fn begin(&mut self, owner: usize, desc: String, default: impl FnOnce(usize) -> Res) -> Result<usize, String> {
        let k = self.ncalls;
        let (left, ans) = self.scn.plan.get(k).cloned().unwrap_or((0, Ans::Default));
        self.log(desc);
        let res = match ans {
            Ans::Default => default(k),
            Ans::Same => default(0),
            Ans::Ok(v) => Res::Ok(v),
            Ans::Err(e) => Res::Err(e),
            Ans::Refuse(e) => { self.put(k, Call { left: 0, res: None, owner }); return Err(e) }
            Ans::PollErr(e) => Res::Fatal(e),
        };
        self.put(k, Call { left, res: Some(res), owner });
        Ok(k)
    }
    /// None = pending
    pub fn poll(&mut self, k: usize, owner: usize) -> Option<Res> {
        let i = k % self.calls.len();
        if self.calls[i].owner != owner { self.log(format!("!! call {k} polled by another process")); }
        let c = &mut self.calls[i];
        if c.left > 0 { c.left -= 1; return None; }
        match c.res.take() {
            Some(r) => Some(r),
            None => { self.log(format!("!! call {k} polled after its answer was consumed")); Some(Res::Fatal("consumed".into())) }
        }
    }
    pub fn begin_reply(&mut self) -> usize {
        let k = self.nreplies;
        let (l, v) = self.scn.replies.get(k).cloned().unwrap_or((0, None));
        if self.lean { self.replies[k % RING] = (l, Some(v)) } else { self.replies.push((l, Some(v))) }
        self.nreplies = k + 1;
        k
    }
    pub fn poll_reply(&mut self, k: usize) -> Option<Option<serde_json::Value>> {
        let i = k % self.replies.len();
        let c = &mut self.replies[i];
        if c.0 > 0 { c.0 -= 1; return None; }
        match c.1.take() { Some(v) => Some(v), None => { self.log(format!("!! reply {k} polled after it was consumed")); Some(None) } }
    }
}

/// Default behaviour of host calls, by name.
pub fn default_answer(kind: &str, name: &str, args: &[SimpleValue], k: usize) -> Res {
    let arg0 = || args.first().cloned().unwrap_or_else(|| SimpleValue::Text("none".into()));
    match (kind, name) {
        (_, "echo") => Res::Ok(arg0()),
        (_, "T") => Res::Ok(SimpleValue::Bool(true)),
        (_, "F") => Res::Ok(SimpleValue::Bool(false)),
        (_, "fail") => Res::Err(format!("failed {k}")),
        (_, "flop") => Res::Err("flopped".into()),
        (_, "text") => Res::Ok(SimpleValue::Text(format!("answer {k}").as_str().into())),
        (_, "list") => Res::Ok(SimpleValue::List(vec![SimpleValue::Number(num(k as f64)), SimpleValue::List(vec![])])),
        _ => Res::Ok(SimpleValue::Number(num(100.0 + k as f64))),
    }
}
pub fn num(x: f64) -> netsblox_vm::runtime::Number { netsblox_vm::runtime::Number::new(x).unwrap() }

thread_local! { static FLAT: std::cell::Cell<bool> = const { std::cell::Cell::new(false) }; }
/// Lists are shown as trees cut at a depth instead of by identity.
pub fn flat() -> bool { FLAT.with(|f| f.get()) }
pub fn set_flat(x: bool) { FLAT.with(|f| f.set(x)) }
pub const FLAT_DEPTH: usize = 5;
pub const FLAT_NODES: usize = 160;
