//! Reference semantics of projects: a direct, recursive interpreter of the abstract syntax tree whose scripts
//! are coroutines, and the turn-taking rules of the scheduler. Shares no code with the virtual machine
//! (values, operators, compiler, byte code, call frames, handlers and scheduling are all separate); the only
//! shared parts are the scripted host and the plain wire-value type.
use crate::host::*;
use crate::refops::{self as ops, Bin, Rel, Un};
use crate::rv::*;
use crate::rv::num;
use netsblox_vm::ast::{self, ExprKind as X, HatKind, Stmt, StmtKind as K, StopMode, TextSplitMode, TimeQuery};
use netsblox_vm::runtime::{KeyCode, SimpleValue};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashMap, VecDeque};
use std::future::Future;
use std::pin::Pin;
use std::rc::{Rc, Weak};
use std::task::{Context, Poll, Waker};

type Fut<'a, T> = Pin<Box<dyn Future<Output = T> + 'a>>;
type E<T> = Result<T, String>;
pub enum Flow { Next, Ret(RV) }

pub struct Fr { pub locals: Scope, ent: Rc<REnt>, lex: Option<usize>, parent: Option<Rc<Fr>>, depth: usize }
enum Step {
    Yield,
    Break,
    Spin,
    Fork { ring: Rc<Ring>, locals: BTreeMap<String, CellV>, ent: Rc<REnt> },
    Broadcast { msg: String, targets: Option<Vec<Rc<REnt>>>, barrier: Option<Rc<()>> },
    Cloned(Rc<REnt>),
    Deleted(Rc<REnt>),
    AbortCurrent,
    AbortAll,
    AbortOthers,
    AbortMine(Rc<REnt>),
}
struct W {
    role: Rc<ast::Role>,
    scn: Rc<Scn>,
    held: bool,
    h: Rc<RefCell<Host>>,
    globals: Scope,
    ents: Vec<Rc<REnt>>,
    timer: Cell<u64>,
    ticks: Cell<u64>,
    last_len: Cell<usize>,
    total: Cell<u64>,
    /// name, entity, variable, is it a local
    watched: RefCell<Vec<(String, Rc<REnt>, CellV, bool)>>,
}
struct Pr {
    w: Rc<W>,
    uid: usize,
    pid: Cell<Option<usize>>,
    root: Rc<REnt>,
    step: RefCell<Option<Step>>,
    warp: Cell<usize>,
    tokens: RefCell<Vec<u32>>,
    answer: RefCell<Option<RV>>,
    rpc_err: RefCell<Option<RV>>,
    sys_err: RefCell<Option<RV>>,
    message: Option<String>,
    reply: RefCell<Option<(String, String)>>,
    barrier: RefCell<Option<Rc<()>>>,
    /// where the error being raised comes from: the innermost located block, and the frames left so far
    err_at: RefCell<Option<String>>,
    err_frames: RefCell<Vec<(Option<String>, Rc<Fr>)>>,
}
struct Susp<'a> { p: &'a Pr, step: Option<Step>, done: bool }
impl Unpin for Susp<'_> {}
impl Future for Susp<'_> {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<()> {
        if self.done { return Poll::Ready(()); }
        self.done = true;
        let s = self.step.take();
        *self.p.step.borrow_mut() = s;
        Poll::Pending
    }
}
fn undef(x: &str) -> String { format!("UndefinedVariable {{ name: {x:?} }}") }
fn lookup<'a>(w: &W, f: &Fr, x: &str) -> E<CellV> {
    if let Some(c) = f.locals.borrow().get(x) { return Ok(c.clone()); }
    if let Some(c) = f.ent.fields.borrow().get(x) { return Ok(c.clone()); }
    if let Some(c) = w.globals.borrow().get(x) { return Ok(c.clone()); }
    Err(undef(x))
}
enum Act { Rpc, Sys, Answer, Push, Cmd }

impl Pr {
    fn susp(&self, s: Step) -> Susp<'_> { Susp { p: self, step: Some(s), done: false } }
    fn pid(&self) -> usize {
        match self.pid.get() { Some(x) => x, None => { let mut h = self.w.h.borrow_mut(); let x = h.next_pid; h.next_pid += 1; self.pid.set(Some(x)); x } }
    }
    async fn tick(&self) {
        let w = &self.w;
        w.total.set(w.total.get() + 1);
        let l = w.h.borrow().trace.len();
        if l != w.last_len.get() { w.last_len.set(l); w.ticks.set(0); }
        w.ticks.set(w.ticks.get() + 1);
        if w.ticks.get() > w.scn.cap_quiet as u64 { self.susp(Step::Spin).await; }
    }
    async fn brk(&self) {
        let due = { let mut h = self.w.h.borrow_mut(); h.full() | h.input_ready() | h.msg_ready() };
        if due { self.susp(Step::Break).await; }
    }
    async fn yield_(&self) { self.tick().await; if self.warp.get() == 0 { self.turn().await; } }
    async fn turn(&self) { self.gap().await; self.susp(Step::Yield).await }
    /// Between actions without an event: something held back may arrive here.
    async fn gap(&self) { if self.w.held { self.brk().await } }
    async fn log(&self, s: String) { self.w.h.borrow_mut().log(s); self.brk().await; }

    async fn host(&self, desc: String, act: Act, default: Box<dyn FnOnce(usize) -> Res + '_>) -> E<Option<RV>> {
        let k = self.w.h.borrow_mut().begin(self.uid, desc, default)?;
        self.brk().await;
        let r = loop {
            self.tick().await;
            let r = self.w.h.borrow_mut().poll(k, self.uid);
            match r { Some(r) => break r, None => self.turn().await }
        };
        let (soft, slot) = match act { Act::Rpc => (self.w.scn.rpc_soft, Some(&self.rpc_err)), Act::Sys => (self.w.scn.sys_soft, Some(&self.sys_err)), _ => (false, None) };
        match r {
            Res::Fatal(e) => Err(e),
            Res::Ok(x) => {
                let x = from_simple(&x);
                if let Some(s) = slot { *s.borrow_mut() = None; }
                if let Act::Answer = act { *self.answer.borrow_mut() = Some(x.clone()); }
                Ok(if let Act::Cmd = act { None } else { Some(x) })
            }
            Res::Err(e) => if soft {
                let x = text(&e);
                *slot.unwrap().borrow_mut() = Some(x.clone());
                Ok(Some(x))
            } else { Err(format!("Promoted {{ error: {e:?} }}")) },
        }
    }
    async fn cmd(&self, desc: String) -> E<()> { self.host(desc, Act::Cmd, Box::new(|_| Res::Ok(SimpleValue::Bool(true)))).await.map(|_| ()) }

    async fn print(&self, style: &str, v: RV) -> E<()> {
        let d = match &v { RV::Text(s) if s.is_empty() => "-".to_string(), v => render(v) };
        self.cmd(format!("p{} {style} {d}", self.pid())).await
    }
    fn calendar(&self, q: &TimeQuery) -> E<f64> {
        let Some((zone, _)) = self.w.scn.real else { return Err("NotSupported { feature: RealTime }".into()) };
        let ms = self.w.h.borrow().now() as i64;
        let local = ms.div_euclid(1000) + zone as i64 * 60;
        let (day, s) = (local.div_euclid(86400), local.rem_euclid(86400));
        // years of 365 days and the leap days among them, counted up from 1970
        let leap = |y: i64| y % 4 == 0 && (y % 100 != 0 || y % 400 == 0);
        let (mut y, mut d) = (1970, day);
        while d < 0 { y -= 1; d += 365 + leap(y) as i64; }
        while d >= 365 + leap(y) as i64 { d -= 365 + leap(y) as i64; y += 1; }
        let mut m = 0;
        let len = |m: usize| [31, 28 + leap(y) as i64, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31][m];
        while d >= len(m) { d -= len(m); m += 1; }
        Ok(match q {
            TimeQuery::Year => y, TimeQuery::Month => m as i64 + 1, TimeQuery::Date => d + 1,
            // the first of January 1970 was a Thursday; Sunday is 1
            TimeQuery::DayOfWeek => (day + 4).rem_euclid(7) + 1,
            TimeQuery::Hour => s / 3600, TimeQuery::Minute => s / 60 % 60, TimeQuery::Second => s % 60,
            TimeQuery::UnixTimestampMs => ms,
        } as f64)
    }
    fn now(&self) -> E<u64> { if self.w.scn.timeless { Err("NotSupported { feature: ArbitraryTime }".into()) } else { Ok(self.w.h.borrow().now()) } }
    async fn sleep(&self, v: RV) -> E<()> {
        let ms = v.as_num()? * 1000.0;
        if ms <= 0.0 { self.turn().await; return Ok(()); }
        let until = self.now()?.saturating_add(ms as u64);
        while self.now()? < until { self.tick().await; self.turn().await; }
        Ok(())
    }
    async fn notes(&self, v: RV, b: RV, blocking: bool) -> E<()> {
        let b = b.as_num()?;
        let ns = match &v { RV::List(l) => l.borrow().iter().map(ops::note).collect::<Result<Vec<_>, _>>()?, v => vec![ops::note(v)?] };
        if b > 0.0 { self.cmd(format!("p{} notes {ns:?} {b:?} {blocking}", self.pid())).await?; }
        Ok(())
    }
    async fn setp(&self, f: &Fr, prop: &str, v: RV, change: bool) -> E<()> {
        let d = format!("p{} {} {prop} {} of #{}", self.pid(), if change { "change" } else { "set" }, render(&v), f.ent.id);
        {
            let mut ps = f.ent.props.borrow_mut();
            match (ps.get_mut(prop), &v) {
                (Some(SimpleValue::Bool(b)), RV::Bool(x)) => *b = *x,
                (Some(SimpleValue::Number(b)), RV::Num(x)) => *b = crate::host::num(if change { b.get() + x } else { *x }),
                _ => {}
            }
        }
        self.cmd(d).await
    }
    async fn getp(&self, f: &Fr, prop: &str) -> E<RV> {
        let v = f.ent.props.borrow().get(prop).cloned().unwrap_or(SimpleValue::Number(crate::host::num(0.0)));
        Ok(self.host(format!("p{} get {prop} of #{}", self.pid(), f.ent.id), Act::Push, Box::new(move |_| Res::Ok(v))).await?.unwrap())
    }

    // ---------------------------------------------------------------- calls
    async fn enter(&self, fr: Fr, body: &'static [Stmt], ups: &'static [ast::VariableRef]) -> E<RV> {
        let (w, tk) = (self.warp.get(), self.tokens.borrow().len());
        let fr = Rc::new(fr);
        for u in ups {
            let target = lookup(&self.w, &fr, &u.name)?.borrow().as_text()?;
            let parent = fr.parent.as_ref().ok_or("UpvarAtRoot")?;
            let c = parent.locals.borrow().get(&target).cloned().ok_or_else(|| undef(&u.name))?;
            fr.locals.borrow_mut().insert(u.name.to_string(), c);
        }
        let r = self.ex(&fr, body).await;
        if r.is_err() && self.w.scn.summaries { let at = self.err_at.borrow_mut().take(); self.err_frames.borrow_mut().push((at, fr)); }
        let r = r?;
        self.warp.set(w);
        self.tokens.borrow_mut().truncate(tk);
        Ok(match r { Flow::Next => text(""), Flow::Ret(v) => v })
    }
    async fn call_fn(&self, f: &Rc<Fr>, name: &'static ast::FnRef, args: &'static [ast::Expr], upvars: &'static [ast::VariableRef]) -> E<RV> {
        for u in upvars { f.locals.borrow_mut().insert(u.name.to_string(), cell(n(0.0))); }
        let mut vs = vec![];
        for a in args { vs.push(self.ev(f, a).await?); }
        let role: &'static ast::Role = unsafe { &*(&*self.w.role as *const _) };
        let find = |fs: &'static [ast::Function]| fs.iter().rev().find(|x| x.trans_name == name.trans_name);
        let (func, lex) = match f.lex.and_then(|i| find(&role.entities[i].funcs)) { Some(x) => (x, f.lex), None => (find(&role.funcs).expect("HARNESS: no such function"), None) };
        self.depth_check(f)?;
        assert_eq!(func.params.len(), vs.len(), "HARNESS: arity");
        let fr = Fr { locals: RefCell::new(func.params.iter().map(|p| p.trans_name.to_string()).zip(vs.into_iter().map(cell)).collect()), ent: f.ent.clone(), lex, parent: Some(f.clone()), depth: f.depth + 1 };
        self.enter(fr, &func.stmts, &func.upvars).await
    }
    fn raised(&self, info: &ast::BlockInfo) { if let (Some(l), true) = (&info.location, self.w.scn.summaries) { self.err_at.borrow_mut().get_or_insert_with(|| l.to_string()); } }
    fn summary(&self, e: &str) -> String {
        let fs = self.err_frames.borrow();
        let ent = &fs[0].1.ent;
        let t = fs.iter().rev().filter_map(|(at, f)| at.as_ref().map(|at| format!("{at}({})", debug_scope(&f.locals)))).collect::<Vec<_>>().join(" > ");
        format!("summary {e} in {} [{t}] globals({}) fields({})", ent.name, debug_scope(&self.w.globals), debug_scope(&ent.fields))
    }
    fn depth_check(&self, f: &Fr) -> E<()> { let limit = self.w.scn.max_depth; if f.depth >= limit { Err(format!("CallDepthLimit {{ limit: {limit} }}")) } else { Ok(()) } }
    fn bind(&self, c: &RV, args: Vec<RV>) -> E<(Rc<Ring>, BTreeMap<String, CellV>)> {
        let r = c.as_ring()?;
        if r.params.len() != args.len() { return Err(format!("ClosureArgCount {{ expected: {}, got: {} }}", r.params.len(), args.len())); }
        let mut m = BTreeMap::new();
        for (k, c) in &r.caps { m.insert(k.clone(), c.clone()); }
        for (k, v) in r.params.iter().zip(args) { m.insert(k.clone(), cell(v)); }
        Ok((r, m))
    }
    async fn call_ring(&self, f: &Rc<Fr>, ent: Option<&RV>, c: &RV, args: Vec<RV>) -> E<RV> {
        self.tick().await;
        self.depth_check(f)?;
        let (r, locals) = self.bind(c, args)?;
        let ent = match ent { Some(x) => x.as_ent()?, None => f.ent.clone() };
        let fr = Fr { locals: RefCell::new(locals), ent, lex: r.lex, parent: Some(f.clone()), depth: f.depth + 1 };
        let body: &'static Vec<Stmt> = unsafe { &*r.body };
        self.enter(fr, body, &[]).await
    }
    async fn evs(&self, f: &Rc<Fr>, xs: &'static [ast::Expr]) -> E<Vec<RV>> { let mut v = vec![]; for x in xs { v.push(self.ev(f, x).await?); } Ok(v) }
    /// Evaluates the operands of a variadic block; `Err` of the inner result = not a list.
    async fn variadic(&self, f: &Rc<Fr>, x: &'static ast::Expr) -> E<E<Vec<RV>>> {
        Ok(match &x.kind {
            X::Value(ast::Value::List(vs, _)) => Ok(vs.iter().map(lit).collect::<E<Vec<_>>>()?),
            X::MakeList { values } => Ok(self.evs(f, values).await?),
            _ => { let v = self.ev(f, x).await?; v.as_list().map(|l| l.borrow().clone()) }
        })
    }
    fn rand(&self, len: usize) -> E<usize> {
        if len == 0 { return Err(ops::oob(1, 0)); }
        let x = (((2 * self.w.scn.rand_num as u128 + 1) << 63) / self.w.scn.rand_den as u128).min(u64::MAX as u128);
        Ok(((x * len as u128) >> 64) as usize)
    }
    async fn send(&self, f: &Rc<Fr>, target: &'static ast::Expr, ty: &str, values: &'static [(netsblox_vm::compact_str::CompactString, ast::Expr)], wait: bool) -> E<RV> {
        let mut vs: Vec<(String, RV)> = vec![];
        let mut raw = vec![];
        for (_, x) in values { raw.push(self.ev(f, x).await?); }
        for ((k, _), v) in values.iter().zip(raw) { match vs.iter_mut().find(|x| x.0 == k.as_str()) { Some(x) => x.1 = v, None => vs.push((k.to_string(), v)) } }
        let bad = |x: &RV| format!("VariadicConversionError {{ got: {}, expected: Text }}", x.ty());
        let targets: Vec<String> = match self.ev(f, target).await? {
            RV::Text(x) => vec![x.to_string()],
            RV::List(l) => { let l = l.borrow().clone(); l.iter().map(|x| match x { RV::Text(s) => Ok(s.to_string()), x => Err(bad(x)) }).collect::<E<_>>()? }
            x => return Err(bad(&x)),
        };
        let mut fields = vec![];
        for (k, v) in vs { fields.push(format!("{k}: {}", wire(&v)?)); }
        let d = format!("send {ty} {{{}}} to {targets:?}{}", fields.join(", "), if wait { " wait" } else { "" });
        if !wait { self.log(d).await; return Ok(text("")); }
        let k = { let mut h = self.w.h.borrow_mut(); h.log(d); h.begin_reply() };
        self.brk().await;
        loop {
            self.tick().await;
            let r = self.w.h.borrow_mut().poll_reply(k);
            match r {
                None => self.turn().await,
                Some(None) => return Ok(text("")),
                Some(Some(j)) => return SimpleValue::from_netsblox_json(j).map(|x| from_simple(&x)).map_err(|e| format!("FromNetsBloxJsonError {{ error: {e:?} }}")),
            }
        }
    }

    // ---------------------------------------------------------------- statements
    fn ex<'a>(&'a self, f: &'a Rc<Fr>, body: &'static [Stmt]) -> Fut<'a, E<Flow>> {
        Box::pin(async move {
            for st in body {
                self.tick().await;
                self.gap().await;
                match self.stmt(f, st).await { Ok(Flow::Next) => {} Err(e) => { self.raised(&st.info); return Err(e) } r => return r }
            }
            self.gap().await;
            Ok(Flow::Next)
        })
    }
    fn stmt<'a>(&'a self, f: &'a Rc<Fr>, st: &'static Stmt) -> Fut<'a, E<Flow>> {
        macro_rules! body { ($b:expr) => { match self.ex(f, $b).await? { Flow::Next => {} r => return Ok(r) } } }
        macro_rules! ev { ($x:expr) => { self.ev(f, $x).await? } }
        macro_rules! setp { ($p:expr, $v:expr) => {{ let v = ev!($v); self.setp(f, $p, v, false).await? }} }
        macro_rules! chgp { ($p:expr, $v:expr) => {{ let v = ev!($v); self.setp(f, $p, v, true).await? }} }
        Box::pin(async move {
            match &st.kind {
                K::DeclareLocals { vars } => for v in vars { f.locals.borrow_mut().insert(v.trans_name.to_string(), cell(n(0.0))); },
                K::Assign { var, value } => { let v = ev!(value); *lookup(&self.w, f, &var.trans_name)?.borrow_mut() = v; }
                K::AddAssign { var, value } => {
                    let b = ev!(value);
                    let c = lookup(&self.w, f, &var.trans_name)?;
                    let a = c.borrow().clone();
                    let r = ops::bin(Bin::Add, &a, &b)?;
                    *c.borrow_mut() = r;
                }
                K::ShowVar { var } | K::HideVar { var } => {
                    let c = lookup(&self.w, f, &var.trans_name)?;
                    let s = format!("W {} {} of {}#{} = {}", if matches!(st.kind, K::ShowVar { .. }) { "show" } else { "hide" }, var.trans_name, f.ent.name, f.ent.id, render(&c.borrow()));
                    let s = if self.w.scn.watch > 0 {
                        let mut all = self.w.watched.borrow_mut();
                        let m: Vec<usize> = (0..all.len()).filter(|i| Rc::ptr_eq(&all[*i].2, &c)).collect();
                        let s = format!("{s} as {m:?}");
                        if matches!(st.kind, K::ShowVar { .. }) { if m.is_empty() { let local = f.locals.borrow().contains_key(var.trans_name.as_str()); all.push((var.trans_name.to_string(), f.ent.clone(), c, local)); } }
                        else { for i in m.into_iter().rev() { all.remove(i); } }
                        s
                    } else { s };
                    self.log(s).await;
                }
                K::Pause => self.log("P".into()).await,
                K::Warp { stmts } => { self.warp.set(self.warp.get() + 1); body!(stmts); self.warp.set(self.warp.get() - 1); }
                K::InfLoop { stmts } => loop { body!(stmts); self.yield_().await; },
                K::WaitUntil { condition } => loop { if ev!(condition).as_bool()? { break; } self.yield_().await; },
                K::UntilLoop { condition, stmts } => loop { if ev!(condition).as_bool()? { break; } body!(stmts); self.yield_().await; },
                K::Repeat { times, stmts } => {
                    let mut left = ev!(times);
                    while ops::relation(Rel::Gt, &left, &n(0.0))? {
                        body!(stmts);
                        left = ops::bin(Bin::Sub, &left, &n(1.0))?;
                        self.yield_().await;
                    }
                }
                K::ForLoop { var, start, stop, stmts } => {
                    f.locals.borrow_mut().insert(var.name.to_string(), cell(n(0.0)));
                    let a = ev!(start).as_num()?;
                    let z = ev!(stop).as_num()?;
                    let d = if a > z { -1.0 } else { 1.0 };
                    let mut left = num((z - a).abs())?.as_num()?;
                    let mut i = a;
                    while left >= 0.0 {
                        *lookup(&self.w, f, &var.trans_name)?.borrow_mut() = n(i);
                        body!(stmts);
                        left -= 1.0;
                        i += d;
                        self.yield_().await;
                    }
                }
                K::ForeachLoop { var, items, stmts } => {
                    f.locals.borrow_mut().insert(var.name.to_string(), cell(n(0.0)));
                    let l = ev!(items).as_list()?.borrow().clone();
                    for x in l {
                        *lookup(&self.w, f, &var.trans_name)?.borrow_mut() = x;
                        body!(stmts);
                        self.yield_().await;
                    }
                }
                K::If { condition, then } => if ev!(condition).as_bool()? { body!(then) },
                K::IfElse { condition, then, otherwise } => if ev!(condition).as_bool()? { body!(then) } else { body!(otherwise) },
                K::TryCatch { code, var, handler } => {
                    let (w, tk) = (self.warp.get(), self.tokens.borrow().len());
                    match self.ex(f, code).await {
                        Ok(Flow::Next) => {}
                        Ok(r) => return Ok(r),
                        Err(c) => {
                            *self.err_at.borrow_mut() = None;
                            self.err_frames.borrow_mut().clear();
                            self.warp.set(w);
                            self.tokens.borrow_mut().truncate(tk);
                            f.locals.borrow_mut().insert(var.trans_name.to_string(), cell(text(&c)));
                            self.brk().await;
                            body!(handler);
                        }
                    }
                }
                K::Throw { error } => return Err(ev!(error).as_text()?),
                K::Return { value } => return Ok(Flow::Ret(ev!(value))),
                K::ListInsert { list, value, index } => {
                    let (v, i, l) = (ev!(value), ev!(index), ev!(list).as_list()?);
                    let len = l.borrow().len();
                    let set = ops::index_set(&i, len + 1)?;
                    for i in set.into_iter().rev() { l.borrow_mut().insert(i, v.clone()); }
                }
                K::ListInsertLast { list, value } => { let (v, l) = (ev!(value), ev!(list).as_list()?); l.borrow_mut().push(v); }
                K::ListInsertRandom { list, value } => { let (v, l) = (ev!(value), ev!(list).as_list()?); let len = l.borrow().len(); l.borrow_mut().insert(self.rand(len + 1)?, v); }
                K::ListRemove { list, index } => {
                    let (i, l) = (ev!(index), ev!(list).as_list()?);
                    let len = l.borrow().len();
                    let set = ops::index_set(&i, len)?;
                    for i in set.into_iter().rev() { l.borrow_mut().remove(i); }
                }
                K::ListRemoveLast { list } => { let l = ev!(list).as_list()?; l.borrow_mut().pop().ok_or_else(|| ops::oob(1, 0))?; }
                K::ListRemoveAll { list } => ev!(list).as_list()?.borrow_mut().clear(),
                K::ListAssign { list, value, index } => {
                    let (i, l, v) = (ev!(index), ev!(list), ev!(value));
                    let l = l.as_list()?;
                    let len = l.borrow().len();
                    for i in ops::index_set(&i, len)? { l.borrow_mut()[i] = v.clone(); }
                }
                K::ListAssignLast { list, value } => { let (l, v) = (ev!(list), ev!(value)); let l = l.as_list()?; let len = l.borrow().len(); if len == 0 { return Err(ops::oob(1, 0)); } l.borrow_mut()[len - 1] = v; }
                K::ListAssignRandom { list, value } => { let (l, v) = (ev!(list), ev!(value)); let l = l.as_list()?; let len = l.borrow().len(); let i = self.rand(len)?; l.borrow_mut()[i] = v; }
                K::Sleep { seconds } => { let v = ev!(seconds); self.sleep(v).await? }
                K::Say { content, duration } | K::Think { content, duration } => {
                    let style = if matches!(st.kind, K::Say { .. }) { "say" } else { "think" };
                    let v = ev!(content);
                    self.print(style, v).await?;
                    if let Some(d) = duration { let d = ev!(d); self.sleep(d).await?; self.print(style, text("")).await?; }
                }
                K::Ask { prompt } => {
                    let d = match ev!(prompt) { RV::Text(s) if s.is_empty() => "-".to_string(), v => render(&v) };
                    self.host(format!("p{} ask {d}", self.pid()), Act::Answer, Box::new(|k| default_answer("ask", "text", &[], k))).await?;
                }
                K::ResetTimer => { let t = self.now()?; self.w.timer.set(t); }
                K::CallFn { function, args, upvars } => { self.call_fn(f, function, args, upvars).await?; }
                K::CallClosure { new_entity, closure, args } => {
                    let ent = match new_entity { Some(x) => Some(ev!(x)), None => None };
                    let c = ev!(closure);
                    let a = self.evs(f, args).await?;
                    self.call_ring(f, ent.as_ref(), &c, a).await?;
                }
                K::ForkClosure { closure, args } => {
                    let c = ev!(closure);
                    let a = self.evs(f, args).await?;
                    let (ring, locals) = self.bind(&c, a)?;
                    self.susp(Step::Fork { ring, locals, ent: f.ent.clone() }).await;
                }
                K::Clone { target } => { let t = ev!(target); self.clone_ent(t).await?; }
                K::DeleteClone => if f.ent.original.is_some() { self.susp(Step::Deleted(f.ent.clone())).await },
                K::SendLocalMessage { target, msg_type, wait } => {
                    let m = ev!(msg_type);
                    let targets = match target {
                        None => None,
                        Some(t) => Some(match ev!(t) { RV::List(l) => { let l = l.borrow().clone(); l.iter().map(|x| x.as_ent()).collect::<E<Vec<_>>>()? } x => vec![x.as_ent()?] }),
                    };
                    let msg = m.as_text()?;
                    let barrier = if *wait { Some(Rc::new(())) } else { None };
                    let weak: Option<Weak<()>> = barrier.as_ref().map(Rc::downgrade);
                    self.susp(Step::Broadcast { msg, targets, barrier }).await;
                    if let Some(wk) = weak { while wk.strong_count() > 0 { self.tick().await; self.turn().await; } }
                }
                K::SendNetworkMessage { target, msg_type, values } => { self.send(f, target, msg_type, values, false).await?; }
                K::SendNetworkReply { value } => {
                    let v = ev!(value);
                    let j = wire(&v)?;
                    let k = self.reply.borrow_mut().take();
                    if let Some((a, b)) = k { self.log(format!("reply to {a}/{b} {j}")).await; }
                }
                K::CallRpc { host, service, rpc, args } => { self.rpc(f, host.as_deref(), service, rpc, args).await?; }
                K::Stop { mode } => match mode {
                    StopMode::ThisBlock => return Ok(Flow::Ret(text(""))),
                    StopMode::ThisScript => self.susp(Step::AbortCurrent).await,
                    StopMode::All => self.susp(Step::AbortAll).await,
                    StopMode::AllButThisScript => self.susp(Step::AbortOthers).await,
                    StopMode::OtherScriptsInSprite => self.susp(Step::AbortMine(f.ent.clone())).await,
                    _ => panic!("HARNESS: unsupported stop mode"),
                },
                K::UnknownBlock { name, args } => match name.as_str() {
                    "nativeRunSyscall" => { self.syscall(f, args).await?; }
                    _ => { self.block(f, name, args).await?; }
                },
                K::SetX { value } => setp!("XPos", value),
                K::SetY { value } => setp!("YPos", value),
                K::SetHeading { value } => setp!("Heading", value),
                K::SetSize { value } => setp!("Size", value),
                K::SetPenSize { value } => setp!("PenSize", value),
                K::ChangeX { delta } => chgp!("XPos", delta),
                K::ChangeY { delta } => chgp!("YPos", delta),
                K::TurnRight { angle } => chgp!("Heading", angle),
                K::TurnLeft { angle } => { let v = ev!(angle); let v = ops::un(Un::Neg, &v)?; self.setp(f, "Heading", v, true).await? }
                K::ChangeSize { delta } => chgp!("Size", delta),
                K::ChangePenSize { delta } => chgp!("PenSize", delta),
                K::SetEffect { kind, value } => setp!(effect(kind), value),
                K::ChangeEffect { kind, delta } => chgp!(effect(kind), delta),
                K::SetPenAttr { attr, value } => setp!(pen(attr), value),
                K::ChangePenAttr { attr, delta } => chgp!(pen(attr), delta),
                K::SetVisible { value } => self.setp(f, "Visible", RV::Bool(*value), false).await?,
                K::SetPenDown { value } => self.setp(f, "PenDown", RV::Bool(*value), false).await?,
                K::SetPenColor { color: (r, g, b, a) } => self.setp(f, "PenColor", n((*a as f64) * 16777216.0 + (*r as f64) * 65536.0 + (*g as f64) * 256.0 + *b as f64), false).await?,
                K::ClearEffects => self.cmd(format!("p{} cleareffects of #{}", self.pid(), f.ent.id)).await?,
                K::PenClear => self.cmd(format!("p{} cleardrawings of #{}", self.pid(), f.ent.id)).await?,
                K::StopSounds => self.cmd(format!("p{} stopsounds", self.pid())).await?,
                K::Forward { distance } => { let v = ev!(distance).as_num()?; self.cmd(format!("p{} forward {v:?} of #{}", self.pid(), f.ent.id)).await? }
                K::GotoXY { x, y } => {
                    let (x, y) = (ev!(x), ev!(y));
                    let (y, x) = (y.as_num()?, x.as_num()?);
                    self.cmd(format!("p{} goto {x:?} {y:?} of #{}", self.pid(), f.ent.id)).await?
                }
                K::PointTowardsXY { x, y } => {
                    let (x, y) = (ev!(x), ev!(y));
                    let (y, x) = (y.as_num()?, x.as_num()?);
                    self.cmd(format!("p{} point {x:?} {y:?} of #{}", self.pid(), f.ent.id)).await?
                }
                K::Goto { target } | K::PointTowards { target } => {
                    let w = if matches!(st.kind, K::Goto { .. }) { "goto" } else { "point" };
                    match ev!(target) {
                        RV::List(l) => {
                            let l = l.borrow().clone();
                            if l.len() != 2 { return Err(format!("InvalidListLength {{ expected: 2, got: {} }}", l.len())); }
                            let (x, y) = (l[0].as_num()?, l[1].as_num()?);
                            self.cmd(format!("p{} {w} {x:?} {y:?} of #{}", self.pid(), f.ent.id)).await?
                        }
                        RV::Ent(t) => self.cmd(format!("p{} {w} entity #{} of #{}", self.pid(), t.id, f.ent.id)).await?,
                        x => return Err(x.conv("Entity")),
                    }
                }
                K::SetCostume { costume } => {
                    let new = match ev!(costume) {
                        RV::Img(x) => Some(x),
                        RV::Text(x) if x.is_empty() => None,
                        RV::Text(x) => Some(f.ent.costumes.iter().find(|c| c.0 == *x).ok_or_else(|| format!("UndefinedCostume {{ name: {x:?} }}"))?.1.clone()),
                        x => return Err(x.conv("Image")),
                    };
                    self.costume(f, new).await?
                }
                K::NextCostume => {
                    let cur = f.ent.costume.borrow().clone();
                    if let Some(i) = cur.and_then(|c| f.ent.costumes.iter().position(|x| Rc::ptr_eq(&x.1, &c))) {
                        let new = f.ent.costumes[(i + 1) % f.ent.costumes.len()].1.clone();
                        self.costume(f, Some(new)).await?
                    }
                }
                K::PlaySound { sound, blocking } => {
                    let snd = match ev!(sound) {
                        RV::Aud(x) => Some(x),
                        RV::Text(x) if x.is_empty() => None,
                        RV::Text(x) => Some(f.ent.sounds.iter().find(|c| c.0 == *x).ok_or_else(|| format!("UndefinedSound {{ name: {x:?} }}"))?.1.clone()),
                        x => return Err(x.conv("Audio")),
                    };
                    if let Some(s) = snd { self.cmd(format!("p{} sound {}{} {blocking}", self.pid(), s.name, s.mark)).await? }
                }
                K::PlayNotes { notes, beats, blocking } => {
                    let (v, b) = (ev!(notes), ev!(beats));
                    self.notes(v, b, *blocking).await?
                }
                K::Rest { beats } => { let b = ev!(beats); self.notes(list(vec![]), b, true).await? }
                k => panic!("HARNESS: statement not in the reference: {k:?}"),
            }
            Ok(Flow::Next)
        })
    }
    async fn costume(&self, f: &Rc<Fr>, new: Option<Rc<RImg>>) -> E<()> {
        let same = match (&*f.ent.costume.borrow(), &new) { (None, None) => true, (Some(a), Some(b)) => Rc::ptr_eq(a, b), _ => false };
        if same { return Ok(()); }
        let name = new.as_ref().map(|x| format!("{}{}", x.name, x.mark)).unwrap_or("-".into());
        *f.ent.costume.borrow_mut() = new;
        self.cmd(format!("p{} costume {name} of #{}", self.pid(), f.ent.id)).await
    }
    async fn clone_ent(&self, t: RV) -> E<RV> {
        let t = t.as_ent()?;
        let id = { let mut h = self.w.h.borrow_mut(); let i = h.next_ent; h.next_ent += 1; i };
        let e = Rc::new(REnt {
            id,
            name: t.name.clone(),
            original: Some(t.original.clone().unwrap_or_else(|| t.clone())),
            fields: RefCell::new(t.fields.borrow().iter().map(|(k, v)| (k.clone(), cell(v.borrow().clone()))).collect()),
            costumes: t.costumes.clone(),
            sounds: t.sounds.clone(),
            costume: RefCell::new(t.costume.borrow().clone()),
            props: RefCell::new(t.props.borrow().clone()),
        });
        self.susp(Step::Cloned(e.clone())).await;
        Ok(RV::Ent(e))
    }
    async fn rpc(&self, f: &Rc<Fr>, host: Option<&str>, service: &str, rpc: &str, args: &'static [(netsblox_vm::compact_str::CompactString, ast::Expr)]) -> E<RV> {
        let mut raw = vec![];
        for (_, x) in args { raw.push(self.ev(f, x).await?); }
        let mut vs: Vec<(String, RV)> = vec![];
        for ((k, _), v) in args.iter().zip(raw) { match vs.iter_mut().find(|x| x.0 == k.as_str()) { Some(x) => x.1 = v, None => vs.push((k.to_string(), v)) } }
        let d = format!("p{} rpc {}{service}.{rpc} {{{}}}", self.pid(), host.filter(|x| !x.is_empty()).map(|x| format!("{x}/")).unwrap_or_default(), render_fields(&vs));
        let sargs: Vec<_> = vs.iter().map(|x| simple(&x.1)).collect();
        let name = rpc.to_string();
        Ok(self.host(d, Act::Rpc, Box::new(move |k| default_answer("rpc", &name, &sargs, k))).await?.unwrap())
    }
    async fn syscall(&self, f: &Rc<Fr>, args: &'static [ast::Expr]) -> E<RV> {
        let name = self.ev(f, &args[0]).await?;
        let vs = self.variadic(f, &args[1]).await??;
        let name = name.as_text()?;
        let mut d = format!("p{} syscall {name} [{}]", self.pid(), render_each(&vs));
        if self.w.scn.watch > 0 && name == "peek" {
            let seen: Vec<String> = self.w.watched.borrow().iter().map(|(x, e, c, local)| format!("{}{x} of {}#{} = {}", if *local && self.w.scn.watch == 1 { "~" } else { "" }, e.name, e.id, render(&c.borrow()))).collect();
            d += &format!(" | {}", seen.join(" | "));
        }
        if name == "push" { self.tokens.borrow_mut().push(match vs.first() { Some(RV::Num(x)) => *x as u32, _ => 999 }); }
        let toks = format!("{:?}", self.tokens.borrow());
        let sargs: Vec<_> = vs.iter().map(simple).collect();
        Ok(self.host(d, Act::Sys, Box::new(move |k| if name == "depth" { Res::Ok(SimpleValue::Number(crate::host::num(f.depth as f64))) } else if name == "tok" { Res::Ok(SimpleValue::Text(toks.as_str().into())) } else { default_answer("syscall", &name, &sargs, k) })).await?.unwrap())
    }
    async fn block(&self, f: &Rc<Fr>, name: &str, args: &'static [ast::Expr]) -> E<RV> {
        let vs = self.evs(f, args).await?;
        let sargs: Vec<_> = vs.iter().map(simple).collect();
        let nm = name.to_string();
        let d = format!("p{} block {name} [{}]", self.pid(), render_each(&vs));
        Ok(self.host(d, Act::Push, Box::new(move |k| default_answer("block", &nm, &sargs, k))).await?.unwrap())
    }

    // ---------------------------------------------------------------- expressions
    fn ev<'a>(&'a self, f: &'a Rc<Fr>, x: &'static ast::Expr) -> Fut<'a, E<RV>> {
        Box::pin(async move { let r = self.expr(f, x).await; if r.is_err() { self.raised(&x.info); } r })
    }
    async fn expr(&self, f: &Rc<Fr>, x: &'static ast::Expr) -> E<RV> {
        macro_rules! ev { ($x:expr) => { self.ev(f, $x).await? } }
        macro_rules! bin { ($op:ident $a:expr, $b:expr) => {{ let a = ev!($a); let b = ev!($b); ops::bin(Bin::$op, &a, &b)? }} }
        macro_rules! un { ($op:ident $a:expr) => {{ let a = ev!($a); ops::un(Un::$op, &a)? }} }
        macro_rules! rel { ($op:ident $a:expr, $b:expr) => {{ let a = ev!($a); let b = ev!($b); RV::Bool(ops::relation(Rel::$op, &a, &b)?) }} }
        let tf = |b: bool| RV::Bool(b);
        self.tick().await;
        Ok(match &x.kind {
            X::Value(v) => lit(v)?,
            X::Variable { var } => { let c = lookup(&self.w, f, &var.trans_name)?; let v = c.borrow().clone(); v }
            X::Sub { left, right } => bin!(Sub left, right),
            X::Div { left, right } => bin!(Div left, right),
            X::Mod { left, right } => bin!(Mod left, right),
            X::Pow { base, power } => bin!(Pow base, power),
            X::Log { base, value } => bin!(Log base, value),
            X::Atan2 { y, x } => bin!(Atan2 y, x),
            X::Range { start, stop } => bin!(Range start, stop),
            X::StrGet { string, index } => bin!(StrGet index, string),
            X::Add { values } => ops::sum(&self.variadic(f, values).await??, false)?,
            X::Mul { values } => ops::sum(&self.variadic(f, values).await??, true)?,
            X::Min { values } => ops::extreme(&self.variadic(f, values).await??, false)?,
            X::Max { values } => ops::extreme(&self.variadic(f, values).await??, true)?,
            X::StrCat { values } => { let v = self.variadic(f, values).await??; text(&v.iter().map(ops::display).collect::<String>()) }
            X::ListCat { lists } => { let v = self.variadic(f, lists).await??; ops::cat(&v)? }
            X::CopyList { list: l } => list(self.variadic(f, l).await??),
            X::MakeList { values } => list(self.evs(f, values).await?),
            X::And { left, right } => { let a = ev!(left); if !a.as_bool()? { tf(false) } else { tf(ev!(right).as_bool()?) } }
            X::Or { left, right } => { let a = ev!(left); if a.as_bool()? { tf(true) } else { tf(ev!(right).as_bool()?) } }
            X::Conditional { condition, then, otherwise } => if ev!(condition).as_bool()? { ev!(then) } else { ev!(otherwise) },
            X::Identical { left, right } => { let a = ev!(left); let b = ev!(right); tf(ops::identical(&a, &b)) }
            X::Eq { left, right } => rel!(Eq left, right),
            X::Neq { left, right } => rel!(Neq left, right),
            X::Less { left, right } => rel!(Lt left, right),
            X::LessEq { left, right } => rel!(Le left, right),
            X::Greater { left, right } => rel!(Gt left, right),
            X::GreaterEq { left, right } => rel!(Ge left, right),
            X::Not { value } => un!(Not value),
            X::Neg { value } => un!(Neg value),
            X::Abs { value } => un!(Abs value),
            X::Sqrt { value } => un!(Sqrt value),
            X::Floor { value } => un!(Floor value),
            X::Ceil { value } => un!(Ceil value),
            X::Round { value } => un!(Round value),
            X::Sin { value } => un!(Sin value),
            X::Cos { value } => un!(Cos value),
            X::Tan { value } => un!(Tan value),
            X::Asin { value } => un!(Asin value),
            X::Acos { value } => un!(Acos value),
            X::Atan { value } => un!(Atan value),
            X::StrLen { value } => un!(StrLen value),
            X::StrGetLast { string } => un!(StrLast string),
            X::UnicodeToChar { value } => un!(UniToChar value),
            X::CharToUnicode { value } => un!(CharToUni value),
            X::TextSplit { text: s, mode } => match mode {
                TextSplitMode::Custom(p) => bin!(SplitBy s, p),
                TextSplitMode::Letter => un!(Letters s),
                TextSplitMode::Word => un!(Words s),
                TextSplitMode::Tab => un!(Tabs s),
                TextSplitMode::CR => un!(Crs s),
                TextSplitMode::LF => un!(Lfs s),
                TextSplitMode::Csv => un!(Csv s),
                TextSplitMode::Json => un!(Json s),
            },
            X::ListGet { list, index } => { let i = ev!(index); let l = ev!(list); ops::get(&l, &i)? }
            X::ListGetLast { list } => { let l = ev!(list).as_list()?; let v = l.borrow().last().cloned(); v.ok_or_else(|| ops::oob(1, 0))? }
            X::ListGetRandom { list } => { let l = ev!(list).as_list()?; let i = self.rand(l.borrow().len())?; let v = l.borrow()[i].clone(); v }
            X::StrGetRandom { string } => { let s = ev!(string); ops::map1(&s, &|s| { let g = ops::graphemes(&s.as_text()?); Ok(text(&g[self.rand(g.len())?])) })? }
            X::ListLen { value } => { let l = ev!(value).as_list()?; n(l.borrow().len() as f64) }
            X::ListIsEmpty { value } => { let l = ev!(value).as_list()?; tf(l.borrow().is_empty()) }
            X::ListDims { value } => { let v = ev!(value); list(ops::dims(&v)?.into_iter().map(|x| n(x as f64)).collect()) }
            X::ListRank { value } => { let v = ev!(value); n(ops::dims(&v)?.len() as f64) }
            X::ListRev { value } => { let l = ev!(value).as_list()?; let mut v = l.borrow().clone(); v.reverse(); list(v) }
            X::ListFlatten { value } => { let v = ev!(value); list(ops::flatten(&v)?) }
            X::ListColumns { value } => { let v = ev!(value); ops::columns(&v)? }
            X::ListLines { value } => { let v = ev!(value); ops::lines(&v)? }
            X::ListJson { value } => { let v = ev!(value); text(&ops::json_text(&v)?) }
            X::ListCsv { value } => { let v = ev!(value); text(&ops::csv_text(&v)?) }
            X::ListReshape { value, dims } => { let v = ev!(value); let d = self.variadic(f, dims).await??; ops::reshape(&v, &d)? }
            X::ListCombinations { sources } => { let v = self.variadic(f, sources).await??; ops::combos(&v)? }
            X::ListCons { item, list: l } => { let a = ev!(item); let mut v = ev!(l).as_list()?.borrow().clone(); v.insert(0, a); list(v) }
            X::ListCdr { value } => { let mut v = ev!(value).as_list()?.borrow().clone(); if v.is_empty() { return Err(ops::oob(1, 0)); } v.remove(0); list(v) }
            X::ListFind { list, value } => { let v = ev!(value); let l = ev!(list); n(ops::find(&l, &v)? as f64) }
            X::ListContains { list, value } => { let l = ev!(list); let v = ev!(value); tf(ops::find(&l, &v)? > 0) }
            X::TypeQuery { value, ty } => {
                let v = ev!(value);
                use ast::ValueType as T;
                tf(v.ty() == match ty { T::Number => "Number", T::Text => "Text", T::Bool => "Bool", T::List => "List", T::Sprite => "Entity", T::Costume => "Image", T::Sound => "Audio", _ => panic!("HARNESS") })
            }
            X::Random { a, b } => {
                let (a, b) = (ev!(a), ev!(b));
                ops::zip2(&a, &b, &|a, b| {
                    let (a, b) = (a.as_num()?, b.as_num()?);
                    let (lo, hi) = (a.min(b), a.max(b));
                    assert!(lo == lo.trunc() && hi == hi.trunc(), "HARNESS: fractional random");
                    Ok(n(lo + self.rand((hi - lo) as usize + 1)? as f64))
                })?
            }
            X::This => RV::Ent(f.ent.clone()),
            X::Entity { trans_name, .. } => RV::Ent(self.w.ents.iter().find(|e| e.name == trans_name.as_str()).ok_or_else(|| format!("UndefinedEntity {{ name: {trans_name:?} }}"))?.clone()),
            X::Answer => self.answer.borrow().clone().unwrap_or_else(|| text("")),
            X::Message => text(self.message.as_deref().unwrap_or("")),
            X::RpcError => self.rpc_err.borrow().clone().unwrap_or_else(|| text("")),
            X::RealTime { query } => num(self.calendar(query)?)?,
            X::Timer => { let t = self.now()?; num(t.saturating_sub(self.w.timer.get()) as f64 / 1000.0)? }
            X::XPos => self.getp(f, "XPos").await?,
            X::YPos => self.getp(f, "YPos").await?,
            X::Heading => self.getp(f, "Heading").await?,
            X::PenDown => self.getp(f, "PenDown").await?,
            X::Size => self.getp(f, "Size").await?,
            X::IsVisible => self.getp(f, "Visible").await?,
            X::Effect { kind } => self.getp(f, effect(kind)).await?,
            X::PenAttr { attr } => self.getp(f, pen(attr)).await?,
            X::Costume => f.ent.costume.borrow().clone().map(RV::Img).unwrap_or_else(|| text("")),
            X::CostumeNumber => { let c = f.ent.costume.borrow().clone(); n(c.and_then(|c| f.ent.costumes.iter().position(|x| Rc::ptr_eq(&x.1, &c))).map(|x| x + 1).unwrap_or(0) as f64) }
            X::CostumeList => list(f.ent.costumes.iter().map(|x| RV::Img(x.1.clone())).collect()),
            X::SoundList => list(f.ent.sounds.iter().map(|x| RV::Aud(x.1.clone())).collect()),
            X::CostumeName { costume } => match ev!(costume) {
                RV::Img(x) => text(&x.name),
                RV::Text(x) if x.is_empty() => text(""),
                RV::Text(x) => text(&f.ent.costumes.iter().find(|c| c.0 == *x).ok_or_else(|| format!("UndefinedCostume {{ name: {x:?} }}"))?.1.name),
                x => return Err(x.conv("Image")),
            },
            X::SoundName { sound } => match ev!(sound) {
                RV::Aud(x) => text(&x.name),
                RV::Text(x) => text(&f.ent.sounds.iter().find(|c| c.0 == *x).ok_or_else(|| format!("UndefinedSound {{ name: {x:?} }}"))?.1.name),
                x => return Err(x.conv("Audio")),
            },
            X::CallFn { function, args, upvars } => self.call_fn(f, function, args, upvars).await?,
            X::CallClosure { new_entity, closure, args } => {
                let ent = match new_entity { Some(x) => Some(ev!(x)), None => None };
                let c = ev!(closure);
                let a = self.evs(f, args).await?;
                self.call_ring(f, ent.as_ref(), &c, a).await?
            }
            X::Closure { params, captures, stmts, .. } => {
                let mut caps = vec![];
                for c in captures { caps.push((c.trans_name.to_string(), lookup(&self.w, f, &c.trans_name)?)); }
                RV::Ring(Rc::new(Ring { params: params.iter().map(|x| x.trans_name.to_string()).collect(), caps, body: stmts, lex: f.lex }))
            }
            X::CallRpc { host, service, rpc, args } => self.rpc(f, host.as_deref(), service, rpc, args).await?,
            X::NetworkMessageReply { target, msg_type, values } => self.send(f, target, msg_type, values, true).await?,
            X::Clone { target } => { let t = ev!(target); self.clone_ent(t).await? }
            X::UnknownBlock { name, args } => match name.as_str() {
                "nativeCallSyscall" => self.syscall(f, args).await?,
                "nativeSyscallError" => self.sys_err.borrow().clone().unwrap_or_else(|| text("")),
                _ => self.block(f, name, args).await?,
            },
            X::Map { f: g, list: l } => {
                let g = ev!(g);
                let items = ev!(l).as_list()?.borrow().clone();
                let mut out = vec![];
                for it in items { out.push(self.call_ring(f, None, &g, vec![it]).await?); self.yield_().await; }
                list(out)
            }
            X::Keep { f: g, list: l } => {
                let g = ev!(g);
                let items = ev!(l).as_list()?.borrow().clone();
                let mut out = vec![];
                for it in items { if self.call_ring(f, None, &g, vec![it.clone()]).await?.as_bool()? { out.push(it); } self.yield_().await; }
                list(out)
            }
            X::FindFirst { f: g, list: l } => {
                let g = ev!(g);
                let items = ev!(l).as_list()?.borrow().clone();
                for it in items { if self.call_ring(f, None, &g, vec![it.clone()]).await?.as_bool()? { return Ok(it); } self.yield_().await; }
                text("")
            }
            X::Combine { f: g, list: l } => {
                let items = ev!(l).as_list()?.borrow().clone();
                let g = ev!(g);
                let mut it = items.into_iter();
                match it.next() {
                    None => n(0.0),
                    Some(mut acc) => { for x in it { acc = self.call_ring(f, None, &g, vec![acc, x]).await?; self.yield_().await; } acc }
                }
            }
            k => panic!("HARNESS: expression not in the reference: {k:?}"),
        })
    }
}
fn render_each(vs: &[RV]) -> String { vs.iter().map(render).collect::<Vec<_>>().join(", ") }
fn render_fields(vs: &[(String, RV)]) -> String { vs.iter().map(|x| format!("{}: {}", x.0, render(&x.1))).collect::<Vec<_>>().join(", ") }
fn wire(v: &RV) -> E<String> {
    fn check(v: &RV, path: &mut Vec<*const ()>) -> E<()> {
        match v {
            RV::List(l) => {
                let p = Rc::as_ptr(l) as *const ();
                if path.contains(&p) { return Err("ToSimpleError { error: Cyclic }".into()); }
                path.push(p);
                for x in l.borrow().iter() { check(x, path)?; }
                path.pop();
                Ok(())
            }
            RV::Ring(_) | RV::Ent(_) => Err(format!("ToSimpleError {{ error: ComplexType({}) }}", v.ty())),
            _ => Ok(()),
        }
    }
    check(v, &mut vec![])?;
    Ok(crate::rv::simple_deep(v).into_netsblox_json().to_string())
}
fn effect(k: &ast::EffectKind) -> &'static str {
    use ast::EffectKind::*;
    match k { Color => "ColorH", Saturation => "ColorS", Brightness => "ColorV", Ghost => "ColorT", Fisheye => "Fisheye", Whirl => "Whirl", Pixelate => "Pixelate", Mosaic => "Mosaic", Negative => "Negative" }
}
fn pen(k: &ast::PenAttribute) -> &'static str {
    use ast::PenAttribute::*;
    match k { Size => "PenSize", Hue => "PenColorH", Saturation => "PenColorS", Brightness => "PenColorV", Transparency => "PenColorT" }
}
fn lit(v: &ast::Value) -> E<RV> {
    Ok(match v {
        ast::Value::Bool(x) => RV::Bool(*x),
        ast::Value::Number(x) => num(*x)?,
        ast::Value::Constant(ast::Constant::E) => n(std::f64::consts::E),
        ast::Value::Constant(ast::Constant::Pi) => n(std::f64::consts::PI),
        ast::Value::String(x) => text(x),
        ast::Value::List(vs, _) => list(vs.iter().map(lit).collect::<E<_>>()?),
        _ => panic!("HARNESS: literal"),
    })
}

// -------------------------------------------------------------------- scheduler
#[derive(Default)]
struct PCtx { locals: BTreeMap<String, CellV>, barrier: Option<Rc<()>>, reply: Option<(String, String)>, message: Option<String> }
struct Scr { hat: &'static HatKind, lex: usize, ent: Rc<REnt>, body: &'static [Stmt], process: Option<usize>, queue: VecDeque<PCtx> }
struct Proc { p: Rc<Pr>, fut: Fut<'static, E<RV>> }
struct Sched { w: Rc<W>, scripts: Vec<Scr>, procs: HashMap<usize, Proc>, queue: VecDeque<usize>, next: usize }
impl Sched {
    fn spawn(&mut self, ent: Rc<REnt>, lex: Option<usize>, body: &'static [Stmt], c: PCtx) -> usize {
        let id = self.next;
        self.next += 1;
        let p = Rc::new(Pr {
            w: self.w.clone(), uid: id, pid: Cell::new(None), root: ent.clone(), step: RefCell::new(None), warp: Cell::new(0), tokens: Default::default(),
            answer: Default::default(), rpc_err: Default::default(), sys_err: Default::default(), message: c.message, reply: RefCell::new(c.reply), barrier: RefCell::new(c.barrier),
            err_at: Default::default(), err_frames: Default::default(),
        });
        let q = p.clone();
        let locals = c.locals;
        let fut: Fut<'static, E<RV>> = Box::pin(async move { let q = q; q.enter(Fr { locals: RefCell::new(locals), ent, lex, parent: None, depth: 1 }, body, &[]).await });
        self.procs.insert(id, Proc { p, fut });
        self.queue.push_back(id);
        id
    }
    fn kill(&mut self, id: usize) { if let Some(p) = self.procs.remove(&id) { *p.p.barrier.borrow_mut() = None; } }
    fn consume(&mut self, i: usize) {
        if self.scripts[i].process.is_some_and(|p| self.procs.contains_key(&p)) { return; }
        if let Some(c) = self.scripts[i].queue.pop_front() {
            let (ent, lex, body) = (self.scripts[i].ent.clone(), self.scripts[i].lex, self.scripts[i].body);
            let id = self.spawn(ent, Some(lex), body, c);
            self.scripts[i].process = Some(id);
        }
    }
    fn consume_all(&mut self) { for i in 0..self.scripts.len() { self.consume(i); } }
    fn stop_script(&mut self, i: usize) { if let Some(p) = self.scripts[i].process.take() { self.kill(p); } self.scripts[i].queue.clear(); }
    fn schedule(&mut self, i: usize, c: PCtx, max: usize) {
        self.scripts[i].queue.push_back(c);
        self.consume(i);
        if self.scripts[i].queue.len() > max { self.scripts[i].queue.pop_back(); }
    }
    fn bind(fields: &[ast::VariableRef], vals: &[(String, SimpleValue)]) -> BTreeMap<String, CellV> {
        fields.iter().map(|f| (f.trans_name.to_string(), cell(vals.iter().rev().find(|x| x.0 == f.trans_name.as_str()).map(|x| from_simple(&x.1)).unwrap_or_else(|| n(0.0))))).collect()
    }
    fn input(&mut self, i: In) {
        match i {
            In::Stop => { for i in 0..self.scripts.len() { self.stop_script(i); } let ids: Vec<_> = self.procs.keys().copied().collect(); for id in ids { self.kill(id); } self.queue.clear(); }
            In::KeyUp(_) => {}
            _ => {
                let mut first = true;
                for k in 0..self.scripts.len() {
                    let (restart, max, locals) = match (&i, self.scripts[k].hat) {
                        (In::Start, HatKind::OnFlag) => (true, 0, BTreeMap::new()),
                        (In::Key(kc), HatKind::OnKey { key }) if key_matches(key, kc) => (false, 0, BTreeMap::new()),
                        (In::Custom { name, args, interrupt, max_queue }, HatKind::Unknown { name: want, fields }) if name == want.as_str() => (*interrupt, *max_queue, Self::bind(fields, args)),
                        _ => continue,
                    };
                    if std::mem::take(&mut first) { self.consume_all(); }
                    if restart { self.stop_script(k); }
                    self.schedule(k, PCtx { locals, ..Default::default() }, max);
                }
            }
        }
    }
    fn message(&mut self, m: Msg) {
        let mut first = true;
        for k in 0..self.scripts.len() {
            let HatKind::NetworkMessage { msg_type, fields } = self.scripts[k].hat else { continue };
            if msg_type.as_str() != m.ty { continue; }
            if std::mem::take(&mut first) { self.consume_all(); }
            let c = PCtx { locals: Self::bind(fields, &m.values), reply: m.reply.clone(), ..Default::default() };
            self.schedule(k, c, usize::MAX);
        }
    }
}
fn key_matches(key: &str, k: &KeyCode) -> bool {
    match key {
        "any key" => true,
        "up arrow" => *k == KeyCode::Up,
        "down arrow" => *k == KeyCode::Down,
        "left arrow" => *k == KeyCode::Left,
        "right arrow" => *k == KeyCode::Right,
        "enter" => *k == KeyCode::Enter,
        "space" => *k == KeyCode::Char(' '),
        s => *k == KeyCode::Char(s.to_ascii_lowercase().chars().next().unwrap()),
    }
}

pub struct RefRun { pub trace: Vec<String>, pub ticks: u64 }

/// Values of initial variables; lists with the same id are one list.
fn init_value(v: &ast::Value, lists: &HashMap<usize, LRef>, imgs: &mut HashMap<*const (), Rc<RImg>>, pend: &mut Vec<(LRef, *const Vec<ast::Value>)>) -> RV {
    match v {
        ast::Value::List(vs, id) => {
            let l = match id { Some(id) => lists[&id.0].clone(), None => lref(vec![]) };
            pend.push((l.clone(), vs));
            RV::List(l)
        }
        ast::Value::Ref(id) => RV::List(lists[&id.0].clone()),
        ast::Value::Image(x) => RV::Img(imgs.entry(Rc::as_ptr(x) as *const ()).or_insert_with(|| Rc::new(RImg { name: x.2.to_string(), mark: crate::sys::mark(&x.0) })).clone()),
        ast::Value::Audio(x) => RV::Aud(imgs.entry(Rc::as_ptr(x) as *const ()).or_insert_with(|| Rc::new(RImg { name: x.1.to_string(), mark: crate::sys::mark(&x.0) })).clone()),
        x => lit(x).expect("HARNESS: initial value"),
    }
}
fn list_ids(v: &ast::Value, out: &mut HashMap<usize, LRef>) {
    if let ast::Value::List(vs, id) = v { if let Some(i) = id { out.entry(i.0).or_insert_with(|| lref(vec![])); } for x in vs { list_ids(x, out); } }
}

pub fn run(role: &Rc<ast::Role>, scn: &Rc<Scn>) -> RefRun {
    let mut h = Host::new(scn.clone());
    let mut lists = HashMap::new();
    for g in role.globals.iter() { list_ids(&g.init, &mut lists); }
    for e in role.entities.iter() { for x in e.fields.iter().chain(&e.costumes).chain(&e.sounds) { list_ids(&x.init, &mut lists); } }
    let (mut imgs, mut pend) = (HashMap::new(), vec![]);
    let mut iv = |v: &ast::Value| {
        let r = init_value(v, &lists, &mut imgs, &mut pend);
        while let Some((l, vs)) = pend.pop() { let items: Vec<RV> = unsafe { &*vs }.iter().map(|x| init_value(x, &lists, &mut imgs, &mut pend)).collect(); *l.borrow_mut() = items; }
        r
    };
    let globals = role.globals.iter().map(|g| (g.def.name.to_string(), cell(iv(&g.init)))).collect();
    let mut ents = vec![];
    for e in role.entities.iter() {
        let id = h.next_ent;
        h.next_ent += 1;
        let fields = e.fields.iter().map(|g| (g.def.name.to_string(), cell(iv(&g.init)))).collect();
        let mut media = |xs: &Vec<ast::VariableDefInit>| Rc::new(xs.iter().map(|c| (c.def.name.to_string(), match iv(&c.init) { RV::Img(x) | RV::Aud(x) => x, _ => panic!("HARNESS: media") })).collect::<Vec<_>>());
        let costumes = media(&e.costumes);
        let sounds = media(&e.sounds);
        let costume = e.active_costume.and_then(|i| costumes.get(i)).map(|x| x.1.clone());
        let nv = |x: f64| SimpleValue::Number(crate::host::num(x));
        let mut props: BTreeMap<String, SimpleValue> = ["PenColorH", "PenColorS", "PenColorV", "PenColorT", "Balance", "ColorH", "ColorS", "ColorV", "ColorT", "Fisheye", "Whirl", "Pixelate", "Mosaic", "Negative"].iter().map(|x| (x.to_string(), nv(0.0))).collect();
        for (k, v) in [("XPos", e.pos.0), ("YPos", e.pos.1), ("Heading", ops::modulus(e.heading, 360.0)), ("Size", e.scale * 100.0), ("PenSize", 1.0), ("Tempo", 60.0), ("Volume", 100.0)] { props.insert(k.into(), nv(v)); }
        props.insert("Visible".into(), SimpleValue::Bool(e.visible));
        props.insert("PenDown".into(), SimpleValue::Bool(false));
        let (r, g, b, a) = e.color;
        let (ph, ps, pv, pa) = netsblox_vm::runtime::Color { r, g, b, a }.to_hsva(); // (decided by H08)
        for (k, v) in [("PenColorH", ph as f64), ("PenColorS", ps as f64 * 100.0), ("PenColorV", pv as f64 * 100.0), ("PenColorT", (1.0 - pa as f64) * 100.0)] { props.insert(k.into(), nv(v)); }
        ents.push(Rc::new(REnt { id, name: e.name.to_string(), original: None, fields: RefCell::new(fields), costumes, sounds, costume: RefCell::new(costume), props: RefCell::new(props) }));
    }
    let t0 = if scn.timeless { 0 } else { h.now() };
    let h = Rc::new(RefCell::new(h));
    let w = Rc::new(W { held: scn.in_delay.iter().chain(&scn.msg_delay).any(|x| *x > 0), role: role.clone(), scn: scn.clone(), h: h.clone(), globals: RefCell::new(globals), ents: ents.clone(), timer: Cell::new(t0), ticks: Cell::new(0), last_len: Cell::new(0), total: Cell::new(0), watched: RefCell::new(vec![]) });
    let st: &'static ast::Role = unsafe { &*(&**role as *const _) };
    let mut scripts = vec![];
    for (lex, e) in st.entities.iter().enumerate() {
        for sc in &e.scripts { if let Some(hat) = &sc.hat { scripts.push(Scr { hat: &hat.kind, lex, ent: ents[lex].clone(), body: &sc.stmts, process: None, queue: Default::default() }); } }
    }
    let mut s = Sched { w: w.clone(), scripts, procs: HashMap::new(), queue: Default::default(), next: 1 };
    let mut cx = Context::from_waker(Waker::noop());
    let mut cur: Option<usize> = None; // process in the middle of its turn
    loop {
        if h.borrow().full() { break; }
        loop {
            let i = { let mut g = h.borrow_mut(); if g.input_ready() { g.next_input() } else { None } };
            match i { Some(i) => {
                // the running script is at the front of the rotation while input is handled
                if let Some(c) = cur.take() { s.queue.push_front(c); }
                s.input(i)
            } None => break }
        }
        let m = { let mut g = h.borrow_mut(); if g.msg_ready() { g.next_msg() } else { None } };
        if let Some(m) = m {
            if let Some(c) = cur.take() { s.queue.push_front(c); }
            s.message(m);
        }
        let id = match cur.take().or_else(|| s.queue.pop_front()) {
            None => {
                h.borrow_mut().log("I".into());
                let g = h.borrow();
                if g.inputs.is_empty() && g.msgs.is_empty() { drop(g); final_state(&w); break; }
                continue;
            }
            Some(x) => x,
        };
        let Some(p) = s.procs.get_mut(&id) else { continue };
        let pr = p.p.clone();
        match p.fut.as_mut().poll(&mut cx) {
            Poll::Ready(r) => {
                s.kill(id);
                s.consume_all();
                let pid = pr.pid();
                h.borrow_mut().log(match &r { Ok(v) => format!("T p{pid} {}", render(v)), Err(e) => format!("E p{pid} {e}") });
                if let (Err(e), true) = (&r, scn.summaries) { let s = pr.summary(e); h.borrow_mut().log(s); }
            }
            Poll::Pending => match pr.step.borrow_mut().take().expect("HARNESS: suspended without a reason") {
                Step::Break => cur = Some(id),
                Step::Spin => { h.borrow_mut().log("SPIN".into()); break; }
                Step::Yield => {
                    s.consume_all();
                    s.queue.push_back(id);
                    if scn.log_yield { h.borrow_mut().log("Y".into()); }
                }
                Step::Fork { ring, locals, ent } => {
                    s.consume_all();
                    let body: &'static Vec<Stmt> = unsafe { &*ring.body };
                    s.spawn(ent, ring.lex, body, PCtx { locals, ..Default::default() });
                    cur = Some(id);
                }
                Step::Cloned(c) => {
                    let orig = c.original.clone().unwrap();
                    let new: Vec<Scr> = s.scripts.iter().filter(|x| Rc::ptr_eq(&x.ent, &orig)).map(|x| Scr { hat: x.hat, lex: x.lex, ent: c.clone(), body: x.body, process: None, queue: Default::default() }).collect();
                    let at = s.scripts.len();
                    if new.iter().any(|x| matches!(x.hat, HatKind::OnClone)) { s.consume_all(); }
                    s.scripts.extend(new);
                    for k in at..s.scripts.len() { if let HatKind::OnClone = s.scripts[k].hat { s.schedule(k, PCtx::default(), 0); } }
                    cur = Some(id);
                }
                Step::Deleted(c) => {
                    s.scripts.retain(|x| !Rc::ptr_eq(&x.ent, &c));
                    let dead: Vec<usize> = s.procs.iter().filter(|x| Rc::ptr_eq(&x.1.p.root, &c)).map(|x| *x.0).collect();
                    for d in dead { s.kill(d); }
                    cur = Some(id);
                }
                Step::Broadcast { msg, targets, barrier } => {
                    let mut first = true;
                    for k in 0..s.scripts.len() {
                        let HatKind::LocalMessage { msg_type } = s.scripts[k].hat else { continue };
                        if msg_type.as_deref().is_some_and(|x| x != msg) { continue; }
                        if let Some(t) = &targets { if !t.iter().any(|e| Rc::ptr_eq(e, &s.scripts[k].ent)) { continue; } }
                        if std::mem::take(&mut first) { s.consume_all(); }
                        s.stop_script(k);
                        s.schedule(k, PCtx { barrier: barrier.clone(), message: Some(msg.clone()), ..Default::default() }, 0);
                    }
                    cur = Some(id);
                }
                Step::AbortCurrent => { s.kill(id); s.consume_all(); }
                Step::AbortAll => s.input(In::Stop),
                Step::AbortOthers => { let ids: Vec<_> = s.procs.keys().copied().filter(|x| *x != id).collect(); for d in ids { s.kill(d); } s.queue.clear(); cur = Some(id); }
                Step::AbortMine(e) => { let ids: Vec<_> = s.procs.iter().filter(|x| *x.0 != id && Rc::ptr_eq(&x.1.p.root, &e)).map(|x| *x.0).collect(); for d in ids { s.kill(d); } cur = Some(id); }
            },
        }
    }
    drop(s);
    let trace = std::mem::take(&mut h.borrow_mut().trace);
    let ticks = w.total.get();
    drop(w);
    reset();
    RefRun { trace, ticks }
}
fn final_state(w: &W) {
    let mut x = vec![];
    for g in w.role.globals.iter() { x.push(format!(" {}={}", g.def.name, render(&w.globals.borrow()[g.def.name.as_str()].borrow()))); }
    for (e, d) in w.ents.iter().zip(w.role.entities.iter()) { for f in &d.fields { x.push(format!(" {}.{}={}", e.name, f.def.name, render(&e.fields.borrow()[f.def.name.as_str()].borrow()))); } }
    x.sort();
    w.h.borrow_mut().log(format!("state{}", x.concat()));
}
