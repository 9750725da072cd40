//! Runs the real VM on a compiled project under a scenario and records the trace.
use crate::dfs::{in_vm, panic_text};
use crate::host::*;
use crate::sys::*;
use netsblox_vm::ast;
use netsblox_vm::bytecode::*;
use netsblox_vm::gc::*;
use netsblox_vm::process::*;
use netsblox_vm::project::*;
use netsblox_vm::runtime::*;
use netsblox_vm::vecmap::VecMap;
use std::cell::RefCell;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;

#[derive(Collect)]
#[collect(no_drop)]
/// `dead` are the ended scripts handed back to the host, which keeps them (as it may, for diagnostics).
pub struct Env<'gc> { pub proj: Gc<'gc, RefLock<Project<'gc, MC, MSys>>>, pub dead: Gc<'gc, RefLock<Vec<Process<'gc, MC, MSys>>>>, pub watched: Gc<'gc, RefLock<Vec<Watch<'gc>>>> }
/// What a watcher holds (`Watcher` itself asks for collectable type parameters).
#[derive(Collect)]
#[collect(no_drop)]
pub struct Watch<'gc> { entity: GcWeak<'gc, RefLock<Entity<'gc, MC, MSys>>>, name: String, value: GcWeak<'gc, RefLock<Value<'gc, MC, MSys>>> }
pub type EnvArena = Arena<Rootable![Env<'_>]>;

pub struct VmRun { pub trace: Vec<String>, pub steps: u64, pub panicked: Option<String> }

pub fn compile(role: &ast::Role) -> Result<(Rc<ByteCode>, InitInfo, Locations), String> {
    in_vm(true);
    let r = catch_unwind(AssertUnwindSafe(|| match ByteCode::compile(role) { Ok((b, i, l, _)) => Ok((Rc::new(b), i, l)), Err(e) => Err(format!("{e:?}")) }));
    in_vm(false);
    match r { Ok(x) => x, Err(e) => Err(format!("PANIC {}", panic_text(&*e))) }
}

pub fn run(role: &ast::Role, scn: &Rc<Scn>) -> VmRun {
    match compile(role) {
        Ok((code, init, locs)) => run_code(&code, &init, &locs, scn),
        Err(e) => VmRun { trace: vec![format!("COMPILE {e}")], steps: 0, panicked: None },
    }
}

pub fn run_code(code: &Rc<ByteCode>, init: &InitInfo, locs: &Locations, scn: &Rc<Scn>) -> VmRun {
    let h = Rc::new(RefCell::new(Host::new(scn.clone())));
    set_host(Some(h.clone()));
    let mut steps = 0u64;
    in_vm(true);
    let r = catch_unwind(AssertUnwindSafe(|| drive(code, init, locs, scn, &h, &mut steps)));
    in_vm(false);
    set_host(None);
    let panicked = r.err().map(|e| panic_text(&*e));
    // after a panic the host may still be borrowed
    let mut trace = unsafe { (*h.as_ptr()).trace.clone() };
    if let Some(p) = &panicked { trace.push(format!("PANIC {p}")); }
    if panicked.is_some() { std::mem::forget(h); }
    VmRun { trace, steps, panicked }
}

/// The scripts of a project as a host finds them: whose, when, where.
pub type Parts = Vec<(String, Event, usize)>;
/// Every script with a hat, in file order, from what compiling tells the host.
pub fn parts(role: &ast::Role) -> Result<Parts, String> {
    let (_, _, _, info) = ByteCode::compile(role).map_err(|e| format!("{e:?}"))?;
    let mut out = vec![];
    for (ent, es) in &info.entities {
        for (sc, pos) in &es.scripts {
            use ast::HatKind as H;
            let ev = match sc.hat.as_ref().map(|h| &h.kind) {
                None => continue,
                Some(H::OnFlag) => Event::OnFlag,
                Some(H::OnClone) => Event::OnClone,
                Some(H::LocalMessage { msg_type }) => Event::LocalMessage { msg_type: msg_type.clone() },
                Some(H::NetworkMessage { msg_type, fields }) => Event::NetworkMessage { msg_type: msg_type.clone(), fields: fields.iter().map(|f| f.trans_name.clone()).collect() },
                Some(H::Unknown { name, fields }) => Event::Custom { name: name.clone(), fields: fields.iter().map(|f| f.trans_name.clone()).collect() },
                Some(H::OnKey { key }) => Event::OnKey { key_filter: match key.as_str() { "any key" => None, "up arrow" => Some(KeyCode::Up), "down arrow" => Some(KeyCode::Down), "left arrow" => Some(KeyCode::Left), "right arrow" => Some(KeyCode::Right), "enter" => Some(KeyCode::Enter), "space" => Some(KeyCode::Char(' ')), k => Some(KeyCode::Char(k.chars().next().unwrap().to_ascii_lowercase())) } },
                Some(x) => return Err(format!("HARNESS: hat {x:?}")),
            };
            out.push((ent.name.to_string(), ev, *pos));
        }
    }
    Ok(out)
}
thread_local! { static PARTS: RefCell<Option<(Rc<Parts>, usize)>> = const { RefCell::new(None) }; }
/// Projects are put together script by script: the first so many at once, others when the input "@add" says so.
pub fn assemble(x: Option<(Rc<Parts>, usize)>) { PARTS.with(|p| *p.borrow_mut() = x) }
fn add_part<'gc>(proj: &mut Project<'gc, MC, MSys>, p: &(String, Event, usize)) {
    let ent = *proj.get_global_context().borrow().entities.get(p.0.as_str()).expect("HARNESS: no such entity");
    proj.add_script(p.2, ent, p.1.clone());
}
/// What a host starts as a process of its own.
pub struct Start { pub entity: String, pub pos: usize, pub locals: Vec<(String, SimpleValue)> }
/// Runs processes on one context. `next` gets, in each round, which of them still run, and says which is stepped and how many times.
/// Each has its own trace; the number of steps each took comes with it.
pub fn run_processes(code: &Rc<ByteCode>, init: &InitInfo, scn: &Rc<Scn>, starts: &[Start], next: &mut dyn FnMut(&[bool]) -> (usize, usize)) -> Result<Vec<(Vec<String>, u64)>, String> {
    let h = Rc::new(RefCell::new(Host::new(scn.clone())));
    set_host(Some(h.clone()));
    in_vm(true);
    let r = catch_unwind(AssertUnwindSafe(|| {
        let sys = Rc::new(MSys { h: h.clone() });
        let env = EnvArena::new(|mc| Env { proj: Gc::new(mc, RefLock::new(Project::new(Gc::new(mc, RefLock::new(GlobalContext::from_init(mc, init, code.clone(), settings(scn), sys)))))), dead: Gc::new(mc, RefLock::new(vec![])), watched: Gc::new(mc, RefLock::new(vec![])) });
        env.mutate(|mc, env| {
            let gc = env.proj.borrow().get_global_context();
            let mut procs = vec![];
            for (i, s) in starts.iter().enumerate() {
                let entity = *gc.borrow().entities.get(s.entity.as_str()).expect("HARNESS: no such entity");
                let mut locals = SymbolTable::default();
                for (k, x) in &s.locals { locals.define_or_redefine(k, Shared::Unique(Value::from_simple(mc, x.clone()))); }
                let state: ProcS = ProcessKind { entity, dispatcher: None }.into();
                if starts.len() > 1 { state.pid.set(Some(0)); }
                let p = Process::new(ProcContext { global_context: gc, entity, locals, state, start_pos: s.pos, barrier: None, reply_key: None, local_message: None });
                if !p.is_running() { return Err(format!("process {i} is not running before its first step")); }
                procs.push((p, vec![], 0u64));
            }
            let mut quiet = 0;
            loop {
                let alive: Vec<bool> = procs.iter().map(|p| p.0.is_running()).collect();
                if !alive.contains(&true) { break; }
                let (k, times) = next(&alive);
                let (p, out, steps) = &mut procs[k];
                for _ in 0..times {
                    if !p.is_running() { break; }
                    let n0 = h.borrow().trace.len();
                    let r = p.step(mc);
                    *steps += 1;
                    let mut g = h.borrow_mut();
                    match r {
                        Ok(ProcessStep::Normal) => {}
                        Ok(ProcessStep::Yield) => if scn.log_yield { g.log("Y".into()) },
                        Ok(ProcessStep::Pause) => g.log("P".into()),
                        Ok(ProcessStep::Terminate { result }) => { let pid = p.state.pid(&mut g); g.log(format!("T p{pid} {}", render(&result))); }
                        Err(e) => { let pid = p.state.pid(&mut g); g.log(format!("E p{pid} {}", cause_text(&e.cause))); }
                        Ok(ProcessStep::Idle) => return Err("a running process said it was idle".into()),
                        Ok(_) => return Err("SCHED".into()),
                    }
                    out.extend_from_slice(&g.trace[n0..]);
                    quiet = if g.trace.len() > n0 { 0 } else { quiet + 1 };
                    if out.len() >= scn.cap_events || g.trace.len() > 4000 || quiet > scn.cap_quiet * 16 { return Ok(procs.into_iter().map(|x| (x.1, x.2)).collect()); }
                }
            }
            // what has ended stays ended
            for (i, (p, _, _)) in procs.iter_mut().enumerate() {
                for _ in 0..3 {
                    let n0 = h.borrow().trace.len();
                    match p.step(mc) { Ok(ProcessStep::Idle) => {} _ => return Err(format!("process {i} did something after it had ended")) }
                    if h.borrow().trace.len() != n0 || p.is_running() { return Err(format!("process {i} runs after it had ended")); }
                    if p.get_call_stack().is_empty() { return Err(format!("process {i} has lost its call stack")); }
                }
                if starts.len() == 1 {
                    h.borrow_mut().log("I".into());
                    if scn.final_state { final_state(&env.proj.borrow(), &h); }
                }
            }
            let mut out: Vec<(Vec<String>, u64)> = procs.into_iter().map(|x| (x.1, x.2)).collect();
            if starts.len() == 1 { out[0].0 = h.borrow().trace.clone(); }
            Ok(out)
        })
    }));
    in_vm(false);
    set_host(None);
    match r { Ok(x) => x, Err(e) => { std::mem::forget(h); Err(format!("PANIC {}", panic_text(&*e))) } }
}

thread_local! { static COLLECT: std::cell::Cell<bool> = const { std::cell::Cell::new(false) }; }
/// Garbage is collected after every step of the project, and ended scripts are not kept.
pub fn collect_often(x: bool) { COLLECT.with(|c| c.set(x)) }

fn drive(code: &Rc<ByteCode>, init: &InitInfo, locs: &Locations, scn: &Rc<Scn>, h: &Rc<RefCell<Host>>, steps: &mut u64) {
    let settings = Settings {
        max_call_depth: scn.max_depth,
        rpc_error_scheme: if scn.rpc_soft { ErrorScheme::Soft } else { ErrorScheme::Hard },
        syscall_error_scheme: if scn.sys_soft { ErrorScheme::Soft } else { ErrorScheme::Hard },
    };
    let sys = Rc::new(MSys { h: h.clone() });
    let parts = PARTS.with(|p| p.borrow().clone());
    let mut env = EnvArena::new(|mc| Env { proj: Gc::new(mc, RefLock::new(match &parts {
        None => Project::from_init(mc, init, code.clone(), settings, sys),
        Some((l, k)) => {
            let mut p = Project::new(Gc::new(mc, RefLock::new(GlobalContext::from_init(mc, init, code.clone(), settings, sys))));
            for x in &l[..*k] { add_part(&mut p, x); }
            p
        }
    })), dead: Gc::new(mc, RefLock::new(vec![])), watched: Gc::new(mc, RefLock::new(vec![])) });
    let mut quiet = 0usize;
    let often = COLLECT.with(|c| c.get());
    let batch = if often { 1 } else { 64 };
    loop {
        let (before, full) = { let h = h.borrow(); (h.trace.len(), h.full()) };
        if full { break; }
        let stop = env.mutate(|mc, env| {
            let mut proj = env.proj.borrow_mut(mc);
            loop {
                let inp = { let mut g = h.borrow_mut(); if g.input_ready() { g.next_input() } else { None } };
                match (inp, &parts) {
                (Some(In::Custom { name, args, .. }), Some((l, _))) if name == "@add" => match &args[0].1 { SimpleValue::Number(k) => add_part(&mut proj, &l[k.get() as usize]), _ => unreachable!() },
                (Some(i), _) => proj.input(mc, conv_input(i)),
                (None, _) => break,
            }
            }
            // many quiet steps in one go
            for _ in 0..batch {
                *steps += 1;
                let n0 = h.borrow().trace.len();
                let r = proj.step(mc);
                if scn.watch > 0 {
                    let mut g = h.borrow_mut();
                    if g.trace.len() > n0 && g.trace[n0].ends_with(" syscall peek []") {
                        let seen: Vec<String> = env.watched.borrow().iter().map(|w| format!("{} of {} = {}", w.name, w.entity.upgrade(mc).map(|e| format!("{}#{}", e.borrow().name.as_str(), e.borrow().state.id)).unwrap_or("?".into()), w.value.upgrade(mc).map(|v| render(&v.borrow())).unwrap_or("?".into()))).collect();
                        g.trace[n0] += &format!(" | {}", seen.join(" | "));
                    }
                }
                let mut idle = false;
                {
                    let mut g = h.borrow_mut();
                    match r {
                        ProjectStep::Idle => { idle = true; g.log("I".into()); }
                        ProjectStep::Yield => if scn.log_yield { g.log("Y".into()) },
                        ProjectStep::Normal => {}
                        ProjectStep::Pause => g.log("P".into()),
                        ProjectStep::Watcher { create, watcher } => {
                            let e = watcher.entity.upgrade(mc).map(|e| format!("{}#{}", e.borrow().name.as_str(), e.borrow().state.id)).unwrap_or("?".into());
                            let v = watcher.value.upgrade(mc).map(|v| render(&v.borrow())).unwrap_or("?".into());
                            let mut all = env.watched.borrow_mut(mc);
                            let matches: Vec<usize> = (0..all.len()).filter(|i| match (all[*i].value.upgrade(mc), watcher.value.upgrade(mc)) { (Some(a), Some(b)) => Gc::ptr_eq(a, b), _ => false }).collect();
                            g.log(format!("W {} {} of {e} = {v}{}", if create { "show" } else { "hide" }, watcher.name, if scn.watch > 0 { format!(" as {matches:?}") } else { String::new() }));
                            if scn.watch > 0 { if create { if matches.is_empty() { all.push(Watch { entity: watcher.entity, name: watcher.name.to_string(), value: watcher.value }); } } else { for i in matches.into_iter().rev() { all.remove(i); } } }
                        }
                        ProjectStep::ProcessTerminated { result, proc } => { let p = proc.state.pid(&mut g); if proc.is_running() { g.log("!! terminated process still running".into()); } g.log(format!("T p{p} {}", render(&result))); drop(g); env.dead.borrow_mut(mc).push(proc); }
                        ProjectStep::Error { error, proc } => {
                            let p = proc.state.pid(&mut g);
                            g.log(format!("E p{p} {}", cause_text(&error.cause)));
                            if scn.summaries {
                                drop(g);
                                let s = ErrorSummary::extract(&error, &proc, locs);
                                let vars = |l: &[VarEntry]| { let mut x: Vec<String> = l.iter().map(|l| format!("{}={}", l.name, if l.value.starts_with("Closure") { "Closure" } else { &l.value })).collect(); x.sort(); x.join(",") };
                                let t = s.trace.iter().map(|e| format!("{}({})", e.location, vars(&e.locals))).collect::<Vec<_>>().join(" > ");
                                let mut g = h.borrow_mut();
                                g.log(format!("summary {} in {} [{t}] globals({}) fields({})", if s.cause == format!("{:?}", error.cause) { cause_text(&error.cause) } else { s.cause.to_string() }, s.entity, vars(&s.globals), vars(&s.fields)));
                            } else { drop(g); }
                            env.dead.borrow_mut(mc).push(proc);
                        }
                    }
                }
                let g = h.borrow();
                if idle && g.inputs.is_empty() && g.msgs.is_empty() { return true; }
                if g.trace.len() != before || g.input_due() { return false; }
            }
            false
        });
        let n = h.borrow().trace.len();
        if n != before { quiet = 0; if scn.gc { env.collect_all(); } } else { quiet += batch; }
        if often { env.mutate(|mc, env| env.dead.borrow_mut(mc).clear()); env.collect_all(); }
        if quiet > scn.cap_quiet * 16 { h.borrow_mut().log("SPIN".into()); break; }
        if stop {
            if scn.final_state { env.mutate(|_, env| final_state(&env.proj.borrow(), h)); }
            break;
        }
    }
}

fn settings(scn: &Scn) -> Settings {
    Settings {
        max_call_depth: scn.max_depth,
        rpc_error_scheme: if scn.rpc_soft { ErrorScheme::Soft } else { ErrorScheme::Hard },
        syscall_error_scheme: if scn.sys_soft { ErrorScheme::Soft } else { ErrorScheme::Hard },
    }
}
fn run_lean<'gc>(mc: &Mutation<'gc>, proj: &mut Project<'gc, MC, MSys>, h: &Rc<RefCell<Host>>, last: &mut (usize, usize), steps: &mut u64) {
    let cap = h.borrow().scn.cap_quiet;
    loop {
        loop {
            let inp = { let mut g = h.borrow_mut(); if g.input_ready() { g.next_input() } else { None } };
            match inp { Some(i) => proj.input(mc, conv_input(i)), None => break }
        }
        *steps += 1;
        let idle = matches!(proj.step(mc), ProjectStep::Idle);
        let mut g = h.borrow_mut();
        if idle && g.inputs.is_empty() && g.msgs.is_empty() { break; }
        if idle { g.log("I".into()); }
        if g.seen != last.0 { *last = (g.seen, 0); } else { last.1 += 1; }
        if g.full() || last.1 > cap { break; }
    }
}
/// Bytes in use after each of `rounds` rounds: the scenario is run, everything is stopped, the custom event "@cleanup" is
/// handled, garbage is collected.
pub fn memory_by_rounds(role: &ast::Role, scn: &Rc<Scn>, rounds: usize) -> Result<(Vec<isize>, u64), String> {
    let (code, init, _) = compile(role)?;
    guarded(scn, |h| {
        let mut steps = 0;
        let mut env = EnvArena::new(|mc| Env { proj: Gc::new(mc, RefLock::new(Project::from_init(mc, &init, code.clone(), settings(scn), Rc::new(MSys { h: h.clone() })))), dead: Gc::new(mc, RefLock::new(vec![])), watched: Gc::new(mc, RefLock::new(vec![])) });
        let mut out = Vec::with_capacity(rounds);
        for _ in 0..rounds {
            h.borrow_mut().round();
            let mut last = (0, 0);
            env.mutate(|mc, env| {
                let mut proj = env.proj.borrow_mut(mc);
                run_lean(mc, &mut proj, h, &mut last, &mut steps);
                h.borrow_mut().silence();
                proj.input(mc, Input::Stop);
                h.borrow_mut().round();
                h.borrow_mut().silence();
                proj.input(mc, Input::CustomEvent { name: "@cleanup".into(), args: Default::default(), interrupt: true, max_queue: 0 });
                last.1 = 0;
                run_lean(mc, &mut proj, h, &mut last, &mut steps);
                proj.input(mc, Input::Stop);
            });
            env.collect_all();
            env.collect_all();
            out.push(crate::mem::live());
        }
        (out, steps)
    })
}
/// Bytes in use (after collecting garbage) each time the system call "@tick" is made.
pub fn memory_by_ticks(role: &ast::Role, scn: &Rc<Scn>, ticks: usize, max_steps: u64) -> Result<(Vec<isize>, u64), String> {
    let (code, init, _) = compile(role)?;
    guarded(scn, |h| {
        let mut steps = 0;
        let mut env = EnvArena::new(|mc| Env { proj: Gc::new(mc, RefLock::new(Project::from_init(mc, &init, code.clone(), settings(scn), Rc::new(MSys { h: h.clone() })))), dead: Gc::new(mc, RefLock::new(vec![])), watched: Gc::new(mc, RefLock::new(vec![])) });
        let mut out = Vec::with_capacity(ticks);
        h.borrow_mut().round();
        while out.len() < ticks && steps < max_steps {
            env.mutate(|mc, env| {
                let mut proj = env.proj.borrow_mut(mc);
                let n = h.borrow().ticks_seen;
                while steps < max_steps && h.borrow().ticks_seen == n {
                    loop {
                        let inp = { let mut g = h.borrow_mut(); if g.input_ready() { g.next_input() } else { None } };
                        match inp { Some(i) => proj.input(mc, conv_input(i)), None => break }
                    }
                    steps += 1;
                    if matches!(proj.step(mc), ProjectStep::Idle) { if h.borrow().inputs.is_empty() && h.borrow().msgs.is_empty() { steps = max_steps; } else { h.borrow_mut().log("I".into()) } }
                }
            });
            env.collect_all();
            env.collect_all();
            out.push(crate::mem::live());
        }
        (out, steps)
    })
}
fn guarded<T>(scn: &Rc<Scn>, f: impl FnOnce(&Rc<RefCell<Host>>) -> T) -> Result<T, String> {
    let h = Rc::new(RefCell::new(Host::lean(scn.clone())));
    set_host(Some(h.clone()));
    in_vm(true);
    let r = catch_unwind(AssertUnwindSafe(|| f(&h)));
    in_vm(false);
    set_host(None);
    r.map_err(|e| { std::mem::forget(h); format!("PANIC {}", panic_text(&*e)) })
}

fn final_state(proj: &Project<MC, MSys>, h: &Rc<RefCell<Host>>) {
    let gc = proj.get_global_context();
    let gc = gc.borrow();
    let mut x = vec![];
    for (n, v) in gc.globals.iter() { x.push(format!(" {n}={}", render(&v.get()))); }
    for (_, e) in gc.entities.iter() {
        let e = e.borrow();
        for (n, v) in e.fields.iter() { x.push(format!(" {}.{n}={}", e.name.as_str(), render(&v.get()))); }
    }
    x.sort();
    let s = format!("state{}", x.concat());
    h.borrow_mut().log(s);
}

pub fn conv_input(i: In) -> Input {
    match i {
        In::Start => Input::Start,
        In::Stop => Input::Stop,
        In::Key(key) => Input::KeyDown { key },
        In::KeyUp(key) => Input::KeyUp { key },
        In::Custom { name, args, interrupt, max_queue } => Input::CustomEvent {
            name: name.as_str().into(),
            args: { let mut r = VecMap::new(); for (k, v) in args { r.insert(k.as_str().into(), v); } r },
            interrupt, max_queue,
        },
    }
}

/// Runs the project for at most `max` steps and hands over every step result (all still alive).
pub fn with_steps<R>(role: &ast::Role, scn: &Rc<Scn>, max: usize, f: impl for<'gc> FnOnce(&Mutation<'gc>, Vec<ProjectStep<'gc, MC, MSys>>) -> R) -> R {
    let (code, init, _) = compile(role).expect("HARNESS: compile");
    let h = Rc::new(RefCell::new(Host::new(scn.clone())));
    set_host(Some(h.clone()));
    let sys = Rc::new(MSys { h: h.clone() });
    let env = EnvArena::new(|mc| Env { proj: Gc::new(mc, RefLock::new(Project::from_init(mc, &init, code.clone(), Settings::default(), sys))), dead: Gc::new(mc, RefLock::new(vec![])), watched: Gc::new(mc, RefLock::new(vec![])) });
    let r = env.mutate(|mc, env| {
        let mut proj = env.proj.borrow_mut(mc);
        proj.input(mc, Input::Start);
        let steps = (0..max).map(|_| proj.step(mc)).collect();
        drop(proj);
        f(mc, steps)
    });
    drop(env);
    set_host(None);
    r
}
