//! Shared parts of the checks: comparing the VM with the reference, describing programs, tables of all blocks.
pub use crate::b::*;
pub use crate::dfs::*;
pub use crate::host::{Ans, In, Msg, Scn};
pub use crate::report::Check;
use crate::{refi, rv, vm};
pub use netsblox_vm::ast::{StopMode, TextSplitMode};
pub use netsblox_vm::runtime::{KeyCode, SimpleValue};
pub use std::rc::Rc;

pub fn show(role: &Role) -> String {
    let mut s = String::new();
    for g in &role.globals { s += &format!("global {} = {:?}\n", g.def.name, g.init); }
    let all = format!("{role:?}");
    for f in &role.funcs { if all.matches(&format!("name: {:?}, trans_name", f.name)).count() < 2 { continue; } s += &clean(format!("define {}({:?}) up {:?}: {:?}\n", f.name, f.params.iter().map(|x| x.name.as_str()).collect::<Vec<_>>(), f.upvars.iter().map(|x| x.name.as_str()).collect::<Vec<_>>(), f.stmts)); }
    for e in &role.entities {
        s += &format!("entity {}", e.name);
        for g in &e.fields { s += &format!(" field {} = {:?}", g.def.name, g.init); }
        s += "\n";
        for f in &e.funcs { s += &clean(format!("  method {}: {:?}\n", f.name, f.stmts)); }
        for c in &e.scripts { s += &clean(format!("  when {:?}: {:?}\n", c.hat.as_ref().map(|x| &x.kind), c.stmts)); }
    }
    s
}

/// Shortens the debug form of syntax trees.
fn clean(x: String) -> String {
    let x = x.replace(", info: BlockInfo { comment: None, location: None }", "");
    let mut parts = x.split(", info: BlockInfo { comment: None, location: Some(\"");
    let mut x = parts.next().unwrap().to_string();
    for p in parts { let (loc, rest) = p.split_once("\") }").unwrap(); x += &format!(" @{loc}"); x += rest; }
    let b = x.as_bytes();
    let mut out = String::new();
    let mut stack: Vec<bool> = vec![]; // whether the brace is dropped
    let mut i = 0;
    let mut in_str = false;
    'l: while i < b.len() {
        let r = &x[i..];
        if in_str {
            let c = r.chars().next().unwrap();
            out.push(c);
            i += c.len_utf8();
            if c == '\\' { let d = x[i..].chars().next().unwrap(); out.push(d); i += d.len_utf8(); }
            if c == '"' { in_str = false; }
            continue;
        }
        for p in ["Expr { kind: ", "Stmt { kind: "] { if r.starts_with(p) { stack.push(true); i += p.len(); continue 'l; } }
        for p in ["VariableRef { name: \"", "VariableDef { name: \"", "FnRef { name: \""] {
            if r.starts_with(p) {
                let e = r[p.len()..].find('"').unwrap();
                out.push_str(&r[p.len()..p.len() + e]);
                i += r.find('}').unwrap() + 1;
                continue 'l;
            }
        }
        for (p, q) in [("Value(Number(", "(("), ("Value(String(", "((")] { if r.starts_with(p) { out.push_str(q); i += p.len(); continue 'l; } }
        if r.starts_with(" }") { if stack.pop() == Some(true) { i += 2; continue; } out.push_str(" }"); i += 2; continue; }
        let c = r.chars().next().unwrap();
        if c == '{' { stack.push(false); }
        if c == '"' { in_str = true; }
        out.push(c);
        i += c.len_utf8();
    }
    out
}

/// Observable histories of a trace, as rolling hashes.
pub fn histories(seed: u64, t: &[String]) -> Vec<u64> {
    let mut h = seed;
    t.iter().map(|x| { h = h64(&(h, x)); h }).collect()
}

pub struct Case { pub role: Role, pub scn: Scn }

fn cut(t: &mut Vec<String>, cap: usize) -> bool {
    if t.len() >= cap { t.truncate(cap); true } else { false }
}

/// Runs the program on the VM and on the reference; the two traces must be equal.
pub fn diff(role: Role, scn: Scn, cx: &Ctx) -> Leaf { diff_key(role, scn, cx, None) }
pub fn diff_key(role: Role, scn: Scn, cx: &Ctx, key: Option<String>) -> Leaf { diff_with(role, scn, cx, key, 0.0) }
/// Lists are compared by contents only, not by which of them are the same list.
pub fn diff_flat(role: Role, scn: Scn, cx: &Ctx) -> Leaf {
    crate::host::set_flat(true);
    let l = diff(role, scn, cx);
    crate::host::set_flat(false);
    l
}
/// Numbers in the traces may differ by this relative error (functions that are not computed exactly).
pub fn diff_near(role: Role, scn: Scn, cx: &Ctx, eps: f64) -> Leaf { diff_with(role, scn, cx, None, eps) }
/// Whether two lines are the same up to small errors of the numbers written in them.
fn near(a: &str, b: &str, eps: f64) -> bool {
    fn toks(s: &str) -> Vec<String> {
        let mut o: Vec<String> = vec![];
        let word = |c: char| c.is_ascii_alphanumeric() || c == '.' || c == '-' || c == '+';
        let mut last = false;
        for c in s.chars() { if word(c) && last { o.last_mut().unwrap().push(c) } else { o.push(c.to_string()) } last = word(c); }
        o
    }
    let (x, y) = (toks(a), toks(b));
    x.len() == y.len() && x.iter().zip(&y).all(|(p, q)| p == q || matches!((p.parse::<f64>(), q.parse::<f64>()), (Ok(p), Ok(q)) if p.is_finite() && q.is_finite() && (p - q).abs() <= eps * p.abs().max(q.abs()).max(1e-300)))
}
#[derive(Clone, Copy, PartialEq)]
pub enum Ask { Reference, Collected, Rounds, Ticks, Assembled, Process }
thread_local! { static ASK: std::cell::Cell<Ask> = const { std::cell::Cell::new(Ask::Reference) }; }
/// The programs of another check's phase, asked a different question.
pub fn instead(ask: Ask, ph: crate::dfs::Phase) -> crate::dfs::Phase {
    let crate::dfs::Phase { name, bound, f } = ph;
    crate::dfs::Phase { name, bound, f: Box::new(move |ch, cx| {
        struct Back;
        impl Drop for Back { fn drop(&mut self) { ASK.with(|a| a.set(Ask::Reference)) } }
        let _back = Back;
        ASK.with(|a| a.set(ask));
        f(ch, cx)
    }) }
}
fn diff_with(role: Role, scn: Scn, cx: &Ctx, key: Option<String>, eps: f64) -> Leaf {
    match ASK.with(|a| a.get()) {
        Ask::Reference => {}
        Ask::Collected => return super::e14::ask(role, scn, cx),
        Ask::Rounds => return super::e15::rounds(role, scn, cx),
        Ask::Ticks => return super::e15::ticks(role, scn, cx),
        Ask::Assembled => return super::e18::assembled(role, scn, cx),
        Ask::Process => return super::e18::process(role, scn, cx),
    }
    let scn = Rc::new(scn);
    let a = vm::run(&role, &scn);
    let role = Rc::new(role);
    let mut ta = a.trace;
    let mut tb = vec![];
    let held: Vec<(bool, usize)> = scn.in_delay.iter().enumerate().filter(|x| *x.1 > 0).map(|x| (true, x.0)).chain(scn.msg_delay.iter().enumerate().filter(|x| *x.1 > 0).map(|x| (false, x.0))).collect();
    let at = [0u8, 255, 1, 2, 3, 4, 5, 6]; // the reference tries every place up to the next event
    // a delivery that was held back a few steps may come anywhere before the next event
    for mask in 0..at.len().pow(held.len() as u32) {
        let b = if mask == 0 && held.is_empty() { refi::run(&role, &scn) } else {
            let mut sc = (*scn).clone();
            let mut m = mask;
            for (inp, i) in &held { *(if *inp { &mut sc.in_delay[*i] } else { &mut sc.msg_delay[*i] }) = at[m % at.len()]; m /= at.len(); }
            refi::run(&role, &Rc::new(sc))
        };
        rv::reset();
        let mut t = b.trace;
        // SPIN (nothing observable for a long time) ends an execution on both sides
        let mut u = ta.clone();
        if cut(&mut u, scn.cap_events) | cut(&mut t, scn.cap_events) {
            let m = u.len().min(t.len());
            if m >= scn.cap_events { u.truncate(m); t.truncate(m); }
        }
        if eps > 0.0 && u.len() == t.len() { for (p, q) in u.iter().zip(t.iter_mut()) { if p != q && near(p, q, eps) { *q = p.clone(); } } }
        if mask == 0 || u == t { tb = t.clone(); }
        if u == t { ta = u; break; }
    }
    cut(&mut ta, scn.cap_events);
    let mut l = Leaf::ok(histories(0, &ta), a.steps);
    if cx.verbose && ta == tb { l.desc = Some(format!("{}scenario {:?}\n--- implementation / reference\n{}", show(&role), scn, side_by_side(&ta, &tb))); }
    else { l.desc = None; }
    if ta != tb {
        let i = (0..).find(|i| ta.get(*i) != tb.get(*i)).unwrap();
        let k = key.unwrap_or_else(|| format!("{:016x}", h64(&format!("{:?}{:?}", role, scn))));
        let why = format!("{}scenario {:?}\ntraces differ at event {i}\nimplementation / reference\n{}", show(&role), scn, side_by_side(&ta, &tb));
        let mut f = Leaf::fail(k, why);
        f.desc = l.desc;
        return f;
    }
    l
}
pub fn side_by_side(a: &[String], b: &[String]) -> String {
    let mut s = String::new();
    for i in 0..a.len().max(b.len()) {
        let x = a.get(i).map(|x| x.as_str()).unwrap_or("-");
        let y = b.get(i).map(|x| x.as_str()).unwrap_or("-");
        if x == y { s += &format!("  {x}\n"); } else { s += &format!("! {x:<40} | {y}\n"); }
    }
    s
}
pub const TRACES: &str = "state = distinct observable history (prefix of the event trace) of a scripted execution; transition = one scheduler step of the real VM; trace validated = one whole execution of the real VM compared event by event with the independent reference semantics";
