//! Reference values, independent of the VM's.
use netsblox_vm::runtime::SimpleValue;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;

pub type LRef = Rc<RefCell<Vec<RV>>>;
pub type CellV = Rc<RefCell<RV>>;
pub type Scope = RefCell<BTreeMap<String, CellV>>;

#[derive(Clone)]
pub enum RV {
    Bool(bool),
    Num(f64),
    Text(Rc<str>),
    List(LRef),
    Ring(Rc<Ring>),
    Ent(Rc<REnt>),
    Img(Rc<RImg>),
    Aud(Rc<RImg>),
}
/// an image or a sound; `mark` shows its content in traces
pub struct RImg { pub name: String, pub mark: String }
pub struct Ring { pub params: Vec<String>, pub caps: Vec<(String, CellV)>, pub body: *const Vec<netsblox_vm::ast::Stmt>, pub lex: Option<usize> }
pub struct REnt {
    pub id: usize,
    pub name: String,
    pub original: Option<Rc<REnt>>,
    pub fields: Scope,
    pub costumes: Rc<Vec<(String, Rc<RImg>)>>,
    pub sounds: Rc<Vec<(String, Rc<RImg>)>>,
    pub costume: RefCell<Option<Rc<RImg>>>,
    pub props: RefCell<BTreeMap<String, SimpleValue>>,
}

thread_local! {
    static LISTS: RefCell<Vec<LRef>> = const { RefCell::new(Vec::new()) };
    static CELLS: RefCell<Vec<CellV>> = const { RefCell::new(Vec::new()) };
}
/// Breaks reference cycles between executions.
pub fn reset() {
    let l = LISTS.with(|l| std::mem::take(&mut *l.borrow_mut()));
    let c = CELLS.with(|l| std::mem::take(&mut *l.borrow_mut()));
    for x in &l { if let Ok(mut b) = x.try_borrow_mut() { b.clear(); } }
    for x in &c { if let Ok(mut b) = x.try_borrow_mut() { *b = RV::Bool(false); } }
}
pub fn list(v: Vec<RV>) -> RV { RV::List(lref(v)) }
pub fn lref(v: Vec<RV>) -> LRef { let r = Rc::new(RefCell::new(v)); LISTS.with(|l| l.borrow_mut().push(r.clone())); r }
pub fn cell(v: RV) -> CellV { let r = Rc::new(RefCell::new(v)); CELLS.with(|l| l.borrow_mut().push(r.clone())); r }
pub fn text(s: &str) -> RV { RV::Text(s.into()) }
pub fn num(x: f64) -> Result<RV, String> {
    if x.is_nan() { return Err("NumberError { error: Nan }".into()); }
    if x.is_infinite() { return Err("NumberError { error: Infinity }".into()); }
    Ok(RV::Num(if x == 0.0 { 0.0 } else { x }))
}
pub fn n(x: f64) -> RV { num(x).unwrap() }

impl RV {
    pub fn ty(&self) -> &'static str {
        match self { RV::Bool(_) => "Bool", RV::Num(_) => "Number", RV::Text(_) => "Text", RV::List(_) => "List", RV::Ring(_) => "Closure", RV::Ent(_) => "Entity", RV::Img(_) => "Image", RV::Aud(_) => "Audio" }
    }
    pub fn conv(&self, expected: &str) -> String { format!("ConversionError {{ got: {}, expected: {expected} }}", self.ty()) }
    pub fn as_bool(&self) -> Result<bool, String> { match self { RV::Bool(b) => Ok(*b), x => Err(x.conv("Bool")) } }
    pub fn as_num(&self) -> Result<f64, String> {
        match self { RV::Num(x) => Ok(*x), RV::Text(s) => parse_num(s).ok_or_else(|| self.conv("Number")), x => Err(x.conv("Number")) }
    }
    pub fn as_text(&self) -> Result<String, String> { match self { RV::Text(s) => Ok(s.to_string()), RV::Num(x) => Ok(num_text(*x)), x => Err(x.conv("Text")) } }
    pub fn as_list(&self) -> Result<LRef, String> { match self { RV::List(l) => Ok(l.clone()), x => Err(x.conv("List")) } }
    pub fn as_ring(&self) -> Result<Rc<Ring>, String> { match self { RV::Ring(l) => Ok(l.clone()), x => Err(x.conv("Closure")) } }
    pub fn as_ent(&self) -> Result<Rc<REnt>, String> { match self { RV::Ent(l) => Ok(l.clone()), x => Err(x.conv("Entity")) } }
}

/// Decimal with optional exponent, or 0x/0o/0b integer; surrounding whitespace ignored.
pub fn parse_num(s: &str) -> Option<f64> {
    let s = s.trim();
    let b = s.as_bytes();
    if b.len() > 1 && b[0] == b'0' && b[1].is_ascii_alphabetic() && !matches!(b[1], b'e' | b'E') {
        let radix = match b[1] { b'x' | b'X' => 16, b'o' | b'O' => 8, b'b' | b'B' => 2, _ => return None };
        if b.len() == 2 { return None; }
        let mut v: i128 = 0;
        for c in &b[2..] { v = v * radix as i128 + (*c as char).to_digit(radix)? as i128; if v > i64::MAX as i128 { return None; } }
        return Some(v as f64);
    }
    // grammar: [+-] (digits [. digits*] | . digits) [eE [+-] digits]
    let mut i = 0;
    let digits = |i: &mut usize| { let s = *i; while *i < b.len() && b[*i].is_ascii_digit() { *i += 1; } *i - s };
    if i < b.len() && (b[i] == b'+' || b[i] == b'-') { i += 1; }
    let mut n = digits(&mut i);
    if i < b.len() && b[i] == b'.' { i += 1; n += digits(&mut i); }
    if n == 0 { return None; }
    if i < b.len() && (b[i] == b'e' || b[i] == b'E') {
        i += 1;
        if i < b.len() && (b[i] == b'+' || b[i] == b'-') { i += 1; }
        if digits(&mut i) == 0 { return None; }
    }
    if i != b.len() { return None; }
    let x: f64 = s.parse().ok()?;
    if x.is_finite() { Some(if x == 0.0 { 0.0 } else { x }) } else { None }
}
/// Shortest round-trip text (for the magnitudes used in programs).
pub fn num_text(x: f64) -> String {
    let s = if (1e-5..1e-4).contains(&x.abs()) { format!("{x}") } else { format!("{x:?}") };
    s.strip_suffix(".0").map(|x| x.to_string()).unwrap_or(s)
}

/// As values appear in error summaries.
pub fn debug(v: &RV) -> String { debug_in(v, &mut vec![]) }
/// a list inside itself is shown as [...]
fn debug_in(v: &RV, path: &mut Vec<*const ()>) -> String {
    match v {
        RV::Bool(x) => format!("{x}"),
        RV::Num(x) => format!("{x}"),
        RV::Text(x) => format!("{x:?}"),
        RV::List(l) => {
            let p = Rc::as_ptr(l) as *const ();
            if path.contains(&p) { return "[...]".into(); }
            path.push(p);
            let o = format!("[{}]", l.borrow().iter().map(|x| debug_in(x, path)).collect::<Vec<_>>().join(","));
            path.pop();
            o
        }
        RV::Ring(_) => "Closure".into(),
        RV::Ent(e) => format!("Entity {:?}", e.name),
        _ => "media".into(),
    }
}
pub fn debug_scope(s: &Scope) -> String { s.borrow().iter().map(|(k, v)| format!("{k}={}", debug(&v.borrow()))).collect::<Vec<_>>().join(",") }

pub fn render(v: &RV) -> String { let mut s = String::new(); if crate::host::flat() { flat_to(v, 0, &mut 0, &mut s) } else { render_to(v, &mut HashMap::new(), &mut s) } s }
fn flat_to(v: &RV, d: usize, k: &mut usize, out: &mut String) {
    *k += 1;
    match v {
        RV::List(_) if d >= crate::host::FLAT_DEPTH || *k > crate::host::FLAT_NODES => out.push('…'),
        RV::List(l) => { out.push('['); for (i, x) in l.borrow().iter().enumerate() { if i > 0 { out.push_str(", "); } flat_to(x, d + 1, k, out); } out.push(']'); }
        x => render_to(x, &mut HashMap::new(), out),
    }
}
pub fn render_all(vs: &[RV]) -> String { vs.iter().map(render).collect::<Vec<_>>().join(", ") }
fn render_to(v: &RV, seen: &mut HashMap<usize, usize>, out: &mut String) {
    use std::fmt::Write;
    match v {
        RV::Bool(x) => write!(out, "{x}").unwrap(),
        RV::Num(x) => write!(out, "{x:?}").unwrap(),
        RV::Text(x) => write!(out, "{x:?}").unwrap(),
        RV::Img(x) => write!(out, "<img {}{}>", x.name, x.mark).unwrap(),
        RV::Aud(x) => write!(out, "<aud {}{}>", x.name, x.mark).unwrap(),
        RV::Ring(_) => out.push_str("<ring>"),
        RV::Ent(e) => write!(out, "<{}#{}>", e.name, e.id).unwrap(),
        RV::List(l) => {
            let p = Rc::as_ptr(l) as *const () as usize;
            let n = seen.len();
            match seen.get(&p) {
                Some(k) => write!(out, "#{k}").unwrap(),
                None => {
                    seen.insert(p, n);
                    write!(out, "#{n}[").unwrap();
                    for (i, x) in l.borrow().iter().enumerate() { if i > 0 { out.push_str(", "); } render_to(x, seen, out); }
                    out.push(']');
                }
            }
        }
    }
}
/// Opaque values become a placeholder, as in the controlled host.
pub fn simple(v: &RV) -> SimpleValue { simple_at(v, 0, &mut 600) }
fn simple_at(v: &RV, d: usize, left: &mut usize) -> SimpleValue {
    *left = left.saturating_sub(1);
    match v {
        RV::List(_) if d > 6 || *left == 0 => SimpleValue::Text("deep".into()),
        RV::Bool(x) => SimpleValue::Bool(*x),
        RV::Num(x) => SimpleValue::Number(crate::host::num(*x)),
        RV::Text(x) => SimpleValue::Text((**x).into()),
        RV::List(l) => SimpleValue::List(l.borrow().iter().map(|x| simple_at(x, d + 1, left)).collect()),
        _ => SimpleValue::Text("opaque".into()),
    }
}
pub fn from_simple(v: &SimpleValue) -> RV {
    match v {
        SimpleValue::Bool(x) => RV::Bool(*x),
        SimpleValue::Number(x) => RV::Num(x.get()),
        SimpleValue::Text(x) => text(x.as_str()),
        SimpleValue::List(x) => list(x.iter().map(from_simple).collect()),
        SimpleValue::Image(i) => RV::Img(Rc::new(RImg { name: i.name.to_string(), mark: crate::sys::mark(&i.content) })),
        SimpleValue::Audio(i) => RV::Aud(Rc::new(RImg { name: i.name.to_string(), mark: crate::sys::mark(&i.content) })),
    }
}
/// The whole of a value that holds no list twice on one path.
pub fn simple_deep(v: &RV) -> SimpleValue {
    match v { RV::List(l) => SimpleValue::List(l.borrow().iter().map(simple_deep).collect()), x => simple(x) }
}
