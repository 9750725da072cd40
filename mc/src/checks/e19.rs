//! E19: stored code and state of another version are refused.
use super::common::*;
use super::tabs;
use crate::vm;
use netsblox_vm::bytecode::{ByteCode, InitInfo, Locations};
use serde_json::{from_str, from_value, json, to_value, Value as J};

fn programs() -> Vec<Role> {
    let all: Vec<Stmt> = tabs::stmts().into_iter().map(|b| (b.f)(b.args)).collect();
    let mut lists = prog(vec![init("l", nlist(&[1.0, 2.0])), init("s", Value::String("text".into()))], vec![], vec![on_flag(vec![sat(say(v("l")), "item_3_-1")])]);
    lists.entities[1].fields.push(init("f", Value::List(vec![Value::String("text".into()), Value::List(vec![], None)], None)));
    vec![prog(vec![], vec![], vec![]), lists, tabs::world(nums(&["err", "i"]), vec![], vec![on_flag(all)])]
}
fn docs(r: &Role) -> Result<[J; 3], String> {
    let (c, i, l) = vm::compile(r)?;
    Ok([to_value(&*c).map_err(|e| e.to_string())?, to_value(&i).map_err(|e| e.to_string())?, to_value(&l).map_err(|e| e.to_string())?])
}
const KINDS: [&str; 3] = ["code", "state", "locations"];
fn read(kind: usize, d: J) -> Result<(), String> {
    crate::dfs::in_vm(true);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| match kind { 0 => from_value::<ByteCode>(d).map(|_| ()), 1 => from_value::<InitInfo>(d).map(|_| ()), _ => from_value::<Locations>(d).map(|_| ()) }.map_err(|e| e.to_string())));
    crate::dfs::in_vm(false);
    r.unwrap_or_else(|e| Err(format!("PANIC {}", crate::dfs::panic_text(&*e))))
}
fn read_text(kind: usize, d: &str) -> Result<(), String> {
    crate::dfs::in_vm(true);
    let r = std::panic::catch_unwind(|| match kind { 0 => from_str::<ByteCode>(d).map(|_| ()), 1 => from_str::<InitInfo>(d).map(|_| ()), _ => from_str::<Locations>(d).map(|_| ()) }.map_err(|e| e.to_string()));
    crate::dfs::in_vm(false);
    r.unwrap_or_else(|e| Err(format!("PANIC {}", crate::dfs::panic_text(&*e))))
}
fn must(accept: bool, key: String, r: Result<(), String>) -> Leaf {
    match r {
        Err(e) if e.starts_with("PANIC") => Leaf::fail(key.clone(), format!("{key}: {e}")),
        Err(e) if accept => Leaf::fail(key.clone(), format!("{key}: was refused: {e}")),
        Ok(()) if !accept => Leaf::fail(key.clone(), format!("{key}: was accepted")),
        _ => Leaf::ok(vec![h64(&key)], 1),
    }
}
/// every place of a number in a document
fn numbers(d: &J, at: String, out: &mut Vec<String>) {
    match d {
        J::Array(x) => for (i, y) in x.iter().enumerate() { numbers(y, format!("{at}/{i}"), out) },
        J::Object(x) => for (k, y) in x { numbers(y, format!("{at}/{k}"), out) },
        J::Number(x) if x.is_u64() && x.as_u64().unwrap() > 1 << 32 => out.push(at),
        _ => {}
    }
}
/// the mark of the version, wherever in the document it is, changed in one bit
fn bits(ch: &mut Chooser, ps: &[Role]) -> Leaf {
    let (k, p) = (ch.choose(3), ch.choose(ps.len()));
    let d = match docs(&ps[p]) { Ok(x) => x[k].clone(), Err(e) => return Leaf::fail(format!("store {k}"), e) };
    let mut at = vec![];
    numbers(&d, String::new(), &mut at);
    if at.len() != 2 { return Leaf::fail(format!("mark {k}"), format!("stored {} carry a mark of their version in {} places", KINDS[k], at.len())); }
    let (half, bit) = (ch.choose(2), ch.choose(66));
    let mut d = d;
    let other = d.pointer(&at[1 - half]).unwrap().clone();
    let x = d.pointer_mut(&at[half]).unwrap();
    let v = x.as_u64().unwrap();
    *x = match bit { 64 => json!(v.wrapping_add(1)), 65 => other, b => json!(v ^ (1 << b)) };
    must(false, format!("{} {p} with half {half} of the mark changed in {bit}", KINDS[k]), read(k, d))
}
/// documents as they are, without one of their parts, with a part of another kind, or read as another kind of document
fn forms(ch: &mut Chooser, ps: &[Role]) -> Leaf {
    let (k, p) = (ch.choose(3), ch.choose(ps.len()));
    let ds = match docs(&ps[p]) { Ok(x) => x, Err(e) => return Leaf::fail(format!("store {k}"), e) };
    let d = ds[k].clone();
    let J::Object(m) = d.clone() else { return Leaf::fail(format!("form {k}"), "the document is no record".to_string()) };
    let keys: Vec<String> = m.keys().cloned().collect();
    let how = ch.choose(4);
    match how {
        0 => must(true, format!("{} {p} as stored", KINDS[k]), read(k, d)),
        1 => { let j = ch.choose(3); must(j == k, format!("{} {p} read as {}", KINDS[k], KINDS[j]), read(j, d)) }
        2 => { let f = ch.choose(keys.len()); let mut m = m; m.remove(&keys[f]); must(false, format!("{} {p} without {}", KINDS[k], keys[f]), read(k, J::Object(m))) }
        _ => {
            let mut at = vec![];
            numbers(&d, String::new(), &mut at);
            let Some(at) = at.first() else { return Leaf::fail(format!("mark {k}"), "no mark".to_string()) };
            let mut d = d;
            let x = d.pointer_mut(at).unwrap();
            let v = x.as_u64().unwrap();
            *x = match ch.choose(6) { 0 => J::Null, 1 => json!(v.to_string()), 2 => json!(0), 3 => json!(-1), 4 => json!([v]), _ => json!(true) };
            must(false, format!("{} {p} with {x} in the mark", KINDS[k]), read(k, d))
        }
    }
}
/// documents that end early
fn cut(ch: &mut Chooser, ps: &[Role]) -> Leaf {
    let (k, p) = (ch.choose(3), ch.choose(ps.len()));
    let d = match docs(&ps[p]) { Ok(x) => x[k].to_string(), Err(e) => return Leaf::fail(format!("store {k}"), e) };
    let n = ch.choose(d.len() + 1);
    if !d.is_char_boundary(n) { return Leaf::skip(); }
    must(n == d.len(), format!("{} {p}, {n} of {} bytes", KINDS[k], d.len()), read_text(k, &d[..n]))
}
pub fn check(_quick: bool) -> Check {
    Check::new("E19", "state = distinct document; transition = one document read", vec![
        phase("versions", "3 programs x code, state, locations x both halves of the mark x every bit (and one more, and the other half)", |ch, _| bits(ch, &programs())),
        phase("forms", "3 programs x code, state, locations: as stored, read as each kind, without each part, 6 other values in the mark", |ch, _| forms(ch, &programs())),
        phase("cut short", "2 programs x code, state, locations x every length of the document", |ch, _| cut(ch, &programs()[..2])),
    ])
}
