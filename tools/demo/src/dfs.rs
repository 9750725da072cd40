//! Shared helpers of the demonstration.
#![allow(dead_code)]
pub fn in_vm(_: bool) {}
pub fn panic_text(e: &(dyn std::any::Any + Send)) -> String {
    e.downcast_ref::<&str>().map(|x| x.to_string()).or_else(|| e.downcast_ref::<String>().cloned()).unwrap_or_else(|| "panic".into())
}
pub use crate::b::*;
pub use crate::host::{Ans, In, Msg, Scn};
pub use std::rc::Rc;
/// runs a project; the events that start with one of the prefixes must be exactly these
pub fn expect(what: &str, role: Role, scn: Scn, prefixes: &[&str], want: &[&str]) {
    let r = crate::vm::run(&role, &Rc::new(scn));
    // process numbers are left out
    let strip = |x: &str| match x.split_once(' ') { Some((p, rest)) if p.len() > 1 && p.starts_with('p') && p[1..].bytes().all(|b| b.is_ascii_digit()) => rest.to_string(), _ => x.to_string() };
    let trace: Vec<String> = r.trace.iter().map(|x| strip(x)).collect();
    let got: Vec<&str> = trace.iter().map(|x| x.as_str()).filter(|x| x.starts_with("PANIC") || x.starts_with("COMPILE") || prefixes.iter().any(|p| x.starts_with(p))).collect();
    if got != want { eprintln!("{what}:\ngot  {got:#?}\nwant {want:#?}\nfull trace {:#?}", r.trace); std::process::exit(1); }
    println!("{what}: ok");
}
