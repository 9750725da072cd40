//! E14: when garbage is collected makes no difference.
use super::common::*;
use crate::vm;

pub fn ask(role: Role, scn: Scn, cx: &Ctx) -> Leaf {
    let scn = Rc::new(scn);
    let a = vm::run(&role, &scn);
    vm::collect_often(true);
    let b = vm::run(&role, &scn);
    vm::collect_often(false);
    let (mut x, mut y) = (a.trace, b.trace);
    x.truncate(scn.cap_events);
    y.truncate(scn.cap_events);
    if x != y { return Leaf::fail(format!("{:016x}", h64(&format!("{:?}{:?}", role, scn))), format!("{}scenario {:?}\nnever collecting / collecting after every step\n{}", show(&role), scn, side_by_side(&x, &y))); }
    let mut l = Leaf::ok(histories(0, &x), a.steps + b.steps);
    if cx.verbose { l.desc = Some(format!("{}scenario {:?}\n--- never collecting / collecting after every step\n{}", show(&role), scn, side_by_side(&x, &y))); }
    l
}
/// (check, phases of it that are taken)
pub fn take(ask: Ask, from: &[(&str, &[&str])]) -> Vec<Phase> {
    let mut out = vec![];
    for (id, names) in from {
        let ck = super::build(id, "quick").unwrap();
        let mut found = vec![];
        for mut p in ck.phases {
            if names.is_empty() || names.contains(&p.name.as_str()) { found.push(p.name.clone()); p.name = format!("{} of {id}", p.name); out.push(instead(ask, p)); }
        }
        for n in *names { assert!(found.iter().any(|x| x == n), "HARNESS: {id} has no phase {n}"); }
    }
    out
}
pub fn check(quick: bool) -> Check {
    let mut p = take(Ask::Collected, &[
        ("E11", &["ring bodies", "pairs of actions", "operands", "nested blocks"]), ("S10", &["captures", "nested launches", "odd rings", "outliving"]), ("S05", &["state of clones", "hats of clones", "odd targets"]),
        ("V03", &[]), ("E12", &["sounds", "lists of media", "two scripts"]), ("E01", &["operands", "nested operands"]), ("E03", &["errors in operands", "handlers, chains 3"]), ("E04", &["warp, chains 3"]),
        ("E06", &["replies"]), ("E10", &["behaviour of lists"]), ("S04", &["queued events", "clones"]), ("S07", &["keys", "arguments"]), ("S09", &["reports"]),
    ]);
    if !quick {
        p.extend(take(Ask::Collected, &[("E02", &[]), ("S05", &["making clones", "deleting clones"]), ("S04", &["stop blocks", "stop button", "stop inside blocks"]), ("S02", &["clones"]), ("S03", &["three messages"]), ("E12", &["changing costumes"]), ("E03", &["handlers, nested 2"])]));
    }
    Check::new("E14", TRACES, p)
}
