//! H02: maps kept in vectors.
use super::common::*;
use netsblox_vm::compact_str::CompactString;
use netsblox_vm::vecmap::VecMap;

type M<const S: bool> = VecMap<CompactString, u32, S>;
/// the mapping as it should be iterated
type Model = Vec<(String, u32)>;
fn rank(m: &Model, sorted: bool) -> Model { let mut m = m.clone(); if sorted { m.sort(); } m }
fn wrong<const S: bool>(m: &M<S>, w: &Model, keys: &[&str]) -> Option<String> {
    let want = rank(w, S);
    let text = |m: &M<S>| m.iter().map(|(k, v)| (k.to_string(), *v)).collect::<Model>();
    if text(m) != want { return Some(format!("iteration gives {:?}, not {want:?}", text(m))); }
    if m.len() != want.len() || m.is_empty() != want.is_empty() { return Some(format!("length {} for {} entries", m.len(), want.len())); }
    if m.as_slice().iter().map(|e| (e.key.to_string(), e.value)).collect::<Model>() != want { return Some("the slice differs from the iteration".into()); }
    for k in keys {
        let x = want.iter().find(|e| e.0 == *k).map(|e| e.1);
        if m.get(*k).copied() != x { return Some(format!("{k:?} gives {:?}, not {x:?}", m.get(*k))); }
        if m.get(&CompactString::new(k)).copied() != x { return Some(format!("{k:?} looked up as a name gives another value")); }
    }
    let t = netsblox_vm::json::serde_json::to_string(m).unwrap();
    let mut back: M<S> = netsblox_vm::json::parse_json(&t).ok()?;
    if text(&back) != want { return Some(format!("read back from {t} it is {:?}", text(&back))); }
    if back.iter_mut().map(|(k, v)| (k.to_string(), *v)).collect::<Model>() != want { return Some("mutable iteration differs".into()); }
    for k in keys { if back.get_mut(*k).copied() != want.iter().find(|e| e.0 == *k).map(|e| e.1) { return Some(format!("{k:?} looked up for writing gives another value")); } }
    if back.into_iter().map(|(k, v)| (k.to_string(), v)).collect::<Model>() != want { return Some("consuming iteration differs".into()); }
    None
}
fn fail(trail: &[String], w: String) -> Leaf { let at = trail.join("; "); Leaf::fail(at.clone(), format!("{at}\n{w}")) }
fn put(w: &mut Model, k: &str, x: u32) -> Option<u32> {
    match w.iter_mut().find(|e| e.0 == k) { Some(e) => Some(std::mem::replace(&mut e.1, x)), None => { w.push((k.into(), x)); None } }
}
fn copy<const S: bool>(m: &M<S>) -> M<S> { m.iter().map(|(k, v)| (k.clone(), *v)).collect() }
fn ops<const S: bool>(m: &mut M<S>, w: &mut Model, keys: &[&str], depth: usize, next: u32, trail: &mut Vec<String>, l: &mut Leaf, writes: bool) {
    if depth == 0 { return; }
    for i in 0..keys.len() * if writes { 2 } else { 1 } + if writes { 2 } else { 0 } {
        let (mut m, mut w) = (copy(m), w.clone());
        let k = keys[i % keys.len()];
        l.transitions += 1;
        let bad = if i < keys.len() {
            trail.push(format!("insert {k:?} {next}"));
            let (a, b) = (m.insert(k.into(), next), put(&mut w, k, next));
            if a != b { Some(format!("insert gives back {a:?}, not {b:?}")) } else { None }
        } else if i < 2 * keys.len() {
            trail.push(format!("write {k:?} {next}"));
            match (m.get_mut(k), w.iter_mut().find(|e| e.0 == k)) { (Some(x), Some(e)) => { *x = next; e.1 = next; None } (None, None) => None, _ => Some("lookup for writing differs".into()) }
        } else if i == 2 * keys.len() {
            trail.push("write all".into());
            for (_, v) in m.iter_mut() { *v += 100; }
            for e in &mut w { e.1 += 100; }
            None
        } else {
            trail.push("write and read".into());
            m = netsblox_vm::json::parse_json(&netsblox_vm::json::serde_json::to_string(&m).unwrap()).unwrap();
            if S { w.sort(); }
            None
        };
        if let Some(x) = bad.or_else(|| wrong(&m, &w, keys)) { *l = fail(trail, x); return; }
        l.states.push(h64(&(S, &w)));
        ops(&mut m, &mut w, keys, depth - 1, next + 1, trail, l, writes);
        if l.violation.is_some() { return; }
        trail.pop();
    }
}
const KEYS: [&str; 8] = ["", "a", "aa", "b", "a long name that is kept elsewhere", "B", "é", "日"];
fn histories<const S: bool>(ch: &mut Chooser, keys: usize, depth: usize, writes: bool) -> Leaf {
    // the first two operations, to share the work
    let (mut m, mut w, mut trail) = (M::<S>::new(), vec![], vec![]);
    if ch.flag() { m = M::with_capacity(1); }
    let mut l = Leaf::ok(vec![], 0);
    for i in 0..2 {
        let k = KEYS[ch.choose(keys)];
        trail.push(format!("insert {k:?} {i}"));
        let (a, b) = (m.insert(k.into(), i), put(&mut w, k, i));
        if a != b { return fail(&trail, format!("insert gives back {a:?}, not {b:?}")); }
        if let Some(x) = wrong(&m, &w, &KEYS[..keys]) { return fail(&trail, x); }
    }
    ops(&mut m, &mut w, &KEYS[..keys], depth - 2, 2, &mut trail, &mut l, writes);
    l
}
/// built from any sequence, with keys repeated
fn built<const S: bool>(ch: &mut Chooser, keys: usize, n: usize) -> Leaf {
    let k = ch.choose(n + 1);
    let seq: Vec<&str> = (0..k).map(|_| KEYS[ch.choose(keys)]).collect();
    let m: M<S> = seq.iter().enumerate().map(|(i, k)| (CompactString::new(k), i as u32)).collect();
    let mut w = vec![];
    for (i, k) in seq.iter().enumerate() { put(&mut w, k, i as u32); }
    match wrong(&m, &w, &KEYS) { Some(x) => fail(&[format!("built from {seq:?}")], x), None => Leaf::ok(vec![h64(&(S, &w))], k as u64) }
}
/// any order of insertion of numbers, looked up also between and beyond them
fn orders<const S: bool>(ch: &mut Chooser, n: usize) -> Leaf {
    let mut left: Vec<i64> = (0..n as i64).collect();
    let mut m = VecMap::<i64, i64, S>::default();
    let mut order = vec![];
    while !left.is_empty() {
        let k = left.remove(ch.choose(left.len())) * 2;
        order.push(k);
        if m.insert(k, k + 1).is_some() { return Leaf::fail(format!("{order:?}"), format!("{order:?}: the last is said to be there already")); }
        let mut want = order.clone();
        if S { want.sort(); }
        if m.iter().map(|x| *x.0).collect::<Vec<_>>() != want { return Leaf::fail(format!("{order:?}"), format!("{order:?} is kept as {m:?}")); }
        for j in -1..=2 * n as i64 { let x = m.get(&j).copied(); if x != order.contains(&j).then_some(j + 1) { return Leaf::fail(format!("{order:?}"), format!("after {order:?}, {j} gives {x:?}")); } }
    }
    Leaf::ok(vec![h64(&(S, &order))], n as u64)
}
pub fn check(quick: bool) -> Check {
    let q = quick;
    Check::new("H02", "iterations, lookups of present and absent keys, length and the serialized form read back, compared with a plain list of pairs after every operation", vec![
        phase("insertion order: histories", "every sequence of 7 (thorough 9) insertions over five names", move |ch, _| histories::<false>(ch, 5, if q { 7 } else { 9 }, false)),
        phase("sorted: histories", "every sequence of 7 (thorough 9) insertions over five names", move |ch, _| histories::<true>(ch, 5, if q { 7 } else { 9 }, false)),
        phase("insertion order: writes", "every sequence of 6 (thorough 7) insertions and writes over four names", move |ch, _| histories::<false>(ch, 4, if q { 6 } else { 7 }, true)),
        phase("sorted: writes", "every sequence of 6 (thorough 7) insertions and writes over four names", move |ch, _| histories::<true>(ch, 4, if q { 6 } else { 7 }, true)),
        phase("insertion order: built", "built from every sequence of up to 5 (thorough 7) of eight names", move |ch, _| built::<false>(ch, 8, if q { 5 } else { 7 })),
        phase("sorted: built", "built from every sequence of up to 5 (thorough 7) of eight names", move |ch, _| built::<true>(ch, 8, if q { 5 } else { 7 })),
        phase("insertion order: orders", "every order of inserting 8 (thorough 9) numbers", move |ch, _| orders::<false>(ch, if q { 8 } else { 9 })),
        phase("sorted: orders", "every order of inserting 8 (thorough 9) numbers", move |ch, _| orders::<true>(ch, if q { 8 } else { 9 })),
    ])
}
