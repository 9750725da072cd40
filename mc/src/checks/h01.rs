//! H01: keyed slot container.
use super::common::*;
use netsblox_vm::slotmap::{Key, SlotMap};

netsblox_vm::new_key! { struct Handle; }

#[derive(Clone)]
struct St { map: SlotMap<Handle, u32>, issued: Vec<(Handle, Option<u32>)>, next: u32, trail: Vec<String> }
impl St {
    fn new() -> St { St { map: SlotMap::new(), issued: vec![], next: 1, trail: vec![] } }
    fn live(&self) -> Vec<(Handle, u32)> { self.issued.iter().filter_map(|(k, v)| v.map(|v| (*k, v))).collect() }
    /// agreement of everything the container tells with the mapping it should be
    fn wrong(&self) -> Option<String> {
        let mut want = self.live();
        want.sort();
        let m = &self.map;
        if m.len() != want.len() || m.is_empty() != want.is_empty() { return Some(format!("length {} (empty: {}) for {} entries", m.len(), m.is_empty(), want.len())); }
        for (i, (k, v)) in self.issued.iter().enumerate() {
            if m.get(*k).copied() != *v { return Some(format!("key {i} ({k:?}) gives {:?}, not {v:?}", m.get(*k))); }
        }
        let sorted = |mut x: Vec<(Handle, u32)>| { x.sort(); x };
        let a = sorted(m.iter().map(|(k, v)| (k, *v)).collect());
        if a != want { return Some(format!("iteration gives {a:?}, not {want:?}")); }
        let mut c = m.clone();
        let b = sorted(c.iter_mut().map(|(k, v)| (k, *v)).collect());
        if b != want { return Some(format!("mutable iteration gives {b:?}, not {want:?}")); }
        for (k, v) in &self.issued { if c.get_mut(*k).copied() != *v { return Some(format!("mutable lookup of {k:?} differs from {v:?}")); } }
        let d = sorted(c.into_iter().collect());
        if d != want { return Some(format!("consuming iteration gives {d:?}, not {want:?}")); }
        let order = |x: Vec<Handle>| x;
        if order(m.iter().map(|x| x.0).collect()) != order(m.clone().into_iter().map(|x| x.0).collect()) { return Some("iterations go in different orders".into()); }
        None
    }
    fn hash(&self) -> u64 { h64(&(self.issued.iter().map(|x| (x.0.get_slot(), x.1)).collect::<Vec<_>>(), self.map.len())) }
}
#[derive(Clone, Copy)]
enum Op { Insert, Remove(usize), Clear, Retain(u32), Write(usize), WriteAll }
/// operations possible now; for keys, every key ever issued
fn ops(s: &St, wide: bool) -> Vec<Op> {
    let mut o = vec![Op::Insert, Op::Clear];
    for i in 0..s.issued.len() { o.push(Op::Remove(i)); }
    let n = s.live().len();
    for m in 0..1u32 << n.min(if wide { 4 } else { 3 }) { o.push(Op::Retain(m)); }
    if wide { for i in 0..s.issued.len() { o.push(Op::Write(i)); } o.push(Op::WriteAll); }
    o
}
fn apply(s: &mut St, op: Op) -> Option<String> {
    match op {
        Op::Insert => {
            let v = s.next;
            s.next += 1;
            let k = s.map.insert(v);
            s.trail.push(format!("insert {v} = {k:?}"));
            if s.issued.iter().any(|x| x.0 == k) { return Some(format!("key {k:?} is given out a second time")); }
            s.issued.push((k, Some(v)));
        }
        Op::Remove(i) => {
            s.trail.push(format!("remove key {i}"));
            let got = s.map.remove(s.issued[i].0);
            let want = s.issued[i].1.take();
            if got != want { return Some(format!("removing key {i} gives {got:?}, not {want:?}")); }
        }
        Op::Clear => { s.trail.push("clear".into()); s.map.clear(); for x in &mut s.issued { x.1 = None; } }
        Op::Retain(m) => {
            s.trail.push(format!("retain {m:b}"));
            let mut seen = vec![];
            let live = s.live();
            let kept = |k: Handle| live.iter().position(|x| x.0 == k).is_some_and(|i| i >= 32 || m >> i & 1 == 1);
            s.map.retain_mut(|k, v| { seen.push((k, *v)); *v += 1000; kept(k) });
            let (mut a, mut b) = (seen, live.clone());
            a.sort(); b.sort();
            if a != b { return Some(format!("retain asks about {a:?}, not {b:?}")); }
            for x in &mut s.issued { if let Some(v) = x.1 { x.1 = if kept(x.0) { Some(v + 1000) } else { None }; } }
        }
        Op::Write(i) => {
            s.trail.push(format!("write key {i}"));
            let v = s.next;
            s.next += 1;
            match (s.map.get_mut(s.issued[i].0), &mut s.issued[i].1) { (Some(x), Some(y)) => { *x = v; *y = v; } (None, None) => (), (x, y) => return Some(format!("key {i} gives {x:?}, not {y:?}")) }
        }
        Op::WriteAll => { s.trail.push("write all".into()); for (_, v) in s.map.iter_mut() { *v += 7; } for x in &mut s.issued { if let Some(v) = &mut x.1 { *v += 7; } } }
    }
    s.wrong()
}
fn go(s: &St, depth: usize, wide: bool, l: &mut Leaf) {
    if depth == 0 || l.violation.is_some() { return; }
    for op in ops(s, wide) {
        let mut t = s.clone();
        l.transitions += 1;
        if let Some(w) = apply(&mut t, op) { let at = t.trail.join("; "); l.violation = Some((at.clone(), format!("{at}\n{w}"))); return; }
        l.states.push(t.hash());
        go(&t, depth - 1, wide, l);
        if l.violation.is_some() { return; }
    }
}
fn histories(ch: &mut Chooser, depth: usize, wide: bool) -> Leaf {
    let mut s = St::new();
    let mut l = Leaf::ok(vec![], 0);
    for _ in 0..3 {
        let o = ops(&s, wide);
        let op = o[ch.choose(o.len())];
        l.transitions += 1;
        if let Some(w) = apply(&mut s, op) { let at = s.trail.join("; "); return Leaf::fail(at.clone(), format!("{at}\n{w}")); }
    }
    go(&s, depth - 3, wide, &mut l);
    l
}
/// larger containers: filled, some removed in some order, filled again, removed again
fn waves(ch: &mut Chooser, n: usize) -> Leaf {
    let mut s = St::new();
    let mut l = Leaf::ok(vec![], 0);
    let mut step = |s: &mut St, op| -> Option<Leaf> { l.transitions += 1; let w = apply(s, op); l.states.push(s.hash()); w.map(|w| { let at = s.trail.join("; "); Leaf::fail(at.clone(), format!("{at}\n{w}")) }) };
    for _ in 0..2 {
        let k = ch.choose(n + 1);
        for _ in 0..k { if let Some(f) = step(&mut s, Op::Insert) { return f; } }
        let live: Vec<usize> = (0..s.issued.len()).filter(|i| s.issued[*i].1.is_some()).collect();
        let mut going: Vec<usize> = match ch.choose(6) { 0 => live.clone(), 1 => live.iter().copied().filter(|i| i % 2 == 0).collect(), 2 => live.iter().copied().filter(|i| i % 3 > 0).collect(), 3 => live.iter().copied().skip(live.len() / 2).collect(), 4 => live.iter().copied().take(live.len() / 2).collect(), _ => vec![] };
        match ch.choose(4) {
            0 => (),
            1 => going.reverse(),
            2 => { let m = going.len() / 2; going.rotate_left(m); }
            _ => { let mask = live.iter().enumerate().filter(|x| !going.contains(x.1)).map(|x| 1u32 << x.0.min(31)).fold(0, |a, b| a | b); if live.len() < 32 { if let Some(f) = step(&mut s, Op::Retain(mask)) { return f; } going.clear(); } }
        }
        for i in going { if let Some(f) = step(&mut s, Op::Remove(i)) { return f; } }
        if ch.flag() { if let Some(f) = step(&mut s, Op::Clear) { return f; } }
    }
    for _ in 0..ch.choose(n + 1) { if let Some(f) = step(&mut s, Op::Insert) { return f; } }
    for i in 0..s.issued.len() { if let Some(f) = step(&mut s, Op::Remove(i)) { return f; } }
    l
}
pub fn check(quick: bool) -> Check {
    let q = quick;
    Check::new("H01", "every key ever given out, length and all iterations compared with a plain mapping after every operation", vec![
        phase("histories", "every sequence of 9 (thorough 10) operations: insert, remove of any key ever issued, clear, retain of any subset", move |ch, _| histories(ch, if q { 9 } else { 10 }, false)),
        phase("histories with writes", "every sequence of 7 (thorough 8) operations, also writing through lookups and iterations", move |ch, _| histories(ch, if q { 7 } else { 8 }, true)),
        phase("waves", "two waves of up to 6 (thorough 11) insertions and removals in six selections and four ways", move |ch, _| waves(ch, if q { 6 } else { 11 })),
    ])
}
