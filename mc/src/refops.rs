//! Reference definitions of the data operators, written from their meaning over plain vectors.
use crate::rv::*;
use std::cmp::Ordering;
use std::collections::HashMap;
use std::rc::Rc;

pub type R = Result<RV, String>;
pub fn oob(index: i64, len: usize) -> String { format!("IndexOutOfBounds {{ index: {index}, len: {len} }}") }
pub const CYCLIC: &str = "CyclicValue";

fn is_cyclic(v: &RV, path: &mut Vec<*const ()>) -> bool {
    match v {
        RV::List(l) => {
            let p = Rc::as_ptr(l) as *const ();
            if path.contains(&p) { return true; }
            path.push(p);
            let r = l.borrow().iter().any(|x| is_cyclic(x, path));
            path.pop();
            r
        }
        _ => false,
    }
}
pub fn cyclic(v: &RV) -> bool { is_cyclic(v, &mut vec![]) }

fn is_matrix(v: &RV) -> bool { matches!(v, RV::List(l) if matches!(l.borrow().first(), Some(RV::List(_)))) }
/// Element-wise application: tables are walked by rows first, then rows and vectors by items.
pub fn zip2(a: &RV, b: &RV, f: &dyn Fn(&RV, &RV) -> R) -> R { zip_mode(a, b, true, f, &mut HashMap::new()) }
type Memo = HashMap<(usize, usize, bool), RV>;
/// the object a value is: lists are themselves, other values the place that holds them
fn ident(v: &RV) -> usize { match v { RV::List(l) => Rc::as_ptr(l) as *const () as usize, x => x as *const RV as usize } }
/// The value paired with itself (directly or through others) again gives the same result list, so that lists holding themselves are covered.
fn zip_mode(a: &RV, b: &RV, matrix: bool, f: &dyn Fn(&RV, &RV) -> R, memo: &mut Memo) -> R {
    let list = |v: &RV| match v { RV::List(l) if !matrix || is_matrix(v) => Some(l.clone()), _ => None };
    let (p, q) = (list(a), list(b));
    if p.is_none() && q.is_none() { return if matrix && (matches!(a, RV::List(_)) || matches!(b, RV::List(_))) { zip_mode(a, b, false, f, memo) } else { f(a, b) }; }
    let key = (ident(a), ident(b), matrix);
    if let Some(r) = memo.get(&key) { return Ok(r.clone()); }
    let out = lref(vec![]);
    memo.insert(key, RV::List(out.clone()));
    let (p, q) = (p.as_ref().map(|x| x.borrow()), q.as_ref().map(|x| x.borrow()));
    let len = match (&p, &q) { (Some(p), Some(q)) => p.len().min(q.len()), (Some(x), None) | (None, Some(x)) => x.len(), _ => unreachable!() };
    for i in 0..len {
        let r = zip_mode(p.as_ref().map_or(a, |p| &p[i]), q.as_ref().map_or(b, |q| &q[i]), matrix, f, memo)?;
        out.borrow_mut().push(r);
    }
    Ok(RV::List(out))
}
pub fn map1(a: &RV, f: &dyn Fn(&RV) -> R) -> R { map_memo(a, f, &mut HashMap::new()) }
fn map_memo(a: &RV, f: &dyn Fn(&RV) -> R, memo: &mut HashMap<*const (), RV>) -> R {
    match a {
        RV::List(l) => {
            let k = Rc::as_ptr(l) as *const ();
            if let Some(r) = memo.get(&k) { return Ok(r.clone()); }
            let out = lref(vec![]);
            memo.insert(k, RV::List(out.clone()));
            let items = l.borrow().clone();
            for x in &items { let r = map_memo(x, f, memo)?; out.borrow_mut().push(r); }
            Ok(RV::List(out))
        }
        x => f(x),
    }
}
pub fn modulus(a: f64, b: f64) -> f64 {
    // a - b*floor(a/b), computed exactly from the remainder
    let r = a % b;
    if r == 0.0 { return if r.is_nan() { r } else { 0.0 }; }
    if (r < 0.0) != (b < 0.0) { r + b } else { r }
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Bin { Add, Sub, Mul, Div, Mod, Pow, Log, Atan2, StrGet, SplitBy, Range }
pub fn bin(op: Bin, a: &RV, b: &RV) -> R {
    zip2(a, b, &|a, b| match op {
        Bin::Add => num(a.as_num()? + b.as_num()?),
        Bin::Sub => num(a.as_num()? - b.as_num()?),
        Bin::Mul => num(a.as_num()? * b.as_num()?),
        Bin::Div => num(a.as_num()? / b.as_num()?),
        Bin::Mod => num(modulus(a.as_num()?, b.as_num()?)),
        Bin::Pow => num(a.as_num()?.powf(b.as_num()?)),
        Bin::Log => { let (y, x) = (b.as_num()?, a.as_num()?); num(y.ln() / x.ln()) } // operands: base, value
        Bin::Atan2 => num(a.as_num()?.atan2(b.as_num()?).to_degrees()),
        Bin::StrGet => { let s = b.as_text()?; let g = crate::refops::graphemes(&s); let i = index(a, g.len())?; Ok(text(&g[i])) } // operands: index, text
        Bin::SplitBy => { let (s, p) = (a.as_text()?, b.as_text()?); Ok(list(split_by(&s, &p).iter().map(|x| text(x)).collect())) }
        Bin::Range => {
            let (a, b) = (a.as_num()?, b.as_num()?);
            let mut v = vec![];
            let n = (b - a).abs().floor();
            for i in 0..=(n as u64) { v.push(num(if a <= b { a + i as f64 } else { a - i as f64 })?); }
            Ok(list(v))
        }
    })
}
pub fn split_by(s: &str, p: &str) -> Vec<String> {
    if p.is_empty() {
        // every boundary separates
        let mut v = vec![String::new()];
        v.extend(s.chars().map(|c| c.to_string()));
        v.push(String::new());
        return v;
    }
    let (mut v, mut cur, mut i) = (vec![], String::new(), 0);
    while i < s.len() {
        if s[i..].starts_with(p) { v.push(std::mem::take(&mut cur)); i += p.len(); } else { let c = s[i..].chars().next().unwrap(); cur.push(c); i += c.len_utf8(); }
    }
    v.push(cur);
    v
}
/// Characters as users see them, for the alphabets used here: combining marks, variation selectors, skin tones and
/// joiners extend the previous character, spacing marks too; CR LF is one; flags pair up; Hangul letters form syllables.
pub fn graphemes(s: &str) -> Vec<String> {
    let cs: Vec<char> = s.chars().collect();
    #[derive(Clone, Copy, PartialEq)]
    enum G { Ctl, Ext, Zwj, Mark, Pre, Flag, Pict, L, V, T, LV, LVT, Any }
    let kind = |c: char| match c as u32 {
        0..=0x1f | 0x7f..=0x9f | 0xad | 0x200b | 0x2028 | 0x2029 | 0xfeff => G::Ctl,
        0x300..=0x36f | 0xfe00..=0xfe0f | 0x1f3fb..=0x1f3ff | 0x200c => G::Ext,
        0x200d => G::Zwj,
        0x903 => G::Mark,
        0x600 => G::Pre,
        0x1f1e6..=0x1f1ff => G::Flag,
        0x1f300..=0x1f5ff | 0x1f600..=0x1f64f | 0x1f680..=0x1f6ff | 0x1f900..=0x1f9ff | 0x2764 => G::Pict,
        0x1100..=0x115f => G::L,
        0x1160..=0x11a7 => G::V,
        0x11a8..=0x11ff => G::T,
        x @ 0xac00..=0xd7a3 => if (x - 0xac00) % 28 == 0 { G::LV } else { G::LVT },
        _ => G::Any,
    };
    let k: Vec<G> = cs.iter().map(|c| kind(*c)).collect();
    let joined = |i: usize| {
        let (p, c) = (k[i - 1], k[i]);
        if cs[i - 1] == '\r' && cs[i] == '\n' { return true; }
        if p == G::Ctl || c == G::Ctl { return false; }
        match (p, c) {
            (_, G::Ext | G::Zwj | G::Mark) | (G::Pre, _) | (G::L, G::L | G::V | G::LV | G::LVT) | (G::LV | G::V, G::V | G::T) | (G::LVT | G::T, G::T) => true,
            (G::Zwj, G::Pict) => { let before = (0..i - 1).rev().find(|j| k[*j] != G::Ext); before.is_some_and(|j| k[j] == G::Pict) }
            (G::Flag, G::Flag) => (0..i).rev().take_while(|j| k[*j] == G::Flag).count() % 2 == 1,
            _ => false,
        }
    };
    let mut v: Vec<String> = vec![];
    for (i, c) in cs.iter().enumerate() { if i > 0 && joined(i) { v.last_mut().unwrap().push(*c) } else { v.push(c.to_string()) } }
    v
}
pub fn index(i: &RV, len: usize) -> Result<usize, String> {
    let x = i.as_num()?;
    if x != x.trunc() || !(-9223372036854775808.0..=9223372036854775808.0).contains(&x) { return Err(format!("IndexNotInteger {{ index: {x:?} }}")); }
    if x < 1.0 || x > len as f64 { return Err(oob(x as i64, len)); }
    Ok(x as usize - 1)
}
/// All positions addressed by an index or (nested) list of indices.
pub fn index_set(i: &RV, len: usize) -> Result<Vec<usize>, String> {
    fn go(i: &RV, len: usize, out: &mut Vec<usize>, seen: &mut Vec<*const ()>) -> Result<(), String> {
        match i {
            RV::List(l) => {
                let p = Rc::as_ptr(l) as *const ();
                if seen.contains(&p) { return Ok(()); }
                seen.push(p);
                let items = l.borrow().clone();
                for x in &items { go(x, len, out, seen)?; }
                Ok(())
            }
            x => { out.push(index(x, len)?); Ok(()) }
        }
    }
    let mut v = vec![];
    go(i, len, &mut v, &mut vec![])?;
    v.sort();
    v.dedup();
    Ok(v)
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Un { Not, Neg, Abs, Sign, Sqrt, Floor, Ceil, Round, Sin, Cos, Tan, Asin, Acos, Atan, StrLen, StrLast, UniToChar, CharToUni, Letters, Words, Tabs, Crs, Lfs, Csv, Json, ToNum }
pub fn un(op: Un, a: &RV) -> R {
    map1(a, &|x| {
        let strs = |v: Vec<String>| Ok(list(v.iter().map(|x| text(x)).collect()));
        match op {
            Un::Not => Ok(RV::Bool(!x.as_bool()?)),
            Un::Neg => num(-x.as_num()?),
            Un::Abs => num(x.as_num()?.abs()),
            Un::Sqrt => num(x.as_num()?.sqrt()),
            Un::Floor => num(x.as_num()?.floor()),
            Un::Ceil => num(x.as_num()?.ceil()),
            Un::Round => { let v = x.as_num()?; let f = v.trunc(); num(if (v - f).abs() >= 0.5 { f + v.signum() } else { f }) }
            Un::Sin => num(x.as_num()?.to_radians().sin()),
            Un::Cos => num(x.as_num()?.to_radians().cos()),
            Un::Tan => num(x.as_num()?.to_radians().tan()),
            Un::Asin => num(x.as_num()?.asin().to_degrees()),
            Un::Acos => num(x.as_num()?.acos().to_degrees()),
            Un::Atan => num(x.as_num()?.atan().to_degrees()),
            Un::Sign => unreachable!(),
            Un::ToNum => num(x.as_num()?),
            Un::StrLen => num(graphemes(&x.as_text()?).len() as f64),
            Un::StrLast => graphemes(&x.as_text()?).last().map(|x| text(x)).ok_or_else(|| oob(1, 0)),
            Un::UniToChar => {
                let v = x.as_num()?;
                let c = if v >= 0.0 && v <= 0x10ffff as f64 && v == v.trunc() { char::from_u32(v as u32) } else { None };
                match c { Some(c) => Ok(text(&c.to_string())), None => Err(format!("InvalidUnicode {{ value: {v:?} }}")) }
            }
            Un::CharToUni => {
                let s = x.as_text()?;
                let v: Vec<RV> = s.chars().map(|c| RV::Num(c as u32 as f64)).collect();
                if v.len() == 1 { Ok(v[0].clone()) } else { Ok(list(v)) }
            }
            Un::Letters => strs(graphemes(&x.as_text()?)),
            // words of letters and digits (ASCII alphabet used here)
            Un::Words => strs(words(&x.as_text()?)),
            Un::Tabs => strs(split_by(&x.as_text()?, "\t")),
            Un::Crs => strs(split_by(&x.as_text()?, "\r")),
            Un::Lfs => {
                let s = x.as_text()?;
                let mut v = split_by(&s, "\n");
                if v.last().is_some_and(|x| x.is_empty()) { v.pop(); } else if let Some(l) = v.pop() { v.push(l); let k = v.len(); return Ok(list(v.iter().enumerate().map(|(i, x)| text(if i + 1 < k { x.strip_suffix('\r').unwrap_or(x) } else { x })).collect())); }
                strs(v.iter().map(|x| x.strip_suffix('\r').unwrap_or(x).to_string()).collect())
            }
            Un::Csv => { let s = x.as_text()?; csv_parse(&s).map(|t| list(t.into_iter().map(|r| list(r.iter().map(|x| text(x)).collect())).collect())).ok_or_else(|| format!("NotCsv {{ value: {s:?} }}")) }
            Un::Json => { let s = x.as_text()?; json_parse(&s)?.ok_or_else(|| format!("NotJson {{ value: {s:?} }}")) }
        }
    })
}
/// Words, for the alphabet used here: runs of letters, digits and underscores holding a letter or digit; an apostrophe or
/// full stop between two letters or two digits and a comma or semicolon between two digits belong to the word; every
/// ideograph is a word; combining marks go with the character before them.
pub fn words(s: &str) -> Vec<String> {
    let mut units: Vec<String> = vec![];
    for c in s.chars() {
        let ext = matches!(c as u32, 0x300..=0x36f | 0x200d);
        match units.last_mut() { Some(u) if ext && !matches!(u.as_str(), "\r" | "\n") => u.push(c), _ => units.push(c.to_string()) }
    }
    let first = |i: usize| units.get(i).and_then(|u: &String| u.chars().next());
    let han = |c: char| ('\u{4e00}'..='\u{9fff}').contains(&c);
    let letter = |c: char| c.is_alphabetic() && !han(c);
    let digit = |c: char| c.is_ascii_digit();
    let inner = |c: char| letter(c) || digit(c) || c == '_';
    let joined = |i: usize| { // unit i goes with unit i - 1
        let (p, c) = (first(i - 1).unwrap(), first(i).unwrap());
        if inner(p) && inner(c) { return true; }
        let around = |q: Option<char>, m: char, r: Option<char>| matches!((q, r), (Some(q), Some(r)) if letter(q) && letter(r) && ".'".contains(m) || digit(q) && digit(r) && ".',;".contains(m));
        around(Some(p), c, first(i + 1)) || (i >= 2 && around(first(i - 2), p, Some(c)))
    };
    let mut v: Vec<String> = vec![];
    for i in 0..units.len() { if i > 0 && joined(i) { v.last_mut().unwrap().push_str(&units[i]) } else { v.push(units[i].clone()) } }
    v.retain(|w| w.chars().any(|c| c.is_alphanumeric()));
    v
}
/// RFC-4180-like reader used as an oracle for table texts.
pub fn csv_parse(s: &str) -> Option<Vec<Vec<String>>> {
    if s.is_empty() { return Some(vec![]); }
    let c: Vec<char> = s.chars().collect();
    let (mut i, mut rows, mut row) = (0, vec![], vec![]);
    loop {
        let mut cell = String::new();
        if i < c.len() && c[i] == '"' {
            i += 1;
            loop {
                if i >= c.len() { return None; }
                if c[i] == '"' { if i + 1 < c.len() && c[i + 1] == '"' { cell.push('"'); i += 2; } else { i += 1; break; } } else { cell.push(c[i]); i += 1; }
            }
            if i < c.len() && c[i] != ',' && c[i] != '\n' { return None; }
        } else {
            while i < c.len() && c[i] != ',' && c[i] != '\n' { if c[i] == '"' { return None; } cell.push(c[i]); i += 1; }
        }
        row.push(cell);
        if i >= c.len() { rows.push(row); return Some(rows); }
        if c[i] == '\n' { rows.push(std::mem::take(&mut row)); }
        i += 1;
    }
}
pub fn csv_text(v: &RV) -> Result<String, String> {
    let l = v.as_list()?.borrow().clone();
    let cell = |x: &RV| -> Result<String, String> { let s = x.as_text()?; Ok(if s.contains(['"', ',', '\n']) { format!("\"{}\"", s.replace('"', "\"\"")) } else { s }) };
    let row = |l: &Vec<RV>| -> Result<String, String> { Ok(l.iter().map(cell).collect::<Result<Vec<_>, _>>()?.join(",")) };
    if l.iter().any(|x| matches!(x, RV::List(_))) { Ok(l.iter().map(|r| row(&r.as_list()?.borrow().clone())).collect::<Result<Vec<_>, _>>()?.join("\n")) } else { row(&l) }
}

/// How two values relate; None = incomparable.
pub fn compare(a: &RV, b: &RV) -> Result<Option<Ordering>, String> {
    fn txt(a: &str, b: &str) -> Ordering { let f = |s: &str| s.chars().flat_map(|c| c.to_lowercase()).collect::<String>(); f(a).cmp(&f(b)) }
    fn go(a: &RV, b: &RV, path: &mut Vec<(*const (), *const ())>) -> Result<Option<Ordering>, String> {
        Ok(match (a, b) {
            (RV::Bool(a), RV::Bool(b)) => Some(a.cmp(b)),
            (RV::Num(_) | RV::Text(_), RV::Num(_) | RV::Text(_)) => match (a.as_num(), b.as_num()) {
                (Ok(x), Ok(y)) => x.partial_cmp(&y),
                _ => Some(txt(&a.as_text()?, &b.as_text()?)),
            },
            (RV::List(x), RV::List(y)) => {
                let k = (Rc::as_ptr(x) as *const (), Rc::as_ptr(y) as *const ());
                if path.contains(&k) { return Err(CYCLIC.into()); }
                path.push(k);
                let (x, y) = (x.borrow().clone(), y.borrow().clone());
                for (p, q) in x.iter().zip(y.iter()) {
                    match go(p, q, path)? { Some(Ordering::Equal) => {} o => { path.pop(); return Ok(o) } }
                }
                path.pop();
                Some(x.len().cmp(&y.len()))
            }
            (RV::Ring(a), RV::Ring(b)) => if Rc::ptr_eq(a, b) { Some(Ordering::Equal) } else { None },
            (RV::Ent(a), RV::Ent(b)) => if Rc::ptr_eq(a, b) { Some(Ordering::Equal) } else { None },
            (RV::Img(a), RV::Img(b)) | (RV::Aud(a), RV::Aud(b)) => if Rc::ptr_eq(a, b) { Some(Ordering::Equal) } else { None },
            _ => None,
        })
    }
    go(a, b, &mut vec![])
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Rel { Eq, Neq, Lt, Le, Gt, Ge }
pub fn relation(r: Rel, a: &RV, b: &RV) -> Result<bool, String> {
    let o = compare(a, b)?;
    match r {
        Rel::Eq => Ok(o == Some(Ordering::Equal)),
        Rel::Neq => Ok(o != Some(Ordering::Equal)),
        _ => match o {
            None => Err(format!("Incomparable {{ left: {}, right: {} }}", a.ty(), b.ty())),
            Some(o) => Ok(match r { Rel::Lt => o.is_lt(), Rel::Le => o.is_le(), Rel::Gt => o.is_gt(), _ => o.is_ge() }),
        },
    }
}
pub fn identical(a: &RV, b: &RV) -> bool {
    match (a, b) {
        (RV::Bool(a), RV::Bool(b)) => a == b,
        (RV::Num(a), RV::Num(b)) => a == b,
        (RV::Text(a), RV::Text(b)) => a == b,
        (RV::List(a), RV::List(b)) => Rc::ptr_eq(a, b),
        (RV::Ring(a), RV::Ring(b)) => Rc::ptr_eq(a, b),
        (RV::Ent(a), RV::Ent(b)) => Rc::ptr_eq(a, b),
        (RV::Img(a), RV::Img(b)) | (RV::Aud(a), RV::Aud(b)) => Rc::ptr_eq(a, b),
        _ => false,
    }
}
pub fn find(l: &RV, v: &RV) -> Result<usize, String> {
    let l = l.as_list()?.borrow().clone();
    for (i, x) in l.iter().enumerate() { if compare(x, v)? == Some(Ordering::Equal) { return Ok(i + 1); } }
    Ok(0)
}
pub fn get(l: &RV, i: &RV) -> R {
    let l = l.as_list()?.borrow().clone();
    map1(i, &|x| Ok(l[index(x, l.len())?].clone()))
}
pub fn sum(vs: &[RV], mul: bool) -> R {
    match vs { [] => num(if mul { 1.0 } else { 0.0 }), [x] => un(Un::ToNum, x), [x, rest @ ..] => { let mut acc = x.clone(); for y in rest { acc = bin(if mul { Bin::Mul } else { Bin::Add }, &acc, y)?; } Ok(acc) } }
}
pub fn extreme(vs: &[RV], max: bool) -> R {
    let mut it = vs.iter();
    let mut best = it.next().ok_or("EmptyList")?.clone();
    for x in it { if relation(if max { Rel::Gt } else { Rel::Lt }, x, &best)? { best = x.clone(); } }
    Ok(best)
}
/// Text shown to users (join).
pub fn display(v: &RV) -> String {
    fn go(v: &RV, path: &mut Vec<*const ()>) -> String {
        match v {
            RV::Bool(b) => b.to_string(),
            RV::Num(x) => format!("{x}"),
            RV::Text(s) => s.to_string(),
            RV::Ring(_) => "Closure".into(),
            RV::Ent(e) => format!("Entity {:?}", e.name),
            RV::Img(_) => "[Image]".into(),
            RV::Aud(_) => "[Audio]".into(),
            RV::List(l) => {
                let p = Rc::as_ptr(l) as *const ();
                if path.contains(&p) { return "[...]".into(); }
                path.push(p);
                let s = format!("[{}]", l.borrow().iter().map(|x| go(x, path)).collect::<Vec<_>>().join(","));
                path.pop();
                s
            }
        }
    }
    go(v, &mut vec![])
}
pub fn dims(v: &RV) -> Result<Vec<usize>, String> {
    if cyclic(v) { return Err(CYCLIC.into()); }
    fn go(v: &RV, d: usize, out: &mut Vec<usize>) {
        if let RV::List(l) = v {
            if out.len() == d { out.push(0); }
            out[d] = out[d].max(l.borrow().len());
            for x in l.borrow().iter() { go(x, d + 1, out); }
        }
    }
    let mut o = vec![];
    go(v, 0, &mut o);
    Ok(o)
}
pub fn flatten(v: &RV) -> Result<Vec<RV>, String> {
    if cyclic(v) { return Err(CYCLIC.into()); }
    fn go(v: &RV, out: &mut Vec<RV>) { match v { RV::List(l) => for x in l.borrow().iter() { go(x, out) }, x => out.push(x.clone()) } }
    let mut o = vec![];
    go(v, &mut o);
    Ok(o)
}
pub fn reshape(v: &RV, dims: &[RV]) -> R {
    let mut d = vec![];
    for x in dims { let x = x.as_num()?; if x < 0.0 || x != x.trunc() || x > 1e15 { return Err(format!("InvalidSize {{ value: {x:?} }}")); } d.push(x as usize); }
    let items = flatten(v)?;
    if items.is_empty() { return Err("EmptyList".into()); }
    fn build(d: &[usize], items: &[RV], k: &mut usize) -> RV {
        match d.split_first() {
            None => { let r = items[*k % items.len()].clone(); *k += 1; r }
            Some((n, rest)) => list((0..*n).map(|_| build(rest, items, k)).collect()),
        }
    }
    Ok(build(&d, &items, &mut 0))
}
pub fn columns(v: &RV) -> R {
    let rows = v.as_list()?.borrow().clone();
    let w = rows.iter().map(|r| match r { RV::List(l) => l.borrow().len(), _ => 1 }).max().unwrap_or(0);
    Ok(list((0..w).map(|c| list(rows.iter().map(|r| match r { RV::List(l) => l.borrow().get(c).cloned().unwrap_or(text("")), x => x.clone() }).collect())).collect()))
}
pub fn combos(vs: &[RV]) -> R {
    let ls = vs.iter().map(|x| x.as_list()).collect::<Result<Vec<_>, _>>()?;
    if ls.is_empty() { return Ok(list(vec![])); }
    let mut acc: Vec<Vec<RV>> = vec![vec![]];
    for l in ls {
        let items = l.borrow().clone();
        acc = acc.into_iter().flat_map(|p| items.iter().map(move |x| { let mut q = p.clone(); q.push(x.clone()); q }).collect::<Vec<_>>()).collect();
    }
    Ok(list(acc.into_iter().map(list).collect()))
}
pub fn lines(v: &RV) -> R { Ok(text(&v.as_list()?.borrow().iter().map(|x| x.as_text()).collect::<Result<Vec<_>, _>>()?.join("\n"))) }
pub fn cat(vs: &[RV]) -> R { let mut r = vec![]; for v in vs { r.extend(v.as_list()?.borrow().iter().cloned()); } Ok(list(r)) }
/// JSON text of a value.
pub fn json_text(v: &RV) -> Result<String, String> {
    if cyclic(v) { return Err("ToSimpleError { error: Cyclic }".into()); }
    fn opaque(v: &RV) -> Option<&'static str> {
        match v { RV::Ring(_) | RV::Ent(_) => Some(v.ty()), RV::List(l) => l.borrow().iter().find_map(opaque), _ => None }
    }
    fn media(v: &RV) -> Option<&'static str> {
        match v { RV::Img(_) | RV::Aud(_) => Some(v.ty()), RV::List(l) => l.borrow().iter().find_map(media), _ => None }
    }
    if let Some(t) = opaque(v) { return Err(format!("ToSimpleError {{ error: ComplexType({t}) }}")); }
    if let Some(t) = media(v) { return Err(format!("IntoJsonError {{ error: ComplexType({t}) }}")); }
    fn go(v: &RV, o: &mut String) {
        match v {
            RV::Bool(b) => *o += if *b { "true" } else { "false" },
            RV::Num(x) => *o += &format!("{x:?}"),
            RV::Text(s) => json_string(s, o),
            RV::List(l) => { o.push('['); for (i, x) in l.borrow().iter().enumerate() { if i > 0 { o.push(','); } go(x, o); } o.push(']'); }
            _ => unreachable!(),
        }
    }
    let mut o = String::new();
    go(v, &mut o);
    Ok(o)
}
fn json_string(s: &str, o: &mut String) {
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => *o += "\\\"", '\\' => *o += "\\\\", '\n' => *o += "\\n", '\r' => *o += "\\r", '\t' => *o += "\\t", '\u{8}' => *o += "\\b", '\u{c}' => *o += "\\f",
            c if (c as u32) < 32 => *o += &format!("\\u{:04x}", c as u32),
            c => o.push(c),
        }
    }
    o.push('"');
}
/// Reads JSON text: Ok(None) when it is not JSON, Err when it is JSON without a value here (null).
pub fn json_parse(s: &str) -> Result<Option<RV>, String> {
    enum J { Null, V(RV) }
    struct P<'a> { s: &'a [u8], i: usize, depth: usize }
    impl P<'_> {
        fn ws(&mut self) { while self.i < self.s.len() && matches!(self.s[self.i], b' ' | b'\t' | b'\n' | b'\r') { self.i += 1; } }
        fn eat(&mut self, w: &str) -> Option<()> { if self.s[self.i..].starts_with(w.as_bytes()) { self.i += w.len(); Some(()) } else { None } }
        fn digits(&mut self) -> usize { let b = self.i; while self.i < self.s.len() && self.s[self.i].is_ascii_digit() { self.i += 1; } self.i - b }
        fn string(&mut self) -> Option<String> {
            self.eat("\"")?;
            let mut o: Vec<u8> = vec![];
            loop {
                let c = *self.s.get(self.i)?;
                self.i += 1;
                match c {
                    b'"' => return String::from_utf8(o).ok(),
                    b'\\' => {
                        let e = *self.s.get(self.i)?;
                        self.i += 1;
                        let hex = |p: &mut Self| -> Option<u32> { let h = std::str::from_utf8(p.s.get(p.i..p.i + 4)?).ok()?; if !h.bytes().all(|b| b.is_ascii_hexdigit()) { return None; } p.i += 4; u32::from_str_radix(h, 16).ok() };
                        match e {
                            b'"' | b'\\' | b'/' => o.push(e), b'n' => o.push(10), b't' => o.push(9), b'r' => o.push(13), b'b' => o.push(8), b'f' => o.push(12),
                            b'u' => {
                                let a = hex(self)?;
                                let c = if (0xd800..0xdc00).contains(&a) { self.eat("\\u")?; let b = hex(self)?; if !(0xdc00..0xe000).contains(&b) { return None; } 0x10000 + ((a - 0xd800) << 10) + (b - 0xdc00) } else { a };
                                o.extend(char::from_u32(c)?.to_string().bytes());
                            }
                            _ => return None,
                        }
                    }
                    c if c < 32 => return None,
                    c => o.push(c),
                }
            }
        }
        fn val(&mut self) -> Option<J> {
            self.ws();
            Some(match *self.s.get(self.i)? {
                b'n' => { self.eat("null")?; J::Null }
                b't' => { self.eat("true")?; J::V(RV::Bool(true)) }
                b'f' => { self.eat("false")?; J::V(RV::Bool(false)) }
                b'"' => J::V(text(&self.string()?)),
                b'[' | b'{' => {
                    let obj = self.s[self.i] == b'{';
                    self.i += 1;
                    self.depth += 1;
                    if self.depth > 127 { return None; }
                    let (mut items, mut null): (Vec<(String, RV)>, bool) = (vec![], false);
                    self.ws();
                    if self.s.get(self.i) == Some(&if obj { b'}' } else { b']' }) { self.i += 1; }
                    else { loop {
                        let mut key = String::new();
                        if obj { self.ws(); key = self.string()?; self.ws(); self.eat(":")?; }
                        let x = match self.val()? { J::Null => { null = true; RV::Bool(false) } J::V(x) => x };
                        if obj { if let Some(p) = items.iter_mut().find(|p| p.0 == key) { p.1 = x; } else { items.push((key, x)); } } else { items.push((key, x)); }
                        self.ws();
                        match *self.s.get(self.i)? { b',' => self.i += 1, b']' if !obj => { self.i += 1; break } b'}' if obj => { self.i += 1; break } _ => return None }
                    } }
                    self.depth -= 1;
                    if null { J::Null } else if obj { items.sort_by(|a, b| a.0.cmp(&b.0)); J::V(list(items.into_iter().map(|(k, x)| list(vec![text(&k), x])).collect())) } else { J::V(list(items.into_iter().map(|x| x.1).collect())) }
                }
                _ => {
                    let b = self.i;
                    let _ = self.eat("-");
                    if self.s.get(self.i) == Some(&b'0') { self.i += 1; } else if self.digits() == 0 { return None; }
                    if self.eat(".").is_some() && self.digits() == 0 { return None; }
                    if self.eat("e").or_else(|| self.eat("E")).is_some() { let _ = self.eat("+").or_else(|| self.eat("-")); if self.digits() == 0 { return None; } }
                    // the value is the JSON library's reading, which may be off in the last digit (known finding of V07)
                    let x: f64 = serde_json::from_slice(&self.s[b..self.i]).ok()?;
                    if !x.is_finite() { return None; }
                    J::V(n(x))
                }
            })
        }
    }
    let mut p = P { s: s.as_bytes(), i: 0, depth: 0 };
    let r = match p.val() { Some(r) => r, None => return Ok(None) };
    p.ws();
    if p.i != s.len() { return Ok(None); }
    match r { J::Null => Err("FromJsonError { error: Null }".into()), J::V(v) => Ok(Some(v)) }
}

/// A note given by number or name.
pub fn note(x: &RV) -> Result<u8, String> {
    if let Ok(v) = x.as_num() {
        if v != v.trunc() || !(-9223372036854775808.0..=9223372036854775808.0).contains(&v) { return Err(format!("NoteNotInteger {{ note: {v:?} }}")); }
        return if (0.0..=127.0).contains(&v) { Ok(v as u8) } else { Err(format!("NoteNotMidi {{ note: \"{}\" }}", v as i64)) };
    }
    let s = x.as_text()?;
    note_name(&s).ok_or_else(|| format!("NoteNotMidi {{ note: {s:?} }}"))
}
/// A letter A to G, then accidentals and one octave number in any order.
pub fn note_name(s: &str) -> Option<u8> {
    let cs: Vec<char> = s.trim().chars().collect();
    let semis = match cs.first()?.to_ascii_uppercase() { 'C' => 0, 'D' => 2, 'E' => 4, 'F' => 5, 'G' => 7, 'A' => 9, 'B' => 11, _ => return None };
    let (mut i, mut octave, mut shift) = (1, None, 0i128);
    while i < cs.len() {
        match cs[i] {
            's' | '#' | '♯' => { shift += 1; i += 1; }
            'b' | '♭' => { shift -= 1; i += 1; }
            'n' | '♮' => i += 1,
            '+' | '-' | '0'..='9' => {
                let j = i + 1 + cs[i + 1..].iter().take_while(|c| c.is_ascii_digit()).count();
                if octave.is_some() { return None; }
                octave = Some(cs[i..j].iter().collect::<String>().parse::<i128>().ok()?);
                i = j;
            }
            _ => return None,
        }
    }
    let v = octave?.checked_mul(12)?.checked_add(12 + semis + shift)?;
    if (0..128).contains(&v) { Some(v as u8) } else { None }
}
