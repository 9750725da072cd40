//! N04: the program as a command (`nb run`, `nb dump`) and its file syscalls.
use super::common::*;
use crate::nbproc::{self as nb, lit, Proc};
use std::collections::BTreeMap;
use std::path::PathBuf;
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant};

/// a directory of its own, removed in the end
pub struct Scratch(PathBuf);
static NEXT: AtomicU64 = AtomicU64::new(0);
impl Scratch {
    pub fn new() -> Scratch { let p = std::env::temp_dir().join(format!("netc-{}-{}", std::process::id(), NEXT.fetch_add(1, Ordering::Relaxed))); std::fs::create_dir_all(&p).expect("HARNESS: scratch"); Scratch(p) }
    pub fn path(&self) -> &std::path::Path { &self.0 }
    pub fn put(&self, name: &str, content: &[u8]) { std::fs::write(self.0.join(name), content).expect("HARNESS: scratch file") }
    fn get(&self, name: &str) -> Option<Vec<u8>> { std::fs::read(self.0.join(name)).ok() }
}
impl Drop for Scratch { fn drop(&mut self) { let _ = std::fs::remove_dir_all(&self.0); } }

fn sys(name: &str, args: &[String]) -> String { format!("<block s=\"nativeCallSyscall\"><l>{name}</l><list>{}</list></block>", args.concat()) }
fn var(x: &str) -> String { format!("<block var=\"{x}\"/>") }
/// does `body`; a failure is said instead
fn attempt(body: &str) -> String { format!("<block s=\"doTryCatch\"><script>{body}</script><l>err</l><script>{}</script></block>", nb::say(&lit("failed"))) }
/// says what it gives, marked
fn told(x: &str) -> String { nb::say(&format!("<block s=\"reportJoinWords\"><list><l>= </l>{x}</list></block>")) }
const END: &str = "the end";

/// (speaker, what it said) lines of the program
fn said(out: &str) -> Vec<(String, String)> {
    out.lines().filter_map(|l| l.strip_prefix("Entity ").and_then(|l| l.split_once(" > ")).map(|(a, b)| (a.trim_matches('"').to_string(), b.to_string()))).collect()
}
fn run_until(args: &[&str], dir: &Scratch, done: impl Fn(&[(String, String)]) -> bool) -> Result<(Vec<(String, String)>, String), String> {
    let mut p = Proc::start(args, Some(&dir.0));
    let t = Instant::now();
    loop {
        let out = p.out();
        // (a line is complete when it is ended)
        let o = said(&out[..out.rfind('\n').map(|i| i + 1).unwrap_or(0)]);
        if done(&o) { return Ok((o, out)); }
        if let Some(c) = p.over() { return Err(format!("the program ended with {c}, having printed {:?}: {:.400}", p.out(), p.err())); }
        if t.elapsed() > PATIENCE { return Err(format!("nothing more is printed after {:?}: {:.400}", p.out(), p.err())); }
        std::thread::sleep(Duration::from_micros(300));
    }
}

// ------------------------------------------------------------ files
const FILES: [(&str, Option<&str>); 3] = [("f", Some("one\ntwo \u{e9}")), ("g", None), ("h", Some("\n x\r\n\nlast\n"))];
const TEXTS: [&str; 5] = ["abc", "", "two\nlines", " \u{e9}\u{1F600} ", "007"];
#[derive(Clone, Copy, Debug, PartialEq)]
enum Op { Open(usize, usize, usize), Write(usize, usize), WriteNumber(usize), Read(usize), Close(usize), Wrong(usize) }
const WRONG: usize = 18;
fn wrong(k: usize) -> String {
    match k {
        0 => sys("open", &[lit("f")]), 1 => sys("open", &[lit("f"), lit("rw")]), 2 => sys("open", &[lit("missing/g"), lit("w")]), 3 => sys("open", &[]), 4 => sys("open", &[lit("f"), var("r")]),
        5 => sys("readLine", &[lit("f")]), 6 => sys("readLine", &[]), 7 => sys("readLine", &[var("h0"), lit("1")]), 8 => sys("writeLine", &[lit("f"), lit("x")]), 9 => sys("writeLine", &[var("h0")]), 10 => sys("close", &[lit("f")]), 11 => sys("remove", &[lit("f")]),
        k => sys("open", &[lit("f"), lit(["append", "R", "a+", " w", "wx", ""][k - 12])]),
    }
}
struct Open { file: usize, mode: usize, at: usize, buf: Vec<u8>, open: bool }
struct Disk { files: Vec<Option<Vec<u8>>>, open: Vec<Open>, vars: [Option<usize>; 2] }
/// what is said; None: not specified
fn effect(d: &mut Disk, op: Op) -> Option<Option<String>> {
    Some(match op {
        Op::Open(v, f, m) => {
            // two handles at once on a file being written: when they see each other's writes is not specified
            if d.open.iter().any(|o| o.open && o.file == f && (o.mode > 0 || m > 0)) { return None; }
            if m == 0 && d.files[f].is_none() { return Some(None); }
            if m == 1 || d.files[f].is_none() { d.files[f] = Some(vec![]); }
            d.vars[v] = Some(d.open.len());
            d.open.push(Open { file: f, mode: m, at: 0, buf: vec![], open: true });
            Some("open".into())
        }
        Op::Write(..) | Op::WriteNumber(_) => {
            let (v, text) = match op { Op::Write(v, t) => (v, TEXTS[t].to_string()), Op::WriteNumber(v) => (v, "2.5".into()), _ => unreachable!() };
            let Some(o) = d.vars[v].map(|i| &mut d.open[i]) else { return Some(None) };
            if !o.open || o.mode == 0 { return Some(None); }
            o.buf.extend(text.as_bytes());
            o.buf.push(b'\n');
            Some("OK".into())
        }
        Op::Read(v) => {
            let Some(o) = d.vars[v].map(|i| &mut d.open[i]) else { return Some(None) };
            if !o.open || o.mode != 0 { return Some(None); }
            let rest = &d.files[o.file].as_ref().unwrap()[o.at..];
            let n = rest.iter().position(|b| *b == b'\n').map(|i| i + 1).unwrap_or(rest.len());
            o.at += n;
            Some(String::from_utf8(rest[..n].to_vec()).unwrap())
        }
        Op::Close(v) => {
            let Some(o) = d.vars[v].map(|i| &mut d.open[i]) else { return Some(None) };
            if o.open { o.open = false; let b = std::mem::take(&mut o.buf); d.files[o.file].as_mut().unwrap().extend(b); }
            Some("OK".into())
        }
        Op::Wrong(_) => None,
    })
}
fn files(ch: &mut Chooser, depth: usize, vars: usize, nf: usize, texts: usize, wrongs: bool) -> Leaf {
    let mut c: Vec<Op> = vec![];
    for v in 0..vars { for f in 0..nf { for m in 0..3 { c.push(Op::Open(v, f, m)); } } }
    for v in 0..vars { for t in 0..texts { c.push(Op::Write(v, t)); } c.extend([Op::WriteNumber(v), Op::Read(v), Op::Close(v)]); }
    let mut ops: Vec<Op> = (0..depth).map(|_| ch.of(&c)).collect();
    if wrongs { let at = ch.choose(depth + 1); ops.insert(at, Op::Wrong(ch.choose(WRONG))); }
    let mut d = Disk { files: FILES.iter().map(|f| f.1.map(|x| x.as_bytes().to_vec())).collect(), open: vec![], vars: [None; 2] };
    let mut want = vec![];
    for op in &ops {
        let Some(x) = effect(&mut d, *op) else { return Leaf::skip() };
        want.push(x.map(|x| format!("= {x}")).unwrap_or("failed".into()));
    }
    let key = format!("{ops:?}");
    let r = guarded(|| {
        let dir = Scratch::new();
        for (f, c) in FILES { if let Some(c) = c { dir.put(f, c.as_bytes()); } }
        let body: String = ops.iter().map(|op| match op {
            Op::Open(v, f, m) => attempt(&format!("<block s=\"doSetVar\"><l>h{v}</l>{}</block>{}", sys("open", &[lit(FILES[*f].0), lit(["r", "w", "a"][*m])]), told(&lit("open")))),
            Op::Write(v, t) => attempt(&told(&sys("writeLine", &[var(&format!("h{v}")), lit(TEXTS[*t])]))),
            Op::WriteNumber(v) => attempt(&told(&sys("writeLine", &[var(&format!("h{v}")), "<block s=\"reportQuotient\"><l>5</l><l>2</l></block>".into()]))),
            Op::Read(v) => attempt(&told(&sys("readLine", &[var(&format!("h{v}"))]))),
            Op::Close(v) => attempt(&told(&sys("close", &[var(&format!("h{v}"))]))),
            Op::Wrong(k) => attempt(&told(&wrong(*k))),
        }).collect();
        let xml = nb::room("files", &[nb::role("r", &[("h0", "none"), ("h1", "none"), ("r", "q")], &[("S", nb::flag(&format!("{body}{}", nb::say(&lit(END)))))])]);
        dir.put("project.xml", xml.as_bytes());
        let srv = Session::new();
        let (got, _) = run_until(&["--fs", "run", "project.xml", "--server", &srv.base], &dir, |o| o.iter().any(|l| l.1 == format!("{END:?}")))?;
        let got: Vec<String> = got.into_iter().map(|x| x.1).collect();
        let want: Vec<String> = want.iter().map(|x| x.as_str()).chain([END]).map(|x| format!("{x:?}")).collect();
        if got != want { return Err(format!("the program said {got:?}, expected {want:?}")); }
        for (i, (f, _)) in FILES.iter().enumerate() {
            // what is written is in the file for certain once it is closed
            if d.open.iter().any(|o| o.open && o.file == i && !o.buf.is_empty()) { continue; }
            let (a, b) = (dir.get(f), &d.files[i]);
            if a != *b { return Err(format!("file {f} holds {:?}, expected {:?}", a.map(|x| String::from_utf8_lossy(&x).into_owned()), b.as_ref().map(|x| String::from_utf8_lossy(x).into_owned()))); }
        }
        Ok(vec![h64(&format!("{want:?}"))])
    });
    match r { Ok(st) => Leaf::ok(st, depth as u64), Err(w) => Leaf::fail(key.clone(), format!("{key}: {w}")) }
}
/// Every line of a file as it is, and every text written as it is.
fn lines(ch: &mut Chooser) -> Leaf {
    const HOLD: [&str; 16] = ["", "\n", "a", "a\n", "\r\n", "a\r", "a\r\nb\r\n\n", "\n\n\n", "\u{e9}\u{2028}x\u{85}y\nz", "  sp \t\n \n", "\u{feff}bom\n1\n", "a\u{b}\u{c}b\n", "x\ry\nz\r\r\n", "\"quoted\"\n\\n\n", "0x10\n1e3\ntrue\n", "\n\r\n\rend"];
    let (put, text) = (ch.flag(), ch.pick(&HOLD).to_string());
    let mode = if put { ch.of(&["w", "a"]) } else { "r" };
    let key = format!("{mode} {text:?}");
    let mut want = vec![];
    let mut rest = text.as_str();
    if !put { for _ in 0..6 { let n = rest.find('\n').map(|i| i + 1).unwrap_or(rest.len()); want.push(format!("= {}", &rest[..n])); rest = &rest[n..]; } } else { want.extend(["= OK".to_string(), "= OK".to_string()]); }
    let r = guarded(|| {
        let dir = Scratch::new();
        dir.put("f", if put { b"old" } else { text.as_bytes() });
        let xlit = |x: &str| if x.is_empty() { "<l></l>".to_string() } else { format!("<block s=\"reportJoinWords\"><list>{}</list></block>", x.chars().map(|c| format!("<block s=\"reportUnicodeAsLetter\"><l>{}</l></block>", c as u32)).collect::<String>()) };
        let each = if put { attempt(&told(&sys("writeLine", &[var("h"), xlit(&text)]))).repeat(2) } else { attempt(&told(&sys("readLine", &[var("h")]))).repeat(6) };
        let body = format!("<block s=\"doSetVar\"><l>h</l>{}</block>{each}{}{}", sys("open", &[lit("f"), lit(mode)]), attempt(&format!("<block s=\"doSetVar\"><l>x</l>{}</block>", sys("close", &[var("h")]))), nb::say(&lit(END)));
        dir.put("project.xml", nb::room("files", &[nb::role("r", &[("h", ""), ("x", "")], &[("S", nb::flag(&body))])]).as_bytes());
        let srv = Session::new();
        let (got, _) = run_until(&["--fs", "run", "project.xml", "--server", &srv.base], &dir, |o| o.iter().any(|l| l.1 == format!("{END:?}")))?;
        let got: Vec<String> = got.into_iter().map(|x| x.1).collect();
        let want: Vec<String> = want.iter().map(|x| x.as_str()).chain([END]).map(|x| format!("{x:?}")).collect();
        if got != want { return Err(format!("the program said {got:?}, expected {want:?}")); }
        let want = match mode { "r" => text.clone(), "w" => format!("{text}\n{text}\n"), _ => format!("old{text}\n{text}\n") };
        if dir.get("f").as_deref() != Some(want.as_bytes()) { return Err(format!("the file holds {:?}, expected {want:?}", dir.get("f").map(|x| String::from_utf8_lossy(&x).into_owned()))); }
        Ok(vec![h64(&key)])
    });
    match r { Ok(st) => Leaf::ok(st, 8), Err(w) => Leaf::fail(key.clone(), format!("{key}: {w}")) }
}
/// A device that takes nothing: the loss is told at the latest when the file is closed.
fn full(ch: &mut Chooser) -> Leaf {
    let (mode, writes, width) = (ch.of(&["w", "a"]), ch.choose(3), ch.of(&[0usize, 1, 8191, 8192, 20000]));
    let key = format!("mode {mode}, {writes} lines of {width} to a full device");
    let r = guarded(|| {
        let dir = Scratch::new();
        std::os::unix::fs::symlink("/dev/full", dir.0.join("f")).map_err(|e| e.to_string())?;
        let set = |v: &str, x: String| format!("<block s=\"doSetVar\"><l>{v}</l>{x}</block>");
        let body = set("h", sys("open", &[lit("f"), lit(mode)])) + &attempt(&told(&sys("writeLine", &[var("h"), lit(&"x".repeat(width))]))).repeat(writes) + &attempt(&told(&sys("close", &[var("h")]))) + &attempt(&told(&sys("close", &[var("h")])));
        dir.put("project.xml", nb::room("files", &[nb::role("r", &[("h", "")], &[("S", nb::flag(&format!("{body}{}", nb::say(&lit(END)))))])]).as_bytes());
        let srv = Session::new();
        let (got, _) = run_until(&["--fs", "run", "project.xml", "--server", &srv.base], &dir, |o| o.iter().any(|l| l.1 == format!("{END:?}")))?;
        let got: Vec<String> = got.into_iter().map(|x| x.1).collect();
        if got.len() != writes + 3 { return Err(format!("the program said {got:?}")); }
        let failed = got[..=writes].iter().any(|x| x.contains("failed"));
        if failed != (writes > 0) { return Err(format!("nothing could be written, and the program said {got:?}")); }
        Ok(vec![h64(&key)])
    });
    match r { Ok(st) => Leaf::ok(st, writes as u64 + 2), Err(w) => Leaf::fail(key.clone(), format!("{key}: {w}")) }
}
/// Many lines through one handle, more than any buffer holds.
fn long(ch: &mut Chooser) -> Leaf {
    let (lines, width, mode) = (ch.of(&[1usize, 100, 2000]), ch.of(&[0usize, 9, 5000]), ch.choose(2));
    let key = format!("{lines} lines of {width}, mode {mode}");
    if lines * width > 1_000_000 { return Leaf::skip(); }
    let r = guarded(|| {
        let dir = Scratch::new();
        let text = "x".repeat(width);
        dir.put("f", b"old\n");
        let set = |v: &str, x: String| format!("<block s=\"doSetVar\"><l>{v}</l>{x}</block>");
        let times = |body: String| format!("<block s=\"doRepeat\"><l>{lines}</l><script>{body}</script></block>");
        let body = [
            set("h", sys("open", &[lit("f"), lit(["w", "a"][mode])])),
            times(set("x", sys("writeLine", &[var("h"), lit(&text)]))),
            set("x", sys("close", &[var("h")])),
            set("h", sys("open", &[lit("f"), lit("r")])),
            if mode == 1 { set("x", sys("readLine", &[var("h")])) } else { String::new() },
            set("n", lit("0")),
            times(format!("{}<block s=\"doChangeVar\"><l>n</l><block s=\"reportStringSize\">{}</block></block>", set("x", sys("readLine", &[var("h")])), var("x"))),
            told(&var("n")),
            told(&sys("readLine", &[var("h")])),
            nb::say(&lit(END)),
        ].concat();
        dir.put("project.xml", nb::room("files", &[nb::role("r", &[("h", ""), ("x", ""), ("n", "0")], &[("S", nb::flag(&body))])]).as_bytes());
        let srv = Session::new();
        let (got, _) = run_until(&["--fs", "run", "project.xml", "--server", &srv.base], &dir, |o| o.iter().any(|l| l.1 == format!("{END:?}")))?;
        let got: Vec<String> = got.into_iter().map(|x| x.1).collect();
        let want = [format!("\"= {}\"", lines * (width + 1)), "\"= \"".into(), format!("{END:?}")];
        if got != want { return Err(format!("the program said {got:?}, expected {want:?}")); }
        let want = format!("{}{}", if mode == 1 { "old\n" } else { "" }, format!("{text}\n").repeat(lines));
        if dir.get("f") != Some(want.into_bytes()) { return Err("the file does not hold what was written".into()); }
        Ok(vec![h64(&key)])
    });
    match r { Ok(st) => Leaf::ok(st, lines as u64), Err(w) => Leaf::fail(key.clone(), format!("{key}: {w}")) }
}

// ------------------------------------------------------------ roles, failures, exit codes
fn roles(ch: &mut Chooser, max: usize) -> Leaf {
    const NAMES: [&str; 4] = ["one", "Two & 2", "ONE", "tr\u{e9}s"];
    let n = ch.choose(max + 1);
    let names: Vec<&str> = (0..n).map(|_| ch.of(&NAMES)).collect();
    if (1..n).any(|i| names[..i].contains(&names[i])) { return Leaf::skip(); }
    let ask = ch.of(&[None, Some("one"), Some("Two & 2"), Some("ONE"), Some(""), Some("on"), Some("tr\u{e9}s")]);
    // 0: says and fails in a second sprite; 1: cannot be compiled; 2: not xml; 3: no such file
    let kind = ch.choose(4);
    let dump = ch.flag();
    if kind > 1 && (n != 1 || names[0] != "one") { return Leaf::skip(); }
    let key = format!("{} roles {names:?} ask {ask:?} kind {kind}", if dump { "dump" } else { "run" });
    let chosen = match ask { Some(a) => names.iter().position(|x| *x == a), None => if n == 1 { Some(0) } else { None } };
    let r = guarded(|| {
        let dir = Scratch::new();
        let rs: Vec<String> = names.iter().map(|name| {
            let body = format!("{}{}", nb::say(&lit(name)), nb::say(&lit(END)));
            let fail = "<block s=\"bubble\"><block s=\"reportListItem\"><l>7</l><block s=\"reportNewList\"><list><l>x</l></list></block></block></block>";
            let bad = if kind == 1 { "<block s=\"bubble\" collabId=\"nowhere\"><l>x</l></block>" } else { "" };
            nb::role(&nb::esc(name), &[], &[("S", nb::flag(&format!("{fail}{}", nb::say(&lit("never"))))), ("T", nb::flag(&format!("{bad}{body}")))])
        }).collect();
        let xml = nb::room("p", &rs);
        if kind != 3 { dir.put("project.xml", if kind == 2 { "<room" } else { &xml }.as_bytes()); }
        let srv = Session::new();
        let mut args = vec![if dump { "dump" } else { "run" }, "project.xml"];
        if let Some(a) = ask { args.extend(["--role", a]); }
        if !dump { args.extend(["--server", &srv.base]); }
        let ends = kind >= 2 || chosen.is_none() || dump || kind == 1;
        if ends {
            let mut p = Proc::start(&args, Some(&dir.0));
            let Some(c) = p.end() else { return Err(format!("the program goes on: {:?} {:?}", p.out(), p.err())) };
            std::thread::sleep(Duration::from_millis(1));
            let code = if kind == 3 { 1 } else if kind == 2 || chosen.is_none() { 2 } else if dump && kind == 1 { 101 } else { 0 };
            if code != 101 && c != code || code == 101 && c == 0 { return Err(format!("the program ended with {c}, expected {code}: {:?} {:?}", p.out(), p.err())); }
            let t = Instant::now();
            let fine = |p: &Proc| match (code, dump, kind) { (0, true, _) => { let o = p.out(); o.contains("instructions:") && o.contains("data:") && o.contains("total size: ") } (0, false, _) => p.out().contains("error loading project"), _ => !p.err().is_empty() };
            while !fine(&p) { if t.elapsed() > Duration::from_secs(3) { return Err(format!("the program printed {:?} and {:?}", p.out(), p.err())); } std::thread::sleep(Duration::from_millis(1)); }
            if !said(&p.out()).is_empty() { return Err(format!("something ran: {:?}", p.out())); }
        } else {
            let (got, out) = run_until(&args, &dir, |o| o.iter().any(|l| l.1 == format!("{END:?}")))?;
            let want = vec![("T".to_string(), format!("{:?}", names[chosen.unwrap()])), ("T".to_string(), format!("{END:?}"))];
            if got != want { return Err(format!("the program said {got:?}, expected {want:?}")); }
            if out.matches("runtime error").count() != 1 || !out.contains("IndexOutOfBounds") { return Err(format!("the error of the other sprite is not reported once: {out:?}")); }
        }
        Ok(vec![h64(&key)])
    });
    match r { Ok(st) => Leaf::ok(st, 1), Err(w) => Leaf::fail(key.clone(), format!("{key}: {w}")) }
}
/// Without the option there are no file syscalls.
fn without(ch: &mut Chooser) -> Leaf {
    let k = ch.choose(5);
    let key = format!("no file access {k}");
    let r = guarded(|| {
        let dir = Scratch::new();
        dir.put("f", b"x\n");
        let s = [sys("open", &[lit("f"), lit("w")]), sys("open", &[lit("g"), lit("a")]), sys("close", &[lit("f")]), sys("readLine", &[lit("f")]), sys("writeLine", &[lit("f"), lit("y")])][k].clone();
        dir.put("project.xml", nb::room("p", &[nb::role("r", &[], &[("S", nb::flag(&format!("{}{}", attempt(&told(&s)), nb::say(&lit(END)))))])]).as_bytes());
        let srv = Session::new();
        let (got, _) = run_until(&["run", "project.xml", "--server", &srv.base], &dir, |o| o.iter().any(|l| l.1 == format!("{END:?}")))?;
        if got.iter().map(|x| x.1.as_str()).collect::<Vec<_>>() != ["\"failed\"", "\"the end\""] { return Err(format!("the program said {got:?}")); }
        let all: BTreeMap<_, _> = std::fs::read_dir(&dir.0).expect("HARNESS: dir").map(|e| { let e = e.expect("HARNESS: dir"); (e.file_name(), std::fs::read(e.path()).unwrap_or_default()) }).filter(|x| x.0 != "project.xml").collect();
        if all != BTreeMap::from([("f".into(), b"x\n".to_vec())]) { return Err(format!("the directory holds {all:?}")); }
        Ok(vec![h64(&key)])
    });
    match r { Ok(st) => Leaf::ok(st, 1), Err(w) => Leaf::fail(key.clone(), format!("{key}: {w}")) }
}
pub fn check(quick: bool) -> Check {
    let d = if quick { 3 } else { 4 };
    Check::new("N04", "the program as a process on projects given as xml, in a scratch directory", vec![
        phase("one handle", &format!("every sequence of {d} of open (2 files, 3 modes), write (2 texts, a number), read and close"), move |ch, _| files(ch, d, 1, 2, 2, false)),
        phase("two handles", "every sequence of 3 of open (2 files, 3 modes), write, read and close with 2 variables for handles", move |ch, _| files(ch, 3, 2, 2, 1, false)),
        phase("contents", "every sequence of 2, 3 files of which one has empty lines and carriage returns, 5 texts", move |ch, _| files(ch, 2, 1, 3, 5, false)),
        phase("lines", "16 contents (line ends, carriage returns, spaces, unicode) read line by line, or written as a text to a new or an existing file", |ch, _| lines(ch)),
        phase("wrong use", "every sequence of 2 operations with one of 18 wrong calls before, between or after", move |ch, _| files(ch, 2, 1, 2, 1, true)),
        phase("full device", "0 to 2 lines of 5 lengths to a device that takes nothing, new or appended to, then closed twice", |ch, _| full(ch)),
        phase("long files", "up to 2000 lines of up to 5000 characters written, closed, and read again", |ch, _| long(ch)),
        phase("roles", &format!("projects of up to {} roles out of 4 names, 7 requests of a role, good, not to be compiled, unreadable or missing; run and dump", if quick { 2 } else { 3 }), move |ch, _| roles(ch, if quick { 2 } else { 3 })),
        phase("without", "5 file syscalls when they were not enabled", |ch, _| without(ch)),
    ]).assume("what is written is required to be in the file once it is closed; two handles at once on a file that is written are left out")
}
