//! H10: the extension for the editor, run in a browser's stead by node.
use super::common::*;
use netsblox_vm::template::{ExtensionArgs, SyscallMenu};
use serde_json::{Value as J, json};
use std::collections::BTreeMap;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::time::Duration;

struct Node { child: Child, to: ChildStdin, from: BufReader<ChildStdout> }
impl Drop for Node { fn drop(&mut self) { let _ = self.child.kill(); let _ = self.child.wait(); } }
thread_local! { static NODE: std::cell::RefCell<Option<Node>> = const { std::cell::RefCell::new(None) }; }
/// What the extension does in a scenario (of which source is the text of the extension).
fn browser(scenario: &J) -> J {
    NODE.with(|c| {
        let mut c = c.borrow_mut();
        let n = c.get_or_insert_with(|| {
            let mut child = Command::new("node").args(["-e", include_str!("../ext/host.js")]).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).env_remove("NODE_OPTIONS").spawn().expect("HARNESS: node could not be started");
            let (to, from) = (child.stdin.take().unwrap(), BufReader::new(child.stdout.take().unwrap()));
            Node { child, to, from }
        });
        let mut s = scenario.to_string();
        s.push('\n');
        let mut line = String::new();
        if n.to.write_all(s.as_bytes()).and_then(|_| n.to.flush()).is_err() || n.from.read_line(&mut line).unwrap_or(0) == 0 { *c = None; panic!("HARNESS: node ended"); }
        let r: J = serde_json::from_str(&line).expect("HARNESS: node's answer");
        if let Some(x) = r["threw"].as_str() && x.contains("HARNESS") { panic!("HARNESS: {x}"); }
        r
    })
}

// ---------------------------------------------------------------- menus
#[derive(Clone)]
enum Menu { Entry(String, String), Sub(String, Vec<Menu>) }
fn real(m: &Menu) -> SyscallMenu {
    match m {
        Menu::Entry(a, b) if a == b => SyscallMenu::simple_entry(a.clone()),
        Menu::Entry(a, b) => SyscallMenu::Entry { label: a.clone(), value: b.clone() },
        Menu::Sub(a, b) => SyscallMenu::Submenu { label: a.clone(), content: b.iter().map(real).collect() },
    }
}
fn shown(m: &[Menu]) -> J { J::Array(m.iter().map(|m| match m { Menu::Entry(a, b) => json!([a, b]), Menu::Sub(a, b) => json!([a, shown(b)]) }).collect()) }
const LABELS: [&str; 17] = ["open", "x y", "it's", "say \"x\"", "back\\slash", "\\u{41}", "line\nbreak", "tab\tr\r", "{brace}", "}};//", "${x}`", "</script>", "caf\u{e9}", "\u{1F600}", "e\u{301}\u{301}", "\u{2028}\u{2029}", "\u{1}\u{7f}\u{85}\u{200b}\u{feff}"];
fn args<'a>(server: &'a str, syscalls: &'a [SyscallMenu], omitted: &'a [&'a str], ms: u64) -> String { ExtensionArgs { server, syscalls, omitted_elements: omitted, pull_interval: Duration::from_millis(ms) }.render() }
fn offers(key: String, source: &str, menu: &[Menu]) -> Leaf {
    let r = browser(&json!({ "source": source, "ops": [] }));
    if let Some(x) = r["threw"].as_str() { return Leaf::fail(key.clone(), format!("{key}: the extension fails: {x}")); }
    if r["seen"]["registered"] != json!(1) { return Leaf::fail(key.clone(), format!("{key}: the extension was registered {} times", r["seen"]["registered"])); }
    let want = json!([["syscall", shown(menu), true, false]]);
    if r["slot"] != want { return Leaf::fail(key.clone(), format!("{key}: the blocks offer {}, expected {want}", r["slot"])); }
    // the blocks are the ones the compiler knows, and do not run in the browser
    let want = json!([["nativeRunSyscall", "command", "syscall %syscall %exp", true], ["nativeCallSyscall", "reporter", "syscall %syscall %exp", true], ["nativeSyscallError", "reporter", "error", true]]);
    if r["blocks"] != want { return Leaf::fail(key.clone(), format!("{key}: the blocks are {}, expected {want}", r["blocks"])); }
    let all = ["nativeRunSyscall", "nativeCallSyscall", "nativeSyscallError"];
    if r["palette"] != json!([["sprite", all], ["stage", all]]) { return Leaf::fail(key.clone(), format!("{key}: the palette is {}", r["palette"])); }
    Leaf::ok(vec![h64(&r["slot"].to_string())], 1)
}
fn texts(ch: &mut Chooser, _: &Ctx) -> Leaf {
    let (a, b) = (ch.pick(&LABELS).to_string(), ch.pick(&LABELS).to_string());
    let m = match ch.choose(3) {
        0 => vec![Menu::Entry(a.clone(), b.clone())],
        1 => vec![Menu::Sub(a.clone(), vec![Menu::Entry(b.clone(), b.clone())])],
        _ => { if a == b { return Leaf::skip(); } vec![Menu::Entry(a.clone(), a.clone()), Menu::Sub(b.clone(), vec![])] }
    };
    let r: Vec<SyscallMenu> = m.iter().map(real).collect();
    offers(format!("menu {}", shown(&m)), &args("http://127.0.0.1:8080", &r, &[], 250), &m)
}
fn shape(ch: &mut Chooser, left: &mut usize, depth: usize, id: &mut usize) -> Vec<Menu> {
    let mut v = vec![];
    while *left > 0 && ch.flag() {
        *left -= 1;
        *id += 1;
        let l = format!("m{id}");
        v.push(if depth > 0 && ch.flag() { Menu::Sub(l, shape(ch, left, depth - 1, id)) } else { Menu::Entry(l.clone(), if ch.flag() { l } else { "same".into() }) });
    }
    v
}
fn shapes(ch: &mut Chooser, n: usize) -> Leaf {
    let m = shape(ch, &mut { n }, 3, &mut 0);
    let r: Vec<SyscallMenu> = m.iter().map(real).collect();
    offers(format!("menu {}", shown(&m)), &args("http://127.0.0.1:8080", &r, &["replay"], 250), &m)
}

// ---------------------------------------------------------------- documents
fn forest(ch: &mut Chooser, left: &mut usize, depth: usize, omitted: &[&str], full: &mut String, kept: &mut String, gone: bool) {
    loop {
        if *left == 0 || !ch.flag() { return; }
        *left -= 1;
        let t = ch.of(&["a", "b", "aa", "-"]);
        if t == "-" { full.push_str("text "); if !gone { kept.push_str("text "); } continue; }
        let g = gone || omitted.contains(&t);
        for (s, on) in [(&mut *full, true), (&mut *kept, !g)] { if on { s.push_str(&format!("<{t} name=\"{t}\">")); } }
        if depth > 0 { forest(ch, left, depth - 1, omitted, full, kept, g); }
        for (s, on) in [(&mut *full, true), (&mut *kept, !g)] { if on { s.push_str(&format!("</{t}>")); } }
    }
}
fn documents(ch: &mut Chooser, n: usize) -> Leaf {
    let omitted: &[&str] = [&["a"][..], &["a", "b"], &["b", "a"], &["aa", "zz"], &["aa", "a"], &[], &["yy", "b", "a"], &["thumbnail", "pentrails", "aa", "b"]][ch.choose(8)];
    let (mut full, mut kept) = ("<role>".to_string(), "<role>".to_string());
    forest(ch, &mut { n }, n, omitted, &mut full, &mut kept, false);
    full.push_str("</role>"); kept.push_str("</role>");
    let key = format!("without {omitted:?} of {full}");
    let r = browser(&json!({ "source": args("http://h:1", &[], omitted, 250), "project": full, "ops": [["open"], ["click", "Upload"]] }));
    if let Some(x) = r["threw"].as_str() { return Leaf::fail(key.clone(), format!("{key}: the extension fails: {x}")); }
    let want = json!([["POST", "http://h:1/project", kept, 0]]);
    if r["seen"]["requests"] != want { return Leaf::fail(key.clone(), format!("{key}: it sends {}, expected {want}", r["seen"]["requests"])); }
    Leaf::ok(vec![h64(&kept)], 2)
}

// ---------------------------------------------------------------- the terminal
type Vars = Vec<(&'static str, &'static str)>;
#[derive(Clone)]
struct Err { cause: &'static str, globals: Vars, fields: Vars, trace: Vec<(&'static str, Vars)> }
fn errors(which: usize) -> Vec<Err> {
    let e = |cause, trace: Vec<(&'static str, Vars)>| Err { cause, globals: vec![("g", "1"), ("h", "\"x\"")], fields: vec![], trace };
    match which {
        0 => vec![],
        1 => vec![e("Oops", vec![("b1", vec![]), ("b2", vec![("l", "[3]")])])],
        2 => vec![Err { cause: "Bare", globals: vec![], fields: vec![], trace: vec![("b3", vec![])] }],
        // (a block that is not there any more)
        3 => vec![e("Lost", vec![("gone", vec![]), ("c2", vec![("l", "2"), ("m", "3")])]), e("After", vec![("s1", vec![])])],
        4 => vec![e("One", vec![("b2", vec![]), ("g2", vec![])]), Err { cause: "Two", globals: vec![], fields: vec![("f", "7")], trace: vec![("b2", vec![("l", "4")])] }],
        _ => vec![e("Deep", vec![("g1", vec![]), ("c1", vec![]), ("b1", vec![])])],
    }
}
fn vars_json(v: &Vars) -> J { J::Array(v.iter().map(|(a, b)| json!({ "name": a, "value": b })).collect()) }
fn err_json(e: &Err) -> J { json!({ "cause": e.cause, "entity": "s", "globals": vars_json(&e.globals), "fields": vars_json(&e.fields), "trace": e.trace.iter().map(|(l, v)| json!({ "location": l, "locals": vars_json(v) })).collect::<Vec<_>>() }) }
#[derive(Clone, Copy, Debug, PartialEq)]
enum Op { Open, Advance(u64), Click(&'static str), Pulled(bool, &'static str, usize), Answer(&'static str, u16, &'static str) }
const LIMIT: usize = 1024 * 1024;
#[derive(Default)]
struct Model { now: u64, ms: u64, hello: Option<u64>, timer: Option<u64>, on: bool, made: bool, text: String, sign: &'static str, comments: BTreeMap<&'static str, Vec<Option<(usize, String)>>>, families: usize, requests: Vec<J>, open: Vec<String>, alerts: usize, dropped: Vec<&'static str>, opened: usize }
impl Model {
    fn new(ms: u64) -> Model {
        let comments = [("b1", 1), ("b2", 1), ("b3", 2), ("g1", 1), ("g2", 1), ("s1", 1), ("c1", 1), ("c2", 1)].into_iter().map(|(k, n)| (k, vec![None; n])).collect();
        Model { ms, hello: Some(500), comments, ..Default::default() }
    }
    fn send(&mut self, method: &str, url: &str, body: J) { self.requests.push(json!([method, format!("http://h:1{url}"), body, self.now])); self.open.push(url.into()); }
    /// false: not possible now
    fn op(&mut self, op: Op) -> bool {
        match op {
            Op::Open => {
                if !self.made { self.made = true; self.sign = "$"; self.timer = Some(self.now + self.ms); }
                self.on = true;
            }
            Op::Advance(d) => {
                let end = self.now + d;
                loop {
                    // (the two never fall together: the first one is earlier)
                    let (a, b) = (self.hello.filter(|x| *x <= end), self.timer.filter(|x| *x <= end));
                    if a.is_some() && a == b { return false; }
                    match (a, b) {
                        (None, None) => break,
                        (Some(x), y) if y.is_none_or(|y| x < y) => { self.now = x; self.hello = None; self.send("GET", "/project", J::Null); }
                        (_, Some(y)) => { self.now = y; if self.on { self.timer = None; self.send("POST", "/pull", J::Null); } else { self.timer = Some(y + self.ms); } }
                        _ => unreachable!(),
                    }
                }
                self.now = end;
            }
            Op::Click(b) => {
                if !self.made { return false; }
                match b {
                    "flag" => self.send("POST", "/input", json!("start")), "octagon" => self.send("POST", "/input", json!("stop")),
                    "pause" => self.send("POST", "/toggle-paused", J::Null), "Upload" => self.send("POST", "/project", json!("<role></role>")),
                    "Download" => self.opened += 1, "Clear" => self.text.clear(), _ => self.on = false,
                }
            }
            Op::Pulled(running, output, errs) => {
                let Some(i) = self.open.iter().position(|x| x == "/pull") else { return false };
                self.open.remove(i);
                self.timer = Some(self.now + self.ms);
                self.sign = if running { "pause" } else { "pointRight" };
                self.text.push_str(&big(output));
                if self.text.len() > LIMIT { self.text = self.text.split_off(self.text.len() - LIMIT); }
                for e in errors(errs) {
                    self.families += 1;
                    for (l, locals) in &e.trace {
                        let Some(n) = self.comments.get(l).map(|x| x.len()) else { continue };
                        let list = |v: &Vars| v.iter().map(|(a, b)| format!("{a} = {b}")).collect::<Vec<_>>().join("\n");
                        let said = [e.cause.to_string(), list(locals), list(&e.fields), list(&e.globals)].into_iter().filter(|x| !x.is_empty()).collect::<Vec<_>>().join("\n\n");
                        for i in 0..n {
                            // the comments of one error go together
                            if let Some((f, _)) = self.comments[l][i].clone() { for v in self.comments.values_mut() { for c in v { if c.as_ref().is_some_and(|c| c.0 == f) { *c = None; } } } }
                            self.comments.get_mut(l).unwrap()[i] = Some((self.families, said.clone()));
                        }
                    }
                }
            }
            Op::Answer(url, status, text) => {
                let Some(i) = self.open.iter().position(|x| x == url) else { return false };
                self.open.remove(i);
                let get = self.requests.iter().filter(|r| r[1].as_str().unwrap().ends_with(url)).count();
                match url {
                    "/pull" => self.timer = Some(self.now + self.ms),
                    _ if status != 200 => self.alerts += 1,
                    // (which of several requests for the project this answers: the oldest)
                    "/project" => { let k = get - self.open.iter().filter(|x| *x == url).count() - 1; if self.requests.iter().filter(|r| r[1].as_str().unwrap().ends_with(url)).nth(k).unwrap()[0] == json!("GET") { self.dropped.push(text); } }
                    _ => (),
                }
            }
        }
        true
    }
    fn look(&self) -> J {
        let cut = |s: &str, a: usize, b: usize| s[a..b].to_string();
        let t = &self.text;
        json!({ "text": if self.made { json!([t.len(), cut(t, 0, t.len().min(12)), cut(t, t.len().saturating_sub(40), t.len())]) } else { J::Null }, "sign": if self.made { json!(self.sign) } else { J::Null },
            "comments": self.comments.iter().map(|(k, v)| (k.to_string(), J::Array(v.iter().map(|c| c.as_ref().map(|c| json!(c.1)).unwrap_or(J::Null)).collect()))).collect::<serde_json::Map<_, _>>(), "requests": self.requests.len() })
    }
}
/// "a@3;b" is "ayyyb"
fn big(s: &str) -> String {
    let mut o = String::new();
    for (i, p) in s.split('@').enumerate() {
        if i == 0 { o.push_str(p); continue; }
        let d = p.find(|c: char| !c.is_ascii_digit()).unwrap_or(p.len());
        for _ in 0..p[..d].parse::<usize>().unwrap() { o.push('y'); }
        o.push_str(p[d..].strip_prefix(';').unwrap_or(&p[d..]));
    }
    o
}
fn terminal(ch: &mut Chooser, prefix: &[Op], ops: &[Op], depth: usize, ms: u64) -> Leaf {
    let mut m = Model::new(ms);
    let mut done: Vec<Op> = vec![];
    let mut looks = vec![];
    for o in prefix { assert!(m.op(*o), "HARNESS: prefix"); done.push(*o); looks.push(m.look()); }
    for _ in 0..depth {
        let o = ch.pick(ops).clone();
        if !m.op(o) { return Leaf::skip(); }
        done.push(o);
        looks.push(m.look());
    }
    let key = format!("every {ms} ms: {done:?}");
    let js: Vec<J> = done.iter().map(|o| match *o {
        Op::Open => json!(["open"]), Op::Advance(d) => json!(["advance", d]), Op::Click(b) => json!(["click", b]),
        Op::Pulled(r, o, e) => json!(["answer", "/pull", 200, { "running": r, "output": o, "errors": errors(e).iter().map(err_json).collect::<Vec<_>>() }]),
        Op::Answer(u, s, t) => json!(["answer", u, s, t]),
    }).collect();
    let r = browser(&json!({ "source": args("http://h:1", &[], &["pentrails"], ms), "project": "<role></role>", "ops": js }));
    if let Some(x) = r["threw"].as_str() { return Leaf::fail(key.clone(), format!("{key}: the extension fails: {x}")); }
    for (i, want) in looks.iter().enumerate() {
        let mut got = r["looks"][i].clone();
        // (what the button shows before the first answer is not specified)
        if want["sign"] == json!("$") { got["sign"] = json!("$"); }
        if got != *want { return Leaf::fail(key.clone(), format!("{key}: after {:?} there is {got}, expected {want}", &done[..=i])); }
    }
    let s = &r["seen"];
    if s["requests"] != json!(m.requests) { return Leaf::fail(key.clone(), format!("{key}: the requests are {}, expected {}", s["requests"], json!(m.requests))); }
    if s["alerts"].as_array().map(|x| x.len()) != Some(m.alerts) { return Leaf::fail(key.clone(), format!("{key}: it alerts {}, expected {}", s["alerts"], m.alerts)); }
    if s["dropped"] != json!(m.dropped) { return Leaf::fail(key.clone(), format!("{key}: it opens the projects {}, expected {:?}", s["dropped"], m.dropped)); }
    if s["opened"] != json!(vec![json!(["http://h:1/project", "_blank"]); m.opened]) { return Leaf::fail(key.clone(), format!("{key}: it opens the pages {}, expected {}", s["opened"], m.opened)); }
    if s["notes"] != json!([]) { return Leaf::fail(key.clone(), format!("{key}: {}", s["notes"])); }
    Leaf::ok(looks.iter().map(|l| h64(&l.to_string())).collect(), done.len() as u64)
}

pub fn check(quick: bool) -> Check {
    use Op::*;
    let d = if quick { 0 } else { 1 };
    const SESSION: [Op; 15] = [Open, Advance(200), Advance(700), Click("flag"), Click("octagon"), Click("pause"), Click("Upload"), Click("Clear"), Click("Close"), Pulled(true, "one\n", 0), Pulled(false, "two\n", 0), Answer("/pull", 500, "no"), Answer("/project", 200, "<p>1</p>"), Answer("/project", 404, "no"), Answer("/input", 403, "no")];
    const PULLS: [Op; 9] = [Pulled(true, "", 1), Pulled(true, "x", 2), Pulled(false, "", 3), Pulled(true, "", 4), Pulled(true, "", 5), Pulled(true, "", 0), Answer("/pull", 0, ""), Click("Clear"), Click("Download")];
    const LONG: [Op; 9] = [Pulled(true, "@1048575;", 0), Pulled(true, "@1048576;", 0), Pulled(true, "a@1048576;b", 0), Pulled(true, "c", 0), Pulled(true, "start@1048000;end", 0), Pulled(true, "@600000;z", 0), Pulled(true, "", 0), Pulled(true, "k@3000000;l", 0), Click("Clear")];
    Check::new("H10", "the extension evaluated by node against a stand-in for the editor", vec![
        phase("texts in menus", "17 x 17 labels and values (quotes, escapes, braces, controls, unicode) in 3 shapes of menu", texts),
        phase("menus", "every menu of up to 5 items nested up to 4 deep", |ch, _| shapes(ch, 5)),
        phase("documents", &format!("every document of up to {} elements of 3 names or texts x 8 lists of omitted elements", 4 + d), move |ch, _| documents(ch, 4 + d)),
        phase("from the start", &format!("every sequence of {} of 15 actions, answers and advances of time", 5 + d), move |ch, _| terminal(ch, &[], &SESSION, 5 + d, 300)),
        phase("terminal open", &format!("every sequence of {} of 15 actions, answers and advances of time once the terminal asks the server", 4 + d), move |ch, _| terminal(ch, &[Open, Advance(700)], &SESSION, 4 + d, 300)),
        phase("errors", &format!("every sequence of {} answers with errors on 10 blocks of the project, one of them deleted, and other actions", 3 + d), move |ch, _| {
            // (after each answer the next question is due)
            let mut m = vec![Advance(600), Open, Advance(250)];
            for _ in 0..2 + d { m.push(ch.pick(&PULLS[..7]).clone()); m.push(Advance(250)); }
            terminal(ch, &m, &PULLS, 1, 250)
        }),
        phase("long output", &format!("every sequence of {} outputs around the limit", 2 + d), move |ch, _| {
            let mut m = vec![Advance(600), Open, Advance(1)];
            for _ in 0..1 + d { m.push(ch.pick(&LONG[..8]).clone()); m.push(Advance(1)); }
            terminal(ch, &m, &LONG, 1, 1)
        }),
    ]).assume("the editor is a stand-in that offers the morphs and document functions the extension uses; labels that are numbers, equal labels and the label __proto__ (which objects of JavaScript do not keep) are not enumerated, nor is U+0000")
}
