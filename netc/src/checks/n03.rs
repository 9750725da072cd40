//! N03: the execution server (`nb start`), over HTTP.
use super::common::*;
use crate::nbproc::{self as nb, http, lit, port, room, Proc, Reply};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op { Load(usize), Start, Stop, Toggle, Answer, BadInput(usize) }
fn barrier(op: Op) -> bool { matches!(op, Op::Start | Op::Stop | Op::Toggle) }
/// what a loaded project does once started, per sprite
#[derive(Clone, Copy, Debug, PartialEq)]
enum Do { Say(&'static str), Ask, SayReply, Pause, Fail(&'static str), Loop }
struct Proj { name: &'static str, xml: Vec<u8>, scripts: Vec<(&'static str, Vec<Do>)>, bad: Bad }
#[derive(Clone, Copy, Debug, PartialEq)]
enum Bad { No, Load, Comment(&'static str), NotText }

const ASK: &str = "<block s=\"getJSFromRPCStruct\" collabId=\"item_1\"><l>Geolocation</l><l>city</l><l>1</l><l>2</l></block>";
const FAILING: &str = "<block collabId=\"LOC\" s=\"bubble\"><block s=\"reportListItem\"><l>7</l><block s=\"reportNewList\"><list><l>x</l></list></block></block></block>";
fn script(ds: &[Do]) -> String {
    nb::flag(&ds.iter().map(|d| match d {
        Do::Say(x) => nb::say(&lit(x)),
        Do::Ask => format!("<block s=\"doSetVar\"><l>r</l>{ASK}</block>"),
        Do::SayReply => nb::say("<block var=\"r\"/>"),
        Do::Pause => "<block s=\"doPauseAll\"></block>".into(),
        Do::Fail(loc) => FAILING.replace("LOC", loc),
        Do::Loop => "<block s=\"doForever\"><script></script></block>".into(),
    }).collect::<String>())
}
fn projects() -> Vec<Proj> {
    use Do::*;
    let good = |name: &'static str, scripts: Vec<(&'static str, Vec<Do>)>| {
        let r = nb::role("myRole", &[("r", "none"), ("g", "5")], &scripts.iter().map(|(n, ds)| (*n, script(ds))).collect::<Vec<_>>());
        Proj { name, xml: room(name, &[r]).into_bytes(), scripts, bad: Bad::No }
    };
    let bad = |xml: Vec<u8>, bad| Proj { name: "", xml, scripts: vec![], bad };
    vec![
        good("one", vec![("A", vec![Say("a1"), Ask, SayReply, Say("a3")])]),
        good("zwei", vec![("B", vec![Say("p1"), Pause, Say("p2"), Ask, SayReply])]),
        good("drei", vec![("C", vec![Say("c1"), Fail("item_12"), Say("never")]), ("D", vec![Say("d1"), Ask, Fail("item_13_2")])]),
        bad(b"<nonsense".to_vec(), Bad::Load),
        bad(room("w", &[nb::role("x", &[], &[("S", nb::flag(&nb::say("<block collabId=\"item_77\" var=\"undefined\"/>")))])]).into_bytes(), Bad::Comment("item_77")),
        bad(b"\xff\xfe<room>".to_vec(), Bad::NotText),
        bad(room("two", &[nb::role("x", &[], &[]), nb::role("y", &[], &[])]).into_bytes(), Bad::Load),
        good("vier & \"co\"", vec![("E", vec![Say("e1"), Loop])]),
        bad(room("none", &[]).into_bytes(), Bad::Load),
        bad(vec![], Bad::Load),
        good("leer", vec![]),
        // can be read, but not compiled
        bad(room("ghost", &[nb::role("x", &[], &[("S", nb::flag("<block collabId=\"nowhere\" s=\"bubble\"><l>g</l></block>"))])]).into_bytes(), Bad::Load),
    ]
}

/// what the server has to have done so far
struct Model {
    running: bool,
    /// the project in place, by number
    loaded: Option<usize>,
    /// (sprite, what is left to do, whether it waits for the reply to request k)
    live: Vec<(&'static str, Vec<Do>, Option<usize>)>,
    /// the global the reply is put into
    r: String,
    sent: usize,
    answered: Vec<Option<String>>,
    lines: Vec<(String, String)>,
    errors: Vec<(String, String)>,
}
impl Model {
    fn go(&mut self) {
        let mut i = 0;
        while self.running && i < self.live.len() {
            let (who, todo, wait) = &mut self.live[i];
            let who = *who;
            if let Some(k) = *wait {
                let Some(x) = &self.answered[k] else { i += 1; continue };
                self.r = x.clone();
                *wait = None;
            }
            if todo.is_empty() { self.live.remove(i); continue; }
            match todo.remove(0) {
                Do::Say(x) => self.lines.push((who.into(), format!("{x:?}"))),
                Do::Ask => { *wait = Some(self.sent); self.sent += 1; self.answered.push(None); }
                Do::SayReply => self.lines.push((who.into(), format!("{:?}", self.r))),
                Do::Pause => self.running = false,
                Do::Fail(loc) => { self.errors.push((who.into(), loc.into())); self.lines.push(("!".into(), format!("error {who}"))); self.live.remove(i); }
                Do::Loop => { todo.insert(0, Do::Loop); i += 1; }
            }
        }
    }
}
struct Server { p: Proc, port: u16, srv: Session, out: String, errors: Vec<J>, status: bool, rpcs: Vec<Option<Rpc>> }
impl Server {
    fn start(extra: &[&str]) -> Result<Server, String> {
        for _ in 0..5 {
            let srv = Session::new();
            let port = port();
            let mut args: Vec<&str> = extra.to_vec();
            let ps = port.to_string();
            args.extend(["start", "--server", &srv.base, "--port", &ps]);
            let mut p = Proc::start(&args, None);
            let t = Instant::now();
            loop {
                if let Ok(r) = http(port, "GET", "/extension.js", b"") { if r.status == 200 { return Ok(Server { p, port, srv, out: String::new(), errors: vec![], status: true, rpcs: vec![] }); } }
                if p.err().contains("AddrInUse") || p.err().contains("Address already in use") { break; }
                if let Some(c) = p.over() { return Err(format!("the server ended with {c}: {:.300}", p.err())); }
                if t.elapsed() > PATIENCE { return Err(format!("the server never answered: {:.300}", p.err())); }
                std::thread::sleep(Duration::from_millis(2));
            }
        }
        panic!("HARNESS: no port")
    }
    fn ask(&mut self, method: &str, path: &str, body: &[u8]) -> Result<Reply, String> { http(self.port, method, path, body).map_err(|e| format!("{method} {path} was not answered ({e}): {:.300}", self.p.err())) }
    fn pull(&mut self) -> Result<(), String> {
        let r = self.ask("POST", "/pull", b"")?;
        let j: J = serde_json::from_slice(&r.body).map_err(|e| format!("/pull answered {:?} ({e})", r.text()))?;
        if r.status != 200 || !r.kind.starts_with("application/json") { return Err(format!("/pull answered {} {}", r.status, r.kind)); }
        self.status = j["running"].as_bool().ok_or("no running state")?;
        self.out += j["output"].as_str().ok_or("no output")?;
        self.errors.extend(j["errors"].as_array().ok_or("no errors")?.iter().cloned());
        Ok(())
    }
}
/// output as (sprite, text) entries; notices have no sprite
fn entries(out: &str) -> Vec<(String, String)> {
    let mut o = vec![];
    for l in out.lines() {
        if l.is_empty() { continue; }
        if let Some(l) = l.strip_prefix(">>> ") {
            let f = if let Some(x) = l.strip_prefix("loaded project ") { if x == "'ghost'" { continue } format!("loaded {}", x.trim_matches('\'')) } else if l.starts_with("project load error") { "load error".into() }
                else if let Some(x) = l.strip_prefix("runtime error in entity ") { format!("error {}", x.split('"').nth(1).unwrap_or("?")) } else if l.starts_with("see red") || l.starts_with("keeping") { continue } else { format!("? {l}") };
            o.push((if f.starts_with("error ") { "!".into() } else { String::new() }, f));
        } else if let Some((who, what)) = l.split_once(" > ") {
            o.push((who.split('"').nth(1).unwrap_or(who).to_string(), what.into()));
        } else { o.push(("?".into(), l.into())); }
    }
    o
}
/// the same entries for every speaker, in the same order
fn by_speaker(xs: &[(String, String)]) -> std::collections::BTreeMap<&str, Vec<&str>> {
    let mut m: std::collections::BTreeMap<&str, Vec<&str>> = Default::default();
    for (a, b) in xs { m.entry(a).or_default().push(b); }
    m
}
const UNKNOWN: [&[u8]; 16] = [b"Start", b"\xff", b"", b" start", b"start ", b"start\n", b"stop\n", b"STOP", b"star", b"starts", b"startstop", b"\"start\"", b"start\0", b"pause", b"toggle-paused", b"start\xff"];
/// what the program itself has printed, as entries
fn own(p: &Proc) -> Vec<(String, String)> { entries(&p.out()).into_iter().filter(|(a, b)| a != "?" || !(b.starts_with("connect from") || b.starts_with("public id"))).collect() }
/// late: what happens is followed on the program's own output, and asked for once, in the end
fn session(ch: &mut Chooser, depth: usize, set: &[usize], first: Option<&[Op]>, late: bool) -> Leaf {
    let projs = projects();
    let mut ops: Vec<Op> = vec![];
    let mut m = Model { running: true, loaded: None, live: vec![], r: "none".into(), sent: 0, answered: vec![], lines: vec![], errors: vec![] };
    // the history and what it must lead to
    let mut after = vec![];
    for i in 0..depth {
        let mut c: Vec<Op> = set.iter().map(|k| Op::Load(*k)).collect();
        c.extend([Op::Start, Op::Stop, Op::Toggle]);
        if m.answered.iter().any(|a| a.is_none()) { c.push(Op::Answer); }
        if first.is_none() { c.extend([Op::BadInput(0), Op::BadInput(1), Op::BadInput(2)]); }
        let op = match first { Some(f) if i < f.len() => match f[i] { Op::BadInput(99) => Op::BadInput(ch.choose(UNKNOWN.len())), o => o }, _ => ch.of(&c) };
        ops.push(op);
        match op {
            Op::Load(k) => match projs[k].bad {
                Bad::No => { m.live.clear(); m.r = "none".into(); m.loaded = Some(k); m.lines.push((String::new(), format!("loaded {}", projs[k].name))); }
                Bad::Load => m.lines.push((String::new(), "load error".into())),
                Bad::Comment(loc) => { m.lines.push((String::new(), "load error".into())); m.errors.push(("".into(), loc.into())); }
                Bad::NotText => (),
            },
            Op::Start => { m.running = true; m.live = m.loaded.map(|k| projs[k].scripts.iter().map(|(n, d)| (*n, d.clone(), None)).collect()).unwrap_or_default(); }
            Op::Stop => m.live.clear(),
            Op::Toggle => m.running = !m.running,
            Op::Answer => { let k = m.answered.iter().position(|a| a.is_none()).unwrap(); m.answered[k] = Some(format!("reply {k}")); }
            Op::BadInput(_) => (),
        }
        m.go();
        // (a request that shows nothing is known to be handled when an upload after it is)
        if barrier(op) { m.lines.push((String::new(), "load error".into())); }
        after.push((m.lines.len(), m.errors.len(), m.running, m.sent));
    }
    let key = format!("{ops:?}");
    let r = guarded(|| {
        let mut s = Server::start(&[])?;
        let mut states = vec![];
        let settle = |s: &mut Server, what: &str, (lines, errors, running, sent): (usize, usize, bool, usize)| -> Result<(), String> {
            let want = &m.lines[..lines];
            let t = Instant::now();
            loop {
                if !late { s.pull()?; }
                while let Ok(r) = s.srv.rpcs.try_recv() { s.rpcs.push(Some(r)); }
                let got = if late { own(&s.p) } else { entries(&s.out) };
                if by_speaker(&got) == by_speaker(want) && (late || s.errors.len() == errors && s.status == running) && s.rpcs.len() == sent { return Ok(()); }
                let over = by_speaker(&got).iter().any(|(k, v)| !by_speaker(want).get(k).is_some_and(|w| w.starts_with(v))) || s.errors.len() > errors || s.rpcs.len() > sent;
                if over || t.elapsed() > PATIENCE { return Err(format!("after {what}: output {got:?}, {} errors, running {}, {} requests; expected {want:?}, {errors} errors, running {running}, {sent} requests; the program said {:?}", s.errors.len(), s.status, s.rpcs.len(), s.p.out())); }
                if let Some(c) = s.p.over() { return Err(format!("after {what} the server ended with {c}: {:.400}", s.p.err())); }
                std::thread::sleep(Duration::from_micros(300));
            }
        };
        for (i, op) in ops.iter().enumerate() {
            let (r, ok) = match op {
                Op::Load(k) => (s.ask("POST", "/project", &projs[*k].xml)?, projs[*k].bad != Bad::NotText),
                Op::Start => (s.ask("POST", "/input", b"start")?, true),
                Op::Stop => (s.ask("POST", "/input", b"stop")?, true),
                Op::Toggle => (s.ask("POST", "/toggle-paused", b"")?, true),
                Op::Answer => {
                    let k = s.rpcs.iter().position(|r| r.is_some()).expect("HARNESS: nothing to answer");
                    s.rpcs[k].take().unwrap().answer("200 OK", Some("text/plain"), format!("reply {k}").as_bytes());
                    (Reply { status: 200, kind: String::new(), body: vec![] }, true)
                }
                Op::BadInput(k) => (s.ask("POST", "/input", UNKNOWN[*k])?, false),
            };
            if (r.status == 200) != ok || !ok && r.status != 400 { return Err(format!("{op:?} was answered {} {:?}", r.status, r.text())); }
            if barrier(*op) { s.ask("POST", "/project", b"<")?; }
            settle(&mut s, &format!("{:?}", &ops[..=i]), after[i])?;
            states.push(h64(&format!("{:?}{:?}", after[i], &m.lines[..after[i].0])));
        }
        // nothing else comes, and every upload is handled
        let (mut lines, errors, running, sent) = *after.last().unwrap();
        let mut all = m.lines.clone();
        for _ in 0..2 {
            let r = s.ask("POST", "/project", b"<")?;
            if r.status != 200 { return Err(format!("an upload was answered {}", r.status)); }
            all.push((String::new(), "load error".into()));
            lines += 1;
            let t = Instant::now();
            loop {
                if !late { s.pull()?; }
                if by_speaker(&if late { own(&s.p) } else { entries(&s.out) }) == by_speaker(&all[..lines]) { break; }
                if t.elapsed() > PATIENCE { return Err(format!("in the end: output {:?}, expected {all:?}", entries(&s.out))); }
                std::thread::sleep(Duration::from_micros(300));
            }
        }
        s.pull()?;
        if by_speaker(&entries(&s.out)) != by_speaker(&all) || s.errors.len() != errors || s.status != running || s.rpcs.len() + s.srv.rpcs.try_iter().count() != sent { return Err(format!("in the end: output {:?}, errors {:?}, running {}; expected {all:?}, {:?}, {running}", entries(&s.out), s.errors, s.status, m.errors)); }
        let r = s.ask("GET", "/project", b"")?;
        let want = m.loaded.map(|k| projs[k].xml.clone()).unwrap_or_else(|| netsblox_vm::template::EMPTY_PROJECT.as_bytes().to_vec());
        if r.status != 200 || r.body != want { return Err(format!("/project gives {:.200}, not the project in place", r.text())); }
        let mut got: Vec<(String, String)> = s.errors.iter().map(|e| (e["entity"].as_str().unwrap_or("?").to_string(), e["trace"].as_array().and_then(|t| t.last()).and_then(|t| t["location"].as_str()).unwrap_or("?").to_string())).collect();
        let mut want = m.errors.clone();
        for (g, w) in got.iter_mut().zip(&want) { if w.0.is_empty() { g.0.clear(); } }
        got.sort();
        want.sort();
        if got != want { return Err(format!("errors {:?}, expected {want:?}", s.errors)); }
        for e in &s.errors {
            let vars = e["globals"].as_array().ok_or("no globals")?;
            if e["cause"].as_str().is_none_or(|c| c.is_empty()) { return Err(format!("an error without a cause: {e}")); }
            if e["trace"][0]["location"] != "item_77" && !vars.iter().any(|v| v["name"] == "g" && v["value"].as_str().is_some_and(|x| x.contains('5'))) { return Err(format!("the error {e} does not tell the values of the globals")); }
        }
        // the program's own output is the same
        let t = Instant::now();
        loop {
            let own = own(&s.p);
            if by_speaker(&own) == by_speaker(&all) { break; }
            if t.elapsed() > Duration::from_secs(3) { return Err(format!("the program itself printed {own:?}, expected {all:?}")); }
            std::thread::sleep(Duration::from_millis(1));
        }
        Ok(states)
    });
    match r { Ok(st) => Leaf::ok(st, depth as u64), Err(w) => Leaf::fail(key.clone(), format!("{key}: {w}")) }
}
pub fn check(quick: bool) -> Check {
    let d = if quick { 3 } else { 4 };
    Check::new("N03", "the program's server mode as a process, driven over HTTP, its services answered by a scripted local server", vec![
        phase("all requests", &format!("every sequence of {d} requests: 12 uploads (good, failing, unreadable), start, stop, pause/resume, unknown inputs, replies of a service"), move |ch, _| session(ch, d, &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11], None, false)),
        phase("one project", &format!("a project asking a service, then every sequence of {} of start, stop, pause/resume, reply and reload", d + 2), move |ch, _| session(ch, d + 3, &[0], Some(&[Op::Load(0)]), false)),
        phase("pausing itself", &format!("a project pausing itself and asking a service, then every sequence of {} of start, stop, pause/resume, reply and a failing upload", d + 2), move |ch, _| session(ch, d + 3, &[4], Some(&[Op::Load(1)]), false)),
        phase("failing", &format!("a project with errors, started, then every sequence of {} of start, stop, pause/resume, reply and uploads of 3 projects", d), move |ch, _| session(ch, d + 2, &[2, 3, 7], Some(&[Op::Load(2), Op::Start]), false)),
        phase("asked once", &format!("the same projects, then every sequence of {d} of start, stop, pause/resume, reply and uploads, and all output, errors and the state asked for once in the end"), move |ch, _| { let f = ch.of(&[0usize, 1, 2, 7]); session(ch, d + 2, &[2, 3, 4], Some(&[Op::Load(f), Op::Start]), true) }),
        phase("unknown inputs", "16 texts that are nearly an input, sent while a project runs, is stopped or paused", |ch, _| {
            let f = ch.of(&[Op::Start, Op::Stop, Op::Toggle]);
            session(ch, 5, &[], Some(&[Op::Load(0), Op::Start, f, Op::BadInput(99), Op::Start]), false)
        }),
    ]).assume("a request is sent when the effects of the one before have been seen; requests in flight at the same time are not enumerated")
}
