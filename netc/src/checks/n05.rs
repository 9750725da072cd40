//! N05: the program on a terminal: keys, questions, redrawing, and the terminal left as it was.
use super::common::*;
use super::n04::Scratch;
use crate::nbproc::{self as nb, lit, Log};
use std::collections::{BTreeMap, VecDeque};
use std::io::Read;
use std::os::fd::{AsRawFd, FromRawFd, OwnedFd};
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

struct Term { child: Child, master: OwnedFd, slave: OwnedFd, out: Log, rows: u16, before: libc::termios }
fn attrs(fd: &OwnedFd) -> libc::termios { unsafe { let mut t: libc::termios = std::mem::zeroed(); if libc::tcgetattr(fd.as_raw_fd(), &mut t) != 0 { panic!("HARNESS: tcgetattr") } t } }
impl Term {
    fn start(args: &[&str], dir: &Scratch) -> Term {
        let (mut m, mut s) = (0, 0);
        let ws = libc::winsize { ws_row: 5, ws_col: 200, ws_xpixel: 0, ws_ypixel: 0 };
        if unsafe { libc::openpty(&mut m, &mut s, std::ptr::null_mut(), std::ptr::null_mut(), &ws as *const _ as *mut _) } != 0 { panic!("HARNESS: openpty") }
        let (master, slave) = unsafe { (OwnedFd::from_raw_fd(m), OwnedFd::from_raw_fd(s)) };
        for fd in [&master, &slave] { unsafe { libc::fcntl(fd.as_raw_fd(), libc::F_SETFD, libc::FD_CLOEXEC); } }
        let before = attrs(&slave);
        let end = |x: &OwnedFd| Stdio::from(x.try_clone().expect("HARNESS: dup"));
        let mut c = Command::new(nb::program());
        c.args(args).current_dir(dir.path()).stdin(end(&slave)).stdout(end(&slave)).stderr(Stdio::null()).env("RUST_BACKTRACE", "0").env("TZ", "UTC").env("TERM", "xterm");
        nb::dies_with_parent(&mut c);
        let child = c.spawn().expect("HARNESS: the program could not be started");
        let out: Log = Default::default();
        let l = out.clone();
        let mut r = std::fs::File::from(master.try_clone().expect("HARNESS: dup"));
        std::thread::Builder::new().stack_size(64 << 10).spawn(move || { let mut b = [0; 4096]; while let Ok(n) = r.read(&mut b) { if n == 0 { break; } l.lock().unwrap().extend_from_slice(&b[..n]); } }).expect("HARNESS: thread");
        Term { child, master, slave, out, rows: 5, before }
    }
    fn type_(&self, bytes: &[u8]) { if unsafe { libc::write(self.master.as_raw_fd(), bytes.as_ptr() as *const _, bytes.len()) } != bytes.len() as isize { panic!("HARNESS: write") } }
    fn text(&self) -> String { String::from_utf8_lossy(&self.out.lock().unwrap()).into_owned() }
    /// What the bottom line shows, by what was drawn last.
    fn shown(&self) -> String {
        let o = self.text();
        let Some(k) = o.rfind("\x1b8") else { return String::new() };
        o[..k].rfind("\x1b7").map(|i| plain(&o[i + 2..k])).unwrap_or_default()
    }
    /// Changes the size of the terminal; when the program has drawn anew, it has dealt with everything typed before. What the bottom line then shows.
    fn sync(&mut self) -> Result<String, String> {
        self.rows += 1;
        let ws = libc::winsize { ws_row: self.rows, ws_col: 200, ws_xpixel: 0, ws_ypixel: 0 };
        if unsafe { libc::ioctl(self.master.as_raw_fd(), libc::TIOCSWINSZ, &ws) } != 0 { panic!("HARNESS: TIOCSWINSZ") }
        let at = format!("\x1b[{};1H", self.rows);
        let t = Instant::now();
        let mut last = None;
        loop {
            // (again and again: the program may not listen yet)
            if last.is_none_or(|l: Instant| l.elapsed() > Duration::from_millis(50)) { unsafe { libc::kill(self.child.id() as i32, libc::SIGWINCH); } last = Some(Instant::now()); }
            let o = self.text();
            if let Some(i) = o.find(&at) && let Some(k) = o[i..].find("\x1b8") { return Ok(plain(&o[i..i + k])); }
            if let Ok(Some(c)) = self.child.try_wait() { return Err(format!("the program ended with {c:?}: {:?}", tail(&o))); }
            if t.elapsed() > PATIENCE { return Err(format!("the program does not draw any more: {:?}", tail(&o))); }
            std::thread::sleep(Duration::from_micros(300));
        }
    }
}
impl Drop for Term { fn drop(&mut self) { let _ = self.child.kill(); let _ = self.child.wait(); } }
fn tail(s: &str) -> String { let n = s.chars().count(); s.chars().skip(n.saturating_sub(300)).collect() }
/// without control sequences
fn plain(s: &str) -> String {
    let (mut o, mut c) = (String::new(), s.chars().peekable());
    while let Some(x) = c.next() {
        if x != '\x1b' { o.push(x); continue; }
        match c.next() { Some('[') => { while let Some(y) = c.next() { if ('@'..='~').contains(&y) { break; } } } _ => () }
    }
    o
}
/// what was printed above the bottom line
fn lines(s: &str) -> Vec<String> {
    let (mut o, mut rest) = (String::new(), s);
    while let Some(i) = rest.find("\x1b7") {
        o += &rest[..i];
        match rest[i..].find("\x1b8") { Some(k) => rest = &rest[i + k + 2..], None => { rest = ""; break } }
    }
    o += rest;
    let p = plain(&o);
    let whole = &p[..p.rfind('\n').map(|i| i + 1).unwrap_or(0)];
    whole.lines().map(|l| l.trim_end_matches('\r').to_string()).filter(|l| !l.is_empty() && !l.starts_with("public id")).collect()
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Hit { Char(char), Back, Enter, Up, Down, Left, Right, Esc, Other }
fn bytes(k: Hit) -> Vec<u8> {
    match k { Hit::Char(c) => c.to_string().into_bytes(), Hit::Back => vec![0x7f], Hit::Enter => vec![13], Hit::Up => b"\x1b[A".to_vec(), Hit::Down => b"\x1b[B".to_vec(), Hit::Right => b"\x1b[C".to_vec(), Hit::Left => b"\x1b[D".to_vec(), Hit::Esc => vec![27], Hit::Other => b"\x1b[5~".to_vec() }
}
#[derive(Clone, Debug, PartialEq)]
enum Do { Say(&'static str), Ask(&'static str), SayAnswer, Fail }
/// (sprite, key it is started by, or the flag, what it does)
type Script = (&'static str, Option<&'static str>, Vec<Do>);
fn projects() -> Vec<Vec<Script>> {
    use Do::*;
    vec![
        vec![("A", None, vec![Say("go")]), ("A", Some("a"), vec![Say("ka")]), ("A", Some("up arrow"), vec![Say("ku")]), ("A", Some("down arrow"), vec![Say("kd")]), ("A", Some("left arrow"), vec![Say("kl")]), ("A", Some("right arrow"), vec![Say("kr")]), ("B", Some("b"), vec![Say("kb"), Fail, Say("never")]), ("B", Some("7"), vec![Say("k7")]), ("B", Some("space"), vec![Say("ks")])],
        vec![("A", None, vec![Ask("qa"), SayAnswer, Say("done")]), ("B", Some("a"), vec![Say("ka")]), ("B", Some("up arrow"), vec![Say("ku")])],
        vec![("A", None, vec![Ask("qa"), SayAnswer, Ask("qa2"), SayAnswer]), ("B", None, vec![Ask("qb"), SayAnswer]), ("B", Some("a"), vec![Say("ka")])],
        vec![("A", Some("a"), vec![Say("ka"), Ask("qk"), SayAnswer]), ("B", Some("b"), vec![Say("kb")])],
        vec![("A", Some("enter"), vec![Say("ke")]), ("A", Some("any key"), vec![Say("any")]), ("B", Some("space"), vec![Say("ks")]), ("B", Some("b"), vec![Ask("qe"), SayAnswer])],
    ]
}
fn xml(p: &[Script]) -> String {
    let mut m: BTreeMap<&str, String> = BTreeMap::new();
    for (who, k, ds) in p {
        let body: String = ds.iter().map(|d| match d {
            Do::Say(x) => nb::say(&lit(x)), Do::Ask(x) => format!("<block s=\"doAsk\">{}</block>", lit(x)),
            Do::SayAnswer => nb::say("<block s=\"reportJoinWords\"><list><l>= </l><block s=\"getLastAnswer\"></block></list></block>"),
            Do::Fail => nb::say("<block s=\"reportListItem\"><l>7</l><block s=\"reportNewList\"><list><l>x</l></list></block></block>"),
        }).collect();
        *m.entry(who).or_default() += &match k { None => nb::flag(&body), Some(k) => nb::key(k, &body) };
    }
    nb::room("p", &[nb::role("r", &[], &m.into_iter().collect::<Vec<_>>())])
}
#[derive(Default)]
struct Model { typed: String, asked: VecDeque<(usize, &'static str)>, live: Vec<(usize, Vec<Do>, bool)>, answers: BTreeMap<usize, String>, out: Vec<(String, String)>, stale: bool }
impl Model {
    fn go(&mut self, p: &[Script]) {
        let mut i = 0;
        while i < self.live.len() {
            let (k, todo, waiting) = &mut self.live[i];
            if *waiting { i += 1; continue; }
            let (k, who) = (*k, p[*k].0);
            if todo.is_empty() { self.live.remove(i); continue; }
            match todo.remove(0) {
                Do::Say(x) => self.out.push((who.into(), format!("{x:?}"))),
                Do::Ask(q) => { *waiting = true; self.asked.push_back((k, q)); }
                Do::SayAnswer => { let a = format!("= {}", self.answers[&k]); self.out.push((who.into(), format!("{a:?}"))) }
                Do::Fail => { self.out.push(("!".into(), "error".into())); self.live.remove(i); }
            }
        }
    }
    fn start(&mut self, p: &[Script], key: Option<&str>) {
        for (k, s) in p.iter().enumerate() {
            if s.1 != key && !(key.is_some() && s.1 == Some("any key")) { continue; }
            // the question of a script started over is answered by nobody: what becomes of it is not specified
            if self.asked.iter().any(|a| a.0 == k) { self.stale = true; }
            self.live.retain(|l| l.0 != k);
            self.live.push((k, s.2.clone(), false));
        }
        self.go(p);
    }
    fn key(&mut self, p: &[Script], k: Hit) {
        let asking = !self.asked.is_empty();
        match k {
            Hit::Char(c) if asking => self.typed.push(c),
            Hit::Char(c) => { let c: String = c.to_lowercase().collect(); self.start(p, Some(if c == " " { "space" } else { &c })) }
            Hit::Back => if asking { self.typed.pop(); },
            Hit::Enter => if let Some((s, _)) = self.asked.pop_front() {
                self.answers.insert(s, std::mem::take(&mut self.typed));
                for l in &mut self.live { if l.0 == s { l.2 = false; } }
                self.go(p);
            } else { self.start(p, Some("enter")) },
            Hit::Up | Hit::Down | Hit::Left | Hit::Right => if !asking { self.start(p, Some(match k { Hit::Up => "up arrow", Hit::Down => "down arrow", Hit::Left => "left arrow", _ => "right arrow" })) },
            Hit::Esc => { if asking { self.stale = true; } self.live.clear(); }
            Hit::Other => (),
        }
    }
    /// the bottom line
    fn line(&self, p: &[Script]) -> Option<(String, String, String)> { self.asked.front().map(|(k, q)| (p[*k].0.to_string(), q.to_string(), self.typed.clone())) }
}
fn by_speaker(xs: &[(String, String)]) -> BTreeMap<&str, Vec<&str>> { let mut m: BTreeMap<&str, Vec<&str>> = BTreeMap::new(); for (a, b) in xs { m.entry(a).or_default().push(b); } m }
fn said(s: &str) -> Vec<(String, String)> {
    lines(s).into_iter().map(|l| match l.split_once(" > ") {
        _ if l.starts_with(">>> runtime error") => ("!".into(), "error".into()),
        Some((a, b)) => (a.split('"').nth(1).unwrap_or(a).to_string(), b.to_string()),
        None => ("?".into(), l),
    }).collect()
}
#[derive(Clone, Copy, PartialEq)]
enum How { Resized, AtOnce, LeftAlone }
fn typing(ch: &mut Chooser, which: usize, depth: usize, keys: &[Hit], how: How) -> Leaf {
    let at_once = how == How::AtOnce;
    let p = &projects()[which];
    let ks: Vec<Hit> = (0..depth).map(|_| ch.of(keys)).collect();
    // a script started twice at once may start over before it has said anything
    if at_once && which == 0 && (0..depth).any(|i| ks[..i].contains(&ks[i])) { return Leaf::skip(); }
    let mut m = Model::default();
    m.start(p, None);
    let mut after = vec![(m.out.len(), m.line(p))];
    for (i, k) in ks.iter().enumerate() {
        m.key(p, *k);
        if m.stale && i + 1 < ks.len() { return Leaf::skip(); }
        after.push((m.out.len(), m.line(p)));
    }
    let key = format!("project {which}: {ks:?}{}", match how { How::Resized => "", How::AtOnce => " at once", How::LeftAlone => " left alone" });
    let r = guarded(|| {
        let dir = Scratch::new();
        dir.put("project.xml", xml(p).as_bytes());
        let srv = Session::new();
        let mut t = Term::start(&["run", "project.xml", "--server", &srv.base], &dir);
        let mut settle = |t: &mut Term, (n, line): &(usize, Option<(String, String, String)>), what: &str| -> Result<(), String> {
            let want = &m.out[..*n];
            let begin = Instant::now();
            let mut tries = 0u32;
            loop {
                // (a key read at the very moment of a resize is held back by the terminal library until the next key: one without meaning follows)
                let quiet = how == How::LeftAlone;
                if tries > 0 && !quiet { t.type_(&bytes(Hit::Other)); }
                std::thread::sleep(Duration::from_millis(1 << tries.min(6)));
                tries += 1;
                let bottom = if quiet { t.shown() } else { t.sync()? };
                let got = said(&t.text());
                let fine = match line { None => bottom.is_empty(), Some((who, q, typed)) => bottom.contains(&format!("\"{who}\"")) && bottom.contains(&format!("\"{q}\"")) && bottom.ends_with(&format!("> {typed}")) };
                // (the scripts come to rest as well)
                if fine && by_speaker(&got) == by_speaker(want) { return if quiet { Ok(()) } else { t.sync().map(|_| ()) }; }
                let over = by_speaker(&got).iter().any(|(k, v)| !by_speaker(want).get(k).is_some_and(|w| w.starts_with(v)));
                if over || begin.elapsed() > Duration::from_secs(4) { return Err(format!("after {what} it has printed {got:?} and shows {bottom:?} at the bottom; expected {want:?} and {line:?}")); }
            }
        };
        settle(&mut t, &after[0], "the start")?;
        let mut states = vec![];
        if at_once { t.type_(&ks.iter().flat_map(|k| bytes(*k)).collect::<Vec<_>>()); settle(&mut t, after.last().unwrap(), &format!("{ks:?}"))?; }
        else { for (i, k) in ks.iter().enumerate() {
            t.type_(&bytes(*k));
            // (escape and the key after it must not be read as one)
            if *k == Hit::Esc { std::thread::sleep(Duration::from_millis(30)); }
            // what becomes of a question nobody waits for is not specified
            let mut want = after[i + 1].clone();
            if m.stale && i + 1 == ks.len() {
                // but everything has stopped: nobody takes an answer any more
                if *k == Hit::Esc && which < 4 { t.sync()?; for _ in 0..3 { t.type_(&bytes(Hit::Enter)); t.sync()?; } }
                let b = t.sync()?; want.1 = None; let got = said(&t.text()); if by_speaker(&got) != by_speaker(&m.out[..want.0]) { return Err(format!("after {ks:?} it has printed {got:?}; expected {:?} (bottom {b:?})", m.out)); } break; }
            settle(&mut t, &want, &format!("{:?}", &ks[..=i]))?;
            states.push(h64(&format!("{which} {want:?} {:?}", &m.out[..want.0])));
        } }
        // nothing else comes, and the terminal is left as it was
        t.sync()?;
        let got = said(&t.text());
        if by_speaker(&got) != by_speaker(&m.out) { return Err(format!("in the end it has printed {got:?}; expected {:?}", m.out)); }
        let begin = Instant::now();
        let mut typed = None;
        let status = loop {
            if typed.is_none_or(|x: Instant| x.elapsed() > Duration::from_millis(300)) { t.type_(&[3]); typed = Some(Instant::now()); }
            if let Ok(Some(s)) = t.child.try_wait() { break s; }
            if begin.elapsed() > PATIENCE { return Err("Ctrl-C does not end it".into()); }
            std::thread::sleep(Duration::from_micros(300));
        };
        if !status.success() { return Err(format!("Ctrl-C ended it with {status:?}: {:?}", tail(&t.text()))); }
        let (a, b) = (attrs(&t.slave), t.before);
        if (a.c_iflag, a.c_oflag, a.c_cflag, a.c_lflag, a.c_cc) != (b.c_iflag, b.c_oflag, b.c_cflag, b.c_lflag, b.c_cc) { return Err("the terminal is left in another mode".into()); }
        let o = t.text();
        let begin = Instant::now();
        while o.rfind("\x1b[?25h") < o.rfind("\x1b[?25l") && t.text().len() == o.len() { if begin.elapsed() > Duration::from_secs(1) { return Err("the cursor is left hidden".into()); } std::thread::sleep(Duration::from_millis(1)); }
        Ok(states)
    });
    match r { Ok(st) => Leaf::ok(st, depth as u64), Err(w) => Leaf::fail(key.clone(), format!("{key}: {w}")) }
}
pub fn check(quick: bool) -> Check {
    use Hit::*;
    let d = if quick { 0 } else { 1 };
    const ALL: [Hit; 14] = [Char('a'), Char('A'), Char('b'), Char('7'), Char(' '), Char('x'), Back, Enter, Up, Down, Left, Right, Esc, Other];
    const TEXT: [Hit; 7] = [Char('a'), Char('B'), Char('\u{e9}'), Back, Enter, Up, Esc];
    const FEW: [Hit; 4] = [Char('a'), Back, Enter, Char('b')];
    Check::new("N05", "the program as a process on a pseudoterminal", vec![
        phase("keys", &format!("every sequence of {} of 14 keys, scripts for 8 of them, of which one fails", 2 + d), move |ch, _| typing(ch, 0, 2 + d, &ALL, How::Resized)),
        phase("one question", &format!("every sequence of {} of 7 keys while a script asks", 3 + d), move |ch, _| typing(ch, 1, 3 + d, &TEXT, How::Resized)),
        phase("several questions", &format!("every sequence of {} of 4 keys while two scripts ask, one of them twice", 5 + d), move |ch, _| typing(ch, 2, 5 + d, &FEW, How::Resized)),
        phase("asked by a key", &format!("every sequence of {} of 4 keys with a script that asks when a key is hit", 5 + d), move |ch, _| typing(ch, 3, 5 + d, &FEW, How::Resized)),
        phase("any key", &format!("every sequence of {} of 9 keys with scripts for the Enter key, for any key, and one that asks", 3 + d), move |ch, _| typing(ch, 4, 3 + d, &[Char('a'), Char('b'), Char(' '), Back, Enter, Up, Right, Esc, Other], How::Resized)),
        phase("typed at once", &format!("every sequence of {} of 4 keys while a script asks, typed without waiting", 4 + d), move |ch, _| typing(ch, 1, 4 + d, &[Char('a'), Back, Char('\u{1F600}'), Char('b')], How::AtOnce)),
        phase("keys at once", &format!("every sequence of {} different keys of 6 that start scripts, typed without waiting", 3 + d), move |ch, _| typing(ch, 0, 3 + d, &[Char('a'), Char('7'), Char(' '), Up, Left, Down], How::AtOnce)),
        phase("left alone", &format!("every sequence of {} of 4 keys while two scripts ask; the terminal is not resized", 4 + d), move |ch, _| typing(ch, 2, 4 + d, &FEW, How::LeftAlone)),
    ]).assume("a key is hit when the effects of the one before have been seen, except where an answer is typed at once; the terminal is resized after each")
}
