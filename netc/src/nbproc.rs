//! The repository's command line program as a child process, and the projects it is given.
use crate::server::PATIENCE;
use std::io::{BufRead, BufReader, Read, Write};
use std::net::TcpStream;
use std::os::unix::process::CommandExt;
use std::path::PathBuf;
use std::process::{Child, Command, Stdio};
use std::sync::atomic::{AtomicU16, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub fn program() -> PathBuf { std::env::current_exe().expect("HARNESS: exe").with_file_name("nb") }
pub type Log = Arc<Mutex<Vec<u8>>>;
/// Ends with its owner, and with the harness.
pub struct Proc { pub child: Child, pub out: Log, pub err: Log }
fn drain(mut r: impl Read + Send + 'static) -> Log {
    let log: Log = Default::default();
    let l = log.clone();
    std::thread::Builder::new().stack_size(64 << 10).spawn(move || {
        let mut b = [0; 4096];
        while let Ok(n) = r.read(&mut b) { if n == 0 { break; } l.lock().unwrap().extend_from_slice(&b[..n]); }
    }).expect("HARNESS: thread");
    log
}
pub fn dies_with_parent(c: &mut Command) { unsafe { c.pre_exec(|| { libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL); Ok(()) }); } }
impl Proc {
    pub fn start(args: &[&str], dir: Option<&std::path::Path>) -> Proc {
        let mut c = Command::new(program());
        c.args(args).stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::piped()).env("RUST_BACKTRACE", "0").env("TZ", "UTC");
        if let Some(d) = dir { c.current_dir(d); }
        dies_with_parent(&mut c);
        let mut child = c.spawn().expect("HARNESS: the program could not be started");
        let out = drain(child.stdout.take().unwrap());
        let err = drain(child.stderr.take().unwrap());
        Proc { child, out, err }
    }
    pub fn out(&self) -> String { String::from_utf8_lossy(&self.out.lock().unwrap()).into_owned() }
    pub fn err(&self) -> String { String::from_utf8_lossy(&self.err.lock().unwrap()).into_owned() }
    pub fn over(&mut self) -> Option<i32> { self.child.try_wait().expect("HARNESS: wait").map(|s| s.code().unwrap_or(-1)) }
    /// waits for its own end
    pub fn end(&mut self) -> Option<i32> {
        let t = Instant::now();
        loop { if let Some(c) = self.over() { return Some(c); } if t.elapsed() > PATIENCE { return None; } std::thread::sleep(Duration::from_millis(1)); }
    }
}
impl Drop for Proc { fn drop(&mut self) { let _ = self.child.kill(); let _ = self.child.wait(); } }

static NEXT: AtomicU16 = AtomicU16::new(0);
/// a port nobody listens on at the moment, below those the system hands out
pub fn port() -> u16 {
    loop {
        let p = 12000 + (std::process::id() as u16 % 17 * 1000).wrapping_add(NEXT.fetch_add(1, Ordering::Relaxed)) % 18000;
        if TcpStream::connect(("127.0.0.1", p)).is_err() && std::net::TcpListener::bind(("127.0.0.1", p)).is_ok() { return p; }
    }
}
pub struct Reply { pub status: u16, pub kind: String, pub body: Vec<u8> }
impl Reply { pub fn text(&self) -> String { String::from_utf8_lossy(&self.body).into_owned() } }
pub fn http(port: u16, method: &str, path: &str, body: &[u8]) -> std::io::Result<Reply> {
    let mut s = TcpStream::connect(("127.0.0.1", port))?;
    s.set_nodelay(true)?;
    s.set_read_timeout(Some(PATIENCE))?;
    let mut req = format!("{method} {path} HTTP/1.1\r\nHost: 127.0.0.1:{port}\r\nContent-Length: {}\r\nConnection: close\r\n\r\n", body.len()).into_bytes();
    req.extend_from_slice(body);
    s.write_all(&req)?;
    let mut r = BufReader::new(s);
    let mut line = String::new();
    r.read_line(&mut line)?;
    let status = line.split_whitespace().nth(1).and_then(|x| x.parse().ok()).ok_or_else(|| std::io::Error::other(format!("status line {line:?}")))?;
    let (mut kind, mut len) = (String::new(), None);
    loop {
        line.clear();
        if r.read_line(&mut line)? == 0 || line.trim_end().is_empty() { break; }
        if let Some((k, v)) = line.split_once(':') {
            match k.trim().to_ascii_lowercase().as_str() { "content-type" => kind = v.trim().into(), "content-length" => len = v.trim().parse::<usize>().ok(), _ => () }
        }
    }
    let mut b = vec![];
    match len { Some(n) => { b.resize(n, 0); r.read_exact(&mut b)?; } None => { r.read_to_end(&mut b)?; } }
    Ok(Reply { status, kind, body: b })
}

// ------------------------------------------------------------ projects
pub fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() { match c { '&' => o += "&amp;", '<' => o += "&lt;", '>' => o += "&gt;", '"' => o += "&quot;", '\'' => o += "&apos;", '\n' => o += "&#xD;", c => o.push(c) } }
    o
}
pub fn lit(s: &str) -> String { format!("<l>{}</l>", esc(s)) }
pub fn say(x: &str) -> String { format!("<block s=\"bubble\">{x}</block>") }
pub fn flag(body: &str) -> String { format!("<script x=\"0\" y=\"0\"><block s=\"receiveGo\"></block>{body}</script>") }
pub fn key(k: &str, body: &str) -> String { format!("<script x=\"0\" y=\"0\"><block s=\"receiveKey\"><l><option>{}</option></l></block>{body}</script>", esc(k)) }
/// `globals` are (name, value) pairs; `sprites` are (name, scripts) pairs
pub fn role(name: &str, globals: &[(&str, &str)], sprites: &[(&str, String)]) -> String {
    let g: String = globals.iter().map(|(n, v)| format!("<variable name=\"{}\">{}</variable>", esc(n), lit(v))).collect();
    let s: String = sprites.iter().enumerate().map(|(i, (n, b))| format!("<sprite name=\"{}\" idx=\"{}\" x=\"0\" y=\"0\" heading=\"90\" scale=\"1\" volume=\"100\" pan=\"0\" rotation=\"1\" draggable=\"true\" costume=\"0\" color=\"80,80,80,1\" pen=\"tip\" id=\"{}\"><costumes><list struct=\"atomic\" id=\"{}\"></list></costumes><sounds><list struct=\"atomic\" id=\"{}\"></list></sounds><blocks></blocks><variables></variables><scripts>{b}</scripts></sprite>", esc(n), i + 1, 10 * i + 10, 10 * i + 11, 10 * i + 12)).collect();
    format!("<role name=\"{name}\"><project name=\"{name}\" app=\"NetsBlox 1.32.0, http://netsblox.org\" version=\"1.32.0\"><notes></notes><stage name=\"Stage\" width=\"480\" height=\"360\" costume=\"0\" color=\"255,255,255,1\" tempo=\"60\" threadsafe=\"false\" penlog=\"false\" volume=\"100\" pan=\"0\" lines=\"round\" ternary=\"false\" hyperops=\"true\" codify=\"false\" inheritance=\"false\" sublistIDs=\"false\" scheduled=\"false\" id=\"1\"><costumes><list struct=\"atomic\" id=\"2\"></list></costumes><sounds><list struct=\"atomic\" id=\"3\"></list></sounds><variables></variables><blocks></blocks><messageTypes></messageTypes><scripts></scripts><sprites>{s}</sprites></stage><hidden></hidden><headers></headers><code></code><blocks></blocks><variables>{g}</variables></project><media name=\"{name}\" app=\"NetsBlox 1.32.0, http://netsblox.org\" version=\"1.32.0\"></media></role>")
}
pub fn room(name: &str, roles: &[String]) -> String { format!("<room name=\"{}\" app=\"NetsBlox 1.32.0, http://netsblox.org\">{}</room>", esc(name), roles.concat()) }
