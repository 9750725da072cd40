//! A scripted stand-in for the NetsBlox server, on the loopback interface: one listener for the process, one `Session` per system under test.
//! Nothing is ever answered on its own but the three requests a system makes to start up.
use serde_json::{json, Value as J};
use std::collections::HashMap;
use std::io::{BufRead, BufReader, Read, Write};
use std::net::{TcpListener, TcpStream};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::mpsc::{channel, Receiver, Sender};
use std::sync::{Arc, Mutex, OnceLock};
use std::time::Duration;

/// how long something that must happen may take
pub const PATIENCE: Duration = Duration::from_secs(10);

pub struct Rpc {
    pub path: String,
    pub query: String,
    pub method: String,
    pub body: String,
    answer: Sender<Vec<u8>>,
}
impl Rpc {
    /// Answers with these very bytes and closes the connection.
    pub fn raw(self, bytes: Vec<u8>) { let _ = self.answer.send(bytes); }
    pub fn answer(self, status: &str, kind: Option<&str>, body: &[u8]) {
        let mut r = format!("HTTP/1.1 {status}\r\n{}Content-Length: {}\r\nConnection: close\r\n\r\n", kind.map(|k| format!("Content-Type: {k}\r\n")).unwrap_or_default(), body.len()).into_bytes();
        r.extend_from_slice(body);
        self.raw(r);
    }
}
#[derive(Clone, Debug, PartialEq)]
pub enum Frame { Text(String), Other(u8, Vec<u8>) }

struct Side { http: Sender<(String, String, String)>, rpcs: Sender<Rpc>, frames: Sender<Frame>, ws: Sender<TcpStream> }
pub struct Session {
    pub id: u64,
    pub base: String,
    pub host: String,
    /// start-up requests: (method, path, body)
    pub http: Receiver<(String, String, String)>,
    pub rpcs: Receiver<Rpc>,
    frames: Receiver<Frame>,
    ws: Receiver<TcpStream>,
    sock: Option<TcpStream>,
    pub got: Vec<Frame>,
    taken: usize,
}
static SIDES: OnceLock<Mutex<HashMap<u64, Arc<Mutex<Side>>>>> = OnceLock::new();
static PORT: OnceLock<u16> = OnceLock::new();
static NEXT: AtomicU64 = AtomicU64::new(1);

fn start() -> u16 {
    *PORT.get_or_init(|| {
        let l = TcpListener::bind("0.0.0.0:0").expect("HARNESS: listen");
        let port = l.local_addr().unwrap().port();
        let _ = SIDES.set(Default::default());
        std::thread::spawn(move || for s in l.incoming() { let Ok(s) = s else { continue }; std::thread::Builder::new().stack_size(256 << 10).spawn(move || { let _ = serve(s); }).expect("HARNESS: thread"); });
        port
    })
}
fn side(id: u64) -> Option<Arc<Mutex<Side>>> { SIDES.get().unwrap().lock().unwrap().get(&id).cloned() }

/// Reads requests from one connection until it closes.
fn serve(s: TcpStream) -> std::io::Result<()> {
    s.set_nodelay(true)?;
    let mut r = BufReader::new(s.try_clone()?);
    let mut w = s;
    loop {
        let mut line = String::new();
        if r.read_line(&mut line)? == 0 { return Ok(()); }
        let mut p = line.split_whitespace();
        let (method, target) = (p.next().unwrap_or("").to_string(), p.next().unwrap_or("").to_string());
        let mut heads = HashMap::new();
        loop {
            let mut h = String::new();
            r.read_line(&mut h)?;
            let h = h.trim_end();
            if h.is_empty() { break; }
            if let Some((k, v)) = h.split_once(':') { heads.insert(k.trim().to_lowercase(), v.trim().to_string()); }
        }
        let (path, query) = match target.split_once('?') { Some((a, b)) => (a.to_string(), b.to_string()), None => (target.clone(), String::new()) };
        // /<session>/rest
        let mut seg = path.splitn(3, '/');
        seg.next();
        let Some(sd) = seg.next().and_then(|x| x.parse().ok()).and_then(side) else { return Ok(()) };
        let rest = format!("/{}", seg.next().unwrap_or(""));
        if heads.get("upgrade").is_some_and(|u| u.eq_ignore_ascii_case("websocket")) {
            let key = tungstenite::handshake::derive_accept_key(heads.get("sec-websocket-key").map(|x| x.as_str()).unwrap_or("").as_bytes());
            write!(w, "HTTP/1.1 101 Switching Protocols\r\nConnection: Upgrade\r\nUpgrade: websocket\r\nSec-WebSocket-Accept: {key}\r\n\r\n")?;
            let (frames, http) = { let g = sd.lock().unwrap(); let _ = g.ws.send(w); (g.frames.clone(), g.http.clone()) };
            let _ = http.send(("WS".into(), rest, String::new()));
            drop((sd, http));
            return read_frames(r, frames);
        }
        let n = heads.get("content-length").and_then(|x| x.parse().ok()).unwrap_or(0);
        let mut body = vec![0; n];
        r.read_exact(&mut body)?;
        let body = String::from_utf8_lossy(&body).into_owned();
        let started = { let g = sd.lock().unwrap(); !rest.starts_with("/services") && !rest.starts_with("/other") && g.http.send((method.clone(), rest.clone(), body.clone())).is_ok() };
        let reply = if started {
            let id = path.split('/').nth(1).unwrap_or("");
            let answer = match rest.as_str() {
                "/configuration" => json!({ "clientId": "x", "servicesHosts": [{ "url": format!("http://{}/{id}/services", heads.get("host").map(|x| x.as_str()).unwrap_or("")), "categories": [] }, { "url": "http://192.0.2.1/wrong" }] }),
                "/projects/" => json!({ "id": format!("project-{id}"), "owner": "x", "roles": { "r1": { "name": "the role", "code": "" } } }),
                _ => json!("ok"),
            }.to_string();
            Some(format!("HTTP/1.1 200 OK\r\nContent-Type: application/json\r\nContent-Length: {}\r\n\r\n{answer}", answer.len()).into_bytes())
        } else {
            let (answer, wait) = channel();
            let sent = { let g = sd.lock().unwrap(); g.rpcs.send(Rpc { path: rest, query, method, body, answer }).is_ok() };
            drop(sd);
            if !sent { return Ok(()); }
            match wait.recv() { Ok(bytes) => { w.write_all(&bytes)?; w.flush()?; let _ = w.shutdown(std::net::Shutdown::Write); return Ok(()); } Err(_) => return Ok(()) }
        };
        if let Some(x) = reply { w.write_all(&x)?; }
    }
}
fn read_frames(mut r: BufReader<TcpStream>, out: Sender<Frame>) -> std::io::Result<()> {
    let (mut text, mut op0) = (vec![], 0);
    loop {
        let mut h = [0; 2];
        r.read_exact(&mut h)?;
        let (fin, op) = (h[0] & 0x80 != 0, h[0] & 15);
        let mut len = (h[1] & 0x7f) as usize;
        if len == 126 { let mut b = [0; 2]; r.read_exact(&mut b)?; len = u16::from_be_bytes(b) as usize; } else if len == 127 { let mut b = [0; 8]; r.read_exact(&mut b)?; len = u64::from_be_bytes(b) as usize; }
        let mut mask = [0; 4];
        if h[1] & 0x80 != 0 { r.read_exact(&mut mask)?; }
        let mut data = vec![0; len];
        r.read_exact(&mut data)?;
        for (i, b) in data.iter_mut().enumerate() { *b ^= mask[i % 4]; }
        if op >= 8 { if out.send(Frame::Other(op, data)).is_err() { return Ok(()); } continue; }
        if op != 0 { op0 = op; text.clear(); }
        text.extend_from_slice(&data);
        if fin {
            let f = match (op0, String::from_utf8(std::mem::take(&mut text))) { (1, Ok(s)) => Frame::Text(s), (o, x) => Frame::Other(o, x.map(|s| s.into_bytes()).unwrap_or_else(|e| e.into_bytes())) };
            if out.send(f).is_err() { return Ok(()); }
        }
    }
}
impl Session {
    pub fn new() -> Session {
        let port = start();
        let id = NEXT.fetch_add(1, Ordering::Relaxed);
        let ((a, http), (b, rpcs), (c, frames), (d, ws)) = (channel(), channel(), channel(), channel());
        SIDES.get().unwrap().lock().unwrap().insert(id, Arc::new(Mutex::new(Side { http: a, rpcs: b, frames: c, ws: d })));
        let host = format!("127.0.{}.{}:{port}", id / 200 % 200, id % 200 + 1);
        Session { id, base: format!("http://{host}/{id}"), host, http, rpcs, frames, ws, sock: None, got: vec![], taken: 0 }
    }
    fn sock(&mut self) -> &mut TcpStream {
        if self.sock.is_none() { self.sock = Some(self.ws.recv_timeout(PATIENCE).expect("the system never connected to the message channel")); }
        self.sock.as_mut().unwrap()
    }
    /// one unfragmented frame
    pub fn frame(&mut self, op: u8, data: &[u8]) { self.piece(0x80 | op, data) }
    pub fn piece(&mut self, first: u8, data: &[u8]) {
        let mut b = vec![first];
        match data.len() { n @ 0..126 => b.push(n as u8), n if n < 65536 => { b.push(126); b.extend((n as u16).to_be_bytes()); } n => { b.push(127); b.extend((n as u64).to_be_bytes()); } }
        b.extend_from_slice(data);
        let _ = self.sock().write_all(&b);
    }
    pub fn send(&mut self, text: &str) { self.frame(1, text.as_bytes()) }
    /// the next frame from the system that has not been looked at yet
    pub fn next(&mut self) -> Option<Frame> { self.next_within(PATIENCE) }
    pub fn next_within(&mut self, d: Duration) -> Option<Frame> {
        if self.taken == self.got.len() { let f = self.frames.recv_timeout(d).ok()?; self.got.push(f); }
        self.taken += 1;
        Some(self.got[self.taken - 1].clone())
    }
    pub fn next_json(&mut self) -> Option<J> { match self.next()? { Frame::Text(s) => Some(serde_json::from_str(&s).unwrap_or(J::String(format!("not json: {s}")))), f => Some(J::String(format!("{f:?}"))) } }
    pub fn next_rpc(&mut self) -> Option<Rpc> { self.rpcs.recv_timeout(PATIENCE).ok() }
}
impl Drop for Session {
    fn drop(&mut self) {
        if let Some(m) = SIDES.get() { m.lock().unwrap().remove(&self.id); }
        if let Some(s) = &self.sock { let _ = s.shutdown(std::net::Shutdown::Both); }
    }
}
