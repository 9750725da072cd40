//! N01: messages of the standard system.
use super::common::*;
use netsblox_vm::json::Json;

const TIMEOUT: i64 = 1500;
fn fields(xs: &[(&str, Json)]) -> VecMap<CompactString, Json, false> { let mut r = VecMap::new(); for (k, v) in xs { r.insert((*k).into(), v.clone()); } r }
fn done(key: &str, n: u64, r: Result<Vec<u64>, String>) -> Leaf { match r { Ok(s) => Leaf::ok(s, n), Err(w) => Leaf::fail(key, format!("{key}: {w}")) } }

// ------------------------------------------------------------ requests
#[derive(Clone, Copy, Debug, PartialEq)]
enum Op { Send, Reply(usize), Bad(usize, usize), Tick, Poll(usize) }
/// packets that are no reply to request `id`; none of them may resolve it
fn not_a_reply(kind: usize, id: &str, client: &str) -> String {
    let m = match kind {
        0 => json!({ "type": "message", "msgType": "__reply__", "requestId": format!("{id}x"), "content": { "body": "foreign" } }),
        1 => json!({ "type": "message", "msgType": "__reply__", "requestId": id, "content": { "value": "no body" } }),
        2 => json!({ "type": "message", "msgType": "__reply__", "requestId": id, "content": ["body"] }),
        3 => json!({ "type": "message", "msgType": "__reply__", "requestId": [id], "content": { "body": "listed id" } }),
        4 => json!({ "type": "message", "msgType": "__reply__", "content": { "body": "no id", "requestId": id } }),
        5 => json!({ "type": "reply", "msgType": "__reply__", "requestId": id, "content": { "body": "wrong type" } }),
        6 => json!({ "type": "message", "msgType": "__REPLY__", "requestId": id, "srcId": "x@y#vm", "content": { "body": "an ordinary message" } }),
        7 => json!({ "type": "message", "msgType": "__reply__", "requestId": "", "content": { "body": "empty id" } }),
        8 => json!({ "type": "message", "msgType": "__reply__", "requestId": id.to_uppercase() + " ", "content": { "body": "almost the id" } }),
        9 => json!({ "type": "message", "msgType": "__reply__", "requestId": id, "content": null }),
        10 => json!({ "type": "message", "msgType": "__reply__", "requestId": client, "content": { "body": "the client's id" } }),
        _ => return format!("{{\"type\": \"message\", \"msgType\": \"__reply__\", \"requestId\": \"{id}\", \"content\": {{ \"body\": 1 }}"),
    };
    m.to_string()
}
const NOT_REPLIES: usize = 12;
fn bodies() -> Vec<J> { vec![json!(1), json!("two"), J::Null, json!([3, [4]]), json!({ "a": { "b": 5 } }), json!(""), json!(false)] }

fn requests(ch: &mut Chooser, depth: usize, max: usize, bad: bool, cached: bool) -> Leaf {
    // the history first, so that histories that are none are left out
    let (mut ops, mut sent) = (vec![], 0usize);
    let kind = if bad { ch.choose(NOT_REPLIES) } else { 0 };
    for _ in 0..depth {
        let mut c = vec![];
        if sent < max { c.push(Op::Send); }
        if sent > 0 { c.push(Op::Tick); }
        for i in 0..sent { c.push(Op::Reply(i)); c.push(Op::Poll(i)); if bad { c.push(Op::Bad(kind, i)); } }
        let o = ch.of(&c);
        if o == Op::Send { sent += 1; }
        ops.push(o);
    }
    // (the same history ended by a useless step is explored as its shorter self, followed by the final polls)
    if matches!(ops.last(), Some(Op::Send)) && depth > 1 { return Leaf::skip(); }
    if bad && !ops.iter().any(|o| matches!(o, Op::Bad(..))) { return Leaf::skip(); }
    let key = format!("{ops:?}{}", if cached { " (cached clock)" } else { "" });
    let r = guarded(|| {
        let mut w = World::new(Some("proj"), Cfg::default(), cached)?;
        struct Req { key: ExternReplyKey, sent: i64, reply: Option<(i64, J)>, over: bool }
        let mut reqs: Vec<Req> = vec![];
        let (mut states, mut n, mut stray) = (vec![], 0usize, 0usize);
        let all = bodies();
        let mut all_ops = ops.clone();
        // afterwards: whatever is still open is resolved at the latest when its time is up
        all_ops.extend((0..sent).map(Op::Poll));
        all_ops.extend([Op::Tick, Op::Tick, Op::Tick]);
        all_ops.extend((0..sent).map(Op::Poll));
        for op in all_ops {
            match op {
                Op::Send => {
                    let i = reqs.len();
                    let ty = format!("ask{i}");
                    let key = w.sys.send_message(ty.as_str().into(), fields(&[("n", json!(i))]), vec!["you@there#vm".into()], true).map_err(|e| format!("send_message failed: {e:?}"))?.ok_or("no reply key for a message that expects a reply")?;
                    let f = w.srv.next_json().ok_or("the request never reached the server")?;
                    let want = json!({ "type": "message", "dstId": ["you@there#vm"], "srcId": w.public_id(), "msgType": ty, "requestId": key.request_id.as_str(), "content": { "n": i } });
                    if f != want { return Err(format!("request {i} went out as {f}, not as {want}")); }
                    if reqs.iter().any(|r| r.key.request_id == key.request_id) || key.request_id.is_empty() { return Err(format!("request identifier {} used twice", key.request_id)); }
                    reqs.push(Req { key, sent: w.now(), reply: None, over: false });
                }
                Op::Tick => w.advance(700),
                Op::Reply(i) => {
                    let v = all[n % all.len()].clone();
                    n += 1;
                    let r = &mut reqs[i];
                    w.srv.send(&json!({ "type": "message", "msgType": "__reply__", "dstId": "x", "requestId": r.key.request_id.as_str(), "content": { "body": v } }).to_string());
                    let at = w.now();
                    w.settle()?;
                    if !r.over && r.reply.is_none() { r.reply = Some((at, v)); }
                }
                Op::Bad(k, i) => {
                    let s = not_a_reply(k, &reqs[i].key.request_id, &w.client.clone());
                    w.srv.send(&s);
                    if k == 6 { stray += 1; }
                    w.settle()?;
                }
                Op::Poll(i) => {
                    let now = w.now();
                    let r = &mut reqs[i];
                    if r.over { continue; }
                    let late = now > r.sent + TIMEOUT;
                    let got = w.sys.poll_reply(&r.key);
                    let ok = match (&got, &r.reply) {
                        (AsyncResult::Completed(Some(x)), Some((_, v))) => { r.over = true; x == v }
                        (AsyncResult::Completed(None), Some((at, _))) => { r.over = true; late && *at > r.sent + TIMEOUT }
                        (AsyncResult::Completed(None), None) => { r.over = true; late }
                        (AsyncResult::Pending, None) => !late,
                        _ => false,
                    };
                    if !ok { return Err(format!("request {i} (sent at {}, now {now}, reply {:?}) was answered {}", r.sent, r.reply, match got { AsyncResult::Pending => "pending".into(), AsyncResult::Consumed => "consumed".into(), AsyncResult::Completed(x) => format!("{x:?}") })); }
                }
            }
            states.push(h64(&format!("{:?}", reqs.iter().map(|r| (w.now() - r.sent, r.reply.as_ref().map(|x| x.1.to_string()), r.over)).collect::<Vec<_>>())));
        }
        if reqs.iter().any(|r| !r.over) { return Err("a request was never resolved".into()); }
        w.settle()?;
        if w.stash.len() != stray { return Err(format!("replies showed up as messages: {:?}", w.stash.iter().map(|m| m.msg_type.as_str()).collect::<Vec<_>>())); }
        let rest = w.flush()?;
        if !rest.is_empty() { return Err(format!("the server also received {rest:?}")); }
        Ok(states)
    });
    done(&key, ops.len() as u64 + sent as u64 * 2 + 3, r)
}

// ------------------------------------------------------------ incoming messages
enum Pack { Text(String), Binary(Vec<u8>), Split(String), Control(u8), Ping }
/// (name, packet, the message it is: type, fields, reply key)
type Expect = Option<(String, Vec<(String, SimpleValue)>, Option<(String, String)>)>;
fn sv(j: &J) -> SimpleValue { SimpleValue::from_netsblox_json(j.clone()).unwrap() }
fn packet(k: usize, at: usize) -> (&'static str, Pack, Expect) {
    let ty = format!("m{at}");
    let t = |j: J| Pack::Text(j.to_string());
    let good = |f: Vec<(&str, J)>, r: Option<(&str, &str)>| Some((ty.clone(), f.iter().map(|(k, v)| (k.to_string(), sv(v))).collect(), r.map(|(a, b)| (a.to_string(), b.to_string()))));
    match k {
        0 => ("plain", t(json!({ "type": "message", "msgType": ty, "content": {} })), good(vec![], None)),
        1 => ("fields", t(json!({ "type": "message", "msgType": ty, "content": { "b": 1, "a": "x", "c": [1, ["k", true]] }, "dstId": ["me"], "extra": { "msgType": "no" } })), good(vec![("a", json!("x")), ("b", json!(1)), ("c", json!([1, ["k", true]]))], None)),
        2 => ("with an unusable field", t(json!({ "type": "message", "msgType": ty, "content": { "a": 1, "n": null, "z": [null] } })), good(vec![("a", json!(1))], None)),
        3 => ("asking for a reply", t(json!({ "type": "message", "msgType": ty, "content": { "a": 1 }, "srcId": "them@x#vm", "requestId": "r-1" })), good(vec![("a", json!(1))], Some(("them@x#vm", "r-1")))),
        4 => ("with a sender only", t(json!({ "type": "message", "msgType": ty, "content": {}, "srcId": "them@x#vm" })), good(vec![], None)),
        5 => ("split into two frames", Pack::Split(json!({ "type": "message", "msgType": ty, "content": { "é😀": "é" } }).to_string()), good(vec![("é😀", json!("é"))], None)),
        6 => ("long", t(json!({ "type": "message", "msgType": ty, "content": { "a": "y".repeat(70000) } })), good(vec![("a", json!("y".repeat(70000)))], None)),
        7 => ("ping", Pack::Ping, None),
        8 => ("not json", Pack::Text(format!("{{\"type\":\"message\",\"msgType\":\"{ty}\",\"content\":{{}}")), None),
        9 => ("an array", t(json!(["message", ty])), None),
        10 => ("a text", t(json!("message")), None),
        11 => ("no kind", t(json!({ "msgType": ty, "content": {} })), None),
        12 => ("kind is a number", t(json!({ "type": 1, "msgType": ty, "content": {} })), None),
        13 => ("other kind", t(json!({ "type": "room-roles", "msgType": ty, "content": {} })), None),
        14 => ("no type", t(json!({ "type": "message", "content": { "a": 1 } })), None),
        15 => ("type is a number", t(json!({ "type": "message", "msgType": 3, "content": {} })), None),
        16 => ("no content", t(json!({ "type": "message", "msgType": ty })), None),
        17 => ("content is a list", t(json!({ "type": "message", "msgType": ty, "content": [1] })), None),
        18 => ("content is null", t(json!({ "type": "message", "msgType": ty, "content": null })), None),
        19 => ("request without sender", t(json!({ "type": "message", "msgType": ty, "content": {}, "requestId": "r" })), None),
        20 => ("request number", t(json!({ "type": "message", "msgType": ty, "content": {}, "requestId": 5, "srcId": "s" })), None),
        21 => ("sender is a list", t(json!({ "type": "message", "msgType": ty, "content": {}, "requestId": "r", "srcId": ["s"] })), None),
        22 => ("binary", Pack::Binary(json!({ "type": "message", "msgType": ty, "content": {} }).to_string().into_bytes()), None),
        23 => ("websocket ping", Pack::Control(9), None),
        24 => ("websocket pong", Pack::Control(10), None),
        25 => ("reply to nobody", t(json!({ "type": "message", "msgType": "__reply__", "content": { "body": 1 }, "requestId": "nobody" })), None),
        26 => ("empty", Pack::Text(String::new()), None),
        27 => ("an empty object", t(json!({})), None),
        28 => ("deep", Pack::Text(format!("{{\"type\":\"message\",\"msgType\":\"{ty}\",\"content\":{{\"a\":{}{}}}}}", "[".repeat(3000), "]".repeat(3000))), None),
        29 => ("nameless", Pack::Text(r#"{"type":"message","msgType":"","content":{"":1}}"#.into()), Some((String::new(), vec![(String::new(), sv(&json!(1)))], None))),
        30 => ("asking for a reply, empty identifiers", t(json!({ "type": "message", "msgType": ty, "content": {}, "srcId": "", "requestId": "" })), good(vec![], Some(("", "")))),
        _ => ("looks like markup", t(json!({ "type": "message", "msgType": ty, "content": { "a": "<b>x</b>", "b": "0x10", "c": "<costume name=\"q\" image=\"data:image/png;base64,AQI=\"/>" } })), good(vec![("a", json!("<b>x</b>")), ("b", json!("0x10")), ("c", json!("<costume name=\"q\" image=\"data:image/png;base64,AQI=\"/>"))], None)),
    }
}
const PACKETS: usize = 32;
fn incoming(ch: &mut Chooser, depth: usize) -> Leaf {
    let ks: Vec<usize> = (0..depth).map(|_| ch.choose(PACKETS)).collect();
    let eager = ch.choose(3); // 0: looked at once, at the end; 1: after every packet; 2: a message is injected between the packets as well
    let reply = ch.flag(); // messages that ask for a reply get one, in reverse order
    let packs: Vec<_> = ks.iter().enumerate().map(|(i, k)| packet(*k, i)).collect();
    let asks = packs.iter().filter(|p| p.2.as_ref().is_some_and(|e| e.2.is_some())).count();
    if reply && asks == 0 { return Leaf::skip(); }
    let key = format!("packets {:?} mode {eager}{}", packs.iter().map(|p| p.0).collect::<Vec<_>>(), if reply { " replying" } else { "" });
    let r = guarded(|| {
        let mut w = World::new(Some("proj"), Cfg::default(), false)?;
        let mut want: Vec<(String, Vec<(String, SimpleValue)>, Option<(String, String)>)> = vec![];
        let (mut out, mut states) = (vec![], vec![]);
        for (i, (_, p, e)) in packs.into_iter().enumerate() {
            match p {
                Pack::Text(s) => w.srv.send(&s),
                Pack::Binary(b) => w.srv.frame(2, &b),
                Pack::Split(s) => { let b = s.as_bytes(); let k = b.iter().position(|x| *x >= 0x80).map(|x| x + 1).unwrap_or(b.len() / 2); w.srv.piece(1, &b[..k]); w.srv.piece(0x80, &b[k..]); }
                Pack::Control(op) => w.srv.frame(op, b"hi"),
                Pack::Ping => { w.srv.send("{\"type\":\"ping\"}"); out.push(json!({ "type": "pong" })); }
            }
            if let Some(e) = e { want.push(e); }
            if eager > 0 { w.settle()?; }
            if eager == 2 { let ty = format!("inj{i}"); let mut v = VecMap::new(); v.insert("k".into(), SimpleValue::Text("v".into())); w.sys.inject_message(ty.as_str().into(), v); want.push((ty, vec![("k".into(), SimpleValue::Text("v".into()))], None)); }
            states.push(h64(&format!("{want:?}")));
        }
        w.settle()?;
        let show = |f: &[(String, SimpleValue)]| { let mut x: Vec<String> = f.iter().map(|(k, v)| format!("{k}={}", super::common::show(v))).collect(); x.sort(); x.join(",") };
        let got: Vec<String> = w.stash.iter().map(|m| format!("{} {} {:?}", m.msg_type, show(&m.values.iter().map(|e| (e.0.to_string(), e.1.clone())).collect::<Vec<_>>()), m.reply_key.as_ref().map(|k| (k.src_id.to_string(), k.request_id.to_string())))).collect();
        let wanted: Vec<String> = want.iter().map(|(t, f, k)| format!("{t} {} {k:?}", show(f))).collect();
        if got != wanted { let cut = |v: &[String]| v.iter().map(|s| s.chars().take(200).collect::<String>()).collect::<Vec<_>>(); return Err(format!("received {:?} instead of {:?}", cut(&got), cut(&wanted))); }
        let mut answers = vec![];
        if reply {
            let keys: Vec<_> = w.stash.iter().filter_map(|m| m.reply_key.clone()).collect();
            for (i, k) in keys.into_iter().enumerate().rev() {
                answers.push(json!({ "type": "message", "dstId": k.src_id.as_str(), "msgType": "__reply__", "requestId": k.request_id.as_str(), "content": { "body": [i, "answer"] } }));
                w.sys.send_reply(k, json!([i, "answer"])).map_err(|e| format!("send_reply failed: {e:?}"))?;
            }
        }
        // (answers to pings and to messages are in order among themselves; frames other than texts belong to the transport)
        let rest: Vec<J> = w.flush()?.into_iter().filter(|f| !f.as_str().is_some_and(|s| s.starts_with("Other"))).collect();
        let (pongs, others): (Vec<J>, Vec<J>) = rest.into_iter().partition(|f| f["type"] == "pong");
        if pongs != out { return Err(format!("pings were answered {pongs:?} instead of {out:?}")); }
        if others != answers { return Err(format!("the server received {others:?} instead of {answers:?}")); }
        Ok(states)
    });
    done(&key, depth as u64, r)
}

// ------------------------------------------------------------ outgoing messages
fn outgoing(ch: &mut Chooser, depth: usize) -> Leaf {
    const TO: [&[&str]; 5] = [&[], &["a@b#vm"], &["everyone in room"], &["a", "everyone in room", "b", "everyone in room"], &["everyone in room", "Everyone in room", "everyone in room "]];
    let project = ch.of(&[None, Some("my project"), Some("")]);
    let acts: Vec<(usize, usize, bool)> = (0..depth).map(|_| { let a = ch.choose(TO.len() + 1); if a == TO.len() { (a, 0, false) } else { (a, ch.choose(3), ch.flag()) } }).collect();
    let key = format!("project {project:?} sends {acts:?}");
    let r = guarded(|| {
        let mut w = World::new(project, Cfg::default(), false)?;
        if w.sys.get_public_id().as_str() != w.public_id() { return Err(format!("public id {} instead of {}", w.sys.get_public_id(), w.public_id())); }
        let vals: [Vec<(&str, Json)>; 3] = [vec![], vec![("b", json!(1.5)), ("a", json!([1, "x", null]))], vec![("", json!("\"\n\u{1F600}")), ("requestId", json!("mine")), ("type", json!(true))]];
        let (mut want, mut ids, mut states) = (vec![], vec![], vec![]);
        for (i, (a, v, ask)) in acts.iter().enumerate() {
            let ty = format!("t{i}\"");
            if *a == TO.len() {
                w.sys.send_reply(InternReplyKey { src_id: "who@x#vm".into(), request_id: format!("q{i}").as_str().into() }, json!({ "i": i })).map_err(|e| format!("send_reply failed: {e:?}"))?;
                want.push(json!({ "type": "message", "dstId": "who@x#vm", "msgType": "__reply__", "requestId": format!("q{i}"), "content": { "body": { "i": i } } }));
            } else {
                let k = w.sys.send_message(ty.as_str().into(), fields(&vals[*v]), TO[*a].iter().map(|x| CompactString::new(x)).collect(), *ask).map_err(|e| format!("send_message failed: {e:?}"))?;
                if k.is_some() != *ask { return Err(format!("reply key {k:?} for a message that {} one", if *ask { "wants" } else { "does not want" })); }
                let to: Vec<String> = TO[*a].iter().map(|x| if *x == "everyone in room" { w.public_id() } else { x.to_string() }).collect();
                let mut m = json!({ "type": "message", "dstId": to, "srcId": w.public_id(), "msgType": ty, "content": vals[*v].iter().map(|(k, v)| (k.to_string(), v.clone())).collect::<serde_json::Map<_, _>>() });
                if let Some(k) = k { m["requestId"] = json!(k.request_id.as_str()); if ids.contains(&k.request_id) { return Err("request identifier used twice".into()); } ids.push(k.request_id); }
                want.push(m);
            }
            states.push(h64(&format!("{:?}", &acts[..=i])));
        }
        let got = w.flush()?;
        if got != want { return Err(format!("the server received {got:?} instead of {want:?}")); }
        Ok(states)
    });
    done(&key, depth as u64, r)
}

// ------------------------------------------------------------ start
fn starting(ch: &mut Chooser) -> Leaf {
    let project = ch.of(&[None, Some("proj"), Some("a \"b\" é")]);
    let key = format!("start as {project:?}");
    let r = guarded(|| {
        let w = World::new(project, Cfg::default(), false)?;
        let c = &w.client;
        let want = [("GET", "/configuration".to_string(), J::Null), ("WS", format!("/network/{c}/connect"), J::Null), ("POST", "/projects/".into(), json!({ "clientId": c, "name": w.project })), ("POST", format!("/network/{c}/state"), json!({ "state": { "external": { "address": w.project, "appId": "vm" } } }))];
        let got: Vec<_> = w.startup.iter().map(|(m, p, b)| (m.as_str(), p.clone(), serde_json::from_str(b).unwrap_or(J::Null))).collect();
        if got != want { return Err(format!("the server saw {got:?} instead of {want:?}")); }
        Ok(vec![h64(&key)])
    });
    done(&key, 4, r)
}

// ------------------------------------------------------------ scripts
/// Scripts that wait for replies, with the server answering in every order, or not at all, or twice.
fn scripts(ch: &mut Chooser, n: usize) -> Leaf {
    let kinds: Vec<J> = vec![json!("text"), json!(7), json!([1, ["a", true]]), J::Null];
    // who is answered when: an order of the scripts, cut off somewhere
    let mut left: Vec<usize> = (0..n).collect();
    let mut order = vec![];
    while !left.is_empty() { let k = ch.choose(left.len() + 1); if k == left.len() { break; } order.push((left.remove(k), ch.choose(kinds.len()))); }
    let twice = ch.flag();
    let run_between = ch.flag();
    let key = format!("{n} scripts answered {order:?}{}{}", if twice { " twice" } else { "" }, if run_between { ", running in between" } else { "" });
    let r = guarded(|| {
        let out: Out = Default::default();
        let mut w = World::new(Some("proj"), printing(&out), false)?;
        let role = prog(vec![], vec![], (0..n).map(|i| on_flag(vec![say(cat(vec![n_(i), t(":"), send_wait(&format!("ask{i}"), vec![("x", n_(i))], t("you@there#vm"))])), says(&format!("end {i}"))])).collect());
        let mut p = Running::new(&role, &w, &out, false);
        p.steps(20 * n)?;
        let mut ids = vec![String::new(); n];
        for _ in 0..n {
            let f = w.srv.next_json().ok_or("a request never reached the server")?;
            let i = f["content"]["x"].as_f64().map(|x| x as usize).filter(|x| *x < n).ok_or(format!("unexpected message {f}"))?;
            let id = f["requestId"].as_str().unwrap_or("").to_string();
            if !ids[i].is_empty() || f != json!({ "type": "message", "dstId": ["you@there#vm"], "srcId": w.public_id(), "msgType": format!("ask{i}"), "requestId": id, "content": { "x": f["content"]["x"] } }) { return Err(format!("unexpected message {f}")); }
            ids[i] = id;
        }
        if !out.borrow().is_empty() { return Err(format!("scripts went on before any reply: {:?}", out.borrow())); }
        let mut want: Vec<String> = vec![];
        let mut states = vec![];
        let told = |i: usize, v: &J| if v.is_null() { vec![format!("error FromNetsBloxJsonError")] } else { vec![format!("text {:?}", format!("{i}:{}", match v { J::String(s) => s.clone(), J::Array(_) => "[1,[a,true]]".into(), v => v.to_string() })), format!("text {:?}", format!("end {i}"))] };
        for (i, k) in &order {
            let m = |v: &J| json!({ "type": "message", "msgType": "__reply__", "requestId": ids[*i], "content": { "body": v } }).to_string();
            w.srv.send(&m(&kinds[*k]));
            if twice { w.srv.send(&m(&json!("again"))); }
            w.settle()?;
            want.extend(told(*i, &kinds[*k]));
            if run_between { p.steps(40 * n)?; printed(&out, &want)?; }
            states.push(h64(&format!("{want:?}")));
        }
        p.steps(40 * n)?;
        printed(&out, &want)?;
        w.advance(1400);
        p.steps(40 * n)?;
        printed(&out, &want)?;
        w.advance(200);
        for i in &left { want.push(format!("text {:?}", format!("{i}:"))); want.push(format!("text {:?}", format!("end {i}"))); }
        let idle = p.steps(40 * n)?;
        printed(&out, &want)?;
        if !idle { return Err("scripts still running after every request was resolved".into()); }
        let rest = w.flush()?;
        if !rest.is_empty() { return Err(format!("the server also received {rest:?}")); }
        states.push(h64(&format!("{want:?}")));
        Ok(states)
    });
    done(&key, order.len() as u64 + 2, r)
}
fn n_(i: usize) -> Expr { n(i as f64) }
/// the same things printed, each script's in its own order
fn printed(out: &Out, want: &[String]) -> Result<(), String> {
    let (mut a, mut b) = (out.borrow().clone(), want.to_vec());
    a.sort();
    b.sort();
    if a != b { return Err(format!("printed {:?}, expected {want:?}", out.borrow())); }
    Ok(())
}
/// Messages that start scripts which reply.
fn handlers(ch: &mut Chooser, len_: usize) -> Leaf {
    // each packet: which listener, whether it wants a reply, whether it has the field
    let ps: Vec<(usize, bool, bool)> = (0..len_).map(|_| (ch.choose(3), ch.flag(), ch.flag())).collect();
    let burst = ch.flag();
    let key = format!("handlers for {ps:?}{}", if burst { " at once" } else { "" });
    let r = guarded(|| {
        let out: Out = Default::default();
        let mut w = World::new(Some("proj"), printing(&out), false)?;
        let role = prog(vec![], vec![], vec![
            on_net("a", &["x"], vec![say(cat(vec![t("a"), v("x")])), reply(ml(vec![t("from a"), v("x")])), says("late")]),
            on_net("b", &["x", "y"], vec![says("b1"), wait0(), say(cat(vec![t("b"), v("x"), v("y")])), reply(v("x"))]),
        ]);
        let mut p = Running::new(&role, &w, &out, false);
        p.steps(5)?;
        let (mut prints, mut answers, mut states) = (vec![], vec![], vec![]);
        for (i, (l, ask, field)) in ps.iter().enumerate() {
            let mut m = json!({ "type": "message", "msgType": (["a", "b", "c"][*l]), "content": { "z": 1 } });
            if *field { m["content"]["x"] = json!(format!("v{i}")); }
            if *ask { m["srcId"] = json!(format!("s{i}@x#vm")); m["requestId"] = json!(format!("q{i}")); }
            w.srv.send(&m.to_string());
            let x = if *field { format!("v{i}") } else { "0".into() };
            let jx = if *field { json!(x) } else { json!(0) };
            match l { 0 => prints.extend([format!("text \"a{x}\""), "text \"late\"".into()]), 1 => prints.extend(["text \"b1\"".to_string(), format!("text \"b{x}0\"")]), _ => {} }
            if *ask && *l < 2 { answers.push(json!({ "type": "message", "dstId": format!("s{i}@x#vm"), "msgType": "__reply__", "requestId": format!("q{i}"), "content": { "body": if *l == 0 { json!(["from a", jx]) } else { jx } } })); }
            if !burst { p.until(prints.len(), "a message did not start its listeners")?; p.steps(30)?; printed(&out, &prints)?; }
            states.push(h64(&format!("{prints:?}{answers:?}")));
        }
        p.until(prints.len(), "a message did not start its listeners")?;
        p.steps(50)?;
        printed(&out, &prints)?;
        // per listener in arrival order
        for l in ["text \"a", "text \"b"] { let pick = |v: &[String]| v.iter().filter(|s| s.starts_with(l)).cloned().collect::<Vec<_>>(); if pick(&out.borrow()) != pick(&prints) { return Err(format!("printed {:?}, expected {prints:?}", out.borrow())); } }
        let norm = |v: Vec<J>| { let mut v: Vec<String> = v.iter().map(|x| x.to_string().replace("0.0", "0")).collect(); v.sort(); v };
        let (got, want) = (norm(w.flush()?), norm(answers));
        if got != want { return Err(format!("the server received {got:?} instead of {want:?}")); }
        Ok(states)
    });
    done(&key, len_ as u64, r)
}


pub fn check(quick: bool) -> Check {
    let (d, di, dout) = if quick { (6, 2, 2) } else { (8, 3, 3) };
    let dbad = if quick { 3 } else { 5 };
    let (ns, nh) = if quick { (2, 2) } else { (3, 3) };
    Check::new("N01", "send_message, poll_reply, receive_message, send_reply and inject_message of a StdSystem connected to a scripted local server, and projects running on it; wall clock set by the harness", vec![
        phase("start", "3 project names: the requests made to the server", |ch, _| starting(ch)),
        phase("requests", &format!("all histories of {d} of send (at most 2 requests), valid reply to either, poll of either, 700 ms passing; then polled until resolved"), move |ch, _| requests(ch, d, 2, false, false)),
        phase("one request", &format!("all histories of {} of send, reply, poll, 700 ms passing, with one request and a caching clock", d + 2), move |ch, _| requests(ch, d + 2, 1, false, true)),
        phase("false replies", &format!("all histories of {dbad} of send (at most 2), reply, poll, 700 ms passing and one of {NOT_REPLIES} kinds of packet that is no reply to the request"), move |ch, _| requests(ch, dbad, 2, true, false)),
        phase("incoming", &format!("all sequences of {di} of {PACKETS} kinds of packet (well- and ill-formed), read at the end, after each, or between injected messages, replying or not"), move |ch, _| incoming(ch, di)),
        phase("outgoing", &format!("all sequences of {dout} sends (5 target lists, 3 field sets, wanting a reply or not) and replies, 3 project names"), move |ch, _| outgoing(ch, dout)),
        phase("scripts", &format!("{ns} scripts waiting for replies: every order and subset of replies of 4 kinds, once or twice, with or without steps in between, the others timing out"), move |ch, _| scripts(ch, ns)),
        phase("handlers", &format!("all sequences of {nh} messages to 3 types, wanting a reply or not, with or without the field, one at a time or at once"), move |ch, _| handlers(ch, nh)),
    ]).assume("the order of network events relative to calls into the system is enumerated; the system's own threads run freely between two events (each event is awaited before the next)")
      .assume("a time exactly equal to the timeout, and a reply that arrives after the timeout but before the next poll, may go either way")
}

