//! N02: RPCs of the standard system.
use super::common::*;
use netsblox_vm::json::Json;
use std::cell::Cell;

/// what a calling block gets
#[derive(Clone, Debug)]
enum Gets { Value(SimpleValue), Error(String), SomeError }
type Kind = (&'static str, fn(Rpc, usize), fn(usize) -> Gets);
fn txt(x: impl AsRef<str>) -> Gets { Gets::Value(SimpleValue::Text(x.as_ref().into())) }
fn js(j: J) -> Gets { Gets::Value(SimpleValue::from_netsblox_json(j).unwrap()) }
fn image(c: Vec<u8>) -> Gets { Gets::Value(SimpleValue::Image(Image { content: c, center: None, name: "untitled".into() })) }
fn sound(c: Vec<u8>) -> Gets { Gets::Value(SimpleValue::Audio(Audio { content: c, name: "untitled".into() })) }
/// every way to answer call number i; the first few tell calls apart best
fn kinds() -> Vec<Kind> {
    vec![
        ("text", |r, i| r.answer("200 OK", Some("text/plain"), format!("answer {i}").as_bytes()), |i| txt(format!("answer {i}"))),
        ("refused", |r, i| r.answer("500 Internal Server Error", Some("text/plain"), format!("no {i}").as_bytes()), |i| Gets::Error(format!("no {i}"))),
        ("list", |r, i| r.answer("200 OK", Some("application/json"), format!("[{i}, [\"x\", true]]").as_bytes()), |i| js(json!([i, ["x", true]]))),
        ("image", |r, i| r.answer("200 OK", Some("image/png"), &[137, 0, 255, i as u8]), |i| image(vec![137, 0, 255, i as u8])),
        ("dropped", |r, _| r.raw(vec![]), |_| Gets::SomeError),
        ("number", |r, i| r.answer("200 OK", Some("application/json; charset=utf-8"), format!("{i}.25").as_bytes()), |i| js(json!(i as f64 + 0.25))),
        // the others
        ("untyped text", |r, i| r.answer("200 OK", None, format!("{i} {{").as_bytes()), |i| txt(format!("{i} {{"))),
        ("untyped json", |r, i| r.answer("200 OK", None, format!("{{\"b\": {i}, \"a\": [null_]}}").replace("null_", "").as_bytes()), |i| js(json!({ "b": i, "a": [] }))),
        ("json called text", |r, i| r.answer("200 OK", Some("text/html"), format!("\"{i}\"").as_bytes()), |i| txt(i.to_string())),
        ("true", |r, _| r.answer("200 OK", Some("application/json"), b"true"), |_| js(json!(true))),
        ("null", |r, _| r.answer("200 OK", Some("application/json"), b"null"), |_| Gets::SomeError),
        ("null inside", |r, _| r.answer("200 OK", Some("application/json"), b"[1, null]"), |_| Gets::SomeError),
        ("nothing", |r, _| r.answer("200 OK", Some("text/plain"), b""), |_| txt("")),
        ("created", |r, i| r.answer("201 Created", Some("application/json"), format!("{i}").as_bytes()), |i| js(json!(i))),
        ("IMAGE", |r, i| r.answer("200 OK", Some("IMAGE/SVG+XML; charset=utf-8"), format!("[{i}]").as_bytes()), |i| image(format!("[{i}]").into_bytes())),
        ("sound", |r, i| r.answer("200 OK", Some("audio/wav"), &[0, 200, i as u8]), |i| sound(vec![0, 200, i as u8])),
        ("Sound", |r, i| r.answer("200 OK", Some("Audio/MPEG"), format!("{i}").as_bytes()), |i| sound(format!("{i}").into_bytes())),
        ("no image", |r, _| r.answer("200 OK", Some("image/png"), b""), |_| image(vec![])),
        ("not text", |r, _| r.answer("200 OK", Some("application/octet-stream"), &[0xff, 0xfe, 1]), |_| Gets::SomeError),
        ("unknown", |r, i| r.answer("404 Not Found", Some("application/json"), format!("[{i}]").as_bytes()), |i| Gets::Error(format!("[{i}]"))),
        ("refused image", |r, i| r.answer("400 Bad Request", Some("image/png"), format!("img {i}").as_bytes()), |i| Gets::Error(format!("img {i}"))),
        ("refused without reason", |r, _| r.answer("403 Forbidden", None, b""), |_| Gets::Error(String::new())),
        ("refused garbled", |r, _| r.answer("500 Internal Server Error", None, &[0xc3, 0x28]), |_| Gets::SomeError),
        ("cut off", |r, i| r.raw(format!("HTTP/1.1 200 OK\r\nContent-Type: text/plain\r\nContent-Length: 50\r\nConnection: close\r\n\r\nanswer {i}").into_bytes()), |_| Gets::SomeError),
        ("cut off early", |r, _| r.raw(b"HTTP/1.1 200 OK\r\nContent-Ty".to_vec()), |_| Gets::SomeError),
        ("no http", |r, _| r.raw(b"hello\r\n\r\n".to_vec()), |_| Gets::SomeError),
        ("long", |r, i| r.answer("200 OK", Some("text/plain"), format!("{i}{}", "z".repeat(200_000)).as_bytes()), |i| txt(format!("{i}{}", "z".repeat(200_000)))),
        ("markup", |r, _| r.answer("200 OK", Some("text/plain"), b"<costume name=\"a\">"), |_| txt("<costume name=\"a\">")),
        ("chunked", |r, i| r.raw(format!("HTTP/1.1 200 OK\r\nContent-Type: application/json\r\nTransfer-Encoding: chunked\r\nConnection: close\r\n\r\n2\r\n[{i}\r\n3\r\n, 2\r\n1\r\n]\r\n0\r\n\r\n").into_bytes()), |i| js(json!([i, 2]))),
        ("until closed", |r, i| r.raw(format!("HTTP/1.1 200 OK\r\nContent-Type: text/plain\r\nConnection: close\r\n\r\nopen {i}").into_bytes()), |i| txt(format!("open {i}"))),
    ]
}
fn expect(g: &Gets, soft: bool) -> String {
    match g { Gets::Value(v) => show(v), Gets::Error(e) => if soft { format!("text {e:?}") } else { format!("error {e:?}") }, Gets::SomeError => if soft { "text *".into() } else { "error *".into() } }
}
fn fits(got: &str, want: &str) -> bool { match want.strip_suffix('*') { Some(p) => got.starts_with(p), None => got == want } }
fn compare(out: &[String], want: &[String]) -> Result<(), String> {
    let cut = |v: &[String]| v.iter().map(|s| s.chars().take(150).collect::<String>()).collect::<Vec<_>>();
    if out.len() != want.len() || out.iter().zip(want).any(|(a, b)| !fits(a, b)) { return Err(format!("the blocks got {:?}, expected {:?}", cut(out), cut(want))); }
    Ok(())
}
fn done(key: &str, n: u64, r: Result<Vec<u64>, String>) -> Leaf { match r { Ok(s) => Leaf::ok(s, n), Err(w) => Leaf::fail(key, format!("{key}: {w}")) } }
fn call(host: Option<String>, service: &str, rpc: &str, args: Vec<(&str, Expr)>) -> Expr { e(ExprKind::CallRpc { host: host.map(|h| h.as_str().into()), service: service.into(), rpc: rpc.into(), args: args.into_iter().map(|(k, v)| (k.into(), v)).collect() }) }
use netsblox_vm::ast::ExprKind;
/// numbers as numbers, whether or not they are written with a fraction
fn plain(j: &J) -> J {
    match j { J::Number(x) => json!(x.as_f64()), J::Array(a) => a.iter().map(plain).collect(), J::Object(o) => J::Object(o.iter().map(|(k, v)| (k.clone(), plain(v))).collect()), j => j.clone() }
}
/// The request is the one call `rpc` of `service` makes with `args`.
fn is_call(r: &Rpc, w: &World, root: &str, service: &str, rpc: &str, args: &J) -> Result<(), String> {
    let q: Vec<&str> = r.query.split('&').collect();
    let ok = r.method == "POST" && r.path == format!("{root}/{service}/{rpc}") && q.len() == 2 && q[0] == format!("clientId={}", w.client) && q[1].strip_prefix("t=").is_some_and(|t| !t.is_empty() && t.bytes().all(|b| b.is_ascii_digit()))
        && serde_json::from_str::<J>(&r.body).is_ok_and(|b| plain(&b) == plain(args));
    if ok { Ok(()) } else { Err(format!("the server was asked {} {}?{} with {}, instead of {service}/{rpc} with {args}", r.method, r.path, r.query, r.body.chars().take(200).collect::<String>())) }
}
fn none_left(w: &mut World) -> Result<(), String> { match w.srv.rpcs.recv_timeout(std::time::Duration::from_millis(3)) { Ok(r) => Err(format!("the server was also asked {} with {}", r.path, r.body)), Err(_) => Ok(()) } }

/// One call after the other, each answered in any of the ways.
fn answers(ch: &mut Chooser, len_: usize) -> Leaf {
    let all = kinds();
    let ks: Vec<usize> = (0..len_).map(|_| ch.choose(all.len())).collect();
    let soft = ch.flag();
    let key = format!("answers {:?}{}", ks.iter().map(|k| all[*k].0).collect::<Vec<_>>(), if soft { " (errors as values)" } else { "" });
    let r = guarded(|| {
        let out: Out = Default::default();
        let mut w = World::new(Some("proj"), printing(&out), false)?;
        // one script per call, each started by the one before, so that a raised error ends one call only
        let role = prog(vec![], vec![], (0..len_).map(|i| {
            let mut b = vec![say(call(None, "Svc", &format!("r{i}"), vec![("i", n(i as f64))])), say(rpc_error())];
            if i + 1 < len_ { b = vec![try_(b, "e", vec![say(cat(vec![t("caught "), v("e")]))]), bcast(t(&format!("go{}", i + 1)), false)]; }
            if i == 0 { on_flag(b) } else { on_msg(&format!("go{i}"), b) }
        }).collect());
        let mut p = Running::new(&role, &w, &out, soft);
        let (mut want, mut states) = (vec![], vec![]);
        for (i, k) in ks.iter().enumerate() {
            p.steps(30)?;
            let r = w.srv.next_rpc().ok_or("the call never reached the server")?;
            is_call(&r, &w, "/services", "Svc", &format!("r{i}"), &json!({ "i": i }))?;
            p.steps(30)?;
            compare(&out.borrow(), &want)?;
            (all[*k].1)(r, i);
            let g = (all[*k].2)(i);
            let failed = !matches!(g, Gets::Value(_));
            let x = expect(&g, soft);
            if failed && !soft {
                want.push(if i + 1 < len_ { "text \"caught *".into() } else { x });
            } else { want.push(x.clone()); want.push(if failed { x } else { "text \"\"".into() }); }
            p.until(want.len(), "the answer never reached the block")?;
            compare(&out.borrow(), &want)?;
            states.push(h64(&want));
        }
        if !p.steps(40)? { return Err("the scripts are still running".into()); }
        compare(&out.borrow(), &want)?;
        none_left(&mut w)?;
        Ok(states)
    });
    done(&key, len_ as u64, r)
}
/// Several scripts call at the same time; the server answers in every order.
fn concurrent(ch: &mut Chooser, n_: usize, calls: usize, kinds_: usize, same: bool) -> Leaf {
    let all = kinds();
    // the state of each script: which of its calls is open; an order of answers, cut off anywhere
    let mut open = vec![0usize; n_];
    let mut order = vec![];
    loop {
        let can: Vec<usize> = (0..n_).filter(|i| open[*i] < calls).collect();
        let k = ch.choose(can.len() + 1);
        if k == can.len() { break; }
        order.push((can[k], ch.choose(kinds_)));
        open[can[k]] += 1;
    }
    let late = ch.flag(); // scripts run only after all the answers a first round gives
    let key = format!("{n_} scripts with {calls} calls{}, answered {:?}{}", if same { " of one rpc" } else { "" }, order.iter().map(|(i, k)| (i, all[*k].0)).collect::<Vec<_>>(), if late { ", running afterwards" } else { "" });
    if late && (calls > 1 || order.len() < 2) { return Leaf::skip(); }
    let r = guarded(|| {
        let out: Out = Default::default();
        let mut w = World::new(Some("proj"), printing(&out), false)?;
        let name = |i: usize| if same { "r".to_string() } else { format!("r{i}") };
        // (errors as values, marked with the script and the call by what is printed before)
        let role = prog(vec![], vec![], (0..n_).map(|i| on_flag((0..calls).map(|j| say(ml(vec![n((i * 10 + j) as f64), call(None, "Svc", &name(i), vec![("i", n(i as f64)), ("j", n(j as f64))])]))).collect())).collect());
        let mut p = Running::new(&role, &w, &out, true);
        p.steps(30 * n_)?;
        let mut pending: Vec<Option<Rpc>> = (0..n_).map(|_| None).collect();
        let mut at = vec![0usize; n_];
        let fetch = |w: &mut World, pending: &mut Vec<Option<Rpc>>, at: &[usize], k: usize| -> Result<(), String> {
            for _ in 0..k {
                let r = w.srv.next_rpc().ok_or("a call never reached the server")?;
                let i = serde_json::from_str::<J>(&r.body).ok().and_then(|b| b["i"].as_f64()).map(|x| x as usize).filter(|i| *i < n_ && pending[*i].is_none()).ok_or(format!("unexpected request {} {}", r.path, r.body))?;
                is_call(&r, w, "/services", "Svc", &name(i), &json!({ "i": i, "j": at[i] }))?;
                pending[i] = Some(r);
            }
            Ok(())
        };
        fetch(&mut w, &mut pending, &at, n_)?;
        let (mut want, mut states): (Vec<String>, Vec<u64>) = (vec![], vec![]);
        for (i, k) in &order {
            let r = pending[*i].take().ok_or("HARNESS: nothing to answer")?;
            let id = i * 10 + at[*i];
            (all[*k].1)(r, id);
            want.push(match expect(&(all[*k].2)(id), true).as_str() { x if x.ends_with('*') => format!("[num {id}, {x}"), x => format!("[num {id}, {x}]") });
            at[*i] += 1;
            if !late { p.until(want.len(), "an answer never reached its block")?; compare(&out.borrow(), &want)?; }
            if at[*i] < calls { p.steps(30)?; fetch(&mut w, &mut pending, &at, 1)?; }
            states.push(h64(&(&want, &at)));
        }
        p.until(want.len(), "an answer never reached its block")?;
        let idle = p.steps(60)?;
        let (mut a, mut b) = (out.borrow().clone(), want.clone());
        if late { a.sort(); b.sort(); }
        compare(&a, &b)?;
        if idle != at.iter().all(|x| *x == calls) { return Err(format!("idle: {idle} with answers {at:?} of {calls}")); }
        none_left(&mut w)?;
        Ok(states)
    });
    done(&key, order.len() as u64 + 1, r)
}
/// What is sent.
fn arguments(ch: &mut Chooser, max: usize) -> Leaf {
    let vals: Vec<(&str, Expr, Option<J>)> = vec![
        ("number", n(-1.5), Some(json!(-1.5))), ("whole number", n(1e15), Some(json!(1e15))), ("text", t("a \"b\" é\n"), Some(json!("a \"b\" é\n"))), ("empty", t(""), Some(json!(""))), ("digits", t("007"), Some(json!("007"))), ("true", bo(true), Some(json!(true))),
        ("list", ml(vec![n(1.0), ml(vec![t("x"), ml(vec![])])]), Some(json!([1, ["x", []]]))), ("shared list", v("sh"), Some(json!([[5], [5]]))), ("cyclic list", v("cy"), None), ("list with a ring", ml(vec![ringe(&[], &[], n(1.0))]), None), ("ring", ring(&[], &[], vec![]), None), ("sprite", this(), None),
    ];
    let names = ["b", "", "a", "x y"];
    let k = ch.choose(max + 1);
    let picks: Vec<usize> = (0..k).map(|_| ch.choose(vals.len())).collect();
    let host = ch.flag();
    let (svc, rpc) = ch.of(&[("Svc", "get"), ("PublicRoles", "getPublicRoleId"), ("PublicRoles", "other"), ("publicroles", "getPublicRoleId")]);
    let key = format!("{svc}.{rpc}{} with {:?}", if host { " elsewhere" } else { "" }, picks.iter().map(|p| vals[*p].0).collect::<Vec<_>>());
    let r = guarded(|| {
        let out: Out = Default::default();
        let mut w = World::new(Some("proj"), printing(&out), false)?;
        let url = format!("http://{}/{}/other", w.srv.host, w.srv.id);
        let args: Vec<_> = picks.iter().enumerate().map(|(i, p)| (names[i], vals[*p].1.clone())).collect();
        let role = prog(nums(&["sh", "cy", "in"]), vec![], vec![on_flag(vec![set("in", ml(vec![n(5.0)])), set("sh", ml(vec![v("in"), v("in")])), set("cy", ml(vec![n(1.0)])), push(v("cy"), v("cy")), say(call(host.then_some(url), svc, rpc, args))])]);
        let mut p = Running::new(&role, &w, &out, false);
        p.steps(60)?;
        let local = (svc, rpc) == ("PublicRoles", "getPublicRoleId") && k == 0;
        let want = if local { format!("text {:?}", w.public_id()) }
        else if picks.iter().any(|p| vals[*p].2.is_none()) { "error *".into() }
        else {
            let r = w.srv.next_rpc().ok_or("the call never reached the server")?;
            let body: serde_json::Map<String, J> = picks.iter().enumerate().map(|(i, p)| (names[i].to_string(), vals[*p].2.clone().unwrap())).collect();
            is_call(&r, &w, if host { "/other" } else { "/services" }, svc, rpc, &J::Object(body))?;
            r.answer("200 OK", None, b"fine");
            "text \"fine\"".into()
        };
        p.until(1, "the block got no answer")?;
        if !p.steps(40)? { return Err("the script is still running".into()); }
        compare(&out.borrow(), &[want])?;
        none_left(&mut w)?;
        Ok(vec![h64(&key)])
    });
    done(&key, 1, r)
}
/// Overrides come first, and see exactly the calls.
fn overrides(ch: &mut Chooser, calls: usize) -> Leaf {
    #[derive(Clone, Copy, Debug, PartialEq)]
    enum O { Value, Error, Declines, Later }
    const OS: [O; 4] = [O::Value, O::Error, O::Declines, O::Later];
    let os: Vec<(O, bool)> = (0..calls).map(|_| (ch.of(&OS), ch.flag())).collect();
    let with_none = ch.flag(); // an override of commands only
    if with_none && os.iter().any(|o| o.0 != O::Declines) { return Leaf::skip(); }
    let key = format!("overridden {os:?}{}", if with_none { " (no override)" } else { "" });
    let r = guarded(|| {
        let out: Out = Default::default();
        let mut cfg = printing(&out);
        let seen: Rc<std::cell::RefCell<Vec<String>>> = Default::default();
        let held: Rc<std::cell::RefCell<Vec<netsblox_vm::std_util::AsyncKey<Result<SimpleValue, CompactString>>>>> = Default::default();
        let at = Rc::new(Cell::new(0));
        let (s, h, o2, a2) = (seen.clone(), held.clone(), os.clone(), at.clone());
        if !with_none {
            cfg.request = Some(Rc::new(move |_, key, request, _| {
                let i = a2.get();
                if let Request::Rpc { host, service, rpc, args } = &request { s.borrow_mut().push(format!("{host:?} {service} {rpc} {:?}", args.iter().map(|(k, v)| format!("{k}={}", shown(v))).collect::<Vec<_>>())); a2.set(i + 1); } else { return RequestStatus::UseDefault { key, request }; }
                match o2[i].0 {
                    O::Value => { key.complete(Ok(SimpleValue::Text(format!("mine {i}").as_str().into()))); RequestStatus::Handled }
                    O::Error => { key.complete(Err(format!("not mine {i}").as_str().into())); RequestStatus::Handled }
                    O::Later => { h.borrow_mut().push(key); RequestStatus::Handled }
                    O::Declines => RequestStatus::UseDefault { key, request },
                }
            }));
        }
        let mut w = World::new(Some("proj"), cfg, false)?;
        // (the second kind of call is one the system answers by itself unless overridden)
        let role = prog(vec![], vec![], vec![on_flag((0..calls).map(|i| say(if os[i].1 { call(None, "PublicRoles", "getPublicRoleId", vec![]) } else { call(None, "Svc", &format!("r{i}"), vec![("i", n(i as f64)), ("k", ml(vec![t("l")]))]) })).collect())]);
        let mut p = Running::new(&role, &w, &out, true);
        let mut want = vec![];
        for (i, (o, own)) in os.iter().enumerate() {
            p.steps(30)?;
            match o {
                O::Value => want.push(format!("text \"mine {i}\"")),
                O::Error => want.push(format!("text \"not mine {i}\"")),
                O::Later => {
                    compare(&out.borrow(), &want)?;
                    let k = held.borrow_mut().pop().ok_or("the override was not asked")?;
                    k.complete(Ok(SimpleValue::Bool(true)));
                    want.push("bool true".into());
                }
                O::Declines if *own => want.push(format!("text {:?}", w.public_id())),
                O::Declines => {
                    let r = w.srv.next_rpc().ok_or("the declined call never reached the server")?;
                    is_call(&r, &w, "/services", "Svc", &format!("r{i}"), &json!({ "i": i, "k": ["l"] }))?;
                    compare(&out.borrow(), &want)?;
                    r.answer("200 OK", None, format!("net {i}").as_bytes());
                    want.push(format!("text \"net {i}\""));
                }
            }
            p.until(want.len(), "the block got no answer")?;
        }
        if !p.steps(40)? { return Err("the script is still running".into()); }
        compare(&out.borrow(), &want)?;
        let calls_: Vec<String> = os.iter().enumerate().map(|(i, (_, own))| if *own { "None PublicRoles getPublicRoleId []".to_string() } else { format!("None Svc r{i} {:?}", [format!("i=num {i}"), "k=[text \"l\"]".into()]) }).collect();
        if !with_none && *seen.borrow() != calls_ { return Err(format!("the override saw {:?} instead of {calls_:?}", seen.borrow())); }
        none_left(&mut w)?;
        Ok(vec![h64(&key)])
    });
    done(&key, calls as u64, r)
}
/// What nobody takes is reported as unsupported, and concerns nobody else.
fn unsupported(ch: &mut Chooser) -> Leaf {
    use netsblox_vm::ast::{StmtKind as S, ExprKind as X};
    let all: Vec<(&str, Vec<Stmt>)> = vec![
        ("Input", vec![ask(t("?"))]),
        ("Syscall { name: \"f\" }", vec![sys_("f")]),
        ("UnknownBlock { name: \"blk\" }", vec![rblk("blk", vec![n(1.0)])]),
        ("GetProperty { prop: XPos }", vec![set("g", e(X::XPos))]),
        ("SetProperty { prop: XPos }", vec![s(S::SetX { value: bx(n(1.0)) })]),
        ("ChangeProperty { prop: XPos }", vec![s(S::ChangeX { delta: bx(n(1.0)) })]),
        ("ClearEffects", vec![s(S::ClearEffects)]),
        ("ClearDrawings", vec![s(S::PenClear)]),
        ("StopSounds", vec![s(S::StopSounds)]),
        ("GotoXY", vec![s(S::GotoXY { x: bx(n(1.0)), y: bx(n(2.0)) })]),
        ("Forward", vec![s(S::Forward { distance: bx(n(1.0)) })]),
        ("Print", vec![says("x")]),
    ];
    let (name, b) = all[ch.choose(all.len())].clone();
    let caught = ch.flag();
    let key = format!("unsupported {name}{}", if caught { " caught" } else { "" });
    let r = guarded(|| {
        let out: Out = Default::default();
        // printing is unsupported as well in one case
        let w = World::new(Some("proj"), if name == "Print" { Cfg::default() } else { printing(&out) }, false)?;
        let body = if caught { let mut x = vec![try_(b, "e", vec![set("g", t("caught"))])]; if name != "Print" { x.push(say(v("g"))); } x } else { b };
        let mut scripts = vec![on_flag(body)];
        if name != "Print" { scripts.push(on_flag(vec![wait0(), says("other")])); }
        let role = prog(nums(&["g"]), vec![], scripts);
        let mut p = Running::new(&role, &w, &out, false);
        if !p.steps(80)? { return Err("the scripts are still running".into()); }
        let mut want = vec![];
        if caught { if name != "Print" { want.push("text \"caught\"".to_string()); } } else { want.push(format!("unsupported {name}")); }
        if name != "Print" { want.push("text \"other\"".into()); }
        let (mut a, mut b) = (out.borrow().clone(), want);
        a.sort();
        b.sort();
        compare(&a, &b)?;
        Ok(vec![h64(&key)])
    });
    done(&key, 1, r)
}
fn sys_(f: &str) -> Stmt { rsys(f, vec![n(1.0)]) }
/// The direct way, which bypasses overrides.
fn direct(ch: &mut Chooser) -> Leaf {
    let all = kinds();
    let k = ch.choose(all.len());
    let host = ch.flag();
    let key = format!("direct call answered {}{}", all[k].0, if host { " elsewhere" } else { "" });
    let r = guarded(|| {
        let cfg = Cfg { request: Some(Rc::new(|_, key, _, _| { key.complete(Err("override".into())); RequestStatus::Handled })), command: None };
        let mut w = World::new(Some("proj"), cfg, false)?;
        let url = format!("http://{}/{}/other", w.srv.host, w.srv.id);
        let sys = w.sys.clone();
        let (one, two): (Json, Json) = (json!(1), json!({ "x": [null] }));
        let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().expect("HARNESS: runtime");
        let (got, asked) = std::thread::scope(|sc| {
            let (tx, rx) = std::sync::mpsc::channel();
            let rpcs = std::mem::replace(&mut w.srv.rpcs, std::sync::mpsc::channel().1);
            let answer = all[k].1;
            sc.spawn(move || { if let Ok(r) = rpcs.recv_timeout(PATIENCE) { let _ = tx.send((r.method.clone(), r.path.clone(), r.query.clone(), r.body.clone())); answer(r, 3); } });
            let got = rt.block_on(async { sys.call_rpc_async(host.then_some(url.as_str()), "S", "r", &[("b", &one), ("a", &two)]).await });
            (got, rx.recv_timeout(PATIENCE).ok())
        });
        let (m, path, _, body) = asked.ok_or("the call never reached the server")?;
        if m != "POST" || path != format!("{}/S/r", if host { "/other" } else { "/services" }) || serde_json::from_str::<J>(&body).ok() != Some(json!({ "b": 1, "a": { "x": [null] } })) { return Err(format!("the server was asked {m} {path} with {body}")); }
        let ok = match (&got, (all[k].2)(3)) { (Ok(a), Gets::Value(b)) => show(a) == show(&b), (Err(a), Gets::Error(b)) => a.as_str() == b, (Err(_), Gets::SomeError) => true, _ => false };
        if !ok { return Err(format!("the call returned {:.200}", format!("{got:?}"))); }
        Ok(vec![h64(&key)])
    });
    done(&key, 1, r)
}
pub fn check(quick: bool) -> Check {
    let all = kinds().len();
    let la = if quick { 2 } else { 3 };
    Check::new("N02", "the RPC blocks of projects running on a StdSystem, and call_rpc_async, against a scripted local server", vec![
        phase("answers", &format!("all sequences of {la} calls each answered in one of {all} ways, errors raised or as values"), move |ch, _| answers(ch, la)),
        phase("orders", &format!("{} scripts call at once; every order and subset of answers of {} kinds", if quick { 3 } else { 4 }, if quick { 6 } else { 5 }), move |ch, _| if quick { concurrent(ch, 3, 1, 6, false) } else { concurrent(ch, 4, 1, 5, false) }),
        phase("one rpc", "3 scripts call the same rpc at once; every order and subset of answers of 3 kinds", move |ch, _| concurrent(ch, 3, 1, 3, true)),
        phase("calls in a row", &format!("2 scripts with {} calls each; every interleaving of answers of 3 kinds", if quick { 2 } else { 3 }), move |ch, _| concurrent(ch, 2, if quick { 2 } else { 3 }, 3, false)),
        phase("arguments", &format!("up to {la} arguments of 12 kinds, 4 services, default or given host"), move |ch, _| arguments(ch, la)),
        phase("overrides", &format!("{la} calls, each taken with a value, with an error, later, or declined by the override; answered locally or by the server otherwise"), move |ch, _| overrides(ch, la)),
        phase("unsupported", "12 kinds of request and command that nobody takes, caught or not", |ch, _| unsupported(ch)),
        phase("direct", &format!("call_rpc_async answered in {all} ways, default or given host"), |ch, _| direct(ch)),
    ]).assume("the order of network events relative to steps of the project is enumerated; the system's own threads run freely between two events (each event is awaited before the next)")
}
