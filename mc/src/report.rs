//! Command line, evidence, known findings, replay, and the parent process that survives crashes of the code under test.
use crate::dfs::*;
use serde_json::{json, Value as J};
use std::collections::HashSet;
use std::io::Write;
use std::path::PathBuf;
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub struct Check {
    pub id: &'static str,
    pub assumptions: Vec<String>,
    /// what a state, a transition and a compared trace are in this check
    pub meaning: String,
    pub phases: Vec<Phase>,
    /// runs after the phases; returns extra violations (key, why), e.g. coverage obligations over all executions
    pub finish: Option<Box<dyn Fn() -> Vec<(String, String)>>>,
}
impl Check {
    pub fn new(id: &'static str, meaning: &str, phases: Vec<Phase>) -> Self { Check { id, assumptions: vec![], meaning: meaning.into(), phases, finish: None } }
    pub fn assume(mut self, s: &str) -> Self { self.assumptions.push(s.into()); self }
}

pub fn verif_dir() -> PathBuf { std::env::var_os("MC_VERIF").map(PathBuf::from).unwrap_or_else(|| PathBuf::from("/verif")) }

#[derive(Clone)]
struct Args { id: String, tier: String, replay: Option<String>, leaf: Option<(usize, Vec<u16>)>, only: Option<String> }

pub fn main() {
    let mut a = Args { id: String::new(), tier: std::env::var("VERIF_TIER").unwrap_or("quick".into()), replay: None, leaf: None, only: None };
    let v: Vec<String> = std::env::args().skip(1).collect();
    let mut i = 0;
    while i < v.len() {
        match v[i].as_str() {
            "--tier" => { a.tier = v[i + 1].clone(); i += 1; }
            "--replay" => { a.replay = Some(v[i + 1].clone()); i += 1; }
            "--phase" => { a.only = Some(v[i + 1].clone()); i += 1; }
            "--leaf" => { let (p, c) = v[i + 1].split_once(':').unwrap(); a.leaf = Some((p.parse().unwrap(), c.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect())); i += 1; }
            "--list" => { for c in crate::checks::ALL { println!("{c}"); } return; }
            "--bounds" => { for c in crate::checks::ALL { for t in ["quick", "thorough"] { if let Some(k) = crate::checks::build(c, t) { for p in &k.phases { println!("{}", serde_json::json!([c, t, p.name, p.bound])); } } } } return; }
            x => a.id = x.into(),
        }
        i += 1;
    }
    if a.tier != "thorough" { a.tier = "quick".into(); }
    quiet_panics();
    if let Some(f) = &a.replay {
        let j: J = serde_json::from_str(&std::fs::read_to_string(f).expect("replay file")).unwrap();
        a.id = j["property"].as_str().unwrap().into();
        a.tier = j["tier"].as_str().unwrap().into();
        let phase = j["phase"].as_u64().unwrap() as usize;
        let ch = j["choices"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u16).collect();
        a.leaf = Some((phase, ch));
    }
    if let Some((p, c)) = a.leaf.clone() {
        let ck = crate::checks::build(&a.id, &a.tier).expect("unknown check");
        let en = engine(&a, HashSet::new(), Journal { base: std::ptr::null_mut() });
        let (p, c) = (p, c);
        let h = std::thread::Builder::new().stack_size(256 << 20).spawn(move || {
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| en.run_one(&ck.phases[p], c, true)));
            match r {
                Ok((l, _)) => {
                    println!("{}", l.desc.unwrap_or_default());
                    match l.violation { Some((k, w)) => { println!("VIOLATED {k}\n{w}"); 1 } None => { println!("held"); 0 } }
                }
                Err(e) => { println!("harness panic: {}", panic_text(&*e)); 2 }
            }
        }).unwrap();
        std::process::exit(h.join().unwrap());
    }
    if std::env::var_os("MC_CHILD").is_some() { child(a) } else { parent(a) }
}

fn engine(a: &Args, known: HashSet<String>, journal: Journal) -> Engine {
    let quick = a.tier == "quick";
    let limit = std::env::var("MC_DEADLINE_S").ok().and_then(|x| x.parse().ok()).unwrap_or(if quick { 600 } else { 6 * 3600 });
    Engine {
        workers: std::env::var("MC_WORKERS").ok().and_then(|x| x.parse().ok()).unwrap_or_else(|| std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4)).min(64),
        states: StateSet::new(if quick { 12_000_000 } else { 120_000_000 }),
        journal,
        known,
        deadline: Some(Instant::now() + Duration::from_secs(limit)),
        t0: Instant::now(),
        leaf_limit: Duration::from_secs(30),
        mem_limit: 14 << 30,
    }
}

fn known_findings(id: &str) -> Vec<(String, String)> {
    let p = verif_dir().join("known_findings.json");
    let Ok(t) = std::fs::read_to_string(p) else { return vec![] };
    let j: J = serde_json::from_str(&t).expect("known_findings.json");
    j["findings"].as_array().unwrap().iter().filter(|x| x["property"] == id).map(|x| (x["key"].as_str().unwrap().to_string(), x["what"].as_str().unwrap().to_string())).collect()
}

fn write_replay(id: &str, tier: &str, phase: usize, phase_name: &str, choices: &[u16], key: &str, why: &str) -> String {
    let dir = verif_dir().join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let p = dir.join(format!("{id}-{:016x}.json", h64(&(phase_name, choices, key))));
    let j = json!({"property": id, "tier": tier, "phase": phase, "phase_name": phase_name, "choices": choices, "key": key, "what": why.lines().collect::<Vec<_>>()});
    let _ = std::fs::write(&p, serde_json::to_string_pretty(&j).unwrap());
    p.display().to_string()
}

fn write_evidence(id: &str, tier: &str, coverage: J, assumptions: &[String], wall: f64, violations: Vec<J>) {
    let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|x| x.parse().ok()).unwrap_or(1);
    let mut j = json!({"property": id, "tier": tier, "seed": seed, "level": "model_checking", "coverage": coverage, "assumptions": assumptions, "wall_s": wall});
    j["violations"] = J::from(violations.len());
    j["violation_details"] = J::Array(violations);
    let dir = verif_dir().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    let tmp = dir.join(format!(".{id}.tmp"));
    let mut f = std::fs::File::create(&tmp).expect("evidence dir");
    f.write_all(serde_json::to_string_pretty(&j).unwrap().as_bytes()).unwrap();
    std::fs::rename(&tmp, dir.join(format!("{id}.json"))).unwrap();
}

fn map_journal(path: &str) -> Journal {
    use std::os::fd::AsRawFd;
    let f = std::fs::OpenOptions::new().read(true).write(true).open(path).expect("journal");
    let p = unsafe { libc::mmap(std::ptr::null_mut(), 64 * SLOT, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, f.as_raw_fd(), 0) };
    assert!(p != libc::MAP_FAILED);
    Journal { base: p as *mut u8 }
}
fn read_slots(data: &[u8]) -> Vec<(usize, usize, Vec<u16>)> {
    let g = |o: usize| u16::from_le_bytes([data[o], data[o + 1]]);
    (0..64).filter(|w| g(w * SLOT) == 1).map(|w| {
        let b = w * SLOT;
        let n = g(b + 4) as usize;
        (w, g(b + 2) as usize, (0..n).map(|i| g(b + 6 + 2 * i)).collect())
    }).collect()
}

fn child(a: Args) {
    let t = Instant::now();
    let jp = std::env::var("MC_CHILD").unwrap();
    let journal = map_journal(&jp);
    let Some(ck) = crate::checks::build(&a.id, &a.tier) else { eprintln!("unknown check {}", a.id); std::process::exit(2) };
    let known = known_findings(&a.id);
    let en = engine(&a, known.iter().map(|x| x.0.clone()).collect(), journal);
    let samples = Mutex::new(vec![]);
    let hits = Mutex::new(vec![]);
    let mut stats = vec![];
    let mut bad: Vec<J> = vec![];
    let id = ck.id;
    let phases = &ck.phases;
    for (i, ph) in phases.iter().enumerate() {
        if let Some(o) = &a.only { if &ph.name != o { continue; } }
        let tier = a.tier.clone();
        let jp2 = jp.clone();
        let once = std::sync::atomic::AtomicBool::new(false);
        let on_abnormal = |x: Abnormal| {
            if once.swap(true, std::sync::atomic::Ordering::SeqCst) { return; }
            let data = std::fs::read(&jp2).unwrap();
            let slots = read_slots(&data);
            let (w, what) = match x {
                Abnormal::Hang { worker, in_vm: false } => { eprintln!("ENGINE ERROR: harness code took too long: {:?}", slots.iter().find(|s| s.0 == worker)); std::process::exit(2) }
                Abnormal::Hang { worker, .. } => (worker, "the code under test did not return within the time limit (hang)"),
                Abnormal::Memory { worker } => (worker, "memory use grew past the limit while this case ran (unbounded allocation)"),
            };
            if let Some((_, p, c)) = slots.into_iter().find(|s| s.0 == w) {
                let rp = write_replay(id, &tier, p, &phases[p].name, &c, "hang", what);
                println!("{what}: phase {} choices {:?}", phases[p].name, c);
                println!("VIOLATION property={id} replay={rp}");
                write_evidence(id, &tier, json!({"states": en.states.count.load(std::sync::atomic::Ordering::Relaxed), "transitions": 0, "traces_validated_against_impl": 0, "samples": [what], "exhaustive": false}), &[], t.elapsed().as_secs_f64(), vec![json!({"what": what, "replay": rp})]);
                std::process::exit(1);
            }
            eprintln!("ENGINE ERROR: {what} (no case in flight)");
            std::process::exit(2);
        };
        let (st, f) = en.explore(i, ph, &samples, &hits, &on_abnormal);
        eprintln!("{id} {}: {} executions ({} duplicates skipped), {} transitions, {} states so far, {:.1}s{}", st.name, st.leaves, st.skipped, st.transitions, en.states.count.load(std::sync::atomic::Ordering::Relaxed), st.wall, if st.complete { "" } else { " INCOMPLETE" });
        stats.push(st);
        if let Some(f) = f {
            let rp = write_replay(id, &a.tier, i, &f.phase, &f.choices, &f.key, &f.why);
            println!("phase {}: {}\n{}", f.phase, f.key, f.why);
            println!("VIOLATION property={id} replay={rp}");
            bad.push(json!({"key": f.key, "what": f.why, "replay": rp}));
            break;
        }
    }
    if bad.is_empty() && a.only.is_none() && stats.iter().all(|s| s.complete) {
        if let Some(fin) = &ck.finish {
            for (k, w) in fin() {
                if known.iter().any(|x| x.0 == k) { hits.lock().unwrap().push(Found { phase: "finish".into(), choices: vec![], key: k, why: w }); continue; }
                let rp = write_replay(id, &a.tier, 0, "finish", &[], &k, &w);
                println!("{k}: {w}\nVIOLATION property={id} replay={rp}");
                bad.push(json!({"key": k, "what": w, "replay": rp}));
            }
        }
    }
    let hits = hits.into_inner().unwrap();
    for (k, what) in &known {
        if hits.iter().any(|h| &h.key == k) { println!("KNOWN-FINDING: property={id} {what}"); }
        else if bad.is_empty() { println!("note: listed finding {k} was not met in this run"); }
    }
    let mut samples = samples.into_inner().unwrap();
    samples.truncate(12);
    let sum = |f: &dyn Fn(&PhaseStats) -> u64| stats.iter().map(|x| f(x)).sum::<u64>();
    let complete = stats.iter().all(|s| s.complete);
    let cov = json!({
        "states": en.states.count.load(std::sync::atomic::Ordering::Relaxed),
        "states_capped": en.states.full.load(std::sync::atomic::Ordering::Relaxed),
        "transitions": sum(&|s| s.transitions),
        "traces_validated_against_impl": sum(&|s| s.compared),
        "executions": sum(&|s| s.leaves),
        "meaning": ck.meaning,
        "exhaustive": complete && bad.is_empty(),
        "bounds": stats.iter().map(|s| json!({"phase": s.name, "bound": s.bound, "executions": s.leaves, "skipped_as_duplicates": s.skipped, "transitions": s.transitions, "completed": s.complete, "wall_s": (s.wall * 1000.0).round() / 1000.0})).collect::<Vec<_>>(),
        "samples": if samples.is_empty() { vec!["(no execution was sampled)".to_string()] } else { samples },
        "seen_once_and_not_believed": UNCONFIRMED.load(std::sync::atomic::Ordering::Relaxed),
        "known_findings_met": hits.iter().map(|h| h.key.clone()).collect::<HashSet<_>>().len(),
    });
    let nb = bad.len();
    write_evidence(id, &a.tier, cov, &ck.assumptions, t.elapsed().as_secs_f64(), bad);
    println!("{id} {}: {} executions, {} states, {} transitions, {}, {:.1}s", a.tier, sum(&|s| s.leaves), en.states.count.load(std::sync::atomic::Ordering::Relaxed), sum(&|s| s.transitions), if complete { "bounds exhausted" } else { "INCOMPLETE (time limit)" }, t.elapsed().as_secs_f64());
    std::process::exit(if nb > 0 { 1 } else { 0 });
}

fn parent(a: Args) {
    let dir = std::env::temp_dir().join(format!("mc-{}-{}", a.id, std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    let jp = dir.join("journal");
    std::fs::write(&jp, vec![0u8; 64 * SLOT]).unwrap();
    let st = std::process::Command::new(std::env::current_exe().unwrap()).args(std::env::args().skip(1)).env("MC_CHILD", &jp).status().unwrap();
    let data = std::fs::read(&jp).unwrap();
    let _ = std::fs::remove_file(&jp);
    let _ = std::fs::remove_dir(&dir);
    if let Some(c) = st.code() { if c < 3 { std::process::exit(c); } }
    // the child died: find the execution in flight that kills the process
    eprintln!("{}: worker process died ({st}); replaying the executions that were in flight", a.id);
    for (_, p, c) in read_slots(&data) {
        let spec = format!("{p}:{}", c.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","));
        let r = std::process::Command::new(std::env::current_exe().unwrap()).args([&a.id, "--tier", &a.tier, "--leaf", &spec]).stdout(std::process::Stdio::null()).stderr(std::process::Stdio::null()).status().unwrap();
        if r.code().is_none_or(|c| c > 2) {
            let what = format!("the code under test killed the whole process ({r}): stack overflow, abort or allocation failure");
            let rp = write_replay(&a.id, &a.tier, p, "", &c, "crash", &what);
            println!("{what}: phase {p} choices {c:?}");
            println!("VIOLATION property={} replay={rp}", a.id);
            write_evidence(&a.id, &a.tier, json!({"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": [what.clone()], "exhaustive": false}), &[], 0.0, vec![json!({"what": what, "replay": rp})]);
            std::process::exit(1);
        }
    }
    eprintln!("ENGINE ERROR: child died ({st}) and no execution in flight reproduces it");
    std::process::exit(2);
}
