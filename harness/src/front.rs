//! Checks of the front end (lexer, parser, semantics, constant evaluation, generator output): cases run in supervised
//! worker processes, so that panics, crashes, hangs and memory blow-ups are observed and attributed to their case.
use crate::report::Report;
use crate::rng::Rng;
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::hash::{Hash, Hasher};
use std::io::{BufRead, Write};
use std::process::{Command, Stdio};
use std::time::Duration;

/// what one case observed
#[derive(Default)]
pub struct Out { pub evals: u64, pub ids: Vec<u64>, pub counts: BTreeMap<String, u64>, pub bad: Vec<(String, String)>, pub known: Vec<String>, pub sample: Option<String> }
pub fn hash(s: &str) -> u64 { let mut h = std::collections::hash_map::DefaultHasher::new(); s.hash(&mut h); h.finish() }
impl Out {
    pub fn case(&mut self, id: &str) { self.evals += 1; self.ids.push(hash(id)); }
    pub fn count(&mut self, k: &str) { *self.counts.entry(k.to_string()).or_default() += 1; }
    pub fn bad(&mut self, what: impl Into<String>, detail: impl Into<String>) { if self.bad.len() < 4 { self.bad.push((what.into(), detail.into())); } }
}
pub struct Mode { pub name: &'static str, pub quick: u64, pub thorough: u64, pub rule: &'static str, pub run: fn(&mut Rng, u64, &mut Out) }

pub fn modes(name: &str) -> Option<Mode> { crate::fchecks::mode(name) }

thread_local! { static WHERE: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) }; }
pub fn set_where(s: String) { WHERE.with(|w| *w.borrow_mut() = s) }
/// run code under test; a panic comes back as its text and place
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|e| format!("{} at {}", crate::run::panic_text(&e), WHERE.with(|w| w.borrow().clone())))
}
pub fn worker(mode: &str, seed: u64, from: u64, to: u64) {
    std::panic::set_hook(Box::new(|i| { if let Some(l) = i.location() { WHERE.with(|w| *w.borrow_mut() = format!("{}:{}", l.file().rsplit("protospec-build/src/").next().unwrap_or(""), l.line())); } }));
    let m = modes(mode).unwrap();
    let o = std::io::stdout();
    for i in from..to {
        { let mut l = o.lock(); writeln!(l, "B {}", i).unwrap(); l.flush().unwrap(); }
        let mut out = Out::default();
        let mut r = Rng::derive(seed, mode, i);
        if let Err(e) = guard(|| (m.run)(&mut r, i, &mut out)) { out.bad(format!("panic: {}", e), format!("mode {} seed {} case {}", mode, seed, i)); }
        let mut l = o.lock();
        writeln!(l, "E {} {}", i, json!({"n": out.evals, "i": out.ids, "c": out.counts, "b": out.bad, "k": out.known, "s": out.sample})).unwrap();
        l.flush().unwrap();
    }
    println!("DONE");
}
pub fn run(m: &Mode, th: bool, seed: u64, rep: &mut Report) {
    let total = if th { m.thorough } else { m.quick };
    let lines = gather(m, seed, total, 8, &[]);
    rep.rule = m.rule.into();
    if m.name == "C27" {
        // other processes, which start at other cases, in other surroundings: each case must observe the same
        let part = total / 4;
        let again = gather(m, seed, part, 3, &[("TZ", "Pacific/Chatham"), ("LANG", "tr_TR.UTF-8"), ("HOME", "/nonexistent"), ("PSMON_AGAIN", "1"), ("RUST_BACKTRACE", "1")]);
        let first: BTreeMap<u64, &Value> = lines.iter().filter_map(|(i, r)| r.as_ref().ok().map(|v| (*i, v))).collect();
        for (i, r) in &again { if let (Ok(v), Some(w)) = (r, first.get(i)) { rep.count("cases compared between processes", 1); if v["i"] != w["i"] { rep.violation("generated in another process: the result differs", &format!("replay: psmon front {} {} {}", m.name, seed, i), ""); } } }
    }
    let mut done = 0u64;
    for (i, r) in lines {
        match r {
            Err(why) => rep.violation(&why, &format!("replay: psmon front {} {} {}", m.name, seed, i), ""),
            Ok(v) => {
                done += 1;
                let n = v["n"].as_u64().unwrap_or(0);
                let ids: Vec<u64> = v["i"].as_array().map(|a| a.iter().filter_map(|x| x.as_u64()).collect()).unwrap_or_default();
                for id in &ids { rep.case(Some(&id.to_string())); }
                for _ in ids.len() as u64..n { rep.case(None); }
                if let Some(o) = v["c"].as_object() { for (k, x) in o { rep.count(k, x.as_u64().unwrap_or(0)); } }
                for b in v["b"].as_array().into_iter().flatten() { rep.violation(b[0].as_str().unwrap_or(""), &format!("replay: psmon front {} {} {}\n{}", m.name, seed, i, b[1].as_str().unwrap_or("")), ""); }
                for k in v["k"].as_array().into_iter().flatten() { let k = k.as_str().unwrap_or(""); if let Some((id, text)) = k.split_once(' ') { if rep.is_known(id) { rep.known_finding(id); } else { rep.violation(text, &format!("replay: psmon front {} {} {}", m.name, seed, i), ""); } } }
                if let Some(s) = v["s"].as_str() { rep.sample(s.to_string()); }
            }
        }
    }
    rep.count("cases", done);
    if done < total * 9 / 10 && rep.violations() == 0 { crate::broken("workers lost most cases"); }
}
fn gather(m: &Mode, seed: u64, total: u64, shards: u64, env: &[(&str, &str)]) -> Vec<(u64, Result<Value, String>)> {
    std::thread::scope(|s| {
        let hs: Vec<_> = (0..shards).map(|k| { let (a, b) = (total * k / shards, total * (k + 1) / shards); s.spawn(move || shard(m.name, seed, a, b, env)) }).collect();
        hs.into_iter().flat_map(|h| h.join().unwrap()).collect()
    })
}
fn shard(mode: &str, seed: u64, from: u64, to: u64, env: &[(&str, &str)]) -> Vec<(u64, Result<Value, String>)> {
    let mut out = vec![];
    let mut at = from;
    let mut deaths = 0;
    while at < to && deaths < 6 {
        let exe = std::env::current_exe().unwrap();
        let mut c = Command::new("sh").arg("-c").arg("ulimit -v 6000000; ulimit -c 0; exec \"$0\" \"$@\"").arg(exe).args(["front-worker", mode]).arg(seed.to_string()).arg(at.to_string()).arg(to.to_string()).envs(env.iter().cloned()).stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::piped()).spawn().expect("worker");
        let so = std::io::BufReader::new(c.stdout.take().unwrap());
        let mut se = c.stderr.take().unwrap();
        let eh = std::thread::spawn(move || { let mut v = vec![]; let _ = std::io::Read::read_to_end(&mut se, &mut v); String::from_utf8_lossy(&v).to_string() });
        let (tx, rx) = std::sync::mpsc::channel();
        std::thread::spawn(move || { for l in so.lines() { if let Ok(l) = l { if tx.send(l).is_err() { break; } } } });
        let (mut inflight, mut hung, mut fin) = (None, false, false);
        let mut stall = crate::run::Stall::new(c.id());
        loop {
            match rx.recv_timeout(Duration::from_millis(500)) {
                Ok(l) => {
                    stall.progress();
                    let mut w = l.splitn(3, ' ');
                    match (w.next(), w.next().and_then(|x| x.parse::<u64>().ok()), w.next()) {
                        (Some("B"), Some(i), _) => inflight = Some(i),
                        (Some("E"), Some(i), Some(j)) => { inflight = None; at = i + 1; match serde_json::from_str(j) { Ok(v) => out.push((i, Ok(v))), Err(e) => crate::broken(&format!("worker line: {}", e)) } }
                        (Some("DONE"), _, _) => fin = true,
                        _ => (),
                    }
                }
                Err(std::sync::mpsc::RecvTimeoutError::Disconnected) => break,
                Err(_) => if stall.hangs(30.0) { hung = true; let _ = c.kill(); break; }
            }
        }
        let st = c.wait();
        let err = eh.join().unwrap_or_default();
        if fin { break; }
        match inflight {
            Some(i) => { out.push((i, Err(if hung { "the front end does not stop".to_string() } else { format!("the process died: {} {}", st.map(|s| s.to_string()).unwrap_or_default(), err.lines().take(2).collect::<Vec<_>>().join(" | ")) }))); at = i + 1; deaths += 1; }
            None => crate::broken(&format!("front worker stopped between cases: {}", err)),
        }
    }
    out
}
