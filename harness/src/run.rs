//! Builds the generated code of many specs into target programs, runs operations against them, collects their logs.
use crate::model::*;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::io::{BufRead, Write};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

#[derive(Clone)]
pub struct Unit { pub key: String, pub spec: Spec, pub text: String }
#[derive(Clone, Copy, Default)]
pub struct Opts { pub asy: bool, pub deps: bool, pub asan: bool }

pub struct Built { pub dir: PathBuf, pub bins: Vec<PathBuf>, pub home: HashMap<String, usize>, /// key -> (stage, message)
    pub failed: BTreeMap<String, (String, String)> }

pub fn here() -> PathBuf { PathBuf::from(std::env::var("PSMON_HOME").unwrap_or_else(|_| "/verif/harness".into())) }
pub fn rustc() -> Command { let mut c = Command::new("rustc"); c.env("RUSTC_WRAPPER", ""); c }

/// whether a child has stopped making progress: by the processor time it used since, so that a busy machine does not count, or by a long wait
pub struct Stall { pid: u32, wall: Instant, cpu: f64, peek: Instant }
impl Stall {
    pub fn new(pid: u32) -> Stall { Stall { pid, wall: Instant::now(), cpu: cpu_of(pid), peek: Instant::now() } }
    pub fn progress(&mut self) { self.wall = Instant::now(); self.cpu = -1.0; }
    pub fn hangs(&mut self, limit: f64) -> bool {
        if self.cpu < 0.0 { if self.wall.elapsed() > Duration::from_secs(1) { self.cpu = cpu_of(self.pid); } return false; }
        if self.peek.elapsed() < Duration::from_millis(300) { return false; }
        self.peek = Instant::now();
        cpu_of(self.pid) - self.cpu > limit || self.wall.elapsed() > Duration::from_secs(150)
    }
}
/// seconds of processor time a child of ours has used
fn cpu_of(pid: u32) -> f64 {
    let s = std::fs::read_to_string(format!("/proc/{}/stat", pid)).unwrap_or_default();
    let w: Vec<&str> = s.rsplit(')').next().unwrap_or("").split_whitespace().collect();
    let g = |i: usize| w.get(i).and_then(|x| x.parse::<f64>().ok()).unwrap_or(0.0);
    (g(11) + g(12)) / 100.0
}
/// seconds of processor time this thread has used
pub fn thread_cpu() -> f64 {
    #[repr(C)]
    struct Ts { s: i64, n: i64 }
    extern "C" { fn clock_gettime(clock: i32, t: *mut Ts) -> i32; }
    let mut t = Ts { s: 0, n: 0 };
    unsafe { clock_gettime(3, &mut t); }
    t.s as f64 + t.n as f64 / 1e9
}
/// run the front end and the code generator for every unit in a supervised child process
pub fn generate(dir: &Path, units: &[Unit], asy: bool) -> HashMap<String, Result<String, (String, String)>> {
    let mut out = HashMap::new();
    let gdir = dir.join("gen");
    std::fs::create_dir_all(&gdir).unwrap();
    for u in units { std::fs::write(gdir.join(format!("{}.pspec", u.key)), &u.text).unwrap(); }
    let mut todo: Vec<&Unit> = units.iter().collect();
    let mut round = 0;
    let mut hangs = 0;
    while !todo.is_empty() && round < 60 && hangs < 4 {
        round += 1;
        let mut c = Command::new(std::env::current_exe().unwrap()).arg("gen-worker").arg(&gdir).arg(if asy { "1" } else { "0" }).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().unwrap();
        { let mut i = c.stdin.take().unwrap(); let list = todo.iter().map(|u| u.key.clone()).collect::<Vec<_>>().join("\n"); std::thread::spawn(move || { let _ = i.write_all(list.as_bytes()); }); }
        let so = std::io::BufReader::new(c.stdout.take().unwrap());
        let (tx, rx) = std::sync::mpsc::channel();
        std::thread::spawn(move || { for l in so.lines() { if let Ok(l) = l { if tx.send(l).is_err() { break; } } } });
        let mut inflight: Option<String> = None;
        let mut hung = false;
        let mut stall = Stall::new(c.id());
        loop {
            match rx.recv_timeout(Duration::from_millis(500)) {
                Ok(l) => {
                    stall.progress();
                    let mut w = l.splitn(3, ' ');
                    match (w.next(), w.next(), w.next()) {
                        (Some("B"), Some(k), _) => inflight = Some(k.to_string()),
                        (Some("OK"), Some(k), _) => { inflight = None; out.insert(k.to_string(), std::fs::read_to_string(gdir.join(format!("{}.rs", k))).map_err(|e| ("io".to_string(), e.to_string()))); }
                        (Some("ERR"), Some(k), m) => { inflight = None; let m = m.unwrap_or(""); let (a, b) = m.split_once(' ').unwrap_or((m, "")); out.insert(k.to_string(), Err((a.to_string(), b.to_string()))); }
                        _ => (),
                    }
                }
                Err(std::sync::mpsc::RecvTimeoutError::Disconnected) => break,
                Err(_) => if stall.hangs(20.0) { hung = true; hangs += 1; let _ = c.kill(); break; }
            }
        }
        let st = c.wait();
        if let Some(k) = inflight { out.insert(k, Err(((if hung { "hang" } else { "crash" }).to_string(), format!("{:?}", st.map(|s| s.to_string()))))); }
        todo.retain(|u| !out.contains_key(&u.key));
    }
    for u in todo { out.insert(u.key.clone(), Err(("crash".into(), "generator worker keeps dying".into()))); }
    out
}
pub fn gen_worker(dir: &str, asy: bool) {
    std::panic::set_hook(Box::new(|_| {}));
    let keys: Vec<String> = std::io::stdin().lock().lines().map(|l| l.unwrap()).collect();
    let out = std::io::stdout();
    for k in keys {
        let p = Path::new(dir);
        println!("B {}", k);
        out.lock().flush().unwrap();
        let text = std::fs::read_to_string(p.join(format!("{}.pspec", k))).unwrap();
        let r = std::panic::catch_unwind(|| {
            let prog = crate::ffi::asg_of(&text)?;
            let o = protospec_build::compiler::CompileOptions { include_async: asy, ..Default::default() };
            Ok::<String, String>(protospec_build::compiler::compile_program(&prog, &o).to_string())
        });
        match r {
            Ok(Ok(code)) => { std::fs::write(p.join(format!("{}.rs", k)), code).unwrap(); println!("OK {}", k); }
            Ok(Err(e)) => println!("ERR {} reject {}", k, e.replace('\n', " ")),
            Err(e) => println!("ERR {} panic {}", k, panic_text(&e).replace('\n', " ")),
        }
        out.lock().flush().unwrap();
    }
}
pub fn panic_text(e: &Box<dyn std::any::Any + Send>) -> String { if let Some(s) = e.downcast_ref::<&str>() { s.to_string() } else if let Some(s) = e.downcast_ref::<String>() { s.clone() } else { "?".into() } }

pub fn compile_rt(dir: &Path, o: Opts, extern_args: &[String]) -> PathBuf {
    let out = dir.join("libpsrt.rlib");
    let mut c = rustc();
    c.args(["--edition", "2021", "--crate-type", "rlib", "--crate-name", "psrt", "-C", "opt-level=1", "-C", "debug-assertions=on", "--cap-lints", "allow", "-o"]).arg(&out).arg(here().join("rt/rt.rs"));
    if o.asy { c.args(["--cfg", "ps_async"]); }
    if o.asan { c.args(["--cfg", "ps_asan", "-Zsanitizer=address"]).env("RUSTUP_TOOLCHAIN", "nightly"); }
    c.args(extern_args);
    let r = c.output().expect("rustc");
    if !r.status.success() { eprintln!("{}", String::from_utf8_lossy(&r.stderr)); crate::broken("runtime does not compile"); }
    out
}
/// rlibs of tokio, flate2, async-recursion stand-in, base64 stand-in
pub fn build_deps() -> Vec<String> {
    let d = here().join("deps");
    let r = Command::new("cargo").args(["build", "--offline", "--message-format=json"]).current_dir(&d).env("CARGO_TARGET_DIR", here().join("target/deps")).env("CARGO_PROFILE_DEV_DEBUG", "none").output().expect("cargo");
    if !r.status.success() { eprintln!("{}", String::from_utf8_lossy(&r.stderr)); crate::broken("helper dependencies do not build"); }
    let t = here().join("target/deps/debug/deps");
    let mut out = vec!["-L".to_string(), format!("dependency={}", t.display())];
    for l in String::from_utf8_lossy(&r.stdout).lines() {
        let j: serde_json::Value = match serde_json::from_str(l) { Ok(j) => j, Err(_) => continue };
        if j["reason"] != "compiler-artifact" { continue; }
        let n = j["target"]["name"].as_str().unwrap_or("").replace('-', "_");
        if !["tokio", "flate2", "base64", "async_recursion", "anyhow"].contains(&n.as_str()) { continue; }
        if let Some(f) = j["filenames"].as_array().and_then(|a| a.iter().filter_map(|x| x.as_str()).find(|x| x.ends_with(".rlib") || x.ends_with(".so"))) { out.push("--extern".into()); out.push(format!("{}={}", n, f)); }
    }
    out
}

pub fn build(dir: &Path, units: &[Unit], o: Opts) -> Built {
    std::fs::create_dir_all(dir).unwrap();
    let ext = if o.asy || o.deps { build_deps() } else { vec![] };
    let mut b = Built { dir: dir.to_path_buf(), bins: vec![], home: HashMap::new(), failed: BTreeMap::new() };
    let (gen, rtlib) = std::thread::scope(|s| { let h = s.spawn(|| compile_rt(dir, o, &ext)); let g = generate(dir, units, o.asy); (g, h.join().unwrap()) });
    let nb = 8.min(units.len().max(1));
    let mut batches: Vec<Vec<(&Unit, String)>> = vec![vec![]; nb];
    let mut sizes = vec![0usize; nb];
    for u in units {
        match &gen[&u.key] {
            Ok(code) => { let i = (0..nb).min_by_key(|i| sizes[*i]).unwrap(); sizes[i] += code.len(); batches[i].push((u, crate::glue::module(&u.spec, code, o.asy))); }
            Err(e) => { b.failed.insert(u.key.clone(), e.clone()); }
        }
    }
    let res: Vec<(PathBuf, Vec<String>, Vec<(String, String)>)> = std::thread::scope(|s| {
        let hs: Vec<_> = batches.iter().enumerate().map(|(i, batch)| { let (rtlib, ext) = (rtlib.clone(), ext.clone()); s.spawn(move || compile_batch(dir, i, batch, &rtlib, &ext, o)) }).collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    for (i, (bin, ok, bad)) in res.into_iter().enumerate() {
        b.bins.push(bin);
        for k in ok { b.home.insert(k, i); }
        for (k, m) in bad { b.failed.insert(k, ("rustc".into(), m)); }
    }
    b
}
fn compile_batch(dir: &Path, i: usize, batch: &[(&Unit, String)], rtlib: &Path, ext: &[String], o: Opts) -> (PathBuf, Vec<String>, Vec<(String, String)>) {
    let bdir = dir.join(format!("b{}", i));
    std::fs::create_dir_all(&bdir).unwrap();
    for (u, code) in batch { std::fs::write(bdir.join(format!("{}.rs", u.key)), code).unwrap(); }
    let mut ok: Vec<String> = batch.iter().map(|x| x.0.key.clone()).collect();
    let mut bad = vec![];
    let bin = dir.join(format!("t{}", i));
    for _ in 0..8 {
        let mut m = String::from("#![allow(warnings)]\npub extern crate psrt as rt;\n");
        for k in &ok { m.push_str(&format!("mod {};\n", k)); }
        m.push_str("fn dispatch(key: &str, op: &rt::Op) -> Option<String> { let (m, d) = key.split_once('.')?; match m {\n");
        for k in &ok { m.push_str(&format!("\"{k}\" => {k}::run(d, op),\n")); }
        m.push_str("_ => None } }\nfn main() { rt::main_loop(dispatch) }\n");
        std::fs::write(bdir.join("main.rs"), m).unwrap();
        let mut c = rustc();
        c.args(["--edition", "2021", "--crate-name", "target", "-C", "opt-level=0", "-C", "debug-assertions=on", "-C", "overflow-checks=on", "-C", "codegen-units=4", "--cap-lints", "allow", "--error-format=short", "-o"]).arg(&bin).arg(bdir.join("main.rs")).arg("--extern").arg(format!("psrt={}", rtlib.display())).args(ext);
        if o.asan { c.args(["-Zsanitizer=address"]).env("RUSTUP_TOOLCHAIN", "nightly"); }
        let r = c.output().expect("rustc");
        if r.status.success() { return (bin, ok, bad); }
        let err = String::from_utf8_lossy(&r.stderr).to_string();
        let mut msgs: BTreeMap<String, String> = BTreeMap::new();
        for l in err.lines() {
            if !l.contains(": error") { continue; }
            for k in &ok { if l.contains(&format!("/{}.rs:", k)) { msgs.entry(k.clone()).or_insert_with(|| l.split(": error").nth(1).unwrap_or("").to_string()); } }
        }
        if msgs.is_empty() { // not attributable: compile the modules one by one would be slow; give all of them up
            for k in &ok { bad.push((k.clone(), err.lines().last().unwrap_or("?").to_string())); }
            eprintln!("unattributed rustc failure: {}", &err[..err.len().min(2000)]);
            return (bin, vec![], bad);
        }
        ok.retain(|k| !msgs.contains_key(k));
        bad.extend(msgs);
    }
    (bin, vec![], bad)
}

#[derive(Clone, Debug)]
pub struct Cmd { pub key: String, pub kind: &'static str, pub rmode: String, pub wmode: String, pub seed: u64, pub data: Vec<u8>, pub args: Vec<Val>, pub val: Option<Val> }
impl Cmd {
    pub fn line(&self, id: usize) -> String {
        let mut s = format!("{} {} {} {} {} {} {} {} ", id, self.key, self.kind, self.rmode, self.wmode, self.seed, if self.data.is_empty() { "-".into() } else { hex(&self.data) }, self.args.len());
        for a in &self.args { a.ser(&mut s); }
        if let Some(v) = &self.val { v.ser(&mut s); }
        s
    }
}
/// result text per command; "crash ..." / "hang" when the process died or stopped in it
pub fn execute(b: &Built, cmds: &[Cmd]) -> Vec<String> {
    let mut per: Vec<Vec<usize>> = vec![vec![]; b.bins.len()];
    let mut out = vec![String::from("unbuilt"); cmds.len()];
    for (i, c) in cmds.iter().enumerate() { if let Some(h) = b.home.get(c.key.split('.').next().unwrap()) { per[*h].push(i); } }
    let res: Vec<Vec<(usize, String)>> = std::thread::scope(|s| {
        let hs: Vec<_> = per.iter().enumerate().filter(|x| !x.1.is_empty()).map(|(h, ids)| s.spawn(move || run_bin(&b.dir, h, &b.bins[h], ids, cmds))).collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    for r in res { for (i, t) in r { out[i] = t; } }
    out
}
fn run_bin(dir: &Path, h: usize, bin: &Path, ids: &[usize], cmds: &[Cmd]) -> Vec<(usize, String)> {
    let cf = dir.join(format!("cmds{}", h));
    let lf = dir.join(format!("log{}", h));
    let mut f = std::io::BufWriter::new(std::fs::File::create(&cf).unwrap());
    for i in ids { writeln!(f, "{}", cmds[*i].line(*i)).unwrap(); }
    f.flush().unwrap();
    drop(f);
    let mut out: HashMap<usize, String> = HashMap::new();
    let mut skip = 0;
    let mut dead = 0;
    // time given to processes that died, and how many of them were slow to do so
    let (mut lost, mut slow) = (Duration::ZERO, 0);
    while skip < ids.len() {
        let began = Instant::now();
        let _ = std::fs::remove_file(&lf);
        let mut c = Command::new("sh").arg("-c").arg("ulimit -v 8000000; ulimit -c 0; exec \"$0\" \"$@\"").arg(bin).arg(&cf).arg(&lf).arg(skip.to_string()).env("ASAN_OPTIONS", "detect_leaks=0:exitcode=78").stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::piped()).spawn().expect("target");
        let mut se = c.stderr.take().unwrap();
        let eh = std::thread::spawn(move || { let mut s = Vec::new(); let _ = std::io::Read::read_to_end(&mut se, &mut s); String::from_utf8_lossy(&s).to_string() });
        let (mut last, mut stall) = (0u64, Stall::new(c.id()));
        let st = loop {
            if let Ok(Some(st)) = c.try_wait() { break Some(st); }
            let n = std::fs::metadata(&lf).map(|m| m.len()).unwrap_or(0);
            if n != last { last = n; stall.progress(); }
            if stall.hangs(20.0) { let _ = c.kill(); let _ = c.wait(); break None; }
            std::thread::sleep(Duration::from_millis(5));
        };
        let err = eh.join().unwrap();
        let log = std::fs::read(&lf).map(|b| String::from_utf8_lossy(&b).to_string()).unwrap_or_default();
        let mut inflight = None;
        let mut done = false;
        for l in log.lines() {
            let mut w = l.splitn(3, ' ');
            match (w.next(), w.next().and_then(|x| x.parse::<usize>().ok()), w.next()) {
                (Some("B"), Some(i), _) => inflight = Some(i),
                (Some("E"), Some(i), t) => { inflight = None; out.insert(i, t.unwrap_or("").to_string()); }
                (Some("DONE"), _, _) => done = true,
                _ => (),
            }
        }
        if done { break; }
        let why = match st { None => "hang".to_string(), Some(s) if s.code() == Some(77) => format!("crash huge-alloc {}", err.trim()), Some(s) => format!("crash {} {}", s, err.lines().filter(|l| !l.trim().is_empty()).take(3).collect::<Vec<_>>().join(" | ")) };
        match inflight {
            Some(i) => { out.insert(i, why); skip = ids.iter().position(|x| *x == i).unwrap() + 1; }
            None => { eprintln!("target {} stopped between operations: {}", h, why); break; }
        }
        // what hangs or dies is a violation: a few are enough
        dead += if st.is_none() { 100 } else { 1 };
        static START: std::sync::OnceLock<Instant> = std::sync::OnceLock::new();
        let late = START.get_or_init(Instant::now).elapsed() > Duration::from_secs(200);
        lost += began.elapsed();
        if began.elapsed() > Duration::from_secs(2) { slow += 1; }
        if dead > 200 || (late && (st.is_none() || slow > 0)) || (slow >= 5 && lost > Duration::from_secs(60)) { for i in ids { out.entry(*i).or_insert_with(|| "skipped".into()); } break; }
    }
    ids.iter().map(|i| (*i, out.remove(i).unwrap_or_else(|| "lost".into()))).collect()
}
pub fn keys_of(units: &[Unit]) -> HashSet<String> { units.iter().map(|u| u.key.clone()).collect() }
