#![allow(dead_code)]
mod rng; mod model; mod refcodec; mod ffi; mod mparse; mod gen; mod gexpr; mod glue; mod run; mod campaign; mod report; mod catalog; mod checks; mod syn; mod front; mod fchecks; mod comp; mod typing; mod mistakes; mod names; mod same; mod gz; mod opts;
pub fn broken(why: &str) -> ! { eprintln!("BROKEN: {}", why); std::process::exit(if report::VIOLATED.load(std::sync::atomic::Ordering::SeqCst) { 1 } else { 3 }) }
fn main() {
    let a: Vec<String> = std::env::args().collect();
    match a[1].as_str() {
        "gen-worker" => { let (d, s) = (a[2].clone(), a[3] == "1"); std::thread::Builder::new().stack_size(64 << 20).spawn(move || run::gen_worker(&d, s)).unwrap().join().unwrap(); }
        "gen" => { let mut r = rng::Rng::new(a[3].parse().unwrap()); let s = gen::gen_spec(&mut r, "x", gen::prof(&a[2])); let t = s.text(); println!("{}", t); let m = mparse::parse_spec("x", &t); println!("parsed {:?}", m.as_ref().err()); }
        "front-worker" => front::worker(&a[2], a[3].parse().unwrap(), a[4].parse().unwrap(), a[5].parse().unwrap()),
        "front" => { let i: u64 = a[4].parse().unwrap(); front::worker(&a[2], a[3].parse().unwrap(), i, i + 1) }
        "deep" => std::process::exit(fchecks::deep(&a[2], a[3].parse().unwrap())),
        "explore" => comp::explore(a[2].parse().unwrap(), a[3].parse().unwrap(), &a[4]),
        "typing" => typing::explore(a[2].parse().unwrap()),
        "setup" => { run::build_deps(); }
        "check" => match std::panic::catch_unwind(|| checks::run(&a[2])) { Ok(c) => std::process::exit(c), Err(_) => broken("the monitor panicked") },
        "cat" => { let mut rep = report::Report::new("CAT", "quick", 1); let c: Vec<&'static str> = a[2..].iter().map(|x| &*Box::leak(x.clone().into_boxed_str())).collect();
            let asy = c.contains(&"async"); let p = campaign::Plan { prop: "CAT", profs: vec![], cats: c, extra: vec![], vals: 30, ops: checks::ops(if asy { "rt enc scramble wshort wfault dec suffix chunk trunc rfault mutate random badval info asy" } else { "rt enc scramble wshort wfault dec suffix chunk trunc rfault mutate random badval info" }), deps: asy, seed: 1, heavy: 0 };
            campaign::run(&p, &mut rep); std::process::exit(rep.finish()) }
        "try" => try_specs(a[2].parse().unwrap(), a.get(3).map(|s| s.as_str()).unwrap_or("all")),
        "one" => { let t = std::fs::read_to_string(&a[2]).unwrap(); let parts: Vec<&str> = t.split("---\n").collect(); let head = parts[0];
            let asy = a.get(3).map_or(false, |x| x == "async"); let deps = a.get(3).is_some();
            let units: Vec<run::Unit> = parts[1..].iter().enumerate().map(|(i, p)| { let text = format!("{}{}", head, p); let m = mparse::parse_spec("x", &text).unwrap_or_else(|e| { println!("u{} model parser: {}", i, e); Default::default() }); run::Unit { key: format!("u{}", i), spec: m, text } }).collect();
            let b = run::build(std::path::Path::new("/verif/work/one"), &units, run::Opts { asy, deps, ..Default::default() });
            for u in &units { println!("{} {:?} <- {}", u.key, b.failed.get(&u.key), u.text[head.len()..].lines().next().unwrap_or("")); } }
        _ => (),
    }
}
fn try_specs(n: u64, pr: &str) {
    let names = ["all", "cond", "arr", "strs", "xform", "blen", "calc", "args", "enums", "prim"];
    let mut units = vec![];
    for i in 0..n { let mut r = rng::Rng::derive(1, "try", i); let p = if pr == "all" { names[i as usize % 10] } else { pr }; let s = gen::gen_spec(&mut r, &format!("s{}", i), gen::prof(p)); let text = s.text(); let m = mparse::parse_spec(&s.name, &text).unwrap(); if m.decls.len() != s.decls.len() { panic!() } units.push(run::Unit { key: s.name.clone(), spec: m, text }); }
    let t = std::time::Instant::now();
    let b = run::build(std::path::Path::new("/verif/work/try"), &units, run::Opts::default());
    println!("build {:?} ok {} failed {}", t.elapsed(), b.home.len(), b.failed.len());
    for (k, (s, m)) in &b.failed { println!("{} {}: {}", k, s, m); }
    let mut cmds = vec![]; let mut want = vec![]; let mut nov = 0;
    for u in &units { for d in &u.spec.decls { let mut r = rng::Rng::derive(1, &u.key, 0); let mut g = gen::VG::new(&u.spec, &mut r);
        for _ in 0..6 { let args = g.args(d); match g.gen(&d.field.name, &args) { None => { nov += 1; } Some((v, bytes)) => {
            let a: Vec<model::Val> = args.iter().map(|x| match x { model::EV::Int(v, _) | model::EV::Enum(_, v) | model::EV::Bits(_, v) => model::Val::I(*v), model::EV::Bool(b) => model::Val::B(*b), _ => model::Val::I(0) }).collect();
            let key = format!("{}.{}", u.key, d.field.name);
            cmds.push(run::Cmd { key: key.clone(), kind: "enc", rmode: "f".into(), wmode: "f".into(), seed: 0, data: vec![], args: a.clone(), val: Some(v.clone()) }); want.push(model::hex(&bytes));
            cmds.push(run::Cmd { key: key.clone(), kind: "dec", rmode: "f".into(), wmode: "f".into(), seed: 0, data: bytes.clone(), args: a, val: None }); want.push(v.text());
        } } } } }
    let t = std::time::Instant::now();
    let out = run::execute(&b, &cmds);
    println!("ran {} in {:?}, no value {}", cmds.len(), t.elapsed(), nov);
    let mut bad = 0;
    for (i, o) in out.iter().enumerate() { if o == "unbuilt" { continue; } let w: Vec<&str> = o.splitn(6, ' ').collect(); let got = if cmds[i].kind == "enc" { w.get(1).map(|x| if *x == "-" { "" } else { x }).unwrap_or("") } else { w.get(5).copied().unwrap_or("") };
        if w[0] != "ok" || got != want[i] { bad += 1; if bad < 25 { println!("{} {} got {} want {} in {}", cmds[i].key, cmds[i].kind, o, want[i], cmds[i].line(i)); } } }
    println!("bad {}", bad);
}
