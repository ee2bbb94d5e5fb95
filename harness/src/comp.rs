//! Does the generated code of accepted specs compile?  Specs (valid ones and near-valid mutants that the front end
//! accepts), many option sets, one type-checked library crate per batch.
use crate::front::guard;
use crate::rng::Rng;
use crate::syn;
use std::collections::BTreeMap;
use std::path::Path;
use protospec_build as ps;

#[derive(Clone, Debug)]
pub struct Opt { pub asy: bool, pub anyhow: bool, pub debug: bool, pub derives: u8 }
impl Opt {
    pub fn options(&self) -> ps::compiler::CompileOptions {
        let d = |v: &[&str]| v.iter().map(|s| s.to_string()).collect::<Vec<_>>();
        let v: &[&str] = match self.derives { 0 => &["PartialEq", "Debug", "Clone", "Default"], 1 => &["Default", "PartialOrd", "Clone", "PartialEq", "Debug", "Clone"], 2 => &["PartialEq", "Clone"], 3 => &["PartialEq"], 4 => &["PartialEq", "Debug"], 5 => &["PartialEq", "Debug", "Clone", "Default"], 6 => &["Clone", "Debug", "PartialEq", "PartialEq"], _ => &["Eq", "PartialEq", "Debug", "Clone", "Default"] };
        let (e, s) = (d(v), d(v));
        ps::compiler::CompileOptions { enum_derives: e, struct_derives: s, include_async: self.asy, use_anyhow: self.anyhow, debug_mode: self.debug }
    }
    pub fn pick(r: &mut Rng) -> Opt { Opt { asy: r.chance(1, 2), anyhow: r.chance(1, 3), debug: r.chance(1, 12), derives: r.below(7) as u8 } }
}
/// generated code, or why there is none: Err((accepted by the front end, message))
pub fn code(text: &str, o: &Opt) -> Result<String, (bool, String)> {
    let p = match guard(|| crate::ffi::asg_of(text)) { Ok(Ok(p)) => p, Ok(Err(e)) => return Err((false, e)), Err(e) => return Err((true, format!("front end panics: {}", e))) };
    guard(|| ps::compiler::compile_program(&p, &o.options()).to_string()).map_err(|e| (true, format!("code generation panics: {}", e)))
}
/// compile modules (key, code); answers key -> first error
pub fn check(dir: &Path, mods: &[(String, String)], ext: &[String], rt: &Path) -> BTreeMap<String, String> {
    let nb = 8.min(mods.len().max(1));
    let mut out = BTreeMap::new();
    let res: Vec<BTreeMap<String, String>> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..nb).map(|k| s.spawn(move || batch(dir, k, &mods.iter().skip(k).step_by(nb).collect::<Vec<_>>(), ext, rt))).collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    for r in res { out.extend(r); }
    out
}
fn batch(dir: &Path, k: usize, mods: &[&(String, String)], ext: &[String], rt: &Path) -> BTreeMap<String, String> {
    let d = dir.join(format!("c{}", k));
    std::fs::create_dir_all(&d).unwrap();
    for (n, c) in mods { std::fs::write(d.join(format!("{}.rs", n)), c).unwrap(); }
    let mut ok: Vec<&str> = mods.iter().map(|m| m.0.as_str()).collect();
    let mut bad = BTreeMap::new();
    for _ in 0..6 {
        let mut m = String::from("#![allow(warnings)]\n#![forbid(unsafe_code)]\npub extern crate psrt as rt;\n");
        for n in &ok { m.push_str(&format!("mod {};\n", n)); }
        std::fs::write(d.join("lib.rs"), m).unwrap();
        let r = crate::run::rustc().args(["--edition", "2021", "--crate-name", "target", "--crate-type", "lib", "--emit=metadata", "--cap-lints", "allow", "--error-format=short", "-o"]).arg(d.join("libtarget.rmeta")).arg(d.join("lib.rs")).arg("--extern").arg(format!("psrt={}", rt.display())).args(ext).output().expect("rustc");
        if r.status.success() { return bad; }
        let err = String::from_utf8_lossy(&r.stderr).to_string();
        let mut n = 0;
        for l in err.lines() {
            if !l.contains(": error") { continue; }
            for k in &ok { if l.contains(&format!("/{}.rs:", k)) { n += 1; bad.entry(k.to_string()).or_insert_with(|| l.split(": error").nth(1).unwrap_or("").to_string()); } }
        }
        if n == 0 { for k in &ok { bad.insert(k.to_string(), format!("unattributed: {}", &err[..err.len().min(400)])); } return bad; }
        ok.retain(|k| !bad.contains_key(*k));
    }
    bad
}
/// a near-valid spec: words of a valid one exchanged for others of the same kind
pub fn near(r: &mut Rng, base: &str) -> String {
    let mut t = syn::words(base);
    let n = 1 + r.below(3);
    for _ in 0..n {
        let i = r.below(t.len());
        let ops: &[&str] = &["+", "-", "*", "/", "%", "&", "|", "^", "<<", ">>", ">>>", "==", "!=", "<", "<=", ">", ">=", "&&", "||", "?:"];
        let w = t[i].clone();
        if ops.contains(&w.as_str()) && !(w == "-") { t[i] = r.pick(ops).to_string(); }
        else if syn::is_scalar(&w) || ["bool", "f32", "f64"].contains(&w.as_str()) { t[i] = r.pick(&["u8", "i8", "u16", "u16le", "i32", "u64", "i64", "u128", "bool", "f32", "f64", "v32", "utf8", "i64le"]).to_string(); }
        else if w.as_bytes()[0].is_ascii_digit() { t[i] = r.pick(&["0", "1", "2", "3", "5", "255", "1u8", "2i32", "0x10"]).to_string(); }
        else if w.as_bytes()[0].is_ascii_alphabetic() && !syn::KW.contains(&w.as_str()) {
            let ids: Vec<String> = t.iter().filter(|x| x.as_bytes()[0].is_ascii_alphabetic() && !syn::KW.contains(&x.as_str()) && !syn::is_scalar(x)).cloned().collect();
            t[i] = r.pick(&ids).clone();
        } else if w == "(" || w == "[" || w == "," || w == "=" { let x = r.pick(&["!", "-", "~"]).to_string(); t.insert(i + 1, x); }
        else { syn::mutate(r, &mut t, 1); }
        if t.is_empty() { break; }
    }
    t.join(" ")
}
/// accepted specs whose code is known not to compile: (finding, spec, derives)
const KNOWN: &[(&str, &str, u8)] = &[
    ("eq-float", "type T = container { x: f32 };", 7),
    ("nested-duplicate", "type T = container { east: u8[..], west: container { east: u32, west: u8[east] } };", 5),
    ("optional-operand", "type T = container { f: bool, o: u8 { f }, c: u8 = o + 1 };", 5),
    ("type-names", "type Option = container { a: u8, b: u8 { a == 1 } };", 5),
    ("flag-names", "type F = bitfield u8 { all = 1, b };", 5),
    ("keyword-names", "type T = container { match: u8 };", 5),
    ("cast-to-enum", "type E = enum u8 { A = 1, B }; type T = container { a: u8, c: E = a :> E };", 5),
];
pub fn run(th: bool, seed: u64, rep: &mut crate::report::Report) {
    rep.rule = "one evaluation = one valid spec taken through the front end and the code generator under one option set (async, anyhow, debug, derives) and compiled by rustc with unsafe code forbidden; distinct by (spec, options)".into();
    let dir = rep.work.clone();
    let ext = crate::run::build_deps();
    let rt = crate::run::compile_rt(&dir, crate::run::Opts { asy: true, deps: true, asan: false }, &ext);
    std::panic::set_hook(Box::new(|i| { if let Some(l) = i.location() { crate::front::set_where(format!("{}:{}", l.file(), l.line())); } }));
    let profs = ["all", "cond", "arr", "strs", "xform", "blen", "calc", "args", "enums", "prim"];
    let mut cases: Vec<(String, String, Opt)> = vec![];
    let cats = crate::catalog::sections();
    for (i, s) in cats.iter().enumerate() { for k in 0..2 { let mut r = Rng::derive(seed, "C25cat", (i * 2 + k) as u64); cases.push((format!("k{}_{}", i, k), format!("{}{}", crate::catalog::header(), s.2), Opt::pick(&mut r))); } }
    let n = if th { 6000 } else { 560 };
    for i in 0..n {
        let mut r = Rng::derive(seed, "C25", i);
        let pf = *r.pick(&profs); let text = if i % 4 == 0 { crate::gexpr::expr_spec(&mut r, "x").text() } else { crate::gen::gen_spec(&mut r, "x", crate::gen::prof(pf)).text() };
        let mut o = Opt::pick(&mut r);
        if !text.contains("f32") && !text.contains("f64") && r.chance(1, 3) { o.derives = 7; }
        cases.push((format!("m{}", i), text, o));
    }
    let codes: Vec<Vec<(usize, Result<String, (bool, String)>)>> = std::thread::scope(|s| {
        let cases = &cases;
        let hs: Vec<_> = (0..8).map(|k| std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(s, move || (k..cases.len()).step_by(8).map(|i| (i, code(&cases[i].1, &cases[i].2))).collect()).unwrap()).collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    let mut mods = vec![];
    let by: BTreeMap<String, usize> = cases.iter().enumerate().map(|(i, c)| (c.0.clone(), i)).collect();
    for (i, c) in codes.into_iter().flatten() {
        let (k, t, o) = &cases[i];
        rep.case(Some(&format!("{:?}{}", o, t)));
        rep.count(if o.asy { "with async coders" } else { "without async coders" }, 1);
        match c { Ok(c) => { rep.count("bytes of generated code", c.len() as u64); mods.push((k.clone(), c)) } Err((acc, e)) => rep.violation(&format!("{}: {}", if acc { "no code is generated for a valid spec" } else { "a valid spec is refused" }, e), &format!("{:?}\n{}", o, t), k) }
    }
    for ch in mods.chunks(1200) { for (k, e) in check(&dir, ch, &ext, &rt) { let c = &cases[by[&k]]; rep.violation(&format!("the generated code does not compile: {}", e), &format!("{:?}\n{}", c.2, c.1), &k); } }
    rep.count("modules compiled", mods.len() as u64);
    let mut km = vec![];
    for (id, t, d) in KNOWN {
        rep.case(None);
        match code(t, &Opt { asy: false, anyhow: false, debug: false, derives: *d }) { Ok(c) => km.push((id.replace('-', "_"), c)), Err((false, _)) => (), Err((true, e)) => { if rep.is_known(id) { rep.known_finding(id) } else { rep.violation(&e, t, id) } } }
    }
    for (k, e) in check(&dir, &km, &ext, &rt) { let id = k.replace('_', "-"); if rep.is_known(&id) { rep.known_finding(&id) } else { rep.violation(&format!("the generated code does not compile: {}", e), KNOWN.iter().find(|x| x.0 == id).unwrap().1, &id) } }
    if let Some(c) = cases.get(40) { rep.sample(format!("{:?}: {}", c.2, crate::campaign::clip(&c.1.replace('\n', " ")))); }
}
pub fn explore(n: u64, seed: u64, kind: &str) {
    let dir = std::path::PathBuf::from("/verif/work/comp");
    let _ = std::fs::remove_dir_all(&dir);
    std::fs::create_dir_all(&dir).unwrap();
    let ext = crate::run::build_deps();
    let rt = crate::run::compile_rt(&dir, crate::run::Opts { asy: true, deps: true, asan: false }, &ext);
    std::panic::set_hook(Box::new(|i| { if let Some(l) = i.location() { crate::front::set_where(format!("{}:{}", l.file(), l.line())); } }));
    let mut mods = vec![]; let mut texts = BTreeMap::new(); let mut classes: BTreeMap<String, (u64, String)> = BTreeMap::new();
    let (mut acc, mut rej) = (0, 0);
    for i in 0..n {
        let mut r = Rng::derive(seed, "explore", i);
        let base = match r.below(3) { 0 => crate::gexpr::expr_spec(&mut r, "x").text(), _ => crate::fchecks::some_spec(&mut r) };
        let base = base.replace(&crate::catalog::header(), ""); let text = if kind == "near" { near(&mut r, &base) } else { base }; let text = format!("{}{}", crate::catalog::header(), text.lines().filter(|l| !l.starts_with("import_ffi")).collect::<Vec<_>>().join("\n"));
        let o = Opt::pick(&mut r);
        match code(&text, &o) {
            Ok(c) => { acc += 1; let k = format!("m{}", i); mods.push((k.clone(), c)); texts.insert(k, (text, o)); }
            Err((true, e)) => { let c = classes.entry(e).or_insert((0, String::new())); c.0 += 1; if c.1.is_empty() || text.len() < c.1.len() { c.1 = text; } }
            Err(_) => rej += 1,
        }
    }
    let bad = check(&dir, &mods, &ext, &rt);
    println!("accepted {} refused {} do not compile {}", acc, rej, bad.len());
    for (k, e) in bad { let (t, o) = &texts[&k]; let key: String = e.chars().map(|c| if c.is_ascii_digit() { '#' } else { c }).collect::<String>(); let c = classes.entry(key).or_insert((0, String::new())); c.0 += 1; if c.1.is_empty() || t.len() < c.1.len() { c.1 = format!("{}   {:?} {}", t.replace(&crate::catalog::header(), ""), o, e); } }
    for (e, (n, t)) in classes { println!("== {} x{}\n{}\n", e, n, t); }
}
