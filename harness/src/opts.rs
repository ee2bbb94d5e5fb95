//! C29: what the options promise, and the file that `compile_spec` writes.
use crate::front::{guard, Out};
use crate::model::*;
use crate::report::Report;
use crate::rng::Rng;
use protospec_build as ps;
use std::collections::{BTreeMap, BTreeSet};
use std::path::Path;

// ------------------------------------------------------------------ the file
fn names(v: &[&str]) -> Vec<String> { v.iter().map(|s| s.to_string()).collect() }
fn some_options(r: &mut Rng) -> ps::Options {
    if r.chance(1, 12) { return ps::Options::default(); }
    let pick = |r: &mut Rng| { let all = ["PartialEq", "Debug", "Clone", "Default", "Eq", "Hash", "PartialOrd", "Ord", "Custom"]; let n = r.below(6); (0..n).map(|_| r.pick(&all).to_string()).collect::<Vec<_>>() };
    ps::Options { format_output: r.chance(1, 6), enum_derives: pick(r), struct_derives: pick(r), include_async: r.chance(1, 2), use_anyhow: r.chance(1, 2), debug_mode: r.chance(1, 4) }
}
fn spec_text(r: &mut Rng) -> String {
    let p = *r.pick(&["cond", "arr", "strs", "blen", "calc", "args", "enums", "prim"]);
    let mut p = crate::gen::prof(p);
    p.xform = 0;
    let t = crate::gen::gen_spec(r, "x", p).text();
    let t: String = t.lines().filter(|l| !l.starts_with("import_ffi") || ["v8", "v16", "v32", "v64", "v128", "utf8", "utf16"].contains(&l.split(' ').nth(1).unwrap())).map(|l| format!("{}\n", l)).collect();
    // what the prelude does not have makes the spec invalid, which is fine in small numbers
    if r.chance(1, 3) { let mut w = crate::syn::words(&t); let n = 1 + r.below(2); crate::syn::mutate(r, &mut w, n); return w.join(" "); }
    if r.chance(1, 10) { return format!("import x from \"other\";\n{}", t); }
    t
}
fn bag(s: &str) -> Vec<char> { let mut v: Vec<char> = s.chars().filter(|c| !c.is_whitespace() && !",{}();".contains(*c)).collect(); v.sort(); v }
fn dir_state(d: &Path) -> BTreeMap<String, Vec<u8>> { std::fs::read_dir(d).map(|r| r.flatten().map(|e| (e.file_name().to_string_lossy().to_string(), std::fs::read(e.path()).unwrap_or_default())).collect()).unwrap_or_default() }

const FAULTS: &[&str] = &["keyword", "cat >/dev/null; exit 1", "exec </dev/null; exit 1", "head -c 300; exit 1", "cat >/dev/null; echo 'mod _ps {'; kill -9 $$", "cat; exit 101"];
pub fn file(r: &mut Rng, i: u64, out: &mut Out) {
    let d = std::env::temp_dir().join(format!("psmon-C29-w{}-{}", std::process::id(), i));
    let _ = std::fs::remove_dir_all(&d);
    std::fs::create_dir_all(&d).unwrap();
    std::env::set_var("OUT_DIR", &d);
    let names = ["a", "long_name", "b.c", "x-y", "a2"];
    let steps = 3 + r.below(4);
    let mut log = String::new();
    let keep = r.below(3) == 0;
    if keep { std::fs::write(d.join("other.txt"), "kept").unwrap(); std::fs::write(d.join("a.rs"), "x".repeat(400000)).unwrap(); }
    for _ in 0..steps {
        let (mut text, mut o, name) = (spec_text(r), some_options(r), *r.pick(&names));
        // a formatter that fails: what it was given has to be written all the same
        let fault = if r.chance(1, 6) { o.format_output = true; r.pick(FAULTS).to_string() } else { String::new() };
        if fault == "keyword" { text = format!("type Zk = container {{ {}: u8, b: u16 }};\n{}", r.pick(&["loop", "match", "fn", "impl"]), text); }
        log.push_str(&format!("--- {} {} {}\n{}\n", name, show(&o), if fault.is_empty() { String::new() } else { format!("formatter: {}", fault) }, text));
        let bin = d.with_extension("bin");
        let path = std::env::var_os("PATH").unwrap_or_default();
        if !fault.is_empty() && fault != "keyword" {
            use std::os::unix::fs::PermissionsExt;
            std::fs::create_dir_all(&bin).unwrap();
            let f = bin.join("rustfmt");
            std::fs::write(&f, format!("#!/bin/sh\n{}\n", fault)).unwrap();
            std::fs::set_permissions(&f, std::fs::Permissions::from_mode(0o755)).unwrap();
            let mut p = bin.clone().into_os_string(); p.push(":"); p.push(&path);
            std::env::set_var("PATH", p);
        }
        let before = dir_state(&d);
        let co = ps::compiler::CompileOptions { enum_derives: o.enum_derives.clone(), struct_derives: o.struct_derives.clone(), include_async: o.include_async, use_anyhow: o.use_anyhow, debug_mode: o.debug_mode };
        let want = guard(|| -> Result<String, String> {
            let ast = ps::parse(&text).map_err(|e| ps::Error::from(e).to_string())?;
            let p = ps::asg::Program::from_ast(&ast, &ps::PreludeImportResolver(ps::NullImportResolver)).map_err(|e| e.to_string())?;
            Ok(ps::compiler::compile_program(&p, &co).to_string())
        });
        let got = guard(|| ps::compile_spec(name, &text, &o).map_err(|e| e.to_string()));
        if !fault.is_empty() { std::env::set_var("PATH", &path); let _ = std::fs::remove_dir_all(&bin); }
        let after = dir_state(&d);
        out.case(&format!("{}{}{}", name, show(&o), text));
        let file = format!("{}.rs", name);
        let mut others = (before.clone(), after.clone());
        match (want, got) {
            (Err(_), Err(_)) => { out.count("generation panics either way"); }
            (Ok(Ok(code)), Ok(Ok(()))) => {
                out.count(if o.format_output { "formatted files compared" } else { "files compared" });
                others.0.remove(&file); others.1.remove(&file);
                match after.get(&file) {
                    None => out.bad("compile_spec succeeds without writing the file", log.clone()),
                    Some(b) => {
                        let t = String::from_utf8_lossy(b);
                        if !o.format_output { if t != code.as_str() && bag(&t) != bag(&code) { out.bad("the file is not the code of the spec under these options", log.clone()); } }
                        else if t.trim().is_empty() && !code.trim().is_empty() { out.bad("the file is empty", log.clone()); }
                        else if bag(&t) != bag(&code) { out.bad("the formatted file is not the code of the spec under these options", log.clone()); }
                        else if !fault.is_empty() { out.count("files written although the formatter fails"); }
                        else if code.len() > 2000 && t.lines().count() < 20 { out.bad("the file is not formatted", log.clone()); }
                    }
                }
                if out.sample.is_none() { out.sample = Some(format!("{} {} -> {} bytes", file, show(&o), after.get(&file).map_or(0, |b| b.len()))); }
            }
            (Ok(Err(e)), Ok(Err(g))) => { out.count("invalid specs refused"); if !g.contains(&e) && !e.contains(&g) { out.bad(format!("compile_spec reports {:?} instead of {:?}", g, e), log.clone()); } }
            (Ok(Err(e)), Ok(Ok(()))) => out.bad(format!("compile_spec accepts an invalid spec ({})", e), log.clone()),
            (Ok(Ok(_)), Ok(Err(g))) => out.bad(format!("compile_spec refuses a valid spec: {}", g), log.clone()),
            (Ok(_), Err(p)) => out.bad(format!("compile_spec panics: {}", p), log.clone()),
            (Err(p), Ok(_)) => out.bad(format!("compile_program panics where compile_spec does not: {}", p), log.clone()),
        }
        if others.0 != others.1 { out.bad("files other than the one of the spec have changed", log.clone()); }
    }
    let _ = std::fs::remove_dir_all(&d);
}
fn show(o: &ps::Options) -> String { format!("format {} enums {:?} structs {:?} async {} anyhow {} debug {}", o.format_output, o.enum_derives, o.struct_derives, o.include_async, o.use_anyhow, o.debug_mode) }

// ------------------------------------------------------------------ the code
const TRAITS: &[(&str, &str)] = &[("PartialEq", "PartialEq"), ("Debug", "std::fmt::Debug"), ("Clone", "Clone"), ("Default", "Default"), ("Eq", "Eq"), ("Hash", "std::hash::Hash"), ("PartialOrd", "PartialOrd"), ("Ord", "Ord"), ("Copy", "Copy")];

struct Case { key: String, spec: Spec, text: String, o: ps::compiler::CompileOptions, e: BTreeSet<String>, s: BTreeSet<String> }
fn closed(mut d: BTreeSet<String>) -> BTreeSet<String> { // what a derive needs besides itself
    if d.contains("Ord") { d.insert("PartialOrd".into()); d.insert("Eq".into()); }
    if d.contains("Eq") || d.contains("PartialOrd") { d.insert("PartialEq".into()); }
    d
}
fn shuffled(r: &mut Rng, d: &BTreeSet<String>) -> Vec<String> { let mut v: Vec<String> = d.iter().cloned().collect(); if !v.is_empty() && r.chance(1, 4) { let x = r.pick(&v).clone(); v.push(x); } for i in (1..v.len()).rev() { v.swap(i, r.below(i + 1)); } v }
fn case(r: &mut Rng, key: String, spec: Spec, text: String) -> Case {
    let float = text.contains("f32") || text.contains("f64");
    let pool: Vec<&str> = if float { vec!["PartialEq", "Debug", "Clone", "Default", "PartialOrd"] } else { vec!["PartialEq", "Debug", "Clone", "Default", "Eq", "Hash", "PartialOrd", "Ord"] };
    // generated code compares enums and bitfields where the spec does
    let cmp = spec.decls.iter().any(|d| matches!(d.field.ty, Ty::Enum(..) | Ty::Bitfield(..)));
    let s: BTreeSet<String> = closed(pool.iter().filter(|x| r.chance(1, 2) || (cmp && **x == "PartialEq")).map(|x| x.to_string()).collect());
    let tagged = spec.decls.iter().any(|d| matches!(&d.field.ty, Ty::Cont(c) if c.tagged));
    let mut e = s.clone();
    // only where structs can hold enums, but enums no structs, may the two differ
    if !tagged && r.chance(2, 3) { for x in &pool { if r.chance(1, 3) { e.insert(x.to_string()); } } e = closed(e); }
    let mut o = ps::compiler::CompileOptions { enum_derives: shuffled(r, &e), struct_derives: shuffled(r, &s), include_async: r.chance(1, 2), use_anyhow: r.chance(1, 2), debug_mode: r.chance(1, 12) };
    let (mut e, mut s) = (e, s);
    if r.chance(1, 10) { let d = ps::compiler::CompileOptions::default(); let w: BTreeSet<String> = names(&["PartialEq", "Debug", "Clone", "Default"]).into_iter().collect(); o.enum_derives = d.enum_derives; o.struct_derives = d.struct_derives; e = w.clone(); s = w; }
    Case { key, spec, text, o, e, s }
}
fn default_of(spec: &Spec, t: &Ty) -> Val {
    match t {
        Ty::Int(..) | Ty::Bitfield(..) => Val::I(0),
        Ty::F32 => Val::F(0),
        Ty::F64 => Val::D(0),
        Ty::Bool => Val::B(false),
        Ty::Arr(..) => Val::L(vec![]),
        Ty::Enum(sc, _, vs) => Val::I(if vs[0].1 == EnumVal::Default { 0 } else { enum_values(spec, *sc, vs).ok().and_then(|v| v.first().map(|x| x.1)).unwrap_or(0) }),
        Ty::Ref(n, _) if n == "utf8" || n == "utf16" => Val::S(String::new()),
        Ty::Ref(n, _) if is_foreign(n) => Val::I(0),
        Ty::Ref(n, _) => default_of(spec, &spec.decl(n).unwrap().field.ty),
        Ty::Cont(c) if c.tagged => { let f = c.items.iter().find_map(|i| if let Item::Field(f) = i { Some(f) } else { None }).unwrap(); Val::V(f.name.clone(), Box::new(default_of(spec, &f.ty))) }
        Ty::Cont(c) => Val::C(crate::refcodec::flatten_cond(c).into_iter().map(|(f, cond)| (f.name.clone(), if cond { Val::None } else { default_of(spec, &f.ty) })).collect()),
    }
}
fn probes() -> String {
    let mut s = String::from("pub mod probe { use std::marker::PhantomData;\n");
    for (n, t) in TRAITS { s.push_str(&format!("pub mod p{n} {{ pub struct PsProbe<T>(std::marker::PhantomData<T>); pub trait PsNot {{ const HAS: bool = false; }} impl<T> PsNot for PsProbe<T> {{}} impl<T: {t}> PsProbe<T> {{ pub const HAS: bool = true; }} }}\n")); }
    s.push_str("pub fn boxed<T>(r: std::result::Result<T, std::boxed::Box<dyn std::error::Error + Send + Sync + 'static>>) {}\npub fn any<T>(r: std::result::Result<T, anyhow::Error>) {}\n}\n");
    s
}
fn module(c: &Case, code: &str) -> String {
    let mut o = crate::glue::module(&c.spec, code, c.o.include_async);
    let err = if c.o.use_anyhow { "any" } else { "boxed" };
    o.push_str("pub fn ps_probe(o: &mut std::string::String) {\n");
    for d in &c.spec.decls {
        let n = &d.field.name;
        o.push_str(&format!("o.push_str(\"{n}\");\n"));
        for (t, _) in TRAITS { o.push_str(&format!("{{ use crate::probe::p{t}::*; if PsProbe::<{n}>::HAS {{ o.push_str(\" {t}\"); }} }}\n")); }
        let has_default = if is_enum(d) { c.e.contains("Default") } else { c.s.contains("Default") || matches!(d.field.ty, Ty::Bitfield(..)) };
        if has_default { o.push_str(&format!("{{ let mut t = std::string::String::new(); rt::Conv::to(&<{n} as std::default::Default>::default()).ser(&mut t); o.push_str(\" = \"); o.push_str(t.trim_end()); }}\n")); }
        o.push_str("o.push('\\n');\n");
    }
    o.push_str("}\n");
    for (i, d) in c.spec.decls.iter().enumerate() {
        let n = &d.field.name;
        if d.args.iter().any(|a| a.2.is_none()) { continue; }
        let a: String = d.args.iter().map(|_| ", std::option::Option::None").collect();
        o.push_str(&format!("fn ps_types{i}(v: &{n}, r: &mut &[u8], w: &mut std::vec::Vec<u8>) {{ crate::probe::{err}({n}::decode_sync(r{a})); crate::probe::{err}(v.encode_sync(w{a})); }}\n"));
    }
    o
}
fn is_enum(d: &Decl) -> bool { match &d.field.ty { Ty::Enum(..) => true, Ty::Cont(c) => c.tagged, _ => false } }

/// names of the functions of each type
fn methods(code: &str) -> Result<BTreeMap<String, BTreeSet<String>>, String> {
    use proc_macro2::{Delimiter, TokenStream, TokenTree as T};
    fn go(ts: TokenStream, out: &mut BTreeMap<String, BTreeSet<String>>) {
        let t: Vec<T> = ts.into_iter().collect();
        for i in 0..t.len() {
            match &t[i] {
                T::Ident(x) if x == "mod" => if let Some(T::Group(g)) = t.get(i + 2) { go(g.stream(), out) },
                T::Ident(x) if x == "impl" => if let (Some(T::Ident(n)), Some(T::Group(g))) = (t.get(i + 1), t.get(i + 2)) {
                    if g.delimiter() != Delimiter::Brace { continue; }
                    let e = out.entry(n.to_string()).or_default();
                    let b: Vec<T> = g.stream().into_iter().collect();
                    for w in b.windows(2) { if let (T::Ident(f), T::Ident(n)) = (&w[0], &w[1]) { if f == "fn" { e.insert(n.to_string()); } } }
                },
                _ => (),
            }
        }
    }
    let mut out = BTreeMap::new();
    go(code.parse::<TokenStream>().map_err(|e| e.to_string())?, &mut out);
    Ok(out)
}

pub fn run(th: bool, seed: u64, rep: &mut Report) {
    let m = crate::front::modes("C29").unwrap();
    crate::front::run(&m, th, seed, rep);
    let dir = rep.work.clone();
    let ext = crate::run::build_deps();
    let rt = crate::run::compile_rt(&dir, crate::run::Opts { asy: true, deps: true, asan: false }, &ext);
    include(&dir, rep);
    let profs = ["all", "cond", "arr", "strs", "xform", "blen", "calc", "args", "enums", "prim"];
    let n: u64 = if th { 2400 } else { 160 };
    let mut cases: Vec<Case> = vec![];
    for i in 0..n {
        let mut r = Rng::derive(seed, "C29", i);
        let spec = crate::gen::gen_spec(&mut r, "x", crate::gen::prof(profs[i as usize % profs.len()]));
        let text = spec.text();
        let spec = crate::mparse::parse_spec("x", &text).unwrap_or_else(|e| crate::broken(&e));
        cases.push(case(&mut r, format!("m{}", i), spec, text));
    }
    let mut mods: Vec<(String, String)> = vec![];
    for c in &cases {
        let code = match guard(|| crate::ffi::asg_of(&c.text).map(|p| ps::compiler::compile_program(&p, &c.o).to_string())) { Ok(Ok(x)) => x, e => { rep.violation(&format!("no code for a valid spec: {:?}", e), &format!("{:?}\n{}", c.o, c.text), ""); continue } };
        rep.case(Some(&format!("{:?}{}", c.o, c.text)));
        match methods(&code) {
            Err(e) => rep.violation(&format!("the code does not parse: {}", e), &format!("{:?}\n{}", c.o, c.text), ""),
            Ok(ms) => for d in &c.spec.decls {
                let none = BTreeSet::new();
                let m = ms.get(&d.field.name).unwrap_or(&none);
                rep.count("types whose entry points were compared", 1);
                for f in ["encode_sync", "decode_sync"] { if !m.contains(f) { rep.violation(&format!("{} has no {}", d.field.name, f), &format!("{:?}\n{}", c.o, c.text), ""); } }
                for f in ["encode_async", "decode_async"] { if m.contains(f) != c.o.include_async { rep.violation(&format!("include_async is {}, but {} has {} {}", c.o.include_async, d.field.name, if c.o.include_async { "no" } else { "a" }, f), &format!("{:?}\n{}", c.o, c.text), ""); } }
            }
        }
        mods.push((c.key.clone(), module(c, &code)));
    }
    let by: BTreeMap<&str, &Case> = cases.iter().map(|c| (c.key.as_str(), c)).collect();
    let res: Vec<(BTreeMap<String, String>, String)> = std::thread::scope(|s| {
        let (dir, ext, rt, mods) = (&dir, &ext, &rt, &mods);
        let hs: Vec<_> = (0..8).map(|k| s.spawn(move || batch(dir, k, &mods.iter().skip(k).step_by(8).collect::<Vec<_>>(), ext, rt))).collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    for (bad, outp) in res {
        for (k, e) in bad { let c = by[k.as_str()]; rep.violation(&format!("the code does not compile with these options, or its functions do not have the promised types: {}", e), &format!("{:?}\n{}", c.o, c.text), ""); }
        let mut cur: Option<&Case> = None;
        for l in outp.lines() {
            if let Some(k) = l.strip_prefix("# ") { cur = Some(by[k]); continue; }
            let c = cur.unwrap();
            let (head, dv) = match l.split_once(" = ") { Some((a, b)) => (a, Some(b)), None => (l, None) };
            let w: Vec<&str> = head.split(' ').collect();
            let d = c.spec.decl(w[0]).unwrap();
            let want = if is_enum(d) { &c.e } else { &c.s };
            rep.count("types whose traits were observed", 1);
            for t in want { if !w[1..].contains(&t.as_str()) { rep.violation(&format!("{} does not implement {}, which is asked for", w[0], t), &format!("{:?}\n{}", c.o, c.text), ""); } }
            let always: &[&str] = match &d.field.ty { Ty::Enum(..) => &["Clone", "Copy"], Ty::Bitfield(..) => &["Clone", "Copy", "Default"], _ => &[] };
            for t in &w[1..] { if !want.contains(*t) && !always.contains(t) { rep.violation(&format!("{} implements {}, which is not asked for", w[0], t), &format!("{:?}\n{}", c.o, c.text), ""); } }
            if let Some(dv) = dv { rep.count("default values compared", 1); let x = default_of(&c.spec, &d.field.ty).text(); if x != dv { rep.violation(&format!("the default of {} is {} instead of {}", w[0], dv, x), &format!("{:?}\n{}", c.o, c.text), ""); } }
        }
    }
}
/// the macro that puts the file into a program
fn include(dir: &Path, rep: &mut Report) {
    let repo = std::env::var("PSMON_REPO").unwrap_or_else(|_| "/repo".into());
    let d = dir.join("inc");
    std::fs::create_dir_all(&d).unwrap();
    std::env::set_var("OUT_DIR", &d);
    let specs = [("one", "type T = container { n: u8 = len(a) :> u8, a: u16[n], };"), ("two.x", "type T = container { k: u32, };")];
    for (n, t) in specs {
        rep.case(Some(&format!("include {} {}", n, t)));
        match guard(|| ps::compile_spec(n, t, &ps::Options::default()).map_err(|e| e.to_string())) { Ok(Ok(())) => (), e => { rep.violation(&format!("compile_spec fails with the default options: {:?}", e), t, ""); return } }
    }
    std::fs::write(d.join("main.rs"), "mod a { protospec::include_spec!(\"one\"); } mod b { protospec::include_spec!(\"two.x\"); } fn main() { let mut o = vec![]; a::T { n: 0, a: vec![1, 2] }.encode_sync(&mut o).unwrap(); b::T { k: 7 }.encode_sync(&mut o).unwrap(); let x = a::T::decode_sync(&mut &o[..]).unwrap(); assert_eq!(x, a::T { n: 2, a: vec![1, 2] }); println!(\"{:?}\", o); }").unwrap();
    let lib = d.join("libprotospec.rlib");
    let l = crate::run::rustc().args(["--edition", "2018", "--crate-type", "rlib", "--crate-name", "protospec", "--cap-lints", "allow", "-o"]).arg(&lib).arg(format!("{}/protospec/src/lib.rs", repo)).output().expect("rustc");
    let m = crate::run::rustc().args(["--edition", "2021", "--cap-lints", "allow", "-o"]).arg(d.join("inc")).arg(d.join("main.rs")).arg("--extern").arg(format!("protospec={}", lib.display())).env("OUT_DIR", &d).output().expect("rustc");
    if !l.status.success() || !m.status.success() { rep.violation("a program that includes the files by include_spec! does not compile", &format!("{}{}", String::from_utf8_lossy(&l.stderr), String::from_utf8_lossy(&m.stderr)), ""); return; }
    let o = std::process::Command::new(d.join("inc")).output().expect("program");
    if String::from_utf8_lossy(&o.stdout).trim() != "[2, 0, 1, 0, 2, 0, 0, 0, 7]" { rep.violation("a program that includes the files by include_spec! does not do what the specs say", &format!("{}{}", String::from_utf8_lossy(&o.stdout), String::from_utf8_lossy(&o.stderr)), ""); }
    rep.count("programs that include generated files", 1);
}
fn batch(dir: &Path, k: usize, mods: &[&(String, String)], ext: &[String], rt: &Path) -> (BTreeMap<String, String>, String) {
    let d = dir.join(format!("p{}", k));
    std::fs::create_dir_all(&d).unwrap();
    for (n, c) in mods { std::fs::write(d.join(format!("{}.rs", n)), c).unwrap(); }
    let mut ok: Vec<&str> = mods.iter().map(|m| m.0.as_str()).collect();
    let mut bad = BTreeMap::new();
    for _ in 0..6 {
        let mut m = format!("#![allow(warnings)]\npub extern crate psrt as rt;\n{}", probes());
        for n in &ok { m.push_str(&format!("mod {};\n", n)); }
        m.push_str("fn main() { let mut o = String::new();\n");
        for n in &ok { m.push_str(&format!("o.push_str(\"# {n}\\n\"); {n}::ps_probe(&mut o);\n")); }
        m.push_str("print!(\"{}\", o); }\n");
        std::fs::write(d.join("main.rs"), m).unwrap();
        let bin = d.join("probe");
        let r = crate::run::rustc().args(["--edition", "2021", "--crate-name", "target", "-C", "opt-level=0", "-C", "codegen-units=4", "--cap-lints", "allow", "--error-format=short", "-o"]).arg(&bin).arg(d.join("main.rs")).arg("--extern").arg(format!("psrt={}", rt.display())).args(ext).output().expect("rustc");
        if r.status.success() {
            let o = std::process::Command::new(&bin).output().expect("probe");
            if !o.status.success() { for k in &ok { bad.insert(k.to_string(), format!("the probe died: {}", String::from_utf8_lossy(&o.stderr))); } }
            return (bad, String::from_utf8_lossy(&o.stdout).to_string());
        }
        let err = String::from_utf8_lossy(&r.stderr).to_string();
        let mut n = 0;
        for l in err.lines() {
            if !l.contains(": error") { continue; }
            for k in &ok { if l.contains(&format!("/{}.rs:", k)) { n += 1; bad.entry(k.to_string()).or_insert_with(|| l.split(": error").nth(1).unwrap_or("").to_string()); } }
        }
        if n == 0 { for k in &ok { bad.insert(k.to_string(), format!("unattributed: {}", &err[..err.len().min(400)])); } return (bad, String::new()); }
        ok.retain(|k| !bad.contains_key(*k));
    }
    (bad, String::new())
}
