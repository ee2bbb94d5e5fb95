//! Enumeration of expression forms over operand kinds and contexts.
use crate::rng::Rng;
use std::collections::BTreeMap;

pub const PRE: &str = "const CK: u8 = 3; const CS: u8[..] = \"ab\"; type E8 = enum u8 { A = 1, B, C = default }; type EI = enum i32 { P = 1, Q }; type B8 = bitfield u8 { X = 1, Y };\n type NW = u16; type NA = u8[2]; type CO = container { z: u8 };\n";
/// declarations of the operands, in front of the field under test
pub const FIELDS: &str = "u1: u8, s1: i8, u2: u16le, s4: i32, u8_: u64, uw: u128, sw: i128, fl: f32, db: f64, bo: bool, e1: E8, ei: EI, b1: B8, nw: NW, na: NA, co: CO, ar: u8[2], af: f32[2], ae: E8[2], ab: bool[2], st: utf8, sf: utf8(2), vi: v32, bx: boxed32, tr: triple(1), op: u8 { bo }, ob: bool { bo }, oe: E8 { bo }, oa: u8[2] { bo }, ";
pub const LEAVES: &[&str] = &["u1", "s1", "u2", "s4", "u8_", "uw", "sw", "fl", "db", "bo", "e1", "ei", "b1", "nw", "na", "co", "ar", "af", "ae", "ab", "st", "vi", "bx", "tr", "op", "ob", "oe", "oa", "ga", "ge", "gb", "CK", "CS", "1", "300", "1u8", "2i32", "true", "\"ab\"", "E8::A", "EI::Q", "B8::X"];
pub const OPS: &[&str] = &["||", "&&", "|", "^", "&", "==", "!=", "<", "<=", ">", ">=", "<<", ">>", ">>>", "+", "-", "*", "/", "%", "?:"];
pub const CASTS: &[&str] = &["u8", "i8", "u16", "i32", "u64", "i64", "u128", "f32", "f64", "bool", "E8", "EI", "B8", "NW", "CO", "v32", "utf8", "boxed32", "u8[2]"];
/// (name, text with @ for the expression)
pub const CONTEXTS: &[(&str, &str)] = &[
    ("calc u8", "t: u8 = @,"), ("calc i8", "t: i8 = @,"), ("calc u16", "t: u16 = @,"), ("calc i32", "t: i32 = @,"), ("calc u64", "t: u64le = @,"), ("calc u128", "t: u128 = @,"), ("calc f32", "t: f32 = @,"), ("calc f64", "t: f64 = @,"), ("calc bool", "t: bool = @,"), ("calc E8", "t: E8 = @,"), ("calc EI", "t: EI = @,"), ("calc B8", "t: B8 = @,"), ("calc v32", "t: v32 = @,"), ("calc utf8", "t: utf8 = @,"), ("calc u8[2]", "t: u8[2] = @,"), ("calc NW", "t: NW = @,"), ("calc CO", "t: CO = @,"), ("calc boxed32", "t: boxed32 = @,"),
    ("condition", "t: u8 { @ },"), ("length", "t: u8[@],"), ("container length", "t: container [@] { q: u8 },"), ("pad", ".pad: @, t: u8,"), ("terminator", "t: u8[.. @],"), ("arg u8", "t: G8(@),"), ("arg bool", "t: GB(@),"), ("arg E8", "t: GE(@),"), ("arg f64", "t: GF(@),"), ("transform arg", "t: u8 -> xadd(@),"), ("transform condition", "t: u8 -> xadd { @ },"),
];
pub fn spec(items: &str) -> String { format!("{}{}type G8(x: u8) = container {{ q: u8 {{ x > 1 }} }}; type GB(x: bool) = container {{ q: u8 {{ x }} }}; type GE(x: E8) = container {{ q: u8 {{ x == E8::B }} }}; type GF(x: f64) = container {{ q: u8 {{ x > x }} }};\ntype Root(ga: u8, ge: E8, gb: bool) = container {{ {} {} }};\n", crate::catalog::header(), PRE, FIELDS, items) }

pub fn forms(r: &mut Rng, share: usize) -> Vec<String> {
    let mut o: Vec<String> = LEAVES.iter().map(|s| s.to_string()).collect();
    for l in LEAVES { for u in ["-", "!", "~"] { o.push(format!("{}{}", u, l)); } }
    for l in LEAVES { for t in CASTS { o.push(format!("{} :> {}", l, t)); } }
    for l in LEAVES { for x in ["len(@)", "blen(@)", "sum(@)", "bits(@)", "pad(@, 4)", "pad(4, @)", "@[0]", "ar[@]", "af[@]", "ae[@]", "@.X", "@ ? 1 : 2", "@ ? u1 : u2", "bo ? @ : 1", "bo ? 1 : @", "len(@, @)", "bits(@).X", "(-@)[0]"] { o.push(x.replace('@', l)); } }
    for x in ["len()", "blen()", "sum()", "pad(1)", "pad()", "pad(1,2,3)", "bits()", "bits(u1, u1)", "xadd(1)", "E8::C", "E8::Z", "B8::Z", "CO::z", "NW::A", "b1.Z", "b1.Y", "co.z", "co", "u1 :> zz", "t", "zz", "zz(1)", "GB::A"] { o.push(x.to_string()); }
    for a in LEAVES { for b in LEAVES { for op in OPS { if share <= 1 || r.chance(1, share) { o.push(format!("{} {} {}", a, op, b)); } } } }
    for a in LEAVES { for b in LEAVES { if share <= 1 || r.chance(1, share) { o.push(format!("bo ? {} : {}", a, b)); } } }
    o
}
pub fn explore(share: usize) {
    let dir = std::path::PathBuf::from("/verif/work/comp");
    let _ = std::fs::remove_dir_all(&dir);
    std::fs::create_dir_all(&dir).unwrap();
    let ext = crate::run::build_deps();
    let rt = crate::run::compile_rt(&dir, crate::run::Opts { asy: true, deps: true, asan: false }, &ext);
    std::panic::set_hook(Box::new(|i| { if let Some(l) = i.location() { crate::front::set_where(format!("{}:{}", l.file(), l.line())); } }));
    let o = crate::comp::Opt { asy: false, anyhow: false, debug: false, derives: 0 };
    let mut r = Rng::new(5);
    let fs = forms(&mut r, share);
    let (mut acc, mut rej) = (vec![], 0);
    let mut panics: BTreeMap<String, Vec<String>> = BTreeMap::new();
    for (cn, ct) in CONTEXTS { for f in &fs {
        match crate::comp::code(&spec(&ct.replace('@', f)), &o) { Ok(c) => acc.push((cn, f.clone(), c)), Err((false, _)) => rej += 1, Err((true, e)) => panics.entry(e).or_default().push(format!("{}: {}", cn, f)) }
    } }
    println!("accepted {} refused {}", acc.len(), rej);
    let mut cls: BTreeMap<String, Vec<String>> = BTreeMap::new();
    for chunk in acc.chunks(4000) {
        let mods: Vec<(String, String)> = chunk.iter().enumerate().map(|(i, x)| (format!("m{}", i), x.2.clone())).collect();
        for (k, e) in crate::comp::check(&dir, &mods, &ext, &rt) { let x = &chunk[k[1..].parse::<usize>().unwrap()]; let key: String = e.chars().map(|c| if c.is_ascii_digit() { '#' } else { c }).collect(); cls.entry(key).or_default().push(format!("{}: {}", x.0, x.1)); }
    }
    for (e, v) in panics.iter().chain(cls.iter()) { println!("== {} x{}", e, v.len()); for x in v.iter().take(12) { println!("   {}", x); } }
    let mut w = String::new(); for x in &acc { w.push_str(&format!("{}\t{}\n", x.0, x.1)); } std::fs::write("/tmp/accepted.txt", w).unwrap();
}
