//! Checks of the front end, one function per property: each call is one case.
use crate::front::*;
use crate::rng::Rng;
use crate::syn::{self, T};
use protospec_build as ps;
use std::sync::OnceLock;

pub fn mode(name: &str) -> Option<Mode> {
    Some(match name {
        "C21" => Mode { name: "C21", quick: 200000, thorough: 6000000, rule: "one evaluation = one text taken through the lexer, the parser and the semantic analysis, each of which must return (Ok or Err) without panic, crash, hang or memory blow-up; distinct by text", run: totality },
        "C19" => Mode { name: "C19", quick: 60000, thorough: 2000000, rule: "one evaluation = one spec taken through the front end: a valid one, which must be accepted, or the same with one mistake planted, which must be refused with the kind, name and place of that mistake; distinct by text", run: crate::mistakes::mistakes },
        "C22" => Mode { name: "C22", quick: 200000, thorough: 4000000, rule: "one evaluation = one text tokenized (token values and positions compared with a reference lexer), one literal whose value is compared, or one syntax tree whose spans are cut out of the text; distinct by text", run: lexing },
        "C23" => Mode { name: "C23", quick: 200000, thorough: 5000000, rule: "one evaluation = one token sequence parsed: the tree, or the rejection, is compared with a reference parser's and, if generated, with the tree it was generated from; distinct by text", run: parsing },
        "C27" => Mode { name: "C27", quick: 6000, thorough: 150000, rule: "one evaluation = one spec generated again (in the same process, after another spec, on several threads at once, in another process, or from a text with other whitespace and comments), whose code, or error, must be identical; distinct by (text, options)", run: crate::same::deterministic },
        "C28" => Mode { name: "C28", quick: 12000, thorough: 300000, rule: "one evaluation = one spec spread over several files: its code must have the items of the spec in one file, or, with one mistake planted in the imports, it must be refused with the kind and name of the mistake; distinct by (files, options)", run: crate::same::imported },
        "C30" => Mode { name: "C30", quick: 16000, thorough: 400000, rule: "one evaluation = one spec, valid, nearly valid or with a mistake planted, whose declarations are put into another order: it must be accepted or refused as before and yield the same generated items; distinct by text", run: crate::same::order },
        "C29" => Mode { name: "C29", quick: 1600, thorough: 40000, rule: "one evaluation = one spec given to compile_spec under one option set, with the directory before and after compared, or one spec whose types are probed for entry points, traits, error types and default values; distinct by (spec, options, file name)", run: crate::opts::file },
        _ => return None,
    })
}

/// source texts that are known to be valid
pub fn corpus() -> &'static Vec<String> {
    static C: OnceLock<Vec<String>> = OnceLock::new();
    C.get_or_init(|| crate::catalog::sections().iter().map(|s| format!("{}{}", crate::catalog::header(), s.2)).collect())
}
pub fn some_spec(r: &mut Rng) -> String {
    if r.chance(1, 2) { return r.pick(corpus()).clone(); }
    let p = *r.pick(&["all", "cond", "arr", "strs", "xform", "blen", "calc", "args", "enums", "prim"]);
    crate::gen::gen_spec(r, "x", crate::gen::prof(p)).text()
}
/// declarations that change nothing about the others: names of their own
pub fn filler(r: &mut Rng) -> String {
    let mut o = String::new();
    for i in 0..r.below(3) { let k = r.below(6); o.push_str(&["\ntype Zfill1@ = container { a: u8, b: u8[a], c: u16 { b[0] == 1u8 } };", "\nconst ZFILL2@: u8 = 3 + 4 * 2;", "\ntype Zfill3@ = enum u8 { A = 1, B };", "\n// type Zfill4@ = nothing;\n", "\ntype Zfill5@(a: u8) = container +tagged_enum { x: u8 { a == 1 }, y: Zfill5@(a)[..] };", "\ntype Zfill6@ = u8[3];"][k].replace('@', &i.to_string())); }
    o
}
fn clip(s: &str) -> &str { let mut n = s.len().min(1500); while !s.is_char_boundary(n) { n -= 1; } &s[..n] }

// ------------------------------------------------------------------ C21
fn soup(r: &mut Rng) -> String {
    let n = r.below(120);
    let mut o = String::new();
    for _ in 0..n {
        match r.below(10) {
            0 => o.push(char::from_u32(r.below(0x250) as u32).unwrap_or('x')),
            1 => o.push(*r.pick(&['→', '😀', '\0', '\u{feff}', '\u{2028}', 'é'])),
            2 | 3 => o.push(r.below(128) as u8 as char),
            4 => o.push_str(*r.pick(syn::KW)),
            5 | 6 => o.push_str(*r.pick(syn::PUNCT)),
            7 => { let (s, _) = syn::rand_string(r); o.push_str(&s) }
            8 => o.push_str(*r.pick(&["//", "/*", "*/", "\"", "\\", "0x", "0", "\n", "\r\n", "import_ffi", "9999999999999999999999999999999999999999999", "\\\\", "\"\\", "\"\\a", "/**", "/*/"])),
            _ => o.push(' '),
        }
    }
    o
}
/// large but not deep
fn big(r: &mut Rng) -> String {
    let n = 20 + r.below(60);
    let op = |r: &mut Rng| *r.pick(&["+", "-", "*", "/", "%", "&", "|", "^", "<<", ">>", ">>>", "==", "!=", "<", "<=", "&&", "||", ":>", "?:"]);
    let leaf = |r: &mut Rng| r.pick(&["1", "1u8", "nope", "K", "true", "\"s\"", "a", "E::X", "len(b)", "-1", "(1)", "b[0]", "f.A", "!true", "~K"]).to_string();
    let mut e = leaf(r);
    let one = if r.chance(1, 2) { Some(op(r)) } else { None };
    let deep = r.chance(1, 3);
    let same = if r.chance(1, 2) { Some(leaf(r)) } else { None };
    for _ in 0..n {
        let o = one.unwrap_or_else(|| op(r));
        let l = if o == ":>" { r.pick(&["u8", "u32", "i64", "bool", "E", "f32"]).to_string() } else { same.clone().unwrap_or_else(|| leaf(r)) };
        e = if deep && r.chance(1, 2) && o != ":>" { format!("({} {} {})", l, o, e) } else if deep { format!("({} {} {})", e, o, l) } else { format!("{} {} {}", e, o, l) };
        if r.chance(1, 12) { e = match r.below(5) { 0 => format!("({} ? {} : 1)", "true", e), 1 => format!("-({})", e), 2 => format!("len({})", e), 3 => format!("b[{}]", e), _ => format!("({})", e) }; }
    }
    let pre = "const K: u8 = 1; type E = enum u8 { X = 1, Y, Z = default }; type F = bitfield u8 { A = 1, B }; ";
    match r.below(6) {
        0 => format!("{}const Q: u8 = {};", pre, e),
        1 => format!("{}type T = container {{ a: u8, f: F, b: u8[{}], c: u8 = {} }};", pre, e, e),
        2 => format!("{}type T = container {{ a: u8, f: F, b: u8[4], c: u8 {{ {} }} }};", pre, e),
        3 => format!("{}type T = container {{ a: u8, f: F, b: u8[4], c: container [{}] {{ .pad: {}, x: u8 }} }};", pre, e, e),
        4 => { let m = 200 + r.below(600); format!("type T = container {{ {} }};", (0..m).map(|i| format!("f{}: u8[f{}],", i, if i == 0 { "1".into() } else { format!("{} :> u64", i - 1) })).collect::<String>()) }
        _ => { let d = 10 + r.below(110); match r.below(5) {
            0 => format!("const K: u64 = {}1{};", "(".repeat(d), ")".repeat(d)),
            1 => format!("const K: i64 = {}1;", "-".repeat(d)),
            2 => format!("type T = u8{};", "[2]".repeat(d)),
            3 => format!("type T = {}u8{};", "container { a: ".repeat(d), "}".repeat(d)),
            _ => format!("const K: u64 = {}1{};", "true ? 1 : (".repeat(d), ")".repeat(d)),
        } }
    }
}
const DEEP: &[&str] = &["parentheses", "prefix operators", "array bounds", "containers", "ternaries", "arguments", "indices", "operators", "casts"];
fn deep_text(kind: &str, d: usize) -> String {
    match kind {
        "parentheses" => format!("const K: u64 = {}1{};", "(".repeat(d), ")".repeat(d)),
        "prefix operators" => format!("const K: i64 = {}1;", "-".repeat(d)),
        "array bounds" => format!("type T = u8{};", "[2]".repeat(d)),
        "containers" => format!("type T = {}u8{};", "container { a: ".repeat(d), "}".repeat(d)),
        "ternaries" => format!("const K: u64 = {}1{};", "true ? 1 : (".repeat(d), ")".repeat(d)),
        "arguments" => format!("type T = container {{ a: u8[4], b: u64 = {}a{} }};", "len(".repeat(d), ")".repeat(d)),
        "indices" => format!("type T = container {{ a: u8[4], b: u64 = {}1{} }};", "a[".repeat(d), "]".repeat(d)),
        "operators" => format!("const K: u64 = 1{};", " + 1".repeat(d)),
        _ => format!("const K: u64 = 1u8{};", " :> u64".repeat(d)),
    }
}
pub fn deep(kind: &str, d: usize) -> i32 {
    match ps::parse(&deep_text(kind, d)) { Err(_) => println!("refused by the parser"), Ok(a) => match ps::asg::Program::from_ast(&a, &ps::PreludeImportResolver(crate::ffi::Resolver::default())) { Err(_) => println!("refused"), Ok(_) => println!("accepted") } }
    0
}
/// texts that are nested without bound, each in a process of its own with an ordinary stack
pub fn bottomless(rep: &mut crate::report::Report) {
    use std::os::unix::process::ExitStatusExt;
    for kind in DEEP { for d in [100usize, 100_000] {
        let o = std::process::Command::new("sh").arg("-c").arg("ulimit -v 6000000; ulimit -c 0; ulimit -s 8192; ulimit -t 60; exec \"$0\" \"$@\"").arg(std::env::current_exe().unwrap()).args(["deep", *kind]).arg(d.to_string()).output().unwrap();
        rep.case(Some(&format!("{} {}", kind, d)));
        let (said, err) = (String::from_utf8_lossy(&o.stdout).trim().to_string(), String::from_utf8_lossy(&o.stderr).to_string());
        if o.status.success() && !said.is_empty() { rep.count(&format!("nested without bound: {}", said), 1); }
        else if d > 1000 && err.contains("overflowed its stack") { rep.count("nested without bound: overflows the stack", 1); if rep.is_known("deep-nesting") { rep.known_finding("deep-nesting") } else { rep.violation(&format!("{} nested {} deep overflow the stack", kind, d), &format!("replay: psmon deep '{}' {}", kind, d), "") } }
        else { rep.violation(&format!("{} nested {} deep: exit {:?}, signal {:?}: {}", kind, d, o.status.code(), o.status.signal(), err.lines().next().unwrap_or("")), &format!("replay: psmon deep '{}' {}", kind, d), ""); }
    } }
}
fn totality(r: &mut Rng, i: u64, out: &mut Out) {
    let kind = i % 8;
    let text = match kind {
        0 => soup(r),
        1 => { let mut g = syn::Gen::new(r); for _ in 0..1 + g.r.below(4) { g.decl(); } g.text() }
        2 => big(r),
        3 => { let mut t = some_spec(r).into_bytes(); for _ in 0..1 + r.below(4) { if t.is_empty() { break; } let k = r.below(t.len()); match r.below(3) { 0 => { t.remove(k); } 1 => t[k] = r.below(256) as u8, _ => t.insert(k, *r.pick(&[b'"', b'{', b'(', b';', b'/', b'*', b'\\', b'0', b'x', b' ', b'='])) } } String::from_utf8_lossy(&t).to_string() }
        _ => { let mut t = syn::words(&some_spec(r)); let n = 1 + r.below(5); syn::mutate(r, &mut t, n); syn::spread(r, &t) }
    };
    out.case(&text);
    let t0 = crate::run::thread_cpu();
    let stage = |out: &mut Out, s: &str, e: String| out.bad(format!("{} panics: {}", s, e), text.clone());
    let mut strip = 0;
    for c in [false, true] { match guard(|| ps::tokenize(&text, c).map(|t| t.len()).map_err(|e| e.to_string())) { Ok(Ok(n)) => { out.count("tokenized"); strip += n; } Ok(Err(_)) => out.count("refused by the lexer"), Err(e) => stage(out, "tokenize", e) } }
    let ast = match guard(|| ps::parse(&text).map_err(|e| e.to_string())) { Ok(Ok(a)) => { out.count("parsed"); a } Ok(Err(e)) => { out.count("refused by the parser"); if e.is_empty() { out.bad("empty error message", text.clone()); } return; } Err(e) => return stage(out, "parse", e) };
    let _ = strip;
    let rs = ps::PreludeImportResolver(crate::ffi::Resolver::default());
    match guard(|| ps::asg::Program::from_ast(&ast, &rs).map(|_| ()).map_err(|e| (e.to_string(), format!("{:?}", e)))) { Ok(Ok(())) => out.count("accepted"), Ok(Err(e)) => { out.count(&format!("refused: {}", e.0.split(&['\'', '@', ':', '`'][..]).next().unwrap_or("").trim())); if e.0.is_empty() { out.bad("empty error message", text.clone()); } } Err(e) => stage(out, "semantic analysis", e) }
    let t = crate::run::thread_cpu() - t0;
    if t > 5.0 { out.bad(format!("the front end takes {:.1} s for {} bytes", t, text.len()), text.clone()); }
    if i < 8 { out.sample = Some(clip(&text).to_string()); }
}

// ------------------------------------------------------------------ C22
fn lexing(r: &mut Rng, i: u64, out: &mut Out) {
    match i % 5 {
        0 => { let t = soup(r); compare_lex(&t, out) }
        1 => { let w = syn::words(&some_spec(r)); let t = syn::spread(r, &w); compare_lex(&t, out); if i < 5 { out.sample = Some(clip(&t).to_string()); } }
        2 => literal(r, out),
        3 => { // dense punctuation and words
            let n = 1 + r.below(30);
            let mut t = String::new();
            for _ in 0..n { match r.below(8) { 0..=3 => t.push_str(*r.pick(syn::PUNCT)), 4 => t.push_str(*r.pick(syn::KW)), 5 => t.push_str(*r.pick(&["0", "0x", "0xfg", "00", "12u8", "9a", "x0x1", "_", "é", "u8le", "i8le", "u16LE", "Type", "typea", "default_", "0X1", "1.5", "1..2"])), 6 => { t.push_str(&syn::trivia(r)) } _ => { let (s, _) = syn::rand_string(r); t.push_str(&s) } } }
            compare_lex(&t, out)
        }
        _ => { // spans of syntax trees
            let t = if r.chance(1, 3) { some_spec(r) } else { let mut g = syn::Gen::new(r); for _ in 0..1 + g.r.below(4) { g.decl(); } g.text() };
            out.case(&t);
            let ast = match ps::parse(&t) { Ok(a) => a, Err(e) => return out.bad(format!("valid text is refused: {}", e), t) };
            let j = serde_json::to_value(&ast).unwrap();
            let mut n = 0;
            spans(&t, &j, out, &mut n);
            out.count("trees with spans");
            *out.counts.entry("spans".into()).or_default() += n;
        }
    }
}
fn span_of(text: &str, j: &serde_json::Value) -> Option<(usize, usize)> {
    let g = |k: &str| j[k].as_u64();
    Some((syn::offset(text, g("line_start")?, g("col_start")?)?, syn::offset(text, g("line_stop")?, g("col_stop")?)?))
}
fn spans(text: &str, j: &serde_json::Value, out: &mut Out, n: &mut u64) {
    match j {
        serde_json::Value::Array(a) => for x in a { spans(text, x, out, n) },
        serde_json::Value::Object(o) => {
            if let Some(s) = o.get("span") {
                *n += 1;
                match span_of(text, s) {
                    Some((a, b)) if a <= b && text.is_char_boundary(a) && text.is_char_boundary(b) => {
                        let cut = &text[a..b];
                        if let (Some(name), 2) = (o.get("name").and_then(|x| x.as_str()), o.len()) { if cut != name { out.bad(format!("span of identifier {} is {:?}", name, cut), text); } }
                        if let (Some(v), 3) = (o.get("value").and_then(|x| x.as_str()), o.len()) { if !cut.starts_with(v) { out.bad(format!("span of integer {} is {:?}", v, cut), text); } }
                        if o.contains_key("content") && o.len() == 2 && (!cut.starts_with('"') || !cut.ends_with('"')) { out.bad(format!("span of a string is {:?}", cut), text); }
                    }
                    _ => out.bad(format!("span {} is not in the text", s), text),
                }
            }
            for (k, x) in o { if k != "span" { spans(text, x, out, n) } }
            for k in EXPRS {
                if let (1, Some(Some((a, b)))) = (o.len(), o.get(*k).filter(|x| *k != "Ref" || x.get("arguments").is_none()).and_then(|x| x.get("span")).map(|s| span_of(text, s))) {
                    // a type is said to stand where its first word does, and so ends a cast
                    if j.to_string().contains("\"Cast\"") { continue; }
                    out.count("expressions reparsed");
                    let mut b = b;
                    // neither does the place of an integer include its type
                    if let (Ok(x), Ok(y)) = (syn::lex(&text[a..b]), syn::lex(&text[b..])) { if let (Some(syn::T::Num(_)), Some(syn::Tok { t: syn::T::Kw(k), end, .. })) = (x.iter().filter(|t| text[a + t.start..a + t.end] != *")").last().map(|t| t.t.clone()), y.iter().find(|t| !matches!(t.t, syn::T::Line(_) | syn::T::Block(_)))) { if syn::is_scalar(k) { b += end; } } }
                    let cut = balance(&text[a..b]);
                    let t = format!("const x: u8 = {};", cut);
                    match guard(|| ps::parse(&t).ok().map(|a| serde_json::to_value(&a).unwrap())) { Ok(Some(v)) => {
                        let mut e = v["declarations"][0]["Const"]["value"].clone();
                        let mut w = j.clone();
                        strip_spans(&mut e); strip_spans(&mut w);
                        if e != w { out.bad(format!("the span of {} holds another expression {:?}: {} instead of {}", k, cut, e, w), text); }
                    } x => out.bad(format!("the span of {} is not an expression: {:?} {:?}", k, cut, x), text) }
                }
            }
        }
        _ => (),
    }
}
const EXPRS: &[&str] = &["Binary", "Unary", "Cast", "ArrayIndex", "EnumAccess", "Int", "Ref", "Str", "Ternary", "Bool", "Call", "Member"];
fn strip_spans(j: &mut serde_json::Value) { match j { serde_json::Value::Array(a) => a.iter_mut().for_each(strip_spans), serde_json::Value::Object(o) => { o.remove("span"); o.values_mut().for_each(strip_spans) } _ => () } }
/// spans leave out parentheses around operands: restore those that are cut in two
fn balance(t: &str) -> String {
    let (mut depth, mut open) = (0i64, 0i64);
    for k in syn::lex(t).unwrap_or_default().iter().filter(|k| matches!(k.t, syn::T::P(_))) { match &t[k.start..k.end] { "(" => depth += 1, ")" => { depth -= 1; open = open.min(depth) } _ => () } }
    format!("{}{}{}", "(".repeat(-open as usize), t, ")".repeat((depth - open) as usize))
}
fn compare_lex(text: &str, out: &mut Out) {
    out.case(text);
    let want = syn::lex(text);
    if let Err(false) = want { out.count("unspecified"); return; }
    for strip in [false, true] {
        match (ps::tokenize(text, strip), &want) {
            (Ok(got), Ok(want)) => {
                let w: Vec<&syn::Tok> = want.iter().filter(|t| !strip || !matches!(t.t, T::Line(_) | T::Block(_))).collect();
                out.count("token sequences compared");
                *out.counts.entry("tokens compared".into()).or_default() += w.len() as u64;
                for (k, x) in w.iter().enumerate() {
                    let g = match got.get(k) { Some(g) => g, None => return out.bad(format!("token {:?} is missing", x.t), text) };
                    if syn::of_ps(&g.token) != x.t { return out.bad(format!("token {:?}, should be {:?}", g.token, x.t), text); }
                    let (a, b) = (syn::pos(text, x.start), syn::pos(text, x.end));
                    let s = &g.span;
                    if (s.line_start, s.col_start) != a || (!matches!(x.t, T::Line(_)) && (s.line_stop, s.col_stop) != b) { return out.bad(format!("token {:?} is at {:?} to {:?}, its span is {}:{} to {}:{}", x.t, a, b, s.line_start, s.col_start, s.line_stop, s.col_stop), text); }
                }
                if got.len() != w.len() { return out.bad(format!("extra token {:?}", got[w.len()].token), text); }
            }
            (Err(_), Err(_)) => out.count("refused by both"),
            (Err(e), Ok(_)) => return out.bad(format!("lexer refuses: {}", e), text),
            (Ok(_), Err(_)) => return out.bad("lexer accepts what is not a sequence of tokens", text),
        }
    }
}
/// value of an integer literal for a type, if it has one
pub fn int_value(text: &str, sc: &str) -> Option<i128> { wide_value(text, sc).map(|v| v as i128) }
fn wide_value(text: &str, sc: &str) -> Option<u128> {
    let v = match text.strip_prefix("0x") { Some("") => return None, Some(h) => u128::from_str_radix(h, 16).ok()?, None => text.parse::<u128>().ok()? };
    let bits: u32 = sc[1..].parse().unwrap();
    let max = match (sc.starts_with('i'), bits) { (true, b) => (1u128 << (b - 1)) - 1, (false, 128) => u128::MAX, (false, b) => (1u128 << b) - 1 };
    if v <= max { Some(v) } else { None }
}
const SCALARS: &[&str] = &["i8", "i16", "i32", "i64", "i128", "u8", "u16", "u32", "u64", "u128"];
fn wide(c: &ps::asg::ConstInt) -> (u128, &'static str) {
    use ps::asg::ConstInt::*;
    match *c { I8(x) => (x as u128, "i8"), I16(x) => (x as u128, "i16"), I32(x) => (x as u128, "i32"), I64(x) => (x as u128, "i64"), I128(x) => (x as u128, "i128"), U8(x) => (x as u128, "u8"), U16(x) => (x as u128, "u16"), U32(x) => (x as u128, "u32"), U64(x) => (x as u128, "u64"), U128(x) => (x, "u128") }
}
fn literal(r: &mut Rng, out: &mut Out) {
    if r.chance(1, 4) {
        let (src, content) = syn::rand_string(r);
        let text = format!("const S: u8[..] = {};", src);
        out.case(&text);
        match crate::ffi::asg_of(&text) {
            Ok(p) => match p.consts.get("S").map(|c| &c.value) { Some(ps::asg::Expression::Str(s)) => { out.count("strings compared"); if s.content != content { out.bad(format!("string {} has bytes {}, should have {}", src, crate::model::hex(&s.content), crate::model::hex(&content)), text); } } _ => out.bad("const is not the string", text) },
            Err(e) if e.starts_with("parse") => out.bad(format!("string refused: {}", e), text),
            Err(_) => {
                // as a terminator of an array
                let text = format!("type S = u8[..{}];", src);
                match crate::ffi::asg_of(&text) {
                    Ok(p) => { let t = p.types["S"].type_.borrow(); match &*t { ps::asg::Type::Array(a) => match &a.length.value { Some(ps::asg::Expression::Str(s)) => { out.count("strings compared"); if s.content != content { out.bad(format!("string {} has bytes {}, should have {}", src, crate::model::hex(&s.content), crate::model::hex(&content)), text.clone()); } } _ => out.bad("terminator is not the string", text.clone()) }, _ => out.bad("not an array", text.clone()) } }
                    Err(e) => out.bad(format!("string refused: {}", e), text),
                }
            }
        }
        return;
    }
    let ty = *r.pick(SCALARS);
    let suffix = if r.chance(1, 2) { None } else { Some(ty) };
    let bits: u32 = ty[1..].parse().unwrap();
    let edge = if bits == 128 { u128::MAX } else { (1u128 << bits) - 1 };
    let v = match r.below(7) { 0 => edge, 1 => edge >> 1, 2 => (edge >> 1).wrapping_add(1), 3 => edge.wrapping_add(1), 4 => r.u128() & edge, 5 => r.u128(), _ => r.below(300) as u128 };
    let lit = match r.below(6) { 0 => format!("0x{:x}", v), 1 => format!("0x{:X}", v), 2 => format!("0x00{:x}", v), 3 => format!("0{}", v), 4 if r.chance(1, 12) => "0x".into(), 5 if r.chance(1, 6) => format!("{}{}", v, u128::MAX), _ => v.to_string() };
    let text = format!("const K: {} = {}{};", ty, lit, suffix.unwrap_or(""));
    out.case(&text);
    match (crate::ffi::asg_of(&text), wide_value(&lit, ty)) {
        (Ok(p), Some(w)) => match p.consts.get("K").map(|c| &c.value) { Some(ps::asg::Expression::Int(x)) => { out.count("integers compared"); if wide(&x.value) != (w, ty) { out.bad(format!("{} as {} has value {:?}, should be {}", lit, ty, x.value, w), text); } } _ => out.bad("const is not the integer", text) },
        (Err(_), None) => out.count("integers out of range refused"),
        (Ok(_), None) => out.bad("literal out of range accepted", text),
        (Err(e), Some(_)) => out.bad(format!("literal refused: {}", e), text),
    }
}

// ------------------------------------------------------------------ C23
fn parsing(r: &mut Rng, i: u64, out: &mut Out) {
    let kind = i % 4;
    let (text, want): (String, Option<Vec<String>>) = match kind {
        0 | 1 => { let mut g = syn::Gen::new(r); let mut w = vec![]; for _ in 0..1 + g.r.below(3) { w.push(g.decl()); } (g.text(), Some(w)) }
        2 => { let mut t = if r.chance(1, 2) { syn::words(&some_spec(r)) } else { let mut g = syn::Gen::new(r); g.decl(); g.t.clone() }; let n = 1 + r.below(3); syn::mutate(r, &mut t, n); (syn::spread(r, &t), None) }
        _ => { // operators without parentheses
            let n = 2 + r.below(8);
            let mut t: Vec<String> = "const K : u8 =".split(' ').map(|s| s.to_string()).collect();
            for k in 0..n { if k > 0 { t.push(r.pick(&["||", "&&", "|", "^", "&", "==", "!=", "<", "<=", ">", ">=", "<<", ">>", ">>>", "+", "-", "*", "/", "%", "?:", "?", ":", ":>"]).to_string()); }
                if t.last().map(|s| s == ":>").unwrap_or(false) { t.push("u8".into()); continue; }
                for _ in 0..[0, 0, 0, 1, 2][r.below(5)] { t.push(r.pick(&["!", "-", "~"]).to_string()); } t.push(format!("x{}", k)); match r.below(10) { 0 => t.push("[i]".into()), 1 => { t.push(".".into()); t.push("m".into()) } 2 => { t.push("::".into()); t.push("V".into()) } _ => () } }
            t.push(";".into());
            let joined = t.join(" ");
            let w = syn::words(&joined);
            (syn::spread(r, &w), None)
        }
    };
    out.case(&text);
    let toks: Vec<syn::Tok> = match syn::lex(&text) { Ok(t) => t.into_iter().filter(|t| !matches!(t.t, T::Line(_) | T::Block(_))).collect(), Err(_) => { out.count("not lexable"); return; } };
    let model = syn::Parser::program(&toks);
    if let Some(w) = &want { if model.as_ref() != Ok(w) { crate::broken(&format!("reference parser disagrees with the generator: {}\n{:?}\n{:?}", text, w, model)); } }
    match (ps::parse(&text), model) {
        (Ok(a), Ok(m)) => {
            let got = syn::conv::program(&a);
            out.count("trees compared");
            if got != m { let k = (0..m.len()).find(|k| got.get(*k) != m.get(*k)).unwrap_or(m.len()); return out.bad(format!("tree is {} instead of {}", got.get(k).map(|s| s.as_str()).unwrap_or("nothing"), m.get(k).map(|s| s.as_str()).unwrap_or("nothing")), text); }
            let j = serde_json::to_string(&a).unwrap();
            match serde_json::from_str::<ps::ast::Program>(&j) { Ok(b) => { if syn::conv::program(&b) != m || serde_json::to_string(&b).unwrap() != j { out.bad("the tree changes when it is serialised and read back", text.clone()); } } Err(e) => out.bad(format!("a serialised tree cannot be read back: {}", e), text.clone()) }
            if i < 8 { out.sample = Some(format!("{} => {}", clip(&text), m.join(" "))); }
        }
        (Err(e), Err((m, at))) => {
            out.count("refused by both");
            use ps::ParseError as E;
            let place = |s: &ps::Span| Some((s.line_start, s.col_start));
            let (kind, got) = match &e {
                E::Unexpected(t, _) => ("", place(&t.span)),
                E::UnexpectedEOF => ("", None),
                E::EmptyLengthConstraint(s) => ("empty length", place(s)),
                E::EnumMissingRep(s) | E::BitfieldMissingRep(s) => ("representation", place(s)),
                E::UnknownContainerDirective(_, s) => ("directive", place(s)),
                _ => return out.bad(format!("the text has tokens but is refused with: {}", e), text),
            };
            let want = toks.get(at).map(|t| syn::pos(&text, t.start));
            let mk = if ["empty length", "representation", "directive"].contains(&&m[..]) { &m[..] } else { "" };
            if got != want || kind != mk { return out.bad(format!("refused with '{}' (place {:?}) instead of {} at {:?}", e, got, m, want), text); }
            if let (E::Unexpected(t, _), Some(w)) = (&e, toks.get(at)) { if syn::of_ps(&t.token) != w.t { return out.bad(format!("the error names token {} instead of {:?}", t, w.t), text); } }
            if let (E::UnknownContainerDirective(n, _), Some(w)) = (&e, toks.get(at)) { if w.t != syn::T::Id(n.clone()) { return out.bad(format!("the error names directive {} instead of {:?}", n, w.t), text); } }
            out.count(if want.is_none() { "refused at the end of the text" } else { "refused at the right token" });
        }
        (Err(e), Ok(_)) => out.bad(format!("parser refuses: {}", e), text),
        (Ok(_), Err(e)) => out.bad(format!("parser accepts where the grammar has {}", e.0), text),
    }
}
