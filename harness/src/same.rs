//! C27: generated code is a function of the spec and the options.  C28: a spec spread over files that import one another
//! is the spec in one file.
use crate::comp::Opt;
use crate::front::*;
use crate::model::*;
use crate::rng::Rng;
use crate::syn;
use protospec_build as ps;
use std::collections::{BTreeMap, BTreeSet, HashMap};

const PROFS: &[&str] = &["all", "cond", "arr", "strs", "xform", "blen", "calc", "args", "enums", "prim"];
fn model_spec(r: &mut Rng) -> Spec {
    let mut s = match r.below(8) { 0 | 1 => crate::gexpr::expr_spec(r, "x"), 2 => return crate::gexpr::const_spec(r, "x"), _ => { let p = *r.pick(PROFS); crate::gen::gen_spec(r, "x", crate::gen::prof(p)) } };
    if r.chance(1, 3) { crate::gen::aliases(r, &mut s); }
    s
}
fn any_text(r: &mut Rng) -> String { if r.chance(1, 3) { r.pick(crate::fchecks::corpus()).clone() } else { model_spec(r).text() } }
/// code, or the error
fn outcome(text: &str, o: &Opt) -> Result<String, String> { crate::comp::code(text, o).map_err(|e| e.1) }

// ------------------------------------------------------------------ C27
pub fn deterministic(r: &mut Rng, i: u64, out: &mut Out) {
    let mut text = any_text(r);
    let o = Opt::pick(r);
    if r.chance(1, 8) { let w = { let mut w = syn::words(&text); syn::mutate(r, &mut w, 1); w }; text = w.join(" "); }
    let first = outcome(&text, &o);
    let what = |x: &Result<String, String>| match x { Ok(c) => format!("code {}", c), Err(e) => format!("error {}", e) };
    let differ = |out: &mut Out, how: &str, other: &Result<String, String>, t2: &str| {
        let (a, b) = (what(&first), what(other));
        let p = a.bytes().zip(b.bytes()).take_while(|x| x.0 == x.1).count();
        let cut = |s: &str| { let mut f = p.saturating_sub(120); while !s.is_char_boundary(f) { f -= 1; } let mut t = (p + 200).min(s.len()); while !s.is_char_boundary(t) { t -= 1; } s[f.min(t)..t].to_string() };
        out.bad(format!("{}: the result differs", how), format!("{:?}\n# first\n{}\n# other\n{}\n# spec\n{}\n# other text\n{}", o, cut(&a), cut(&b), text, t2));
    };
    match &first { Ok(c) => { out.count("specs with code"); *out.counts.entry("bytes of code compared".into()).or_default() += c.len() as u64; } Err(_) => out.count("specs refused, errors compared") }
    // the same again, after other specs, and on other threads
    for _ in 0..2 { let x = outcome(&text, &o); out.case(&format!("again{}{:?}", text, o)); if x != first { differ(out, "generated again", &x, ""); } }
    let other = any_text(r); let oo = Opt::pick(r);
    let _ = outcome(&other, &oo);
    let x = outcome(&text, &o); out.case(&format!("after{}{}", text, other));
    if x != first { differ(out, "generated after another spec", &x, &other); }
    if r.chance(1, 3) {
        let (t, o2, oth, oo2) = (text.clone(), o.clone(), other.clone(), oo.clone());
        let res: Vec<Result<String, String>> = std::thread::scope(|s| {
            let hs: Vec<_> = (0..3).map(|k| { let (t, o2, oth, oo2) = (&t, &o2, &oth, &oo2); std::thread::Builder::new().stack_size(32 << 20).spawn_scoped(s, move || { if k == 2 { let _ = outcome(oth, oo2); } outcome(t, o2) }).unwrap() }).collect();
            hs.into_iter().map(|h| h.join().unwrap()).collect()
        });
        for x in &res { out.case(&format!("threads{}", text)); if x != &first { differ(out, "generated on several threads", x, &other); } }
        out.count("specs generated on several threads at once");
    }
    // other whitespace and comments
    if first.is_ok() && !o.debug {
        for k in 0..2 {
            let w = syn::words(&text);
            let t2 = if k == 0 { syn::spread(r, &w) } else { comments(r, &w) };
            let x = outcome(&t2, &o); out.case(&t2);
            if x != first { differ(out, "generated from the same spec with other whitespace and comments", &x, &t2); }
            out.count("texts with other whitespace and comments");
        }
    }
    // for the comparison between processes
    out.ids.push(hash(&what(&first)));
    out.evals += 1;
    if i % 1500 == 7 { out.sample = Some(crate::campaign::clip(&format!("{:?} {}", o, text)).to_string()); }
}
/// comments everywhere, with contents that look like code
fn comments(r: &mut Rng, w: &[String]) -> String {
    let mut o = String::new();
    for x in w {
        // (a division sign and a comment must not become another comment)
        if o.ends_with('/') && !o.ends_with("*/") { o.push(' '); }
        match r.below(7) { 0 => o.push_str(*r.pick(&["/* type X = u8; */", "/*}*/", "/* // */", "/* \" */", "/**/"])), 1 => o.push_str(*r.pick(&["// type Y = u8;\n", "//\n", "// /* \r\n", "// \" {\n"])), 2 => o.push('\n'), _ => () }
        if !o.ends_with('\n') { o.push(' '); }
        o.push_str(x);
    }
    if r.chance(1, 2) { o.push_str(*r.pick(&["\n", " // end\n", "/* end */", "\r\n\t"])); }
    o
}

// ------------------------------------------------------------------ C28
fn e_names(e: &mut Expr, f: &mut dyn FnMut(char, &mut String)) {
    match e {
        Expr::Const(n) | Expr::Field(n) | Expr::Arg(n) => f('c', n),
        Expr::Variant(n, _) => f('t', n),
        Expr::Call(n, a) => { f('f', n); for x in a { e_names(x, f) } }
        Expr::Bin(_, a, b) | Expr::Elvis(a, b) | Expr::Idx(a, b) => { e_names(a, f); e_names(b, f) }
        Expr::Neg(a) | Expr::Not(a) | Expr::BitNot(a) | Expr::Cast(a, _) | Expr::CastF(a, _) | Expr::Member(a, _) => e_names(a, f),
        Expr::Tern(a, b, c) => { e_names(a, f); e_names(b, f); e_names(c, f) }
        _ => (),
    }
}
fn t_names(t: &mut Ty, f: &mut dyn FnMut(char, &mut String)) {
    match t {
        Ty::Arr(e, l) => { t_names(e, f); if let Len::Fixed(l) = l { e_names(l, f) } }
        Ty::Ref(n, a) => { f('t', n); for e in a { e_names(e, f) } }
        Ty::Cont(c) => { if let Some(l) = &mut c.len { e_names(l, f) } for it in &mut c.items { match it { Item::Pad(e) => e_names(e, f), Item::Field(d) => f_names(d, f) } } }
        Ty::Enum(_, _, vs) => for v in vs { if let EnumVal::Expr(e) = &mut v.1 { e_names(e, f) } },
        Ty::Bitfield(_, _, vs) => for v in vs { if let Some(e) = &mut v.1 { e_names(e, f) } },
        _ => (),
    }
}
fn f_names(d: &mut Field, f: &mut dyn FnMut(char, &mut String)) {
    t_names(&mut d.ty, f);
    if let Some(c) = &mut d.calc { e_names(c, f) }
    if let Some(c) = &mut d.cond { e_names(c, f) }
    for x in &mut d.xforms { f('x', &mut x.name); for a in &mut x.args { e_names(a, f) } if let Some(c) = &mut x.cond { e_names(c, f) } }
}
/// every name of something declared at the top (`t`ypes, `c`onstants, `f`unctions, transforms `x`)
fn d_names(d: &mut Decl, f: &mut dyn FnMut(char, &mut String)) {
    for a in &mut d.args { t_names(&mut a.1, f); if let Some(e) = &mut a.2 { e_names(e, f) } }
    f_names(&mut d.field, f);
}
/// the items of the module that is generated
pub fn items(code: &str) -> Result<Vec<String>, String> {
    use std::str::FromStr;
    let ts = proc_macro2::TokenStream::from_str(code).map_err(|e| e.to_string())?;
    let g = ts.into_iter().find_map(|t| match t { proc_macro2::TokenTree::Group(g) if g.delimiter() == proc_macro2::Delimiter::Brace => Some(g.stream()), _ => None }).ok_or("no module")?;
    let (mut o, mut cur) = (vec![], vec![]);
    for t in g {
        let end = match &t { proc_macro2::TokenTree::Group(g) => g.delimiter() == proc_macro2::Delimiter::Brace, proc_macro2::TokenTree::Punct(p) => p.as_char() == ';', _ => false };
        // `use a::{b};` and the like end with the semicolon
        cur.push(t.to_string());
        if end { let s = cur.join(" "); cur.clear(); if s != ";" { o.push(s); } }
    }
    if !cur.is_empty() { o.push(cur.join(" ")); }
    o.sort();
    Ok(o)
}
#[derive(Clone)]
pub struct Files { pub files: BTreeMap<String, String>, pub root: String }
struct R { files: HashMap<String, String>, fail: Option<String>, loads: std::rc::Rc<std::cell::RefCell<BTreeMap<String, u32>>>, inner: crate::ffi::Resolver }
fn norm(s: &str) -> String { s.trim_start_matches("./").replace("//", "/").to_string() }
impl ps::ImportResolver for R {
    fn normalize_import(&self, i: &str) -> ps::Result<String> { Ok(norm(i)) }
    fn resolve_import(&self, i: &str) -> ps::Result<Option<String>> {
        *self.loads.borrow_mut().entry(i.to_string()).or_default() += 1;
        if self.fail.as_deref() == Some(i) { return Err(std::io::Error::new(std::io::ErrorKind::Other, "disk on fire").into()); }
        Ok(self.files.get(i).cloned())
    }
    fn resolve_ffi_transform(&self, t: &str) -> ps::Result<Option<ps::ForeignTransformObj>> { self.inner.resolve_ffi_transform(t) }
    fn resolve_ffi_type(&self, t: &str) -> ps::Result<Option<ps::ForeignTypeObj>> { self.inner.resolve_ffi_type(t) }
    fn resolve_ffi_function(&self, t: &str) -> ps::Result<Option<ps::ForeignFunctionObj>> { self.inner.resolve_ffi_function(t) }
    fn prelude_ffi_functions(&self) -> ps::Result<HashMap<String, ps::ForeignFunctionObj>> { self.inner.prelude_ffi_functions() }
}
fn compile(fs: &Files, fail: Option<&str>, o: &Opt, loads: &mut BTreeMap<String, u32>) -> Result<String, (String, String)> {
    let ast = ps::parse(&fs.root).map_err(|e| ("parse".to_string(), e.to_string()))?;
    let l = std::rc::Rc::new(std::cell::RefCell::new(BTreeMap::new()));
    let res = R { files: fs.files.iter().map(|x| (x.0.clone(), x.1.clone())).collect(), fail: fail.map(|s| s.to_string()), loads: l.clone(), inner: Default::default() };
    let p = ps::asg::Program::from_ast(&ast, &ps::PreludeImportResolver(res)).map_err(|e| (kind(&e.to_string()).to_string(), e.to_string()));
    *loads = l.borrow().clone();
    Ok(ps::compiler::compile_program(&p?, &o.options()).to_string())
}
/// errors are told apart by what they say
fn kind(m: &str) -> &'static str {
    for (t, k) in [("unresolved import item", "ImportUnresolved"), ("unresolved import '", "ImportMissing"), ("imports itself", "ImportCycle"), ("failed to parse import file", "ImportParse"), ("referenced type", "UnresolvedType")] { if m.contains(t) { return k; } }
    "another error"
}
/// does a field or argument hide a constant?
fn hides(s: &Spec) -> bool {
    fn c(x: &Container, ns: &BTreeSet<&str>) -> bool { x.items.iter().any(|i| match i { Item::Field(f) => ns.contains(f.name.as_str()) || matches!(&f.ty, Ty::Cont(x) if c(x, ns)), _ => false }) }
    let ns: BTreeSet<&str> = s.consts.iter().map(|c| c.0.as_str()).collect();
    s.decls.iter().any(|d| d.args.iter().any(|a| ns.contains(a.0.as_str())) || matches!(&d.field.ty, Ty::Cont(x) if c(x, &ns)))
}
/// one declaration, as a spec holds it
#[derive(Clone)]
enum Node { Const(usize), Decl(usize) }
pub struct Spread { pub files: Files, pub flat: Spec, pub names: Vec<String>, pub edges: Vec<(String, String)>, pub imports: u64, pub aliases: u64, pub chains: u64 }
/// distributes the declarations of a spec over files
pub fn spread_files(r: &mut Rng, spec: &Spec) -> Spread {
    let mut spec = spec.clone();
    let nodes: Vec<(Node, String)> = spec.consts.iter().enumerate().map(|(i, c)| (Node::Const(i), c.0.clone())).chain(spec.decls.iter().enumerate().map(|(i, d)| (Node::Decl(i), d.field.name.clone()))).collect();
    let at: BTreeMap<(bool, String), usize> = nodes.iter().enumerate().map(|(i, n)| ((matches!(n.0, Node::Const(_)), n.1.clone()), i)).collect();
    // direct references
    let mut uses: Vec<BTreeSet<usize>> = vec![BTreeSet::new(); nodes.len()];
    let mut ffi: Vec<BTreeSet<(char, String)>> = vec![BTreeSet::new(); nodes.len()];
    for (i, (n, _)) in nodes.iter().enumerate() {
        let (u, x) = (&mut uses[i], &mut ffi[i]);
        let mut see = |k: char, n: &mut String| match k {
            'c' => { if let Some(i) = at.get(&(true, n.clone())) { u.insert(*i); } }
            't' if is_foreign(n) => { x.insert(('t', n.clone())); }
            't' => { u.insert(at[&(false, n.clone())]); }
            'f' if n == "len" || n == "blen" => (),
            k => { x.insert((k, n.clone())); }
        };
        match n { Node::Const(c) => { let c = &mut spec.consts[*c]; t_names(&mut c.1, &mut see); e_names(&mut c.2, &mut see); } Node::Decl(d) => d_names(&mut spec.decls[*d], &mut see) }
    }
    // a bare name can be a constant or anything else; take the closure
    let n = nodes.len();
    let mut reach: Vec<BTreeSet<usize>> = uses.clone();
    loop { let mut ch = false; for i in 0..n { let add: BTreeSet<usize> = reach[i].iter().flat_map(|j| reach[*j].iter().cloned()).collect(); for a in add { ch |= reach[i].insert(a); } } if !ch { break; } }
    let k = 1 + r.below(4); // files besides the root
    let mut home: Vec<Option<usize>> = vec![None; n];
    // those of a cycle stay together; a file only imports lower ones
    let mut order: Vec<usize> = (0..n).collect();
    order.sort_by_key(|i| reach[*i].len());
    for i in order {
        if home[i].is_some() { continue; }
        let comp: Vec<usize> = (0..n).filter(|j| *j == i || (reach[i].contains(j) && reach[*j].contains(&i))).collect();
        let lo = comp.iter().flat_map(|c| uses[*c].iter()).filter(|j| !comp.contains(j)).filter_map(|j| home[*j]).max().unwrap_or(0);
        let f = if r.chance(1, 3) { lo } else { lo + r.below(k + 1 - lo) };
        for c in comp { home[c] = Some(f); }
    }
    let home: Vec<usize> = home.into_iter().map(|h| h.unwrap()).collect();
    let path = |f: usize| ["base.pspec", "dir/one.pspec", "dir/two", "Three.PSPEC", ""][f.min(4)].to_string();
    let mut imports: Vec<Vec<(usize, Vec<(String, String)>)>> = vec![vec![]; k + 1]; // file -> (from, [(name there, name here)])
    // names visible in a file: (kind class, declared name) -> name here
    let mut vis: Vec<BTreeMap<(char, String), String>> = vec![BTreeMap::new(); k + 1];
    let (mut al, mut ni, mut chains) = (0u64, 0u64, 0u64);
    let mut ffis: Vec<Vec<(char, String)>> = vec![vec![]; k + 1];
    let mut bodies: Vec<Vec<usize>> = vec![vec![]; k + 1];
    for i in 0..n { bodies[home[i]].push(i); }
    for f in 0..=k {
        let mine: Vec<usize> = bodies[f].clone();
        let mut here: BTreeMap<(char, String), String> = BTreeMap::new();
        for i in &mine { here.insert((if matches!(nodes[*i].0, Node::Const(_)) { 'c' } else { 't' }, nodes[*i].1.clone()), nodes[*i].1.clone()); }
        let mut need: BTreeSet<(char, String)> = BTreeSet::new();
        for i in &mine {
            for u in &uses[*i] { need.insert((if matches!(nodes[*u].0, Node::Const(_)) { 'c' } else { 't' }, nodes[*u].1.clone())); }
            for x in &ffi[*i] { need.insert(x.clone()); }
        }
        // things to pass on that are not needed here, so that later files can import them along a chain
        for g in 0..f { for key in vis[g].keys() { if r.chance(1, 6) { need.insert(key.clone()); } } }
        let mut got: BTreeMap<usize, Vec<(String, String)>> = BTreeMap::new();
        for key in need {
            if here.contains_key(&key) { continue; }
            let from: Vec<usize> = (0..f).filter(|g| vis[*g].contains_key(&key)).collect();
            let foreign = key.0 == 'x' || key.0 == 'f' || (key.0 == 't' && is_foreign(&key.1));
            if foreign && (from.is_empty() || r.chance(1, 2)) { ffis[f].push(key.clone()); here.insert(key.clone(), key.1.clone()); continue; }
            let g = *r.pick(&from);
            let there = vis[g][&key].clone();
            // an alias of its own, or the name it has there
            let fresh = r.chance(1, 3) || here.values().any(|v| *v == there);
            // or that of something else it has
            let others: Vec<String> = vis[g].iter().filter(|(q, v)| q.0 == key.0 && **v != there && !is_foreign(v) && !here.values().any(|h| h == *v)).map(|x| x.1.clone()).collect();
            let name = if fresh && "ct".contains(key.0) && !others.is_empty() && r.chance(1, 2) { al += 1; r.pick(&others).clone() } else if fresh { al += 1; format!("{}{}", match key.0 { 'c' => "Zal_c", 't' => "ZalT", 'x' => "zalx", _ => "zalf" }, al) } else { there.clone() };
            if there != key.1 || !bodies[g].iter().any(|i| nodes[*i].1 == key.1) { chains += 1; }
            got.entry(g).or_default().push((there, name.clone()));
            here.insert(key, name);
        }
        // what nothing needs is still reached from the root
        if f == k { for g in 0..k { if !got.contains_key(&g) && r.chance(2, 3) { if let Some((key, there)) = vis[g].iter().nth(r.below(vis[g].len().max(1))).map(|x| (x.0.clone(), x.1.clone())) { if !here.contains_key(&key) { al += 1; let nm = format!("Zal_u{}", al); got.entry(g).or_default().push((there, nm.clone())); here.insert(key, nm); } } } } }
        ni += got.values().map(|v| v.len() as u64).sum::<u64>();
        imports[f] = got.into_iter().collect();
        vis[f] = here;
    }
    // texts
    let mut files = BTreeMap::new();
    let mut root = String::new();
    for f in 0..=k {
        let mut part: Vec<String> = vec![];
        for (kind, n) in &ffis[f] { part.push(format!("import_ffi {} as {};", n, match kind { 't' => "type", 'x' => "transform", _ => "function" })); }
        for (g, its) in &imports[f] {
            let mut its = its.clone();
            while !its.is_empty() {
                let take = 1 + r.below(its.len());
                let now: Vec<(String, String)> = its.drain(..take).collect();
                let p = path(*g); let p = match r.below(4) { 0 => format!("./{}", p), 1 => p.replace('/', "//"), _ => p };
                part.push(format!("import {}{} from \"{}\";", now.iter().map(|(a, b)| if a == b && r.chance(5, 6) { a.clone() } else { format!("{} as {}", a, b) }).collect::<Vec<_>>().join(", "), if r.chance(1, 8) { "," } else { "" }, p));
            }
        }
        let mut cs: Vec<String> = vec![];
        for i in &bodies[f] {
            let mut s = Spec::default();
            let vis = &vis[f];
            let mut ren = |k: char, n: &mut String| { if let Some(x) = vis.get(&(k, n.clone())) { *n = x.clone(); } };
            match nodes[*i].0 {
                Node::Const(c) => { let mut c = spec.consts[c].clone(); t_names(&mut c.1, &mut ren); e_names(&mut c.2, &mut ren); s.consts.push(c); cs.push(s.text()); }
                Node::Decl(d) => { let mut d = spec.decls[d].clone(); d_names(&mut d, &mut ren); s.decls.push(d); cs.push(s.text()); }
            }
        }
        // imports and foreign things may stand anywhere
        for p in part { let j = if r.chance(1, 2) { 0 } else { r.below(cs.len() + 1) }; cs.insert(j, p); }
        let t = cs.join("\n");
        if f == k { root = t; } else { files.insert(path(f), t); }
    }
    // reachable files
    let mut live: BTreeSet<usize> = [k].into();
    let mut todo = vec![k];
    while let Some(f) = todo.pop() { for (g, _) in &imports[f] { if live.insert(*g) { todo.push(*g); } } }
    let mut flat = Spec { decls: vec![], ..spec.clone() };
    for (i, d) in spec.decls.iter().enumerate() { let j = at[&(false, d.field.name.clone())]; let _ = i; if live.contains(&home[j]) { flat.decls.push(d.clone()); } }
    let names = (0..k).filter(|f| live.contains(f)).map(path).collect();
    let edges = (0..k).filter(|f| live.contains(f)).flat_map(|f| imports[f].iter().map(|(g, _)| (path(f), path(*g))).collect::<Vec<_>>()).collect();
    Spread { files: Files { files, root }, flat, names, edges, imports: ni, aliases: al, chains }
}
pub fn imported(r: &mut Rng, i: u64, out: &mut Out) {
    let spec = { let t = if r.chance(1, 4) { let t = r.pick(crate::fchecks::corpus()).clone(); crate::mparse::parse_spec("x", &t).ok() } else { None }; match t { Some(s) => s, None => { let s = model_spec(r); crate::mparse::parse_spec("x", &s.text()).expect("model") } } };
    if hides(&spec) { out.count("specs left out, as a field hides a constant"); return; }
    let mut o = Opt::pick(r);
    o.debug = false;
    let sp = spread_files(r, &spec);
    let show = |fs: &Files| { let mut s = String::new(); for (n, t) in &fs.files { s.push_str(&format!("# file {}\n{}\n", n, t)); } s.push_str(&format!("# root\n{}\n", fs.root)); s };
    let flat = crate::comp::code(&sp.flat.text(), &o);
    let mut loads = BTreeMap::new();
    let got = compile(&sp.files, None, &o, &mut loads);
    out.case(&show(&sp.files));
    out.count("specs spread over files");
    *out.counts.entry("names imported".into()).or_default() += sp.imports;
    *out.counts.entry("names imported under an alias".into()).or_default() += sp.aliases;
    *out.counts.entry("names imported along a chain of files".into()).or_default() += sp.chains;
    match (&flat, &got) {
        (Ok(a), Ok(b)) => match (items(a), items(b)) {
            (Ok(x), Ok(y)) => { *out.counts.entry("items of generated code compared".into()).or_default() += x.len() as u64; if x != y {
                let miss: Vec<&String> = x.iter().filter(|z| !y.contains(z)).collect(); let extra: Vec<&String> = y.iter().filter(|z| !x.contains(z)).collect();
                out.bad("the code of a spec in several files is not that of the spec in one file", format!("{:?}\n{}\n# in one file\n{}\n# missing ({})\n{}\n# too much ({})\n{}", o, show(&sp.files), sp.flat.text(), miss.len(), miss.iter().take(3).map(|s| s.to_string()).collect::<Vec<_>>().join("\n"), extra.len(), extra.iter().take(3).map(|s| s.to_string()).collect::<Vec<_>>().join("\n")));
            } }
            (a, b) => out.bad("generated code is no token sequence", format!("{:?} {:?}", a.err(), b.err())),
        },
        (Err(e), _) => out.bad(format!("a valid spec is refused: {}", e.1), sp.flat.text()),
        (_, Err(e)) => out.bad(format!("a valid spec is refused once it is spread over files: {} {}", e.0, e.1), format!("{:?}\n{}", o, show(&sp.files))),
    }
    // one mistake
    if sp.names.is_empty() { return; }
    for _ in 0..2 {
        let mut fs = sp.files.clone();
        let f = r.pick(&sp.names).clone();
        let mut fail = None;
        let rootish: Vec<String> = sp.names.iter().cloned().chain([String::new()]).collect();
        let g = r.pick(&rootish).clone();
        let put = |fs: &mut Files, f: &str, t: &str, front: bool| { let x = if f.is_empty() { &mut fs.root } else { fs.files.get_mut(f).unwrap() }; *x = if front { format!("{}\n{}", t, x) } else { format!("{}\n{}", x, t) }; };
        let front = r.chance(1, 2);
        let (kind, want, name): (&str, &[&str], String) = match r.below(8) {
            7 => { // a chain of files that comes back
                let mut above: BTreeSet<String> = [f.clone()].into();
                loop { let n = above.len(); for (a, b) in &sp.edges { if above.contains(b) { above.insert(a.clone()); } } if above.len() == n { break; } }
                above.remove(&f);
                if above.is_empty() { continue; }
                let a: Vec<String> = above.into_iter().collect(); let to = r.pick(&a).clone();
                put(&mut fs, &f, &format!("import Whatever from \"{}{}\";", if r.chance(1, 2) { "./" } else { "" }, to), front);
                ("files that import one another", &["ImportCycle"], String::new()) }
            0 => { fs.files.remove(&f); ("a missing file", &["ImportMissing"], f.clone()) }
            1 => { put(&mut fs, &g, "import Anything from \"no/such.file\";", front); ("a missing file", &["ImportMissing"], "no/such.file".into()) }
            2 => { if g == f { continue; } if !g.is_empty() && sp.names.iter().position(|x| *x == g) < sp.names.iter().position(|x| *x == f) { continue; } put(&mut fs, &g, &format!("import Nosuch{} from \"{}\";", i, f), front); ("an item that the file does not declare", &["ImportUnresolved"], format!("Nosuch{}", i)) }
            3 => { let to = if r.chance(1, 2) { f.clone() } else { f.clone() }; put(&mut fs, &f, &format!("import Whatever from \"{}{}\";", if r.chance(1, 2) { "./" } else { "" }, to), front); ("a file that imports itself", &["ImportCycle"], f.clone()) }
            4 => { put(&mut fs, &f, *r.pick(&["type = u8;", "type X", "}", "import from \"x\";", "const A = 3;"]), false); ("a file that does not parse", &["ImportParse"], f.clone()) }
            5 => { put(&mut fs, &f, "type Zbad = container { a: Zmissing };", front); ("a file with an undeclared name", &["UnresolvedType"], "Zmissing".into()) }
            _ => { fail = Some(f.clone()); ("a file that cannot be read", &[], "disk on fire".into()) }
        };
        let mut loads = BTreeMap::new();
        let got = guard(|| compile(&fs, fail.as_deref(), &o, &mut loads));
        out.case(&format!("{}{:?}", show(&fs), fail));
        out.count(&format!("mistakes: {}", kind));
        match got {
            Err(e) => out.bad(format!("{}: {}", kind, e), show(&fs)),
            Ok(Ok(_)) => out.bad(format!("{} is accepted", kind), format!("{} {}\n{}", f, g, show(&fs))),
            Ok(Err((k, m))) => { if (!want.is_empty() && !want.contains(&k.as_str())) || !(m.contains(&name) || m.contains(&format!("./{}", name)) || m.contains(&name.replace('/', "//"))) { out.bad(format!("{} is reported as {} ({})", kind, k, m), show(&fs)); } }
        }
    }
    if i % 1500 == 7 { out.sample = Some(crate::campaign::clip(&show(&sp.files)).to_string()); }
}

// ------------------------------------------------------------------ C30
/// the declarations of a text, and whether each has to keep its place among its kind
pub fn declarations(text: &str) -> Vec<(bool, String)> {
    let (mut out, mut cur, mut depth) = (vec![], vec![], 0i32);
    for w in syn::words(text) {
        match w.as_str() { "{" | "(" | "[" => depth += 1, "}" | ")" | "]" => depth -= 1, _ => () }
        let end = w == ";" && depth <= 0;
        cur.push(w);
        if end { out.push(std::mem::take(&mut cur)); depth = 0; }
    }
    if !cur.is_empty() { out.push(cur); }
    out.into_iter().map(|d: Vec<String>| {
        let at = { let mut dep = 0; d.iter().position(|w| { match w.as_str() { "(" => dep += 1, ")" => dep -= 1, _ => () } w == "=" && dep == 0 }) };
        let fixed = d[0] == "const" || d[0] == "type" && at.and_then(|i| d.get(i + 1)).map_or(false, |w| w == "enum" || w == "bitfield");
        (fixed, d.join(" "))
    }).collect()
}
/// another order: constants, enums and bitfields stay in theirs
pub fn reorder(r: &mut Rng, ds: &[(bool, String)]) -> Vec<String> {
    let mut fixed: Vec<&String> = ds.iter().filter(|d| d.0).map(|d| &d.1).collect();
    let mut free: Vec<&String> = ds.iter().filter(|d| !d.0).map(|d| &d.1).collect();
    match r.below(4) { 0 => free.reverse(), 1 => { if free.len() > 1 { let (i, j) = (r.below(free.len()), r.below(free.len())); free.swap(i, j); } } _ => for i in (1..free.len()).rev() { free.swap(i, r.below(i + 1)); } }
    let mut o = vec![];
    fixed.reverse(); free.reverse();
    let whole = r.below(4);
    while !fixed.is_empty() || !free.is_empty() {
        let f = match whole { 0 => !fixed.is_empty(), 1 => free.is_empty(), _ => free.is_empty() || !fixed.is_empty() && r.below(fixed.len() + free.len()) < fixed.len() };
        o.push(if f { fixed.pop().unwrap() } else { free.pop().unwrap() }.clone());
    }
    o
}
pub fn order(r: &mut Rng, i: u64, out: &mut Out) {
    let mut text = any_text(r);
    let mut how = "specs";
    match r.below(5) { 0 => { text = crate::comp::near(r, &text); how = "nearly valid specs"; } 1 => { if let Some(t) = crate::mistakes::one(r) { text = t; how = "specs with a mistake"; } } _ => () }
    let o = Opt { debug: false, ..Opt::pick(r) };
    let get = |t: &str| -> Result<Vec<String>, String> { guard(|| outcome(t, &o)).unwrap_or_else(Err).and_then(|c| items(&c)) };
    let ds = declarations(&text);
    if ds.len() < 2 { return; }
    let first = get(&text);
    for _ in 0..2 {
        let ds2 = reorder(r, &ds);
        let t2 = ds2.join("\n");
        let got = get(&t2);
        out.case(&t2);
        let show = || format!("{:?}\n# first\n{}\n# then\n{}", o, text, t2);
        match (&first, &got) {
            (Ok(a), Ok(b)) => { out.count(&format!("{} in another order: the same items", how)); *out.counts.entry("items of generated code compared".into()).or_default() += a.len() as u64; if a != b { let m: Vec<&String> = a.iter().filter(|x| !b.contains(x)).collect(); let e: Vec<&String> = b.iter().filter(|x| !a.contains(x)).collect(); out.bad("another order of declarations changes the generated code", format!("{}\n# missing\n{}\n# too much\n{}", show(), m.first().map_or("", |s| s.as_str()), e.first().map_or("", |s| s.as_str()))); } }
            (Err(_), Err(_)) => out.count(&format!("{} in another order: refused as well", how)),
            (Ok(_), Err(e)) => out.bad(format!("a spec is refused once its declarations are in another order: {}", e), show()),
            (Err(e), Ok(_)) => out.bad(format!("a spec is refused only because of the order of its declarations: {}", e), show()),
        }
    }
    if i % 2500 == 7 { out.sample = Some(crate::campaign::clip(&text).to_string()); }
}
