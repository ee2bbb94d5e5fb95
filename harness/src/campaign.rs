//! Campaigns: many specs, many values and byte strings, hostile streams; every execution of the generated code is
//! judged against the reference codec and the resource monitors.
use crate::gen::{gen_spec, prof, VG};
use crate::glue::expected_info;
use crate::model::*;
use crate::refcodec::*;
use crate::report::Report;
use crate::rng::Rng;
use crate::run::*;
use std::collections::{BTreeMap, HashSet};

#[derive(Clone, Copy, Default)]
pub struct Ops { pub rt: bool, pub enc: bool, pub scramble: bool, pub wshort: bool, pub wfault: bool, pub dec: bool, pub suffix: bool, pub chunk: bool, pub trunc: bool, pub rfault: bool, pub mutate: bool, pub random: bool, pub badval: bool, pub info: bool, pub exhaust: bool, pub asy: bool }
#[derive(Clone)]
pub struct Plan {
    pub prop: &'static str, pub profs: Vec<(&'static str, usize)>, pub cats: Vec<&'static str>, pub extra: Vec<Unit>, pub vals: usize, pub ops: Ops, pub deps: bool, pub seed: u64,
    /// thin out the operations per value (0 = all)
    pub heavy: usize,
}

#[derive(Clone, Debug)]
pub enum Exp {
    Enc(Vec<u8>), EncErr(&'static str), EncFault(Vec<u8>, usize),
    Dec(Val, usize), DecErr(&'static str), DecFault(usize),
    Rt(Val, Vec<u8>), Info(String),
}

pub fn arg_vals(a: &[EV]) -> Vec<Val> {
    a.iter().map(|x| match x { EV::Int(v, _) | EV::Enum(_, v) | EV::Bits(_, v) => Val::I(*v), EV::Bool(b) => Val::B(*b), EV::F32(x) => Val::F(*x), EV::F64(x) => Val::D(*x), _ => Val::I(0) }).collect()
}

/// what an execution did, compared with what had to happen; Some(text) is a violation
pub fn judge(c: &Cmd, e: &Exp, got: &str) -> Option<String> {
    let w: Vec<&str> = got.splitn(6, ' ').collect();
    match w[0] {
        "unbuilt" | "skipped" => return None,
        "lost" | "harness" | "" => return Some(format!("HARNESS {}", got)),
        "hang" => return Some("the coder did not stop".into()),
        "crash" => return Some(format!("the process died: {}", got)),
        "panic" => return Some(format!("panic: {}", w.get(5).unwrap_or(&""))),
        _ => (),
    }
    if let Exp::Info(want) = e {
        let g = w.get(1).copied().unwrap_or("");
        return if g == want { None } else { Some(format!("value set differs: got {} want {}", g, want)) };
    }
    let bytes = || if w[1] == "-" { vec![] } else { unhex(w[1]) };
    let peak: usize = w.get(4).and_then(|x| x.parse().ok()).unwrap_or(0);
    let tail = w.get(5).copied().unwrap_or("");
    match e {
        Exp::Dec(..) | Exp::DecErr(_) | Exp::DecFault(_) => { let lim = (1 << 20) + 600 * c.data.len(); if peak > lim { return Some(format!("decoding {} bytes allocated {} bytes", c.data.len(), peak)); } }
        Exp::Enc(b) | Exp::EncFault(b, _) | Exp::Rt(_, b) => { let lim = (1 << 20) + 600 * b.len(); if peak > lim { return Some(format!("encoding {} bytes allocated {} bytes", b.len(), peak)); } }
        _ => (),
    }
    match e {
        Exp::Enc(b) => if w[0] != "ok" { Some(format!("a valid value is refused: {}", tail)) } else if &bytes() != b { Some(format!("bytes differ: got {} want {}", hex(&bytes()), hex(b))) } else { None },
        Exp::EncErr(why) => if w[0] == "ok" { Some(format!("an inconsistent value ({}) is encoded without error to {}", why, w[1])) } else { None },
        Exp::EncFault(b, k) => {
            let out = bytes();
            if *k < b.len() && w[0] == "ok" { Some(format!("the writer failed after {} of {} bytes, but encoding reports success", k, b.len())) }
            else if *k >= b.len() && w[0] != "ok" { Some(format!("the writer accepted everything but encoding fails: {}", tail)) }
            else if !b.starts_with(&out) { Some(format!("bytes delivered before the fault are not a prefix of the encoding: {} of {}", hex(&out), hex(b))) } else { None }
        }
        Exp::Dec(v, used) => {
            if w[0] != "ok" { return Some(format!("valid bytes are refused: {}", tail)); }
            let pos: usize = w[1].parse().unwrap_or(usize::MAX);
            if tail != v.text() { Some(format!("value differs: got {} want {}", tail, v.text())) } else if pos != *used { Some(format!("consumed {} bytes instead of {}", pos, used)) } else { None }
        }
        Exp::DecErr(why) => if w[0] == "ok" { Some(format!("invalid bytes ({}) are accepted as {}", why, tail)) } else { None },
        Exp::DecFault(k) => if w[0] == "ok" { Some(format!("the reader failed after {} bytes that were not enough, but decoding reports success: {}", k, tail)) } else { None },
        Exp::Rt(v, b) => {
            // ok hex used remaining peak value
            if w[0] != "ok" { return Some(format!("round trip fails: {}", tail)); }
            let used: usize = w[2].parse().unwrap_or(usize::MAX);
            if tail != v.text() { Some(format!("decoding what was encoded gives another value: got {} want {}", tail, v.text())) } else if used != b.len() { Some(format!("decoding consumed {} of the {} bytes that were encoded", used, b.len())) } else { None }
        }
        Exp::Info(_) => None,
    }
}

pub fn mutate_bytes(r: &mut Rng, b: &[u8]) -> Vec<u8> {
    let mut d = b.to_vec();
    for _ in 0..1 + r.below(2) {
        match r.below(9) {
            0 if !d.is_empty() => { let i = r.below(d.len()); d[i] ^= 1 << r.below(8); }
            1 if !d.is_empty() => { let i = r.below(d.len()); d[i] = r.next() as u8; }
            2 if !d.is_empty() => { let i = r.below(d.len()); d[i] = *r.pick(&[0, 1, 0x7f, 0x80, 0xff]); }
            3 if !d.is_empty() => { let i = r.below(d.len()); let n = *r.pick(&[1usize, 2, 4, 8, 16]); for j in i..(i + n).min(d.len()) { d[j] = 0xff; } }
            4 if !d.is_empty() => { let i = r.below(d.len()); let n = *r.pick(&[2usize, 4, 8]); for j in i..(i + n).min(d.len()) { d[j] = 0; } if i < d.len() { d[i] = 0x7f; } }
            5 => { let i = r.below(d.len() + 1); let n = 1 + r.below(4); for _ in 0..n { d.insert(i, r.next() as u8); } }
            6 if !d.is_empty() => { let i = r.below(d.len()); let n = 1 + r.below((d.len() - i).min(4)); d.drain(i..i + n); }
            7 if d.len() > 1 => { let i = r.below(d.len()); d.truncate(i); }
            _ => { let n = r.below(12); for _ in 0..n { d.push(r.next() as u8); } }
        }
    }
    d
}
pub fn mutate_val(r: &mut Rng, v: &Val, other: &Val) -> Val {
    match (v, other) {
        (Val::C(a), Val::C(b)) if a.len() == b.len() && !a.is_empty() => {
            let mut o = a.clone();
            for _ in 0..1 + r.below(2) { let i = r.below(o.len()); o[i].1 = if r.chance(1, 2) { b[i].1.clone() } else { mutate_val(r, &a[i].1, &b[i].1) }; }
            Val::C(o)
        }
        (Val::L(a), o) => {
            let mut x = a.clone();
            // as long again as a narrow length goes round
            if r.chance(1, 20) && matches!(a.last(), Some(Val::I(_) | Val::B(_))) { let e = a[0].clone(); let k = if r.chance(1, 4) { 65536 } else { 256 }; x.extend(std::iter::repeat(e).take(k)); return Val::L(x); }
            match r.below(4) {
                0 => { x.pop(); }
                1 => { let e = match (x.last(), o) { (Some(e), _) => Some(e.clone()), (None, Val::L(b)) => b.last().cloned(), _ => None }; if let Some(e) = e { x.push(e); } }
                2 if !x.is_empty() => { let i = r.below(x.len()); let y = x[r.below(x.len())].clone(); x[i] = mutate_val(r, &x[i].clone(), &y); }
                _ => if let Val::L(b) = o { x = b.clone(); },
            }
            Val::L(x)
        }
        (Val::S(s), _) => { let mut s = s.clone(); if r.chance(1, 20) { let k = if r.chance(1, 4) { 65536 } else { 256 }; s.push_str(&"w".repeat(k)); return Val::S(s); } match r.below(4) { 0 => { s.pop(); } 1 => s.push('x'), 2 => { let k = r.below(s.chars().count() + 1); let at = s.char_indices().nth(k).map_or(s.len(), |c| c.0); s.insert(at, '\0'); } _ => s.push('\u{20ac}') } Val::S(s) }
        (Val::Some(x), o) => if r.chance(1, 2) { Val::None } else { Val::Some(Box::new(mutate_val(r, x, match o { Val::Some(y) => y, _ => x }))) },
        (Val::V(n, x), Val::V(m, y)) => if n == m { Val::V(n.clone(), Box::new(mutate_val(r, x, y))) } else { other.clone() },
        _ => other.clone(),
    }
}
fn scramble(r: &mut Rng, spec: &Spec, decl: &str, v: &Val) -> Val {
    match (spec.decl(decl).map(|d| &d.field.ty), v) {
        (Some(Ty::Cont(c)), Val::C(vals)) => {
            let fl = flatten(c);
            Val::C(vals.iter().map(|(n, x)| match fl.iter().find(|f| &f.0.name == n) {
                Some((f, _)) if f.calc.is_some() => (n.clone(), match (&f.ty, x) { (Ty::Int(sc, _), Val::I(_)) => Val::I(sc.wrap(r.u128())), _ => x.clone() }),
                Some((f, _)) => (n.clone(), match (&f.ty, x) { (Ty::Ref(t, _), x @ Val::C(_)) => scramble(r, spec, t, x), _ => x.clone() }),
                None => (n.clone(), x.clone()),
            }).collect())
        }
        _ => v.clone(),
    }
}

pub fn units(p: &Plan, rep: &mut Report) -> Vec<Unit> {
    let mut st = crate::names::Stat::default();
    let mut named = 0;
    let mut u = p.extra.clone();
    u.extend(crate::catalog::units(&p.cats));
    for (name, n) in &p.profs {
        for i in 0..*n {
            let mut r = Rng::derive(p.seed, &format!("{}-{}", p.prop, name), i as u64);
            let key = format!("{}{}", name.replace('-', "_"), i);
            let (hide, name) = match name.strip_prefix("hide-") { Some(n) => (true, n), None => (false, *name) };
            let mut s = if name == "expr" { crate::gexpr::expr_spec(&mut r, &key) } else if name == "const" { crate::gexpr::const_spec(&mut r, &key) } else { gen_spec(&mut r, &key, prof(name)) };
            if hide { crate::names::rename_fields(&mut r, &mut s); }
            else if name != "const" && Rng::derive(p.seed, &format!("{}-{}-alias", p.prop, name), i as u64).chance(1, 3) { named += crate::gen::aliases(&mut Rng::derive(p.seed, &format!("{}-{}-aliases", p.prop, name), i as u64), &mut s); }
            let mut text = s.text();
            if text.contains("\ntype T0x = ") { text = crate::gen::alias_casts(&mut r, &s, &text); }
            if hide {
                let m = crate::mparse::parse_spec(&key, &text).unwrap_or_else(|e| crate::broken(&format!("model parser on renamed spec: {}\n{}", e, text)));
                text = crate::names::obscure(&mut r, &m, &mut st).text();
                u.push(Unit { key, spec: m, text });
                continue;
            }
            match crate::mparse::parse_spec(&key, &text) { Ok(m) => u.push(Unit { key, spec: m, text }), Err(e) => crate::broken(&format!("model parser on generated spec: {}\n{}", e, text)) }
        }
    }
    if named > 0 { rep.count("fields and arguments of types that name another type", named as u64); }
    if st.args + st.consts > 0 { rep.count("arguments named like something they are not", st.args); rep.count("constants named like something they are not", st.consts); rep.count("constants hidden by fields and arguments", st.decoys); }
    u
}

pub fn operations(p: &Plan, us: &[Unit], rep: &mut Report) -> (Vec<Cmd>, Vec<Exp>) {
    let o = p.ops;
    let chunks: Vec<&[Unit]> = us.chunks((us.len() / 8).max(1)).collect();
    let parts: Vec<(Vec<Cmd>, Vec<Exp>, BTreeMap<&'static str, u64>)> = std::thread::scope(|s| {
        let hs: Vec<_> = chunks.into_iter().map(|ch| std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(s, move || {
            let (mut cmds, mut exps, mut st) = (vec![], vec![], BTreeMap::new());
            for u in ch { unit_ops(p, o, u, &mut cmds, &mut exps, &mut st); }
            (cmds, exps, st)
        }).unwrap()).collect();
        hs.into_iter().map(|h| h.join().expect("operation generator")).collect()
    });
    let (mut cmds, mut exps) = (vec![], vec![]);
    for (c, e, st) in parts { cmds.extend(c); exps.extend(e); for (k, n) in st { rep.count(k, n); } }
    (cmds, exps)
}

fn unit_ops(p: &Plan, o: Ops, u: &Unit, cmds: &mut Vec<Cmd>, exps: &mut Vec<Exp>, st: &mut BTreeMap<&'static str, u64>) {
    let codec = Codec { spec: &u.spec };
    for d in &u.spec.decls {
        let decl = d.field.name.as_str();
        let key = format!("{}.{}", u.key, decl);
        let mut r = Rng::derive(p.seed, &format!("{}/{}", p.prop, key), 7);
        let mut vr = Rng::derive(p.seed, &format!("{}/{}", p.prop, key), 8);
        let mut vg = VG::new(&u.spec, &mut vr);
        let mut add = |kind: &'static str, rm: String, wm: String, data: Vec<u8>, args: &[EV], val: Option<Val>, seed: u64, e: Exp| {
            cmds.push(Cmd { key: key.clone(), kind, rmode: rm, wmode: wm, seed, data, args: arg_vals(args), val });
            exps.push(e);
        };
        let f = || "f".to_string();
        if o.info { if let Some(i) = expected_info(&u.spec, d) { add("info", f(), f(), vec![], &[], None, 0, Exp::Info(i)); } }
        let dec_exp = |args: &[EV], data: &[u8]| match codec.decode(decl, args, data) {
            Ok((v, used)) => Some(Exp::Dec(v, used)),
            Err(CErr::Bad(w)) => Some(Exp::DecErr(w)),
            Err(CErr::Undefined) => None,
            Err(CErr::Model(m)) => { if std::env::var("PSMON_DEBUG").is_ok() { eprintln!("model gap dec {}: {}", decl, m); } None }
        };
        if o.exhaust && d.args.is_empty() {
            if let Ty::Enum(sc, ..) | Ty::Bitfield(sc, ..) = &d.field.ty {
                let w = sc.bytes as usize;
                let mut inputs: Vec<Vec<u8>> = vec![];
                if w == 1 { inputs.extend((0..=255u8).map(|x| vec![x])); } else {
                    for x in 0..=40u8 { let mut b = vec![0; w]; b[w - 1] = x; inputs.push(b.clone()); b.reverse(); inputs.push(b.clone()); b = vec![0xff; w]; b[w - 1] = !x; inputs.push(b.clone()); b.reverse(); inputs.push(b); }
                    for bit in 0..w * 8 { let mut b = vec![0; w]; b[bit / 8] = 1 << (bit % 8); inputs.push(b.clone()); for x in b.iter_mut() { *x = !*x; } inputs.push(b); }
                }
                for b in inputs { if let Some(e) = dec_exp(&[], &b) { add("dec", f(), f(), b.clone(), &[], None, 0, e.clone()); if let Exp::Dec(v, n) = e { if n == b.len() { if let Ok(w) = codec.encode(decl, &[], &v) { add("enc", f(), f(), vec![], &[], Some(v), 0, Exp::Enc(w)); } } } } }
            }
        }
        let nv = match &d.field.ty { Ty::Cont(_) => p.vals, Ty::Enum(..) | Ty::Bitfield(..) => (p.vals + 1) / 2, _ => (p.vals * 2 + 2) / 3 };
        let mut prev: Option<(Val, Vec<EV>)> = None;
        for vi in 0..nv {
            vg.big = vi % 7 == 6;
            let args = vg.args(d);
            let (v, bytes) = match vg.gen(decl, &args) { Some(x) => x, None => { *st.entry("values the generator gave up on").or_default() += 1; continue; } };
            *st.entry("values").or_default() += 1;
            if o.rt { add("rt", f(), f(), vec![], &args, Some(v.clone()), 0, Exp::Rt(v.clone(), bytes.clone())); if o.asy { add("art", f(), f(), vec![], &args, Some(v.clone()), r.next() >> 8, Exp::Rt(v.clone(), bytes.clone())); } }
            if o.enc { add("enc", f(), f(), vec![], &args, Some(v.clone()), 0, Exp::Enc(bytes.clone())); if o.asy { add("aenc", f(), f(), vec![], &args, Some(v.clone()), r.next() >> 8, Exp::Enc(bytes.clone())); } }
            if o.scramble { let s = scramble(&mut r, &u.spec, decl, &v); if s != v { if let Ok(b) = codec.encode(decl, &args, &s) { add("enc", f(), f(), vec![], &args, Some(s.clone()), 0, Exp::Enc(b.clone())); if o.asy { add("aenc", f(), f(), vec![], &args, Some(s), 5, Exp::Enc(b)); } *st.entry("values with scrambled calculated fields").or_default() += 1; } } }
            if o.wshort { add("enc", f(), format!("s{}", r.next() >> 40), vec![], &args, Some(v.clone()), 0, Exp::Enc(bytes.clone())); if o.asy { add("aenc", f(), format!("s{}", r.next() >> 40), vec![], &args, Some(v.clone()), r.next() >> 8, Exp::Enc(bytes.clone())); } }
            if o.wfault {
                let mut at: Vec<usize> = if bytes.len() <= 12 { (0..=bytes.len()).collect() } else { let mut a: Vec<usize> = (0..8).map(|_| r.below(bytes.len())).collect(); a.extend([0, bytes.len() - 1, bytes.len()]); a };
                if p.heavy > 0 { at = at.into_iter().filter(|_| r.chance(1, p.heavy + 1)).collect(); }
                for k in at {
                    let z = if r.chance(1, 2) { "x" } else { "z" };
                    add("enc", f(), format!("{}{}", z, k), vec![], &args, Some(v.clone()), 0, Exp::EncFault(bytes.clone(), k));
                    if o.asy { add("aenc", f(), format!("{}{}", z, k), vec![], &args, Some(v.clone()), r.next() >> 8, Exp::EncFault(bytes.clone(), k)); }
                }
            }
            if o.badval {
                if let Some((pv, pargs)) = &prev {
                    for k in 0..6 {
                        let bad = mutate_val(&mut r, &v, pv);
                        let a = if k == 5 { pargs.clone() } else { args.clone() };
                        match codec.encode(decl, &a, &bad) {
                            Ok(b) => { if b.len() < 1 << 16 { add("enc", f(), f(), vec![], &a, Some(bad.clone()), 0, Exp::Enc(b.clone())); if o.asy { add("aenc", f(), f(), vec![], &a, Some(bad), r.next() >> 8, Exp::Enc(b)); } *st.entry("altered values that stay consistent").or_default() += 1; } }
                            Err(CErr::Bad(w)) => { add("enc", f(), f(), vec![], &a, Some(bad.clone()), 0, Exp::EncErr(w)); if o.asy { add("aenc", f(), f(), vec![], &a, Some(bad), r.next() >> 8, Exp::EncErr(w)); } *st.entry("inconsistent values").or_default() += 1; }
                            Err(CErr::Undefined) => (),
                            Err(CErr::Model(m)) => if std::env::var("PSMON_DEBUG").is_ok() { eprintln!("model gap enc {}: {}", key, m); },
                        }
                    }
                }
            }
            let mut data = bytes.clone();
            if o.suffix && r.chance(2, 3) { let n = 1 + r.below(6); for _ in 0..n { data.push(r.next() as u8); } }
            let de = if data == bytes { Some(Exp::Dec(v.clone(), bytes.len())) } else { dec_exp(&args, &data) };
            if let Some(e) = &de {
                if o.dec { add("dec", f(), f(), data.clone(), &args, None, 0, e.clone()); if o.asy { add("adec", f(), f(), data.clone(), &args, None, r.next() >> 8, e.clone()); } }
                if o.chunk {
                    add("dec", "c1".into(), f(), data.clone(), &args, None, 0, e.clone());
                    add("dec", format!("c{}", 2 + r.below(4)), f(), data.clone(), &args, None, 0, e.clone());
                    add("dec", format!("r{}", r.next() >> 40), f(), data.clone(), &args, None, 0, e.clone());
                    if o.asy { add("adec", "c1".into(), f(), data.clone(), &args, None, r.next() >> 8, e.clone()); add("adec", format!("r{}", r.next() >> 40), f(), data.clone(), &args, None, r.next() >> 8, e.clone()); }
                }
            }
            if o.trunc && !bytes.is_empty() {
                let mut at: Vec<usize> = if bytes.len() <= 16 { (0..bytes.len()).collect() } else { let mut a: Vec<usize> = (0..10).map(|_| r.below(bytes.len())).collect(); a.extend([0, 1, bytes.len() - 1, bytes.len() - 2]); a };
                if p.heavy > 0 { at = at.into_iter().filter(|_| r.chance(1, p.heavy + 1)).collect(); }
                for k in at { if let Some(e) = dec_exp(&args, &bytes[..k]) { let m = if r.chance(1, 3) { "c1".to_string() } else { f() }; add("dec", m.clone(), f(), bytes[..k].to_vec(), &args, None, 0, e.clone()); if o.asy { add("adec", m, f(), bytes[..k].to_vec(), &args, None, r.next() >> 8, e); } } }
            }
            if o.rfault && !bytes.is_empty() {
                let at: Vec<usize> = if bytes.len() <= 10 { (0..bytes.len()).collect() } else { (0..9).map(|_| r.below(bytes.len())).collect() };
                for k in at { if p.heavy > 0 && !r.chance(1, p.heavy + 1) { continue; } add("dec", format!("x{}", k), f(), bytes.clone(), &args, None, 0, Exp::DecFault(k)); if o.asy { add("adec", format!("x{}", k), f(), bytes.clone(), &args, None, r.next() >> 8, Exp::DecFault(k)); } }
            }
            if o.mutate {
                for _ in 0..if p.heavy > 0 { 3 } else { 8 } {
                    let m = mutate_bytes(&mut r, &data);
                    if let Some(e) = dec_exp(&args, &m) {
                        *st.entry(if let Exp::Dec(..) = e { "mutated inputs that stay valid" } else { "mutated inputs that are invalid" }).or_default() += 1;
                        let rm = match r.below(4) { 0 => "c1".into(), 1 => format!("r{}", r.next() >> 40), _ => f() };
                        add("dec", rm.clone(), f(), m.clone(), &args, None, 0, e.clone());
                        if o.asy { add("adec", rm, f(), m, &args, None, r.next() >> 8, e); }
                    }
                }
            }
            if o.random {
                for _ in 0..3 {
                    let n = r.below(40);
                    let m: Vec<u8> = match r.below(3) { 0 => (0..n).map(|_| r.next() as u8).collect(), 1 => (0..n).map(|_| r.below(4) as u8).collect(), _ => vec![*r.pick(&[0u8, 1, 0x7f, 0x80, 0xff]); n] };
                    let a = vg.args(d);
                    if let Some(e) = dec_exp(&a, &m) { add("dec", f(), f(), m.clone(), &a, None, 0, e.clone()); if o.asy { add("adec", f(), f(), m, &a, None, r.next() >> 8, e); } }
                }
            }
            prev = Some((v, args));
        }
        // a value with far more elements, or far longer content, than the others
        if matches!(d.field.ty, Ty::Cont(_) | Ty::Arr(..)) && r.chance(1, 3) {
            vg.huge = true;
            let args = vg.args(d);
            if let Some((v, bytes)) = vg.gen(decl, &args).filter(|x| x.1.len() > 120 && x.1.len() < 700_000) {
                *st.entry(if bytes.len() > 65535 { "values of more than 64 KiB" } else if bytes.len() > 255 { "values of more than 255 bytes" } else { "values of more than 120 bytes" }).or_default() += 1;
                if o.rt { add("rt", f(), f(), vec![], &args, Some(v.clone()), 0, Exp::Rt(v.clone(), bytes.clone())); }
                if o.enc { add("enc", f(), f(), vec![], &args, Some(v.clone()), 0, Exp::Enc(bytes.clone())); if o.asy { add("aenc", f(), f(), vec![], &args, Some(v.clone()), r.next() >> 8, Exp::Enc(bytes.clone())); } }
                if o.wshort { add("enc", f(), format!("s{}", r.next() >> 40), vec![], &args, Some(v.clone()), 0, Exp::Enc(bytes.clone())); }
                if o.wfault { for k in [r.below(bytes.len()), bytes.len() - 1] { add("enc", f(), format!("x{}", k), vec![], &args, Some(v.clone()), 0, Exp::EncFault(bytes.clone(), k)); } }
                if o.dec || o.suffix {
                    let mut data = bytes.clone();
                    if o.suffix { data.push(r.next() as u8); }
                    if let Some(e) = dec_exp(&args, &data) { add("dec", f(), f(), data.clone(), &args, None, 0, e.clone()); if o.asy { add("adec", f(), f(), data, &args, None, r.next() >> 8, e); } }
                }
                if o.chunk { add("dec", format!("r{}", r.next() >> 40), f(), bytes.clone(), &args, None, 0, Exp::Dec(v.clone(), bytes.len())); }
                if o.trunc { for k in [r.below(bytes.len()), bytes.len() - 1] { if let Some(e) = dec_exp(&args, &bytes[..k]) { add("dec", f(), f(), bytes[..k].to_vec(), &args, None, 0, e); } } }
                if o.badval {
                    for _ in 0..2 {
                        let bad = mutate_val(&mut r, &v, &v);
                        match codec.encode(decl, &args, &bad) {
                            Ok(b) => if b.len() < 700_000 { add("enc", f(), f(), vec![], &args, Some(bad), 0, Exp::Enc(b)); },
                            Err(CErr::Bad(w)) => { add("enc", f(), f(), vec![], &args, Some(bad), 0, Exp::EncErr(w)); *st.entry("inconsistent values").or_default() += 1; }
                            _ => (),
                        }
                    }
                }
            }
            vg.huge = false;
        }
    }
}

pub fn run(p: &Plan, rep: &mut Report) {
    let us = units(p, rep);
    let dir = rep.work.join("build");
    let b = build(&dir, &us, crate::run::Opts { asy: p.ops.asy, deps: p.deps, asan: false });
    rep.count("specs", us.len() as u64);
    for (k, (stage, msg)) in &b.failed {
        let u = us.iter().find(|u| &u.key == k).unwrap();
        rep.violation(&format!("the coder of a valid spec cannot be had ({}): {}", stage, msg), &format!("# spec {}\n{}", k, u.text), &format!("{}|{}", stage, k));
    }
    let (cmds, exps) = operations(p, &us, rep);
    let out = execute(&b, &cmds);
    let text: BTreeMap<&str, &str> = us.iter().map(|u| (u.key.as_str(), u.text.as_str())).collect();
    let mut seen = HashSet::new();
    for (i, g) in out.iter().enumerate() {
        if g == "unbuilt" { continue; }
        if g == "skipped" { rep.count("operations given up after hangs or crashes", 1); continue; }
        let c = &cmds[i];
        let u = c.key.split('.').next().unwrap();
        let kind = match &exps[i] { Exp::Enc(_) => "encodings compared", Exp::EncErr(_) => "refusals of inconsistent values", Exp::EncFault(..) => "encodings against failing writers", Exp::Dec(..) => "decodings compared", Exp::DecErr(_) => "refusals of invalid bytes", Exp::DecFault(_) => "decodings against failing readers", Exp::Rt(..) => "round trips", Exp::Info(_) => "value sets compared" };
        rep.count(kind, 1);
        let trivial = match &exps[i] { Exp::Enc(b) | Exp::EncFault(b, _) | Exp::Rt(_, b) => b.is_empty(), Exp::Dec(_, n) => *n == 0, _ => false };
        let line = c.line(0);
        let id = format!("{}|{}", text[u], line);
        rep.case(if trivial { None } else { Some(&id) });
        if rep.samples.len() < 4 && i % 997 == 13 { rep.sample(format!("{} => {}", clip(&line), clip(g))); }
        if let Some(v) = judge(c, &exps[i], g) {
            if v.starts_with("HARNESS") { crate::broken(&format!("{} in {}", v, line)); }
            if seen.insert((u.to_string(), c.kind, std::mem::discriminant(&exps[i]))) {
                rep.violation(&format!("{} {}: {}", c.key, c.kind, v), &format!("# op\n{}\n# expected\n{:?}\n# got\n{}\n# spec {}\n{}", line, exps[i], g, u, text[u]), &format!("{}|{}", c.key, c.kind));
            }
        }
    }
}
pub fn clip(s: &str) -> String { if s.len() > 240 { let mut n = 240; while !s.is_char_boundary(n) { n -= 1; } format!("{}…", &s[..n]) } else { s.to_string() } }
