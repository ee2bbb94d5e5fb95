//! C15: the gzip and base64 transforms.  Compressed bytes have many forms, so the oracle decodes what was encoded with
//! a strict reference, and feeds other encodings of the same content, damaged and cut ones to the decoder.
use crate::campaign::{arg_vals, clip, mutate_bytes, Plan};
use crate::gen::VG;
use crate::model::*;
use crate::refcodec::*;
use crate::report::Report;
use crate::rng::Rng;
use crate::run::*;
use std::collections::{BTreeMap, HashSet};

const SPECS: &[(&str, &str)] = &[
    ("tail", "type Root = container { k: u16, d: u8[..] -> gzip, };"),
    ("b64", "type Root = container { k: u16, d: u8[..] -> base64, };"),
    ("both", "type Root = container { k: u16, d: u32[..] -> gzip -> base64, };"),
    ("rev", "type Root = container { k: u16, d: u8[..] -> base64 -> gzip, };"),
    ("twice", "type Root = container { d: u8[..] -> gzip -> gzip, };"),
    ("top", "type Root = container { k: u16, d: u8[k & 1023], } -> gzip;"),
    ("topb", "type Root = container { k: u16, d: u16[k & 1023], } -> base64;"),
    ("bound", "type Root = container { n: u32 = (blen(c) :> u32), c: container [n] { k: u8, d: u8[..] -> gzip, }, after: u16, };"),
    ("bound64", "type Root = container { n: u32 = (blen(c) :> u32), c: container [n] { k: u8, d: u8[..] -> base64, }, after: u16, };"),
    ("boundk", "type Root = container { n: u32 = (blen(c) :> u32), c: container [n] { k: u32, d: u8[k & 65535] -> gzip, }, after: u16, };"),
    ("boundk64", "type Root = container { n: u32 = (blen(c) :> u32), c: container [n] { k: u32, d: u8[k & 65535] -> base64, }, after: u16, };"),
    ("boundt", "type Root = container { n: u32 = (blen(c) :> u32), c: container [n] { d: utf8 -> gzip, }, after: u16, };"),
    ("cond", "type Root = container { f: u8, d: u8[..] -> gzip { (f & 1) != 0 } -> base64 { (f & 2) != 0 }, };"),
    ("fixed", "type Root = container { d: u8[4] -> gzip, };"),
    ("scalar", "type Root = container { d: u64 -> base64, };"),
    ("inner", "type In = container { a: u16, l: u16 = (len(s) :> u16), s: utf8(l), }; type Root = container { k: u8, e: In[k & 7], }; type Pack = container { r: Root, t: u8[..], } -> xadd -> gzip -> xxor(7);"),
    ("tagged", "type T(t: u8) = container +tagged_enum { A: u8[..] { t == 0 } -> gzip, B: u32 { t == 1 } -> base64, C: u16, }; type Root = container { t: u8, b: T(t), };"),
    ("calc", "type Root = container { k: u8, c: container { n: u16 = (len(d) :> u16), d: u16[n], } -> gzip, };"),
    ("many", "type P = container { n: u32 = (blen(c) :> u32), c: container [n] { d: u8[..] -> gzip, }, }; type Root = container { k: u8, p: P[k & 7], end: u8, };"),
];
pub fn catalogue() -> Vec<Unit> {
    SPECS.iter().map(|(n, b)| { let text = format!("{}import_ffi gzip as transform;\nimport_ffi base64 as transform;\n{}", crate::catalog::header(), b); let key = format!("gz_{}", n); Unit { spec: crate::mparse::parse_spec(&key, &text).unwrap_or_else(|e| crate::broken(&format!("{}: {}", n, e))), key, text } }).collect()
}

#[derive(Clone, Debug)]
enum Want {
    /// encoding succeeds and the bytes decode to this (but for the lengths of compressed content)
    Means(Val),
    /// decoding what was encoded gives this
    Back(Val),
    /// the same, or an error; what was delivered is a prefix of these bytes
    Fault(Val, Vec<u8>, usize),
    Refuse(&'static str),
    /// decoding succeeds with this
    Is(Val),
    /// decoding fails
    Fails(&'static str),
    /// decoding fails or gives this
    IsOr(Val),
    /// no claim
    Any,
}
struct J<'a> { c: Codec<'a>, decl: String, args: Vec<EV> }
impl<'a> J<'a> {
    /// what decoding these bytes has to do
    fn want(&self, b: &[u8]) -> Want {
        match self.c.decode(&self.decl, &self.args, b) {
            Ok((v, _)) => Want::Is(v),
            Err(CErr::Bad(w)) => {
                // the value may be complete before the damage
                match self.c.decode_lenient(&self.decl, &self.args, b) {
                    Ok((x, _)) => Want::IsOr(x),
                    Err(CErr::Bad(_)) => Want::Fails(w),
                    Err(_) => Want::Any,
                }
            }
            Err(_) => Want::Any,
        }
    }
}
/// more data in the byte arrays, most of it incompressible
fn grow(r: &mut Rng, v: &Val) -> Val {
    match v {
        Val::C(a) => {
            let mut a: Vec<(String, Val)> = a.iter().map(|(n, x)| (n.clone(), grow(r, x))).collect();
            let n = a.iter().filter_map(|x| if let Val::L(l) = &x.1 { Some(l.len() as u128) } else { None }).max();
            if let (Some(n), Some(k)) = (n, a.iter().position(|x| x.0 == "k")) { if n > 100 { if let Val::I(_) = a[k].1 { a[k].1 = Val::I(n); } } }
            Val::C(a)
        }
        Val::L(a) if a.iter().all(|x| matches!(x, Val::I(y) if *y < 256)) => {
            let n = match r.below(6) { 0 => 1023, 1 => 8192, 2 => 33000, 3 => 65535, 4 => 200 + r.below(1000), _ => 20000 + r.below(40000) };
            let flat = r.chance(1, 4);
            Val::L((0..n).map(|i| Val::I(if flat { (i % 7) as u128 } else { (r.next() & 255) as u128 })).collect())
        }
        Val::Some(x) => Val::Some(Box::new(grow(r, x))),
        Val::V(n, x) => Val::V(n.clone(), Box::new(grow(r, x))),
        x => x.clone(),
    }
}

fn has_blen(e: &Expr) -> bool {
    match e {
        Expr::Call(n, a) => n == "blen" || a.iter().any(has_blen),
        Expr::Bin(_, a, b) | Expr::Elvis(a, b) | Expr::Idx(a, b) => has_blen(a) || has_blen(b),
        Expr::Neg(a) | Expr::Not(a) | Expr::BitNot(a) | Expr::Cast(a, _) | Expr::CastF(a, _) | Expr::Member(a, _) => has_blen(a),
        Expr::Tern(a, b, c) => has_blen(a) || has_blen(b) || has_blen(c),
        _ => false,
    }
}
/// the value without the byte lengths it holds: content can be compressed in more than one way
fn blank(spec: &Spec, decl: &str, v: &Val) -> Val {
    fn ty(spec: &Spec, t: &Ty, v: &Val) -> Val {
        match (t, v) {
            (Ty::Ref(n, _), v) if !is_foreign(n) => blank(spec, n, v),
            (Ty::Arr(e, _), Val::L(l)) => Val::L(l.iter().map(|x| ty(spec, e, x)).collect()),
            (t, Val::Some(x)) => Val::Some(Box::new(ty(spec, t, x))),
            (Ty::Cont(c), Val::C(l)) => { let fl = flatten(c); Val::C(l.iter().map(|(n, x)| (n.clone(), match fl.iter().find(|f| &f.0.name == n) { Some((f, _)) if f.calc.as_ref().map_or(false, has_blen) => Val::None, Some((f, _)) => ty(spec, &f.ty, x), None => x.clone() })).collect()) }
            _ => v.clone(),
        }
    }
    match (spec.decl(decl).map(|d| &d.field.ty), v) {
        (_, Val::Some(x)) => Val::Some(Box::new(blank(spec, decl, x))),
        (Some(Ty::Cont(c)), Val::V(n, x)) if c.tagged => Val::V(n.clone(), Box::new(c.items.iter().find_map(|i| match i { Item::Field(f) if &f.name == n => Some(ty(spec, &f.ty, x)), _ => None }).unwrap_or(Val::None))),
        (Some(t), v) => ty(spec, t, v),
        _ => v.clone(),
    }
}

pub fn run(p: &Plan, rep: &mut Report) {
    let us = crate::campaign::units(p, rep);
    let dir = rep.work.join("build");
    let b = build(&dir, &us, Opts { asy: false, deps: true, asan: false });
    rep.count("specs", us.len() as u64);
    for (k, (stage, msg)) in &b.failed {
        let u = us.iter().find(|u| &u.key == k).unwrap();
        rep.violation(&format!("the coder of a valid spec cannot be had ({}): {}", stage, msg), &format!("# spec {}\n{}", k, u.text), "");
    }
    // values, encoded plainly first: the faults need to know how many bytes there are
    struct V<'a> { u: &'a Unit, decl: &'a str, args: Vec<EV>, val: Val, alt: Vec<u8>, bad: Vec<(Val, Result<Vec<u8>, &'static str>)> }
    let parts: Vec<Vec<V>> = std::thread::scope(|s| {
        let hs: Vec<_> = us.chunks((us.len() / 8).max(1)).map(|ch| std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(s, move || {
            let mut vs = vec![];
            for u in ch {
                let codec = Codec { spec: &u.spec };
                for d in u.spec.decls.iter().filter(|d| matches!(&d.field.ty, Ty::Cont(_)) || !d.field.xforms.is_empty()) {
                    let decl = d.field.name.as_str();
                    let mut r = Rng::derive(p.seed, &format!("gz/{}.{}", u.key, decl), 7);
                    let mut vr = Rng::derive(p.seed, &format!("gz/{}.{}", u.key, decl), 8);
                    let mut vg = VG::new(&u.spec, &mut vr);
                    let mut prev: Option<Val> = None;
                    for vi in 0..p.vals {
                        vg.big = vi % 3 == 2;
                        let args = vg.args(d);
                        let (mut val, _) = match vg.gen(decl, &args) { Some(x) => x, None => continue };
                        if u.key.starts_with("gz_") && vi % 4 == 3 { let g = grow(&mut r, &val); if let Ok(b) = codec.encode(decl, &args, &g) { if let Ok((g2, n)) = codec.decode(decl, &args, &b) { if n == b.len() { val = g2; } } } }
                        set_alt(1 + r.next() % 1000);
                        let alt = codec.encode(decl, &args, &val).unwrap_or_default();
                        set_alt(0);
                        let mut bad = vec![];
                        if let Some(pv) = &prev { for _ in 0..3 { let m = crate::campaign::mutate_val(&mut r, &val, pv); match codec.encode(decl, &args, &m) { Ok(b) => bad.push((m, Ok(b))), Err(CErr::Bad(w)) => bad.push((m, Err(w))), _ => () } } }
                        prev = Some(val.clone());
                        vs.push(V { u, decl, args, val, alt, bad });
                    }
                }
            }
            vs
        }).unwrap()).collect();
        hs.into_iter().map(|h| h.join().expect("values")).collect()
    });
    let vs: Vec<V> = parts.into_iter().flatten().collect();
    rep.count("values", vs.len() as u64);
    let f = || "f".to_string();
    let mut cmds: Vec<Cmd> = vec![];
    let mut wants: Vec<(usize, Want)> = vec![];
    let push = |cmds: &mut Vec<Cmd>, wants: &mut Vec<(usize, Want)>, i: usize, kind: &'static str, rm: String, wm: String, data: Vec<u8>, val: Option<Val>, w: Want| {
        if let Want::Any = w { return; }
        cmds.push(Cmd { key: format!("{}.{}", vs[i].u.key, vs[i].decl), kind, rmode: rm, wmode: wm, seed: 0, data, args: arg_vals(&vs[i].args), val });
        wants.push((i, w));
    };
    for (i, v) in vs.iter().enumerate() { push(&mut cmds, &mut wants, i, "enc", f(), f(), vec![], Some(v.val.clone()), Want::Means(v.val.clone())); }
    let first = execute(&b, &cmds);
    judge(rep, &us, &vs.iter().map(|v| (v.u, v.decl, v.args.clone())).collect::<Vec<_>>(), &cmds, &wants, &first);
    let bytes: Vec<Option<Vec<u8>>> = first.iter().map(|g| { let w: Vec<&str> = g.split(' ').collect(); if w[0] == "ok" { Some(if w[1] == "-" { vec![] } else { unhex(w[1]) }) } else { None } }).collect();
    let (mut c2, mut w2) = (vec![], vec![]);
    let parts: Vec<(Vec<Cmd>, Vec<(usize, Want)>)> = std::thread::scope(|s| {
        let idx: Vec<usize> = (0..vs.len()).collect();
        let n = (idx.len() / 8).max(1);
        let hs: Vec<_> = idx.chunks(n).map(|ch| { let (ch, vs, bytes, push) = (ch.to_vec(), &vs, &bytes, &push); std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(s, move || {
            let (mut c2, mut w2) = (vec![], vec![]);
            for i in ch {
                let v = &vs[i];
                let out = match &bytes[i] { Some(b) => b, None => continue };
                let j = J { c: Codec { spec: &v.u.spec }, decl: v.decl.to_string(), args: v.args.clone() };
                let mut r = Rng::derive(p.seed, &format!("gz2/{}.{}", v.u.key, v.decl), i as u64);
                let big = out.len() > 3000;
                push(&mut c2, &mut w2, i, "enc", f(), format!("s{}", r.next() >> 40), vec![], Some(v.val.clone()), Want::Means(v.val.clone()));
                push(&mut c2, &mut w2, i, "rt", f(), f(), vec![], Some(v.val.clone()), Want::Back(v.val.clone()));
                let mut at: Vec<usize> = (0..if big { 2 } else { 6 }).map(|_| r.below(out.len() + 1)).collect();
                at.extend([0, out.len().saturating_sub(1), out.len().saturating_sub(2), out.len().saturating_sub(9), out.len()]);
                for k in at { let z = if r.chance(1, 2) { "x" } else { "z" }; push(&mut c2, &mut w2, i, "enc", f(), format!("{}{}", z, k), vec![], Some(v.val.clone()), Want::Fault(v.val.clone(), out.clone(), k)); }
                for (m, b) in &v.bad { push(&mut c2, &mut w2, i, "enc", f(), f(), vec![], Some(m.clone()), match b { Ok(b) => match j.c.decode(v.decl, &v.args, b) { Ok((v, n)) if n == b.len() => Want::Means(v), _ => Want::Any }, Err(w) => Want::Refuse(w) }); }
                for data in [out, &v.alt] {
                    if data.is_empty() && !out.is_empty() { continue; }
                    let want = j.want(data);
                    for rm in ["f".to_string(), "c1".into(), format!("c{}", 2 + r.below(60)), format!("r{}", r.next() >> 40)] { if big && rm == "c1" { continue; } push(&mut c2, &mut w2, i, "dec", rm, f(), data.clone(), None, want.clone()); }
                    if data.is_empty() { continue; }
                    let n = data.len();
                    let mut at: Vec<usize> = (0..if big { 2 } else { 6 }).map(|_| r.below(n)).collect();
                    at.extend([n - 1, n.saturating_sub(2), n.saturating_sub(8), n.saturating_sub(9), 0]);
                    for k in at {
                        let want = j.want(&data[..k]);
                        if r.chance(1, 2) { push(&mut c2, &mut w2, i, "dec", if r.chance(1, 3) && !big { "c1".into() } else { f() }, f(), data[..k].to_vec(), None, want); }
                        else { // an error instead of the rest
                            let want = match want { Want::Is(v) => Want::IsOr(v), w => w };
                            push(&mut c2, &mut w2, i, "dec", format!("x{}", k), f(), data.clone(), None, want);
                        }
                    }
                    // what comes behind is no part of it, whether it looks like more of the same or not
                    for k in 0..2 {
                        let mut m = data.clone();
                        if k == 0 { m.extend_from_slice(data); } else { for _ in 0..1 + r.below(20) { m.push(r.next() as u8); } }
                        let want = j.want(&m);
                        push(&mut c2, &mut w2, i, "dec", f(), f(), m, None, want);
                    }
                    for _ in 0..if big { 2 } else { 6 } {
                        let m = if r.chance(1, 2) { mutate_bytes(&mut r, data) } else { let mut m = data.clone(); let i = r.below(n); m[i] ^= 1 << r.below(8); m };
                        let want = j.want(&m);
                        push(&mut c2, &mut w2, i, "dec", f(), f(), m, None, want);
                    }
                }
            }
            (c2, w2)
        }).unwrap() }).collect();
        hs.into_iter().map(|h| h.join().expect("operations")).collect()
    });
    for (c, w) in parts { c2.extend(c); w2.extend(w); }
    let second = execute(&b, &c2);
    judge(rep, &us, &vs.iter().map(|v| (v.u, v.decl, v.args.clone())).collect::<Vec<_>>(), &c2, &w2, &second);
}

fn judge(rep: &mut Report, _us: &[Unit], vs: &[(&Unit, &str, Vec<EV>)], cmds: &[Cmd], wants: &[(usize, Want)], out: &[String]) {
    let mut seen = HashSet::new();
    let mut st: BTreeMap<&str, u64> = BTreeMap::new();
    for (k, g) in out.iter().enumerate() {
        if g == "unbuilt" || g == "skipped" { continue; }
        let (u, decl, args) = &vs[wants[k].0];
        let j = J { c: Codec { spec: &u.spec }, decl: decl.to_string(), args: args.clone() };
        let c = &cmds[k];
        let line = c.line(0);
        rep.case(Some(&format!("{}|{}", u.text, line)));
        if k % 997 == 13 { rep.sample(format!("{} => {}", clip(&line), clip(g))); }
        let w: Vec<&str> = g.splitn(6, ' ').collect();
        let tail = w.get(5).copied().unwrap_or("");
        let ok = w[0] == "ok";
        let got = || if w[1] == "-" { vec![] } else { unhex(w[1]) };
        let meaning = |b: &[u8], v: &Val| match j.c.decode(decl, args, b) { Ok((x, n)) => if blank(&u.spec, decl, &x) != blank(&u.spec, decl, v) { Some(format!("the bytes {} mean {} instead of {}", clip(&hex(b)), clip(&x.text()), clip(&v.text()))) } else if n != b.len() { Some("bytes after the end of the encoding".to_string()) } else { None }, Err(e) => Some(format!("the bytes {} are no encoding: {:?}", clip(&hex(b)), e)) };
        let bad = match w[0] {
            "lost" | "harness" | "" => crate::broken(&format!("{} in {}", g, line)),
            "hang" => Some("the coder did not stop".to_string()),
            "crash" => Some(format!("the process died: {}", g)),
            "panic" => Some(format!("panic: {}", tail)),
            _ => {
                let peak: usize = w.get(4).and_then(|x| x.parse().ok()).unwrap_or(0);
                // a compressor has tables of its own; what it inflates to counts as input
                let lim = (16 << 20) + 600 * (c.data.len() + inflated());
                if c.kind == "dec" && peak > lim { Some(format!("decoding {} bytes allocated {}", c.data.len(), peak)) } else {
                    match &wants[k].1 {
                        Want::Means(v) => { *st.entry("encodings decoded by the reference").or_default() += 1; if !ok { Some(format!("a valid value is refused: {}", tail)) } else { meaning(&got(), v) } }
                        Want::Back(v) => {
                            *st.entry("round trips").or_default() += 1;
                            if !ok { Some(format!("round trip fails: {}", tail)) } else { meaning(&got(), v).or_else(|| match j.c.decode(decl, args, &got()) { Ok((x, _)) if x.text() != tail => Some(format!("value differs: got {} want {}", clip(tail), clip(&x.text()))), _ => None }) }
                        }
                        Want::Fault(v, b, k) => {
                            *st.entry("encodings against failing writers").or_default() += 1;
                            let o = got();
                            if ok { if *k < b.len() { Some(format!("the writer failed after {} of {} bytes, but encoding reports success", k, b.len())) } else { meaning(&o, v) } } else if *k >= b.len() { Some(format!("the writer accepted everything but encoding fails: {}", tail)) }
                            else if !b.starts_with(&o) { Some(format!("bytes delivered before the fault are not a prefix of the encoding: {} of {}", clip(&hex(&o)), clip(&hex(b)))) } else { None }
                        }
                        Want::Refuse(why) => { *st.entry("refusals of inconsistent values").or_default() += 1; if ok { Some(format!("an inconsistent value ({}) is encoded without error", why)) } else { None } }
                        Want::Is(v) => { *st.entry("decodings compared").or_default() += 1; if !ok { Some(format!("valid bytes are refused: {}", tail)) } else if tail != v.text() { Some(format!("value differs: got {} want {}", clip(tail), clip(&v.text()))) } else { None } }
                        Want::Fails(why) => { *st.entry("refusals of damaged bytes").or_default() += 1; if ok { Some(format!("damaged bytes ({}) are accepted as {}", why, clip(tail))) } else { None } }
                        Want::IsOr(v) => { *st.entry("decodings of bytes damaged after the value").or_default() += 1; if ok && tail != v.text() { Some(format!("value differs: got {} want {} or an error", clip(tail), clip(&v.text()))) } else { None } }
                        Want::Any => None,
                    }
                }
            }
        };
        if let Some(v) = bad { if seen.insert((u.key.clone(), c.kind, std::mem::discriminant(&wants[k].1))) {
            rep.violation(&format!("{} {}: {}", c.key, c.kind, v), &format!("# op\n{}\n# expected\n{:?}\n# got\n{}\n# spec {}\n{}", line, wants[k].1, g, u.key, u.text), "");
        } }
    }
    for (k, n) in st { rep.count(k, n); }
}
