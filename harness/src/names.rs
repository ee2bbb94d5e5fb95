//! C24: the same specs under names that hide one another.  Fields are renamed to names that generated code uses itself or
//! that other declarations use; arguments and constants get names of fields that are not visible where they are meant;
//! constants that every use of the name hides are added.  The oracle works on the spec before the renaming.
use crate::model::*;
use crate::rng::Rng;
use std::collections::{BTreeMap, BTreeSet};

const POOL: &[&str] = &["reader", "writer", "r_0", "r_1", "r_2", "r_3", "r_4", "r_5", "r_6", "r_9", "scratch", "raw", "size", "t_count", "peeked", "cursor", "chained", "position", "missing", "r", "r_len", "x", "value", "repr", "data", "buf", "len", "blen", "sum", "pad", "bits", "utf8", "utf16", "v32", "xadd", "gzip", "decode_sync", "encode_sync", "from_repr", "Root", "C0", "E0", "new", "result", "output", "input", "target", "item", "index", "vec", "core", "std", "mem", "slice", "tokio", "arg_a", "_a", "__", "_pad0", "clone", "A", "a", "aB", "a_b", "Vec", "Option", "String", "Result", "self_", "ALL", "ZERO", "le", "args", "i", "n", "t", "w", "s", "source", "stream", "ret", "inner"];

fn subs(e: &mut Expr) -> Vec<&mut Expr> {
    match e {
        Expr::Bin(_, a, b) | Expr::Elvis(a, b) | Expr::Idx(a, b) => vec![a, b],
        Expr::Neg(a) | Expr::Not(a) | Expr::BitNot(a) | Expr::Cast(a, _) | Expr::CastF(a, _) | Expr::Member(a, _) => vec![a],
        Expr::Tern(a, b, c) => vec![a, b, c],
        Expr::Call(_, a) => a.iter_mut().collect(),
        _ => vec![],
    }
}
fn each_name(e: &mut Expr, f: &mut dyn FnMut(&mut String)) {
    if let Expr::Field(n) | Expr::Arg(n) | Expr::Const(n) = e { f(n) }
    for s in subs(e) { each_name(s, f); }
}
type F<'a> = &'a mut dyn FnMut(&mut Expr, &BTreeSet<String>);
fn ty(t: &mut Ty, vis: &BTreeSet<String>, f: F) {
    match t {
        Ty::Arr(e, l) => { ty(e, vis, f); if let Len::Fixed(l) = l { f(l, vis) } }
        Ty::Ref(_, a) => for e in a { f(e, vis) },
        Ty::Cont(c) => cont(c, vis, f),
        Ty::Enum(_, _, vs) => for v in vs { if let EnumVal::Expr(e) = &mut v.1 { f(e, vis) } },
        Ty::Bitfield(_, _, vs) => for v in vs { if let Some(e) = &mut v.1 { f(e, vis) } },
        _ => (),
    }
}
fn field(d: &mut Field, vis: &BTreeSet<String>, f: F) {
    ty(&mut d.ty, vis, f);
    if let Some(c) = &mut d.cond { f(c, vis) }
    for x in &mut d.xforms { for a in &mut x.args { f(a, vis) } if let Some(c) = &mut x.cond { f(c, vis) } }
}
fn cont(c: &mut Container, outer: &BTreeSet<String>, f: F) {
    if let Some(l) = &mut c.len { f(l, outer) }
    let mut vis = outer.clone();
    for it in &mut c.items {
        match it { Item::Pad(e) => f(e, &vis), Item::Field(d) => { field(d, &vis, f); vis.insert(d.name.clone()); } }
    }
    // calculated fields know their siblings, wherever these stand
    for it in &mut c.items { if let Item::Field(d) = it { if let Some(e) = &mut d.calc { f(e, &vis) } } }
}
/// every expression of a declaration, with the fields that are visible there
fn walk(d: &mut Decl, f: F) {
    let none = BTreeSet::new();
    for a in &mut d.args { ty(&mut a.1, &none, f); if let Some(e) = &mut a.2 { f(e, &none) } }
    field(&mut d.field, &none, f);
}
fn fields(c: &mut Container, tagged: bool, out: &mut dyn FnMut(&mut String)) {
    for it in &mut c.items { if let Item::Field(d) = it { if !tagged { out(&mut d.name); } if let Ty::Cont(s) = &mut d.ty { fields(s, false, out) } } }
}
/// other names for fields; they must not be used in the declaration before
pub fn rename_fields(r: &mut Rng, s: &mut Spec) {
    for d in &mut s.decls {
        if r.chance(1, 4) { continue; }
        let mut used = BTreeSet::new();
        walk(d, &mut |e, _| each_name(e, &mut |n| { used.insert(n.clone()); }));
        for a in &d.args { used.insert(a.0.clone()); }
        for c in &s.consts { used.insert(c.0.clone()); }
        let mut map: BTreeMap<String, String> = BTreeMap::new();
        if let Ty::Cont(c) = &mut d.field.ty {
            let t = c.tagged;
            fields(c, t, &mut |n| { used.insert(n.clone()); });
            fields(c, t, &mut |n| { let m = *r.pick(POOL); if r.chance(3, 4) && used.insert(m.to_string()) { map.insert(n.clone(), m.to_string()); *n = m.to_string(); } });
        }
        walk(d, &mut |e, _| each_name(e, &mut |n| if let Some(m) = map.get(n) { *n = m.clone() }));
    }
}
#[derive(Default, Clone, Debug)]
pub struct Stat { pub args: u64, pub consts: u64, pub decoys: u64 }
/// the same spec, with other names for arguments and constants and with constants that are hidden wherever they are named
pub fn obscure(r: &mut Rng, spec: &Spec, st: &mut Stat) -> Spec {
    let mut s = spec.clone();
    let consts: Vec<String> = s.consts.iter().map(|c| c.0.clone()).collect();
    // (declaration, names used, fields visible)
    let mut uses: Vec<(usize, BTreeSet<String>, BTreeSet<String>)> = vec![];
    let mut all: Vec<Vec<String>> = vec![];
    for (i, d) in s.decls.iter_mut().enumerate() {
        let mut fs = vec![];
        if let Ty::Cont(c) = &mut d.field.ty { for it in &c.items { if let Item::Field(f) = it { fs.push(f.name.clone()); } } fields(c, true, &mut |n| fs.push(n.clone())); }
        all.push(fs);
        walk(d, &mut |e, v| { let mut n = BTreeSet::new(); each_name(e, &mut |x| { n.insert(x.clone()); }); uses.push((i, n, v.clone())); });
    }
    let mut an: BTreeMap<(usize, String), String> = BTreeMap::new();
    let mut cn: BTreeMap<String, String> = BTreeMap::new();
    for (i, d) in s.decls.iter().enumerate() { for a in &d.args { an.insert((i, a.0.clone()), a.0.clone()); } }
    for c in &consts { cn.insert(c.clone(), c.clone()); }
    let fine = |an: &BTreeMap<(usize, String), String>, cn: &BTreeMap<String, String>| uses.iter().all(|(i, n, v)| n.iter().all(|x| {
        if v.contains(x) { return true; }
        if let Some(y) = an.get(&(*i, x.clone())) { return !v.contains(y); }
        if let Some(y) = cn.get(x) { return !v.contains(y) && !an.iter().any(|((j, _), z)| j == i && z == y); }
        false
    }));
    if !fine(&an, &cn) { return s; }
    for (i, d) in s.decls.iter().enumerate() {
        for a in &d.args {
            for _ in 0..4 {
                let to = if r.chance(3, 4) && !all[i].is_empty() { r.pick(&all[i]).clone() } else if r.chance(1, 2) && !consts.is_empty() { r.pick(&consts).clone() } else { r.pick(POOL).to_string() };
                // a type that has itself as an argument type is never shadowed: types have names of their own
                if an.iter().any(|((j, _), z)| *j == i && *z == to) { continue; }
                let mut m = an.clone();
                m.insert((i, a.0.clone()), to);
                if fine(&m, &cn) { an = m; st.args += 1; break; }
            }
        }
    }
    let flat: Vec<String> = all.iter().flatten().cloned().chain(an.values().cloned()).collect();
    for c in &consts {
        for _ in 0..8 {
            let to = if flat.is_empty() || r.chance(1, 5) { r.pick(POOL).to_string() } else { r.pick(&flat).clone() };
            if cn.values().any(|z| *z == to) { continue; }
            let mut m = cn.clone();
            m.insert(c.clone(), to);
            if fine(&an, &m) { cn = m; st.consts += 1; break; }
        }
    }
    for (i, d) in s.decls.iter_mut().enumerate() {
        walk(d, &mut |e, v| each_name(e, &mut |n| if !v.contains(n) { if let Some(y) = an.get(&(i, n.clone())).or_else(|| cn.get(n)) { *n = y.clone() } }));
        for a in &mut d.args { a.0 = an[&(i, a.0.clone())].clone(); }
    }
    for c in &mut s.consts { each_name(&mut c.2, &mut |n| if let Some(y) = cn.get(n) { *n = y.clone() }); c.0 = cn[&c.0].clone(); }
    // hidden constants: whatever they say must not matter
    let mut taken: BTreeSet<String> = cn.values().cloned().collect();
    for n in flat {
        if r.chance(1, 2) || !taken.insert(n.clone()) { continue; }
        let (t, e) = match r.below(4) { 0 => (Ty::Bool, Expr::Bool(r.chance(1, 2))), _ => { let sc = *r.pick(&[U8, U8, U16, U32, U64, I32]); (Ty::Int(sc, false), Expr::Int(r.below(9) as u128, sc, true)) } };
        s.consts.push((n, t, e));
        st.decoys += 1;
    }
    s
}
