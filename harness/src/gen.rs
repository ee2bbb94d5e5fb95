//! Random specs of the supported language, with per-property emphasis.
use crate::model::*;
use crate::rng::Rng;
use std::collections::HashMap;

/// relative weights of the features a spec may use (0 = never)
#[derive(Clone, Debug)]
pub struct Prof { pub cond: usize, pub arr: usize, pub strs: usize, pub vari: usize, pub xform: usize, pub blen: usize, pub calc: usize, pub nest: usize, pub tagged: usize, pub enums: usize, pub args: usize, pub pad: usize, pub consts: usize, pub le: usize, pub stream: usize, pub gz: bool }
pub fn base() -> Prof { Prof { cond: 2, arr: 3, strs: 2, vari: 2, xform: 1, blen: 1, calc: 2, nest: 2, tagged: 2, enums: 2, args: 2, pad: 1, consts: 1, le: 2, stream: 1, gz: false } }
pub fn prof(name: &str) -> Prof {
    let mut p = base();
    match name {
        "cond" => { p.cond = 9; p.tagged = 6; p.nest = 3; p.enums = 4; }
        "arr" => { p.arr = 12; p.nest = 1; }
        "strs" => { p.strs = 9; p.vari = 9; }
        "xform" => { p.xform = 9; p.stream = 4; }
        "gz" => { p.xform = 9; p.stream = 2; p.blen = 5; p.gz = true; }
        "blen" => { p.blen = 9; p.calc = 6; p.pad = 4; p.nest = 5; }
        "calc" => { p.calc = 10; p.consts = 4; p.enums = 4; }
        "args" => { p.args = 9; p.tagged = 5; p.consts = 3; }
        "enums" => { p.enums = 12; p.arr = 4; p.cond = 3; }
        "prim" => { p.le = 6; p.arr = 6; }
        _ => (),
    }
    p
}

#[derive(Clone, Debug, PartialEq)]
enum VK { Int(Sc), Bool, Enum(String), Bits(String), Arr(Sc), Opq, Str, OptInt(Sc) }
#[derive(Clone, Debug)]
struct Var { name: String, k: VK }
#[derive(Clone, Debug, Default)]
struct Info { min: usize, tail: bool }

pub struct G<'a> { r: &'a mut Rng, s: Spec, n: usize, p: Prof, info: HashMap<String, Info>, enums: Vec<String>, bits: Vec<String>, refs: Vec<String>, budget: usize }

fn b<T>(x: T) -> Box<T> { Box::new(x) }
fn lit(v: u128, sc: Sc) -> Expr { Expr::Int(v, sc, true) }
fn f(n: &str) -> Expr { Expr::Field(n.to_string()) }

pub fn gen_spec(r: &mut Rng, name: &str, p: Prof) -> Spec {
    let mut g = G { r, s: Spec::default(), n: 0, p, info: HashMap::new(), enums: vec![], bits: vec![], refs: vec![], budget: 26 };
    g.s.name = name.to_string();
    g.s.ffi_types = FOREIGN.iter().map(|x| x.to_string()).collect();
    g.s.ffi_functions = ["sum", "pad", "bits"].iter().map(|x| x.to_string()).collect();
    g.s.ffi_transforms = ["xadd", "xxor", "xrot", "hexy", "sxor", "sadd"].iter().map(|x| x.to_string()).collect();
    if g.p.gz { g.s.ffi_transforms.extend(["gzip".to_string(), "base64".to_string()]); }
    for i in 0..g.r.below(1 + g.p.consts.min(4)) { let sc = *g.r.pick(&[U8, U16, U32, U64, I32]); let v = g.r.below(5) as u128 + 1; g.s.consts.push((format!("K{}", i), Ty::Int(sc, false), Expr::Int(v, sc, g.r.chance(1, 2)))); }
    for i in 0..1 + g.r.below(2) { g.enum_decl(format!("E{}", i)); }
    if g.r.chance(g.p.enums.min(8), 10) { g.bits_decl("B0".into()); }
    let n = 2 + g.r.below(3);
    for i in 0..n { g.budget = 10; g.decl(format!("C{}", i)); }
    if g.r.chance(g.p.tagged.min(9), 10) { g.budget = 10; g.tagged("T0".into()); }
    g.budget = 16;
    g.container_decl("Root".into());
    g.s
}

impl<'a> G<'a> {
    fn w(&mut self, num: usize) -> bool { self.r.chance(num.min(12), 14) }
    fn name(&mut self, p: &str) -> String { self.n += 1; format!("{}{}", p, self.n) }
    fn sc(&mut self) -> Sc { *self.r.pick(&[U8, U8, U16, U32, U64, U128, I8, I16, I32, I64, I128]) }
    fn le(&mut self, sc: Sc) -> bool { sc.bytes > 1 && self.r.chance(self.p.le.min(6), 8) }
    fn push(&mut self, field: Field, args: Vec<(String, Ty, Option<Expr>)>, info: Info) { self.info.insert(field.name.clone(), info); self.s.decls.push(Decl { field, args }); }

    fn enum_decl(&mut self, name: String) {
        let sc = *self.r.pick(&[U8, U8, U16, U32, I8, I16, U64, I32]);
        let le = self.le(sc);
        let mut vs = vec![];
        let mut next = 0u128;
        let n = 1 + self.r.below(5);
        for i in 0..n {
            let v = if i == 0 || self.r.chance(1, 3) { next += self.r.below(4) as u128; let e = self.const_expr(next, sc); next += 1; EnumVal::Expr(e) } else { next += 1; EnumVal::Auto };
            vs.push((format!("V{}", i), v));
        }
        if self.r.chance(1, 4) { vs.push(("Other".into(), EnumVal::Default)); }
        self.push(Field { name: name.clone(), ty: Ty::Enum(sc, le, vs), calc: None, cond: None, xforms: vec![] }, vec![], Info { min: sc.bytes as usize, tail: false });
        self.enums.push(name.clone());
        self.refs.push(name);
    }
    /// an expression over constants only, with the given value
    fn const_expr(&mut self, v: u128, sc: Sc) -> Expr {
        let sfx = self.r.chance(1, 2);
        match self.r.below(6) {
            0 if v > 1 => Expr::Bin(Op::Add, b(Expr::Int(v - 1, sc, true)), b(Expr::Int(1, sc, sfx))),
            1 if v % 2 == 0 => Expr::Bin(Op::Mul, b(Expr::Int(v / 2, sc, true)), b(Expr::Int(2, sc, sfx))),
            2 if v.is_power_of_two() => Expr::Bin(Op::Shl, b(Expr::Int(1, sc, true)), b(Expr::Int(v.trailing_zeros() as u128, sc, sfx))),
            3 => Expr::Bin(Op::Xor, b(Expr::Int(v ^ 5, sc, true)), b(Expr::Int(5, sc, sfx))),
            _ => Expr::Int(v, sc, sfx),
        }
    }
    fn bits_decl(&mut self, name: String) {
        let sc = *self.r.pick(&[U8, U8, U16, U32, U64, I8, I16, I64]);
        // literals do not reach the sign
        let top = sc.bits() - sc.signed as u32;
        let le = self.le(sc);
        let mut vs = vec![];
        let mut bit = self.r.below(2) as u32;
        let n = 1 + self.r.below(6);
        for i in 0..n {
            if bit >= top { break; }
            // a flag may have several bits, and share them
            if self.r.chance(1, 5) && bit + 3 < top {
                let mask = *self.r.pick(&[3u128, 5, 7, 6, 0xd]);
                let e = self.const_expr(mask << bit, sc);
                vs.push((format!("F{}", i), Some(e)));
                bit += 1 + self.r.below(3) as u32;
                if i + 1 < n && self.r.chance(1, 2) { continue; }
                break;
            }
            let after_wide = vs.last().map_or(false, |_| bit_values(&self.s, sc, &vs).ok().and_then(|v| v.last().map(|x| x.1 << 1 != 1u128 << bit)).unwrap_or(true));
            let v = if i == 0 || after_wide || self.r.chance(1, 3) { let e = self.const_expr(1u128 << bit, sc); Some(e) } else { None };
            vs.push((format!("F{}", i), v));
            bit += 1;
            if self.r.chance(1, 4) && bit + 1 < top { bit += 1; if let Some(x) = vs.last_mut() { if x.1.is_none() { bit -= 1; } else { bit -= 1; } } }
        }
        self.push(Field { name: name.clone(), ty: Ty::Bitfield(sc, le, vs), calc: None, cond: None, xforms: vec![] }, vec![], Info { min: sc.bytes as usize, tail: false });
        self.bits.push(name.clone());
        self.refs.push(name);
    }
    fn decl(&mut self, name: String) {
        match self.r.below(8) {
            0 => { // alias / newtype
                let (ty, k, min) = self.simple_ty(&[]);
                let _ = k;
                let mut fl = Field { name: name.clone(), ty, calc: None, cond: None, xforms: vec![] };
                let mut tail = false;
                if self.r.chance(self.p.stream.min(4), 8) { fl.xforms.push(self.xform(true, &[])); }
                else if self.r.chance(self.p.xform.min(9), 20) { fl.xforms.push(self.xform(false, &[])); tail = true; }
                self.push(fl, vec![], Info { min, tail });
                self.refs.push(name);
            }
            1 | 2 if self.w(self.p.args + 3) => { // parameterised container
                let mut args = vec![];
                let mut scope = vec![];
                for i in 0..1 + self.r.below(2) {
                    let an = format!("a{}_{}", i, self.n);
                    if self.r.chance(1, 4) && !self.enums.is_empty() { let e = self.r.pick(&self.enums).clone(); scope.push(Var { name: an.clone(), k: VK::Enum(e.clone()) }); args.push((an, Ty::Ref(e, vec![]), None)); }
                    else { let sc = *self.r.pick(&[U8, U16, U32, U64]); scope.push(Var { name: an.clone(), k: VK::Int(sc) }); args.push((an, Ty::Int(sc, false), None)); }
                }
                if self.r.chance(1, 4) { let an = format!("d_{}", self.n); args.push((an.clone(), Ty::Int(U8, false), Some(lit(self.r.below(4) as u128, U8)))); scope.push(Var { name: an, k: VK::Int(U8) }); }
                let (c, i) = self.container(&mut scope, 2 , true);
                self.push(Field { name: name.clone(), ty: Ty::Cont(c), calc: None, cond: None, xforms: vec![] }, args, i);
                self.refs.push(name);
            }
            3 if self.r.chance(1, 2) => { // recursive through an array
                let sc = *self.r.pick(&[U8, U16]);
                let nm = self.name("n");
                let mut items = vec![];
                let vn = self.name("v");
                items.push(Item::Field(Field { name: vn, ty: Ty::Int(self.sc(), false), calc: None, cond: None, xforms: vec![] }));
                let kn = self.name("k");
                items.push(Item::Field(Field { name: nm.clone(), ty: Ty::Int(sc, false), calc: Some(Expr::Cast(b(Expr::Call("len".into(), vec![f(&kn)])), sc)), cond: None, xforms: vec![] }));
                items.push(Item::Field(Field { name: kn, ty: Ty::Arr(b(Ty::Ref(name.clone(), vec![])), Len::Fixed(f(&nm))), calc: None, cond: None, xforms: vec![] }));
                self.push(Field { name: name.clone(), ty: Ty::Cont(Container { len: None, tagged: false, items }), calc: None, cond: None, xforms: vec![] }, vec![], Info { min: 2, tail: false });
                self.refs.push(name);
            }
            _ => self.container_decl(name),
        }
    }
    fn container_decl(&mut self, name: String) {
        let n = if name == "Root" { 3 + self.r.below(4) } else { 1 + self.r.below(4) };
        let mut scope = vec![];
        let tail_ok = name != "Root" || self.r.chance(3, 4);
        let (c, mut i) = self.container(&mut scope, n, tail_ok);
        let mut xforms = vec![];
        if self.r.chance(self.p.xform.min(8), 24) { i.tail = true; for _ in 0..1 + self.r.below(3) { xforms.push(self.xform(false, &[])); } }
        self.push(Field { name: name.clone(), ty: Ty::Cont(c), calc: None, cond: None, xforms }, vec![], i);
        if name != "Root" { self.refs.push(name); }
    }
    fn tagged(&mut self, name: String) {
        let by_enum = !self.enums.is_empty() && self.r.chance(1, 2);
        let mut args = vec![];
        let mut scope = vec![];
        let en = if by_enum { Some(self.enums[0].clone()) } else { None };
        let an = self.name("t");
        match &en { Some(e) => { args.push((an.clone(), Ty::Ref(e.clone(), vec![]), None)); scope.push(Var { name: an.clone(), k: VK::Enum(e.clone()) }); } None => { args.push((an.clone(), Ty::Int(U8, false), None)); scope.push(Var { name: an.clone(), k: VK::Int(U8) }); } }
        if self.r.chance(1, 3) { let an = self.name("m"); args.push((an.clone(), Ty::Int(U16, false), None)); scope.push(Var { name: an, k: VK::Int(U16) }); }
        let vals: Vec<Expr> = match &en { Some(e) => self.variants(e).into_iter().map(|v| Expr::Variant(e.clone(), v)).collect(), None => (0..4).map(|i| lit(i, U8)).collect() };
        let mut items = vec![];
        let mut min = usize::MAX;
        let mut tail = false;
        let nv = 1 + self.r.below(vals.len().min(4));
        for (i, v) in vals.iter().take(nv).enumerate() {
            let cond = if i > 0 && i + 1 == nv && self.r.chance(1, 3) { None } else { Some(Expr::Bin(Op::Eq, b(f(&an)), b(v.clone()))) };
            let vn = format!("X{}", i);
            let (ty, m) = if self.r.chance(1, 3) { let (c, i) = self.container(&mut scope.clone(), 2, false); tail |= i.tail; (Ty::Cont(c), i.min) } else { let (ty, _, m) = self.simple_ty(&scope); (ty, m) };
            let mut xforms = vec![];
            if self.r.chance(self.p.xform.min(8), 16) { xforms.push(self.xform(false, &[])); tail = true; }
            min = min.min(m);
            items.push(Item::Field(Field { name: vn, ty, calc: None, cond, xforms }));
        }
        self.push(Field { name: name.clone(), ty: Ty::Cont(Container { len: None, tagged: true, items }), calc: None, cond: None, xforms: vec![] }, args, Info { min, tail });
        self.refs.push(name);
    }
    fn variants(&self, e: &str) -> Vec<String> { match &self.s.decl(e).unwrap().field.ty { Ty::Enum(_, _, vs) => vs.iter().filter(|v| v.1 != EnumVal::Default).map(|v| v.0.clone()).collect(), _ => vec![] } }
    fn xform(&mut self, streaming: bool, scope: &[Var]) -> Xform {
        let name = if streaming { *self.r.pick(&["sxor", "sadd"]) } else if self.p.gz && self.r.chance(3, 4) { *self.r.pick(&["gzip", "gzip", "base64"]) } else { *self.r.pick(&["xadd", "xxor", "xrot", "hexy", "sadd", "sxor"]) };
        let mut args = vec![];
        let a = |s: &mut Self| { let v = s.r.below(255) as u128 + 1; if s.r.chance(1, 3) { if let Some(v) = s.pick_int(scope, |sc| sc == U8) { return f(&v.0); } } lit(v, U8) };
        match name { "hexy" | "gzip" | "base64" => (), "xadd" => if self.r.chance(1, 2) { args.push(a(self)) }, "xrot" => { args.push(a(self)); if self.r.chance(1, 2) { args.push(a(self)); } } _ => args.push(a(self)) }
        Xform { name: name.to_string(), args, cond: None }
    }
    fn pick_int(&mut self, scope: &[Var], ok: impl Fn(Sc) -> bool) -> Option<(String, Sc)> {
        let c: Vec<(String, Sc)> = scope.iter().filter_map(|v| match v.k { VK::Int(sc) if ok(sc) => Some((v.name.clone(), sc)), _ => None }).collect();
        if c.is_empty() { None } else { Some(self.r.pick(&c).clone()) }
    }
    /// small length expression of type u64 (or implicitly widened to it)
    fn len_expr(&mut self, scope: &[Var]) -> Expr {
        if self.r.chance(1, 4) { return lit(self.r.below(5) as u128, U64); }
        if self.r.chance(1, 10) { return Expr::Int(self.r.below(5) as u128, U64, false); }
        if !self.s.consts.is_empty() && self.r.chance(self.p.consts.min(6), 12) {
            let c: Vec<String> = self.s.consts.iter().filter(|c| matches!(&c.1, Ty::Int(sc, _) if !sc.signed)).map(|c| c.0.clone()).collect();
            if !c.is_empty() { return f(&self.r.pick(&c).clone()); }
        }
        if let Some((n, sc)) = self.pick_int(scope, |sc| sc.bytes <= 8) {
            let v = if sc.signed { Expr::Cast(b(f(&n)), U64) } else { f(&n) };
            let sc = if sc.signed { U64 } else { sc };
            return match self.r.below(9) {
                0 => Expr::Bin(Op::Add, b(v), b(lit(1, sc))),
                1 => Expr::Bin(Op::And, b(v), b(lit(3, sc))),
                2 => Expr::Bin(Op::Mul, b(Expr::Cast(b(v), U64)), b(lit(2, U64))),
                3 => Expr::Bin(Op::Mod, b(v), b(lit(4, sc))),
                4 => Expr::Tern(b(Expr::Bin(Op::Gt, b(v), b(lit(2, sc)))), b(lit(1, U64)), b(lit(3, U64))),
                5 => Expr::Bin(Op::Shr, b(v), b(lit(1, sc))),
                _ => v,
            };
        }
        for v in scope { if let VK::OptInt(sc) = v.k { if sc.bytes <= 8 && !sc.signed && self.r.chance(1, 3) { return Expr::Elvis(b(f(&v.name)), b(lit(2, sc))); } } }
        let arrs: Vec<&Var> = scope.iter().filter(|v| matches!(v.k, VK::Arr(_) | VK::Str)).collect();
        if !arrs.is_empty() && self.r.chance(1, 2) { let n = self.r.pick(&arrs).name.clone(); return Expr::Call("len".into(), vec![f(&n)]); }
        lit(self.r.below(5) as u128, U64)
    }
    fn bool_expr(&mut self, scope: &[Var], d: usize) -> Expr {
        if d > 0 && self.r.chance(1, 3) {
            let (x, y) = (self.bool_expr(scope, d - 1), self.bool_expr(scope, d - 1));
            return match self.r.below(3) { 0 => Expr::Bin(Op::LAnd, b(x), b(y)), 1 => Expr::Bin(Op::LOr, b(x), b(y)), _ => Expr::Not(b(x)) };
        }
        if scope.is_empty() { return Expr::Bool(self.r.chance(2, 3)); }
        let v = self.r.pick(scope).clone();
        match &v.k {
            VK::Int(sc) => {
                let op = *self.r.pick(&[Op::Eq, Op::Ne, Op::Lt, Op::Le, Op::Gt, Op::Ge]);
                let sfx = self.r.chance(2, 3);
                let l = Expr::Int(self.r.below(6) as u128, *sc, sfx);
                let x = match self.r.below(5) { 0 => Expr::Bin(Op::And, b(f(&v.name)), b(lit(3, *sc))), 1 if sc.bits() > 8 => Expr::Bin(Op::Shr, b(f(&v.name)), b(lit(self.r.below(4) as u128, *sc))), 2 => Expr::Bin(Op::Xor, b(f(&v.name)), b(lit(1, *sc))), _ => f(&v.name) };
                if self.r.chance(1, 6) && sfx { Expr::Bin(op, b(l), b(x)) } else { Expr::Bin(op, b(x), b(l)) }
            }
            VK::OptInt(sc) => Expr::Bin(Op::Eq, b(Expr::Elvis(b(f(&v.name)), b(lit(1, *sc)))), b(lit(1, *sc))),
            VK::Bool => f(&v.name),
            VK::Enum(e) => { let vs = self.variants(e); let x = self.r.pick(&vs).clone(); let op = if self.r.chance(2, 3) { Op::Eq } else { Op::Ne }; Expr::Bin(op, b(f(&v.name)), b(Expr::Variant(e.clone(), x))) }
            VK::Bits(e) => { let vs = match &self.s.decl(e).unwrap().field.ty { Ty::Bitfield(_, _, vs) => vs.iter().map(|v| v.0.clone()).collect::<Vec<_>>(), _ => vec![] }; let x = self.r.pick(&vs).clone(); Expr::Member(b(f(&v.name)), x) }
            VK::Arr(_) | VK::Str => Expr::Bin(*self.r.pick(&[Op::Gt, Op::Eq, Op::Ne]), b(Expr::Call("len".into(), vec![f(&v.name)])), b(lit(self.r.below(3) as u128, U64))),
            VK::Opq => Expr::Bool(true),
        }
    }
    /// non-tail type without nested declarations
    fn simple_ty(&mut self, scope: &[Var]) -> (Ty, VK, usize) {
        let t = self.r.below(10 + self.p.strs + self.p.vari + self.p.enums + self.p.arr);
        if t < 7 { let sc = self.sc(); return (Ty::Int(sc, self.le(sc)), VK::Int(sc), sc.bytes as usize); }
        if t < 10 { return match t { 7 => (Ty::F32, VK::Opq, 4), 8 => (Ty::F64, VK::Opq, 8), _ => (Ty::Bool, VK::Bool, 1) }; }
        let mut t = t - 10;
        if t < self.p.strs {
            return match self.r.below(3) { 0 => (Ty::Ref("utf8".into(), vec![]), VK::Str, 1), 1 => { let e = self.len_expr(scope); (Ty::Ref("utf8".into(), vec![e]), VK::Str, 0) } _ => { let e = self.len_expr(scope); (Ty::Ref("utf16".into(), vec![e]), VK::Str, 0) } };
        }
        t -= self.p.strs;
        if t < self.p.vari {
            return match self.r.below(8) {
                0 => (Ty::Ref("boxed32".into(), vec![]), VK::Opq, 4),
                1 => { let k = match self.pick_int(scope, |sc| sc == U8) { Some((n, _)) if self.r.chance(1, 2) => f(&n), _ => lit(self.r.below(256) as u128, U8) }; (Ty::Ref("triple".into(), vec![k]), VK::Opq, 3) }
                _ => { let n = *self.r.pick(&["v8", "v16", "v32", "v64", "v128"]); (Ty::Ref(n.into(), vec![]), VK::Opq, 1) }
            };
        }
        t -= self.p.vari;
        if t < self.p.enums && !self.enums.is_empty() {
            if self.r.chance(1, 3) && !self.bits.is_empty() { let n = self.bits[0].clone(); let m = self.info[&n].min; return (Ty::Ref(n.clone(), vec![]), VK::Bits(n), m); }
            let n = self.r.pick(&self.enums).clone(); let m = self.info[&n].min; return (Ty::Ref(n.clone(), vec![]), VK::Enum(n), m);
        }
        self.array(scope)
    }
    fn elem(&mut self, scope: &[Var], d: usize) -> (Ty, VK, usize) {
        match self.r.below(14) {
            0..=5 => { let sc = self.sc(); (Ty::Int(sc, self.le(sc)), VK::Arr(sc), sc.bytes as usize) }
            6 => (Ty::F32, VK::Opq, 4),
            7 => (Ty::F64, VK::Opq, 8),
            8 => (Ty::Bool, VK::Opq, 1),
            9 if !self.enums.is_empty() => { let n = self.r.pick(&self.enums).clone(); let m = self.info[&n].min; (Ty::Ref(n, vec![]), VK::Opq, m) }
            10 if !self.bits.is_empty() => { let n = self.bits[0].clone(); let m = self.info[&n].min; (Ty::Ref(n, vec![]), VK::Opq, m) }
            11 => { let n = *self.r.pick(&["v8", "v16", "v32", "v64", "v128"]); (Ty::Ref(n.into(), vec![]), VK::Opq, 1) }
            12 if d > 0 => { let n = 1 + self.r.below(3); let (t, _, m) = self.elem(scope, d - 1); (Ty::Arr(b(t), Len::Fixed(lit(n as u128, U64))), VK::Opq, m * n) }
            13 => (Ty::Ref("utf8".into(), vec![]), VK::Opq, 1),
            _ => match self.ref_ty(scope, false) { Some((t, _, m)) if m > 0 => (t, VK::Opq, m), _ => (Ty::Int(U8, false), VK::Arr(U8), 1) },
        }
    }
    fn array(&mut self, scope: &[Var]) -> (Ty, VK, usize) {
        let (e, k, m) = self.elem(scope, 1);
        if self.r.chance(1, 4) {
            let n = 1 + self.r.below(3);
            let term: Vec<u8> = (0..n).map(|_| *self.r.pick(&[0u8, 0xff, b'a', b'\n', 0x80, b'"', b'\\'])).collect();
            let tl = term.len();
            return (Ty::Arr(b(e), Len::Term(term)), k, tl);
        }
        let l = self.len_expr(scope);
        let min = match &l { Expr::Int(v, _, _) => m * *v as usize, _ => 0 };
        (Ty::Arr(b(e), Len::Fixed(l)), k, min)
    }
    fn ref_ty(&mut self, scope: &[Var], tail: bool) -> Option<(Ty, VK, usize)> {
        let c: Vec<String> = self.refs.iter().filter(|n| (tail || !self.info[*n].tail) && !self.enums.contains(n) && !self.bits.contains(n)).cloned().collect();
        if c.is_empty() { return None; }
        let n = self.r.pick(&c).clone();
        let m = self.info[&n].min;
        let dargs = self.s.decl(&n).unwrap().args.clone();
        let mut args = vec![];
        for (_, t, def) in &dargs {
            if def.is_some() { if self.r.chance(1, 2) { break; } args.push(lit(self.r.below(4) as u128, U8)); continue; }
            args.push(match t {
                Ty::Int(sc, _) => {
                    let (sc, same) = (*sc, self.pick_int(scope, |x| x == *sc));
                    match same { Some((v, _)) if self.r.chance(3, 4) => f(&v), _ => match self.pick_int(scope, |_| true) { Some((v, _)) if self.r.chance(1, 2) => Expr::Cast(b(f(&v)), sc), _ => lit(self.r.below(4) as u128, sc) } }
                }
                Ty::Ref(e, _) => { let vars: Vec<String> = scope.iter().filter(|v| v.k == VK::Enum(e.clone())).map(|v| v.name.clone()).collect(); if !vars.is_empty() && self.r.chance(3, 4) { f(&self.r.pick(&vars).clone()) } else { let vs = self.variants(e); Expr::Variant(e.clone(), self.r.pick(&vs).clone()) } }
                _ => return None,
            });
        }
        Some((Ty::Ref(n, args), VK::Opq, m))
    }
    fn container(&mut self, scope: &mut Vec<Var>, n: usize, allow_tail: bool) -> (Container, Info) { let (items, i) = self.items(scope, n, allow_tail, false); (Container { len: None, tagged: false, items }, i) }

    fn items(&mut self, scope: &mut Vec<Var>, n: usize, allow_tail: bool, in_cond: bool) -> (Vec<Item>, Info) {
        let mut items: Vec<Item> = vec![];
        let mut info = Info::default();
        let plain = |name: String, ty: Ty| Field { name, ty, calc: None, cond: None, xforms: vec![] };
        let mut i = 0;
        while i < n || items.is_empty() {
            i += 1;
            let last = i >= n;
            if self.budget > 0 { self.budget -= 1; } else if !items.is_empty() { break; }
            // a field that announces another one
            if self.w(self.p.calc) && self.r.chance(1, 2) {
                let nm = self.name("n");
                let tn = self.name("d");
                let sc = *self.r.pick(&[U8, U16, U32, U64, I32]);
                let le = self.le(sc);
                let call = |fun: &str, a: Vec<Expr>| Expr::Call(fun.into(), a);
                let castto = |e: Expr| if sc == U64 { e } else { Expr::Cast(b(e), sc) };
                let lenof = |e: Expr| if sc.signed { Expr::Cast(b(e), U64) } else { e };
                match self.r.below(6) {
                    0 | 1 => { // counted array
                        let (e, k, _) = self.elem(scope, 1);
                        let ofs = self.r.chance(1, 4);
                        let calc = castto(call("len", vec![f(&tn)]));
                        let calc = if ofs { Expr::Bin(Op::Add, b(calc), b(lit(1, sc))) } else { calc };
                        let l = if ofs { Expr::Bin(Op::Sub, b(f(&nm)), b(lit(1, sc))) } else { f(&nm) };
                        items.push(Item::Field(Field { calc: Some(calc), ..plain(nm.clone(), Ty::Int(sc, le)) }));
                        items.push(Item::Field(plain(tn.clone(), Ty::Arr(b(e), Len::Fixed(lenof(l))))));
                        scope.push(Var { name: nm, k: VK::Int(sc) });
                        scope.push(Var { name: tn, k });
                        info.min += sc.bytes as usize;
                    }
                    2 => { // counted string
                        let t = if self.r.chance(1, 2) { "utf8" } else { "utf16" };
                        items.push(Item::Field(Field { calc: Some(castto(call("len", vec![f(&tn)]))), ..plain(nm.clone(), Ty::Int(sc, le)) }));
                        items.push(Item::Field(plain(tn.clone(), Ty::Ref(t.into(), vec![lenof(f(&nm))]))));
                        scope.push(Var { name: nm, k: VK::Int(sc) });
                        scope.push(Var { name: tn, k: VK::Str });
                        info.min += sc.bytes as usize;
                    }
                    3 => { // checksum-like, computed from earlier and later siblings
                        let (e, k, _) = { let sc = *self.r.pick(&[U8, U16, U32]); (Ty::Int(sc, self.le(sc)), VK::Arr(sc), 0) };
                        let l = self.len_expr(scope);
                        let calc = castto(call("sum", vec![f(&tn)]));
                        let a = Item::Field(plain(tn.clone(), Ty::Arr(b(e), Len::Fixed(l))));
                        let c = Item::Field(Field { calc: Some(calc), ..plain(nm.clone(), Ty::Int(sc, le)) });
                        if self.r.chance(1, 2) { items.push(c); items.push(a); } else { items.push(a); items.push(c); }
                        scope.push(Var { name: tn, k });
                        info.min += sc.bytes as usize;
                    }
                    4 => { // arithmetic over an earlier field
                        let calc = match self.pick_int(scope, |s| s == sc) {
                            Some((v, _)) => { let op = *self.r.pick(&[Op::Xor, Op::And, Op::Or]); let e = Expr::Bin(op, b(f(&v)), b(lit(self.r.below(100) as u128, sc))); if self.r.chance(1, 3) { Expr::Tern(b(self.bool_expr(scope, 1)), b(e), b(lit(7, sc))) } else { e } }
                            None => match self.pick_int(scope, |_| true) { Some((v, _)) => Expr::Cast(b(f(&v)), sc), None => lit(self.r.below(100) as u128, sc) },
                        };
                        items.push(Item::Field(Field { calc: Some(calc), ..plain(nm.clone(), Ty::Int(sc, le)) }));
                        info.min += sc.bytes as usize;
                    }
                    _ => { // population count / padding amount
                        let calc = match self.pick_int(scope, |s| s == U64) { Some((v, _)) => Expr::Cast(b(call("bits", vec![f(&v)])), sc), None => castto(call("pad", vec![lit(4, U64), lit(self.r.below(9) as u128, U64)])) };
                        items.push(Item::Field(Field { calc: Some(calc), ..plain(nm.clone(), Ty::Int(sc, le)) }));
                        info.min += sc.bytes as usize;
                    }
                }
                continue;
            }
            // bounded container announced by blen
            if self.r.chance(self.p.blen.min(9), 16) && self.budget > 2 {
                let nm = self.name("n");
                let cn = self.name("c");
                // (compressed content may take more bytes than the reference expects)
                let sc = if self.p.gz { *self.r.pick(&[U32, U64]) } else { *self.r.pick(&[U8, U16, U32, U64]) };
                let le = self.le(sc);
                let call = Expr::Call("blen".into(), vec![f(&cn)]);
                let ofs = self.r.chance(1, 5);
                let call = match self.r.below(8) { 0 => Expr::BitNot(b(Expr::BitNot(b(call)))), 1 => Expr::Tern(b(Expr::Bin(Op::Lt, b(lit(3, U8)), b(lit(4, U8)))), b(call), b(lit(9, U64))), 2 => Expr::Bin(Op::Or, b(lit(0, U64)), b(call)), _ => call };
                let call = if sc == U64 { call } else { Expr::Cast(b(call), sc) };
                let (calc, l) = if ofs { (Expr::Bin(Op::Add, b(call), b(lit(3, sc))), Expr::Bin(Op::Sub, b(f(&nm)), b(lit(3, sc)))) } else { (call, f(&nm)) };
                let k = 1 + self.r.below(3);
                let (sub, _) = self.items(&mut scope.clone(), k, true, false);
                let mut xforms = vec![];
                let tail = allow_tail && last;
                if self.r.chance(self.p.xform.min(9), 14) { if tail { info.tail = true; xforms.push(self.xform(false, scope)); } else { xforms.push(self.xform(true, scope)); } }
                items.push(Item::Field(Field { calc: Some(calc), ..plain(nm, Ty::Int(sc, le)) }));
                // others that wait for the same length
                while self.r.chance(1, 4) { let m = self.name("n"); let e = Expr::Cast(b(Expr::Bin(Op::Add, b(Expr::Call("blen".into(), vec![f(&cn)])), b(lit(self.r.below(9) as u128, U64)))), U32); let i = items.len() - self.r.below(2); items.insert(i, Item::Field(Field { calc: Some(e), ..plain(m, Ty::Int(U32, false)) })); info.min += 4; }
                items.push(Item::Field(Field { xforms, ..plain(cn, Ty::Cont(Container { len: Some(l), tagged: false, items: sub })) }));
                info.min += sc.bytes as usize;
                continue;
            }
            if self.r.chance(self.p.pad.min(6), 16) && !scope.is_empty() { let e = self.len_expr(scope); items.push(Item::Pad(e)); continue; }
            // nested container
            if self.r.chance(self.p.nest.min(6), 20) && self.budget > 2 {
                let cn = self.name("c");
                let cond = if self.r.chance(self.p.cond.min(8), 10) { Some(self.bool_expr(scope, 1)) } else { None };
                let k = 1 + self.r.below(3);
                let tail = allow_tail && last;
                let (sub, si) = self.items(&mut scope.clone(), k, tail, in_cond || cond.is_some());
                if cond.is_none() { info.min += si.min; }
                info.tail |= si.tail;
                let mut xforms = vec![];
                if self.r.chance(self.p.xform.min(9), 16) && !si.tail { xforms.push(self.xform(true, scope)); }
                items.push(Item::Field(Field { cond, xforms, ..plain(cn, Ty::Cont(Container { len: None, tagged: false, items: sub })) }));
                continue;
            }
            let nm = self.name("fl");
            let tail = allow_tail && last;
            if tail && self.r.chance(self.p.arr.min(8), 12) { // unbounded
                let (e, _, _) = self.elem(scope, 1);
                info.tail = true;
                items.push(Item::Field(plain(nm, Ty::Arr(b(e), Len::Unbounded))));
                continue;
            }
            let cond = if self.r.chance(self.p.cond.min(8), 14) { Some(self.bool_expr(scope, 1)) } else { None };
            if self.r.chance(self.p.args + 2, 14) {
                if let Some((ty, _, m)) = self.ref_ty(scope, tail) {
                    if let Ty::Ref(n, _) = &ty { info.tail |= self.info[n].tail; }
                    if cond.is_none() { info.min += m; }
                    items.push(Item::Field(Field { cond, ..plain(nm, ty) }));
                    continue;
                }
            }
            let (ty, k, m) = self.simple_ty(scope);
            let mut xforms = vec![];
            if self.r.chance(self.p.xform.min(9), 14) {
                if tail { for _ in 0..1 + self.r.below(3) { xforms.push(self.xform(false, scope)); } info.tail = true; } else { for _ in 0..1 + self.r.below(2) { xforms.push(self.xform(true, scope)); } }
                let simple = match &ty { Ty::Int(..) | Ty::F32 | Ty::F64 | Ty::Bool => true, Ty::Arr(e, Len::Fixed(_)) => matches!(**e, Ty::Int(..) | Ty::F32 | Ty::F64), Ty::Ref(n, a) => (n == "utf8" && !a.is_empty()) || n == "utf16" || varint_sc(n).is_some(), _ => false };
                if simple && self.r.chance(1, 3) { let c = self.bool_expr(scope, 1); let i = self.r.below(xforms.len()); xforms[i].cond = Some(c); }
            }
            if cond.is_none() { info.min += m; }
            let k = match (&cond, k) { (None, k) => k, (Some(_), VK::Int(sc)) => VK::OptInt(sc), _ => VK::Opq };
            items.push(Item::Field(Field { cond, xforms, ..plain(nm.clone(), ty) }));
            if k != VK::Opq { scope.push(Var { name: nm, k }); }
        }
        (items, info)
    }
}

// ---------------------------------------------------------------- values
use crate::refcodec::*;

pub struct VG<'a> { pub spec: &'a Spec, pub r: &'a mut Rng, small: Vec<String>, lits: Vec<u128>, strs: bool, budget: usize, pub big: bool, pub huge: bool, grow: bool, cells: usize }
fn names_in(e: &Expr, o: &mut Vec<String>) {
    match e {
        Expr::Field(n) | Expr::Arg(n) => o.push(n.clone()),
        Expr::Bin(_, a, c) | Expr::Elvis(a, c) | Expr::Idx(a, c) => { names_in(a, o); names_in(c, o) }
        Expr::Neg(a) | Expr::Not(a) | Expr::BitNot(a) | Expr::Cast(a, _) | Expr::CastF(a, _) | Expr::Member(a, _) => names_in(a, o),
        Expr::Tern(a, c, d) => { names_in(a, o); names_in(c, o); names_in(d, o) }
        Expr::Call(_, a) => for x in a { names_in(x, o) },
        _ => (),
    }
}
fn lits_in(e: &Expr, o: &mut Vec<u128>) {
    match e {
        Expr::Int(v, _, _) => o.push(*v),
        Expr::Bin(_, a, c) | Expr::Elvis(a, c) | Expr::Idx(a, c) => { lits_in(a, o); lits_in(c, o) }
        Expr::Neg(a) | Expr::Not(a) | Expr::BitNot(a) | Expr::Cast(a, _) | Expr::CastF(a, _) | Expr::Member(a, _) => lits_in(a, o),
        Expr::Tern(a, c, d) => { lits_in(a, o); lits_in(c, o); lits_in(d, o) }
        Expr::Call(_, a) => for x in a { lits_in(x, o) },
        _ => (),
    }
}
fn scan_ty(t: &Ty, small: &mut Vec<String>, lits: &mut Vec<u128>) {
    match t {
        Ty::Arr(e, l) => { if let Len::Fixed(x) = l { names_in(x, small); } scan_ty(e, small, lits) }
        Ty::Ref(n, a) => for x in a { if n != "triple" { names_in(x, small); } lits_in(x, lits) },
        Ty::Cont(c) => {
            if let Some(l) = &c.len { names_in(l, small); }
            for it in &c.items { match it { Item::Pad(e) => names_in(e, small), Item::Field(f) => scan_field(f, small, lits) } }
        }
        _ => (),
    }
}
fn scan_field(f: &Field, small: &mut Vec<String>, lits: &mut Vec<u128>) {
    scan_ty(&f.ty, small, lits);
    if let Some(c) = &f.cond { lits_in(c, lits) }
    if let Some(c) = &f.calc { lits_in(c, lits) }
    for x in &f.xforms { if let Some(c) = &x.cond { lits_in(c, lits) } }
}
impl<'a> VG<'a> {
    pub fn new(spec: &'a Spec, r: &'a mut Rng) -> Self {
        let (mut small, mut lits) = (vec![], vec![0, 1, 2]);
        for d in &spec.decls { scan_field(&d.field, &mut small, &mut lits); for a in &d.args { small.push(a.0.clone()); } }
        VG { spec, r, small, lits, strs: false, budget: 0, big: false, huge: false, grow: false, cells: 0 }
    }
    /// argument values for calling a declaration directly
    pub fn args(&mut self, d: &Decl) -> Vec<EV> {
        let mut out = vec![];
        for (_, t, def) in &d.args {
            if def.is_some() && self.r.chance(1, 2) { break; }
            out.push(match self.spec.resolve(t) {
                Ty::Int(sc, _) => { let v = if self.r.chance(1, 12) { self.r.u128() % 300 } else { self.r.below(6) as u128 }; EV::Int(sc.wrap(v), *sc) }
                Ty::Bool => EV::Bool(self.r.chance(1, 2)),
                Ty::F32 => EV::F32(0), Ty::F64 => EV::F64(0),
                Ty::Enum(sc, _, vs) => { let v = enum_values(self.spec, *sc, vs).unwrap_or_default(); if v.is_empty() { EV::Opaque } else { let (_, x) = self.r.pick(&v).clone(); EV::Enum(if let Ty::Ref(n, _) = self.spec.unalias(t) { n.clone() } else { String::new() }, x) } }
                Ty::Bitfield(sc, _, vs) => { let x = some_bits(self.r, bit_values(self.spec, *sc, vs).unwrap_or_default()); EV::Bits(if let Ty::Ref(n, _) = self.spec.unalias(t) { n.clone() } else { String::new() }, x) }
                _ => EV::Opaque,
            });
        }
        out
    }
    /// a value that survives the reference round trip, with its canonical bytes
    pub fn gen(&mut self, decl: &str, args: &[EV]) -> Option<(Val, Vec<u8>)> {
        let c = Codec { spec: self.spec };
        for i in 0..40 {
            self.budget = if i < 20 { 60 } else { 15 };
            self.grow = self.huge;
            self.cells = 0;
            let v = match self.decl(decl, args, 0) { Ok(v) => v, Err(_) => continue };
            let bytes = match c.encode(decl, args, &v) { Ok(x) => x, Err(_) => continue };
            let (v2, used) = match c.decode(decl, args, &bytes) { Ok(x) => x, Err(_) => continue };
            if used != bytes.len() { continue; }
            match c.encode(decl, args, &v2) { Ok(x) if x == bytes => (), _ => continue }
            return Some((v2, bytes));
        }
        None
    }
    /// like `gen`, without the requirement that the value is valid
    pub fn any(&mut self, decl: &str, args: &[EV]) -> Option<Val> { self.budget = 40; self.decl(decl, args, 0).ok() }

    fn decl(&mut self, decl: &str, args: &[EV], depth: usize) -> Result<Val, CErr> {
        if depth > 6 { return Err(CErr::Undefined); }
        let spec = self.spec;
        let d = spec.decl(decl).ok_or(CErr::Model("decl".into()))?;
        let mut env = Codec { spec }.arg_env(d, args)?;
        let fl = &d.field;
        if let Some(c) = &fl.cond { if !eval_bool(spec, &env, c)? { return Ok(Val::None); } }
        let v = match &fl.ty {
            Ty::Cont(c) if c.tagged => {
                let mut r = Err(CErr::Bad("no variant"));
                for it in &c.items {
                    if let Item::Field(f) = it {
                        if let Some(e) = &f.cond { if !eval_bool(spec, &env, e)? { continue; } }
                        let v = match &f.ty { Ty::Cont(sub) => { let mut o = vec![]; self.items(sub, &mut env, &mut o, false, depth)?; Val::C(o) } t => self.ty(t, &env, &f.name, depth)? };
                        r = Ok(Val::V(f.name.clone(), b(v)));
                        break;
                    }
                }
                r?
            }
            Ty::Cont(c) => { let mut o = vec![]; self.items(c, &mut env, &mut o, false, depth)?; Val::C(o) }
            t => self.ty(t, &env, "", depth)?,
        };
        Ok(if fl.cond.is_some() { Val::Some(b(v)) } else { v })
    }
    fn items(&mut self, c: &Container, env: &mut Env, out: &mut Vec<(String, Val)>, opt: bool, depth: usize) -> Result<(), CErr> {
        let spec = self.spec;
        for it in &c.items {
            let fl = match it { Item::Field(f) => f, _ => continue };
            let on = match &fl.cond { Some(e) => eval_bool(spec, env, e)?, None => true };
            if let Ty::Cont(sub) = &fl.ty {
                if on { self.items(sub, env, out, opt || fl.cond.is_some(), depth)?; } else { for (g, _) in flatten(sub) { out.push((g.name.clone(), Val::None)); set_env(spec, env, g, &Val::None, true); } }
                continue;
            }
            if !on { out.push((fl.name.clone(), Val::None)); set_env(spec, env, fl, &Val::None, true); continue; }
            let is_opt = opt || fl.cond.is_some();
            let v = self.ty(&fl.ty, env, &fl.name, depth)?;
            set_env(spec, env, fl, &if fl.cond.is_some() { Val::Some(b(v.clone())) } else { v.clone() }, fl.cond.is_some());
            out.push((fl.name.clone(), if is_opt { Val::Some(b(v)) } else { v }));
        }
        Ok(())
    }
    fn int(&mut self, sc: Sc, name: &str) -> u128 {
        if self.grow && self.small.iter().any(|x| x == name) && self.r.chance(1, 2) { self.grow = false; return self.far() as u128 & sc.max_u(); }
        if self.small.iter().any(|x| x == name) && !self.r.chance(1, 25) { return self.r.below(if self.big { 300 } else { 6 }) as u128 & sc.max_u(); }
        sc.wrap(match self.r.below(12) {
            0 => 0, 1 => sc.max_u(), 2 => sc.min() as u128, 3 => 1, 4 => u128::MAX,
            5 | 6 => *self.r.pick(&self.lits),
            7 => 1u128 << self.r.below(sc.bits() as usize),
            8 => (1u128 << self.r.below(sc.bits() as usize)).wrapping_sub(1),
            9 => self.r.below(16) as u128,
            _ => self.r.u128(),
        })
    }
    /// lengths around the limits of narrow integers
    fn far(&mut self) -> usize { *self.r.pick(&[127, 128, 255, 256, 257, 511, 512, 600, 4096, 8191, 8192, 32767, 32768, 65535, 65536, 65537, 70000]) }
    fn most(&self) -> u128 { if self.huge { 80_000 } else { 400 } }
    fn string(&mut self, n: usize, utf16: bool) -> String {
        let mut s = String::new();
        if n > 400 { let k = if utf16 { 2 } else { 4 }; for _ in 0..n / k { s.push('\u{1F600}'); } while if utf16 { s.encode_utf16().count() } else { s.len() } < n { s.push('q'); } return s; }
        let len = |s: &String| if utf16 { s.encode_utf16().count() } else { s.len() };
        while len(&s) < n {
            let c = match self.r.below(8) { 0 => '\u{e9}', 1 => '\u{20ac}', 2 => '\u{1F600}', 3 => '\u{ffff}', 4 if n != usize::MAX => 'Z', _ => (b'a' + self.r.below(26) as u8) as char };
            s.push(c);
            if len(&s) > n { s.pop(); s.push('q'); }
        }
        s
    }
    fn ty(&mut self, t: &Ty, env: &Env, name: &str, depth: usize) -> Result<Val, CErr> {
        let spec = self.spec;
        if self.budget > 0 { self.budget -= 1; }
        Ok(match t {
            Ty::Int(sc, _) => Val::I(self.int(*sc, name)),
            Ty::F32 => Val::F(match self.r.below(6) { 0 => 0, 1 => 0x8000_0000, 2 => 0x7f80_0000, 3 => f32::NAN.to_bits(), 4 => (self.r.below(1000) as f32 / 8.0).to_bits(), _ => self.r.next() as u32 }),
            Ty::F64 => Val::D(match self.r.below(6) { 0 => 0, 1 => 1 << 63, 2 => f64::INFINITY.to_bits(), 3 => f64::NAN.to_bits(), 4 => (self.r.below(1000) as f64 / 8.0).to_bits(), _ => self.r.next() }),
            Ty::Bool => Val::B(self.r.chance(1, 2)),
            Ty::Arr(e, l) => {
                let open = !matches!(l, Len::Fixed(_));
                let n = match l { Len::Fixed(x) => { let (n, s) = eval_u64(spec, env, x)?; let n = cast(n, s, U64); if n > self.most() { return Err(CErr::Undefined); } n as usize } _ => if self.grow { self.grow = false; self.far() } else if self.budget == 0 { 0 } else if self.r.chance(1, 20) { self.r.below(40) } else { self.r.below(5) } };
                let mut o = vec![];
                let simple = matches!(spec.resolve(e), Ty::Int(..) | Ty::Bool | Ty::F32 | Ty::F64 | Ty::Enum(..) | Ty::Bitfield(..)) || matches!(&**e, Ty::Ref(n, _) if spec.decl(n).is_none());
                let n = if open && !simple { n.min(700) } else { n };
                self.cells += n;
                if self.cells > 90_000 { return Err(CErr::Undefined); }
                if n > 400 {
                    // many elements: a few different ones over and over, as random bytes would hold any terminator
                    let k = 1 + self.r.below(3);
                    let before = self.cells;
                    for _ in 0..k { self.budget = self.budget.max(3); o.push(self.ty(e, env, "", depth)?); }
                    // what the elements hold counts as often as they are repeated
                    self.cells += (self.cells - before) * (n / k);
                    if self.cells > 90_000 { return Err(CErr::Undefined); }
                    for i in k..n { let x = o[i - k].clone(); o.push(x); }
                    return Ok(Val::L(o));
                }
                for _ in 0..n { if self.budget == 0 && n > 8 { self.budget = 1; } o.push(self.ty(e, env, "", depth)?); }
                Val::L(o)
            }
            Ty::Ref(n, a) => {
                if let Some(sc) = varint_sc(n) { return Ok(Val::I(self.int(sc, name))); }
                match n.as_str() {
                    "utf8" => { let n = match a.first() { Some(e) => { let (n, s) = eval_u64(spec, env, e)?; let n = cast(n, s, U64); if n > self.most() { return Err(CErr::Undefined); } n as usize } None => if self.grow { self.grow = false; self.far() } else { self.r.below(7) } }; let mut s = self.string(n, false); if !a.is_empty() && !s.is_empty() && self.r.chance(1, 10) && s.is_ascii() { s.replace_range(0..1, "\0"); } Val::S(s) }
                    "utf16" => { let (n, s) = eval_u64(spec, env, &a[0])?; let n = cast(n, s, U64); if n > self.most() { return Err(CErr::Undefined); } Val::S(self.string(n as usize, true)) }
                    "boxed32" => Val::I(self.int(U32, name)),
                    "triple" => Val::I(self.int(U32, name) & 0xff_ffff),
                    _ => {
                        let d = spec.decl(n).ok_or(CErr::Model("decl".into()))?;
                        match &d.field.ty {
                            Ty::Int(..) | Ty::Bool | Ty::F32 | Ty::F64 | Ty::Arr(..) | Ty::Ref(..) if d.args.is_empty() && d.field.cond.is_none() && d.field.xforms.is_empty() && depth < 6 => return self.ty(&d.field.ty, &Env::default(), name, depth + 1),
                            Ty::Enum(sc, _, vs) if d.field.cond.is_none() => {
                                let v = enum_values(spec, *sc, vs)?;
                                if v.is_empty() || vs.iter().any(|x| x.1 == EnumVal::Default) && self.r.chance(1, 4) { return Ok(Val::I(self.int(*sc, ""))); }
                                return Ok(Val::I(self.r.pick(&v).1));
                            }
                            Ty::Bitfield(sc, _, vs) if d.field.cond.is_none() => { let x = some_bits(self.r, bit_values(spec, *sc, vs)?); return Ok(Val::I(x)); }
                            _ => (),
                        }
                        let mut args = vec![];
                        for (e, da) in a.iter().zip(d.args.iter()) { let w = match spec.unalias(&da.1) { Ty::Int(sc, _) => Some(*sc), _ => None }; args.push(coerce(spec, &da.1, eval_w(spec, env, e, w)?)?); }
                        self.decl(n, &args, depth + 1)?
                    }
                }
            }
            Ty::Enum(sc, _, vs) => { let v = enum_values(spec, *sc, vs)?; if v.is_empty() || vs.iter().any(|x| x.1 == EnumVal::Default) && self.r.chance(1, 3) { Val::I(self.int(*sc, "")) } else { Val::I(self.r.pick(&v).1) } }
            Ty::Bitfield(sc, _, vs) => { let x = some_bits(self.r, bit_values(spec, *sc, vs)?); Val::I(x) }
            t => return Err(CErr::Model(format!("value of {:?}", t))),
        })
    }
}

/// any of the bits that some flag has: all of a flag, or only some
pub fn some_bits(r: &mut Rng, flags: Vec<(String, u128)>) -> u128 {
    let mut x = 0;
    let whole = r.chance(1, 2);
    for (_, b) in flags { if r.chance(1, 2) { x |= if whole { b } else { b & r.u128() } } }
    x
}

/// gives types of fields and arguments names of their own (`type N = u8;`), which changes nothing that is sent or computed
pub fn aliases(r: &mut Rng, spec: &mut Spec) -> usize {
    let text = spec.text();
    let elements = !text.contains("sum(");
    let old = spec.clone();
    let mut a = A { r, old: &old, made: vec![], elements, used: 0 };
    for d in &mut spec.decls {
        if let Ty::Cont(c) = &mut d.field.ty { a.cont(c); }
        for (_, t, _) in &mut d.args { a.ty(t); }
    }
    let (made, used) = (a.made, a.used);
    for (n, ty) in made {
        let at = r.below(spec.decls.len() + 1);
        spec.decls.insert(at, Decl { field: Field { name: n, ty, calc: None, cond: None, xforms: vec![] }, args: vec![] });
    }
    used
}
struct A<'a> { r: &'a mut Rng, old: &'a Spec, made: Vec<(String, Ty)>, elements: bool, used: usize }
impl A<'_> {
    fn cont(&mut self, c: &mut Container) {
        for it in &mut c.items {
            if let Item::Field(f) = it { if let Ty::Cont(c) = &mut f.ty { self.cont(c); } else { self.ty(&mut f.ty); } }
        }
    }
    fn ty(&mut self, t: &mut Ty) {
        let fits = match &*t {
            Ty::Int(..) | Ty::Bool | Ty::F32 | Ty::F64 => true,
            Ty::Ref(n, x) => x.is_empty() && (varint_sc(n).is_some() || n == "utf8" || matches!(self.old.decl(n).map(|d| (&d.field, &d.args)), Some((Field { ty: Ty::Enum(..) | Ty::Bitfield(..), cond: None, .. }, x)) if x.is_empty())),
            Ty::Arr(e, Len::Fixed(Expr::Int(..))) => matches!(**e, Ty::Int(..) | Ty::F32 | Ty::F64 | Ty::Bool),
            _ => false,
        };
        if let Ty::Arr(e, Len::Fixed(_)) = t { if self.elements && self.r.chance(1, 8) && matches!(**e, Ty::Int(..) | Ty::F32 | Ty::F64 | Ty::Bool) { self.ty(e); return; } }
        if !fits || self.r.chance(1, 2) { return; }
        for _ in 0..1 + self.r.below(2) {
            let name = match self.made.iter().find(|x| x.1 == *t) { Some(x) if self.r.chance(2, 3) => x.0.clone(), _ => { let n = format!("T{}x", self.made.len()); self.made.push((n.clone(), t.clone())); n } };
            *t = Ty::Ref(name, vec![]);
        }
        self.used += 1;
    }
}

/// the same spec, where casts go to names of types instead
pub fn alias_casts(r: &mut Rng, spec: &Spec, text: &str) -> String {
    let names: Vec<(String, String)> = spec.decls.iter().filter(|d| d.field.name.starts_with('T') && d.field.name.ends_with('x')).filter_map(|d| match spec.unalias(&d.field.ty) { Ty::Int(sc, _) => Some((sc.name(), d.field.name.clone())), Ty::F32 => Some(("f32".into(), d.field.name.clone())), Ty::F64 => Some(("f64".into(), d.field.name.clone())), _ => None }).collect();
    let mut out = String::new();
    for (i, part) in text.split("\ntype ").enumerate() {
        if i > 0 { out.push_str("\ntype "); }
        let head = part.lines().next().unwrap_or("");
        if i == 0 || !head.contains("= container") { out.push_str(part); continue; }
        for (j, p) in part.split(":> ").enumerate() {
            if j == 0 { out.push_str(p); continue; }
            out.push_str(":> ");
            let t = p.split(|c: char| !c.is_alphanumeric()).next().unwrap_or("");
            let fits: Vec<&String> = names.iter().filter(|n| n.0 == t).map(|n| &n.1).collect();
            if !fits.is_empty() && r.chance(1, 3) { out.push_str(r.pick::<&String>(&fits).as_str()); out.push_str(&p[t.len()..]); } else { out.push_str(p); }
        }
    }
    out
}
