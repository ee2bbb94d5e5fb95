//! Random well-typed expressions of every type and operator, kept only if they are defined on most of a sample of
//! environments, and specs whose calculated fields, conditions, lengths and arguments are such expressions.
use crate::model::*;
use crate::rng::Rng;

#[derive(Clone, Debug, PartialEq)]
pub enum VT { Int(Sc), Bool, F32, F64, Enum(String), Bits(String), Arr(Sc), Opt(Sc), Str }
pub struct X<'a> { pub r: &'a mut Rng, pub spec: &'a Spec, pub vars: Vec<(String, VT)>, pub envs: Vec<Env>, pub enums: Vec<String>, pub bits: Vec<String>, pub wide: bool }

/// the length of an array of this name
fn elems(n: &str) -> usize { if n.ends_with('l') { 300 } else { 3 } }
fn b<T>(x: T) -> Box<T> { Box::new(x) }
fn f(n: &str) -> Expr { Expr::Field(n.to_string()) }
fn bin(o: Op, x: Expr, y: Expr) -> Expr { Expr::Bin(o, b(x), b(y)) }

pub fn rand_int(r: &mut Rng, sc: Sc) -> u128 {
    sc.wrap(match r.below(11) { 0 => 0, 1 => sc.max_u(), 2 => sc.min() as u128, 3 => 1, 4 => u128::MAX, 5 => 1u128 << r.below(sc.bits() as usize), 6 => (1u128 << r.below(sc.bits() as usize)).wrapping_sub(1), 7 | 8 => r.below(16) as u128, 9 => (r.below(16) as u128).wrapping_neg(), _ => r.u128() })
}
impl<'a> X<'a> {
    pub fn sample(&mut self, n: usize) {
        for _ in 0..n {
            let mut env = Env::default();
            for (name, t) in self.vars.clone() {
                let r = &mut *self.r;
                let v = match &t {
                    VT::Int(sc) => EV::Int(rand_int(r, *sc), *sc),
                    VT::Bool => EV::Bool(r.chance(1, 2)),
                    VT::F32 => EV::F32((r.below(1000) as f32 / 8.0 - 20.0).to_bits()),
                    VT::F64 => EV::F64((r.below(1000) as f64 / 8.0 - 20.0).to_bits()),
                    VT::Enum(e) => { let vs = values(self.spec, e); EV::Enum(e.clone(), r.pick(&vs).1) }
                    VT::Bits(e) => { let vs = values(self.spec, e); EV::Bits(e.clone(), crate::gen::some_bits(r, vs)) }
                    VT::Arr(sc) => EV::Arr(Ty::Int(*sc, false), (0..elems(name.as_str())).map(|_| Val::I(rand_int(r, *sc))).collect()),
                    VT::Opt(sc) => EV::Opt(if r.chance(1, 2) { None } else { Some(b(EV::Int(rand_int(r, *sc), *sc))) }),
                    VT::Str => EV::Str("abcdefg"[..r.below(6)].to_string()),
                };
                env.fields.insert(name, v);
            }
            self.envs.push(env);
        }
    }
    /// share of the sample on which the expression is defined
    fn defined(&self, e: &Expr, want: Option<Sc>) -> bool {
        let n = self.envs.iter().filter(|v| eval_w(self.spec, v, e, want).is_ok()).count();
        n * 10 >= self.envs.len() * 9
    }
    fn var(&mut self, ok: impl Fn(&VT) -> bool) -> Option<(String, VT)> {
        let c: Vec<(String, VT)> = self.vars.iter().filter(|v| ok(&v.1)).cloned().collect();
        if c.is_empty() { None } else { Some(self.r.pick(&c).clone()) }
    }
    fn lit(&mut self, sc: Sc, want: bool) -> Expr {
        let v = rand_int(self.r, sc) & sc.max_u();
        let sfx = !(want && self.r.chance(2, 3));
        let e = Expr::Int(v, sc, sfx);
        if sc.signed && self.r.chance(1, 3) { Expr::Neg(b(e)) } else { e }
    }
    fn small(&mut self, sc: Sc, want: bool, n: usize) -> Expr { let sfx = !(want && self.r.chance(1, 2)); let v = 1 + self.r.below(n) as u128; Expr::Int(v & sc.max_u(), sc, sfx) }
    fn leaf_int(&mut self, sc: Sc, want: bool) -> Expr {
        for _ in 0..4 {
            match self.r.below(9) {
                0..=3 => if let Some((n, _)) = self.var(|t| *t == VT::Int(sc)) { return f(&n); },
                4 if want => if let Some((n, _)) = self.var(|t| matches!(t, VT::Int(s) if s.signed == sc.signed && s.bytes < sc.bytes)) { return f(&n); },
                5 => if let Some((n, _)) = self.var(|t| matches!(t, VT::Int(_))) { return Expr::Cast(b(f(&n)), sc); },
                6 => { let c: Vec<String> = self.spec.consts.iter().filter(|c| matches!(&c.1, Ty::Int(s, _) if *s == sc || (want && s.signed == sc.signed && s.bytes < sc.bytes))).map(|c| c.0.clone()).collect(); if !c.is_empty() { return f(&self.r.pick(&c).clone()); } }
                7 if want => if let Some((n, VT::Enum(e))) = self.var(|t| matches!(t, VT::Enum(_))) { if let Some(Ty::Enum(s, ..)) = self.spec.decl(&e).map(|d| &d.field.ty) { if s.signed == sc.signed && s.bytes <= sc.bytes { return f(&n); } } },
                _ => break,
            }
        }
        self.lit(sc, want)
    }
    pub fn int(&mut self, sc: Sc, d: usize, want: bool) -> Expr {
        if d == 0 { return self.leaf_int(sc, want); }
        let w = if want { Some(sc) } else { None };
        for _ in 0..6 {
            let e = self.int_node(sc, d, want);
            if self.defined(&e, w) { return e; }
        }
        self.leaf_int(sc, want)
    }
    fn int_node(&mut self, sc: Sc, d: usize, want: bool) -> Expr {
        match self.r.below(26) {
            0..=8 => {
                let op = *self.r.pick(&[Op::Add, Op::Sub, Op::Mul, Op::Div, Op::Mod, Op::And, Op::Or, Op::Xor]);
                let (mut x, mut y) = (self.int(sc, d - 1, want), self.int(sc, d - 1, true));
                // keep the result in range now and then
                match op {
                    Op::Add | Op::Sub | Op::Mul if self.r.chance(3, 4) => {
                        let m = match op { Op::Mul => (1u128 << (sc.bits() / 2 - 1)) - 1, _ => sc.max_u() >> 1 };
                        let m = if self.r.chance(1, 4) { 7 & m } else { m };
                        x = bin(Op::And, x, Expr::Int(m, sc, true)); y = bin(Op::And, y, Expr::Int(m, sc, !self.r.chance(1, 2)));
                        if op == Op::Sub && !sc.signed { x = bin(Op::Or, x, Expr::Int(sc.max_u() ^ (sc.max_u() >> 1), sc, true)); }
                    }
                    Op::Div | Op::Mod if self.r.chance(3, 4) => y = if self.r.chance(1, 2) { self.small(sc, true, 9) } else { bin(Op::Or, bin(Op::And, y, Expr::Int(sc.max_u() >> 1, sc, true)), Expr::Int(1, sc, true)) },
                    _ => (),
                }
                bin(op, x, y)
            }
            9..=12 => {
                let op = *self.r.pick(&[Op::Shl, Op::Shr, Op::ShrS]);
                let x = self.int(sc, d - 1, want);
                let y = if self.r.chance(1, 2) { let v = self.r.below(sc.bits() as usize) as u128; Expr::Int(v, sc, self.r.chance(1, 2)) } else { let y = self.int(sc, d - 1, true); bin(Op::And, y, Expr::Int(sc.bits() as u128 - 1, sc, true)) };
                bin(op, x, y)
            }
            13 => { let x = self.int(sc, d - 1, want); Expr::BitNot(b(x)) }
            14 if sc.signed => { let x = self.int(sc, d - 1, want); Expr::Neg(b(x)) }
            // a cast that is itself taken for a wider type
            15 if want && sc.bytes > 1 && self.r.chance(1, 2) => { let c: Vec<Sc> = ALL_SC.iter().copied().filter(|s| s.signed == sc.signed && s.bytes < sc.bytes).collect(); let (to, from) = (*self.r.pick(&c), *self.r.pick(&ALL_SC)); let x = self.int(from, d - 1, false); Expr::Cast(b(x), to) }
            15 | 16 => { let from = *self.r.pick(&ALL_SC); let x = self.int(from, d - 1, false); Expr::Cast(b(x), sc) }
            17 | 18 => { let (c, x) = (self.boolean(d - 1), self.int(sc, d - 1, want)); let y = self.int(sc, d - 1, want); Expr::Tern(b(c), b(x), b(y)) }
            19 => match self.var(|t| *t == VT::Opt(sc)) { Some((n, _)) => { let y = self.int(sc, d - 1, true); Expr::Elvis(b(f(&n)), b(y)) } None => self.leaf_int(sc, want) },
            20 => match self.var(|t| *t == VT::Arr(sc)) { Some((n, _)) => { let i = self.int(U64, d - 1, true); let k = elems(&n); Expr::Idx(b(f(&n)), b(if self.r.chance(1, 4) { self.lit_below(k) } else { bin(Op::Mod, i, Expr::Int(k as u128, U64, true)) })) } None => self.leaf_int(sc, want) },
            21 if sc == U64 => match { let any = self.r.chance(1, 2); self.var(|t| matches!(t, VT::Arr(_) | VT::Str) || any && !matches!(t, VT::Opt(_))) } { Some((n, _)) => Expr::Call("len".into(), vec![f(&n)]), None => self.leaf_int(sc, want) },
            22 if sc == U8 => { let x = self.int(U64, d - 1, true); Expr::Call("bits".into(), vec![x]) }
            22 if sc == U64 => { let (x, y) = (self.small(U64, true, 9), self.int(U64, d - 1, true)); Expr::Call("pad".into(), vec![x, y]) }
            23 => match self.var(|t| matches!(t, VT::Enum(_) | VT::Bits(_))) { Some((n, VT::Enum(e) | VT::Bits(e))) if matches!(self.spec.decl(&e).map(|d| &d.field.ty), Some(Ty::Enum(s, ..) | Ty::Bitfield(s, ..)) if s.signed == sc.signed) => Expr::Cast(b(f(&n)), sc), _ => self.leaf_int(sc, want) },
            24 => { let x = self.float(d - 1, false); match x { Some((x, _)) => Expr::Cast(b(x), sc), None => self.leaf_int(sc, want) } }
            _ => self.leaf_int(sc, want),
        }
    }
    fn lit_below(&mut self, n: usize) -> Expr { let v = self.r.below(n) as u128; Expr::Int(v, U64, self.r.chance(1, 2)) }
    /// an expression of type f32 or f64
    fn float(&mut self, d: usize, _w: bool) -> Option<(Expr, bool)> { let double = self.r.chance(1, 2); Some((self.flt(double, d), double)) }
    pub fn flt(&mut self, double: bool, d: usize) -> Expr {
        let t = if double { VT::F64 } else { VT::F32 };
        if d > 0 { for _ in 0..4 {
            let e = match self.r.below(8) {
                0..=2 => { let (x, y) = (self.flt(double, d - 1), self.flt(double, d - 1)); bin(*self.r.pick(&[Op::Add, Op::Sub, Op::Mul, Op::Div, Op::Mod]), x, y) }
                3 => { let sc = *self.r.pick(&ALL_SC); let x = self.int(sc, d - 1, false); Expr::CastF(b(x), double) }
                4 => { let x = self.flt(!double, d - 1); Expr::CastF(b(x), double) }
                5 => { let x = self.flt(double, d - 1); Expr::Neg(b(x)) }
                6 => { let (c, x, y) = (self.boolean(d - 1), self.flt(double, d - 1), self.flt(double, d - 1)); Expr::Tern(b(c), b(x), b(y)) }
                _ => break,
            };
            if self.defined(&e, None) { return e; }
        } }
        if let Some((n, _)) = self.var(|x| *x == t) { return f(&n); }
        let sc = *self.r.pick(&ALL_SC); let x = self.leaf_int(sc, false); Expr::CastF(b(x), double)
    }
    pub fn boolean(&mut self, d: usize) -> Expr {
        for _ in 0..6 {
            let e = self.bool_node(d);
            if self.defined(&e, None) { return e; }
        }
        Expr::Bool(self.r.chance(1, 2))
    }
    fn bool_node(&mut self, d: usize) -> Expr {
        if d == 0 {
            return match self.r.below(3) { 0 => if let Some((n, _)) = self.var(|t| *t == VT::Bool) { f(&n) } else { Expr::Bool(true) }, 1 => match self.member() { Some(e) => e, None => Expr::Bool(false) }, _ => { let sc = *self.r.pick(&ALL_SC); let (x, y) = (self.leaf_int(sc, false), self.leaf_int(sc, true)); bin(self.cmp(), x, y) } };
        }
        match self.r.below(14) {
            0..=4 => { let sc = *self.r.pick(&ALL_SC); let x = self.int(sc, d - 1, false); let y = self.int(sc, d - 1, true); if self.r.chance(1, 8) { let l = self.lit(sc, true); bin(self.cmp(), if let Expr::Neg(_) = l { Expr::Int(1, sc, false) } else { l }, x) } else { bin(self.cmp(), x, y) } }
            5 | 6 => { let (x, y) = (self.boolean(d - 1), self.boolean(d - 1)); bin(*self.r.pick(&[Op::LAnd, Op::LOr]), x, y) }
            7 => { let x = self.boolean(d - 1); Expr::Not(b(x)) }
            8 => { let (c, x, y) = (self.boolean(d - 1), self.boolean(d - 1), self.boolean(d - 1)); Expr::Tern(b(c), b(x), b(y)) }
            9 => { let (x, y) = (self.boolean(d - 1), self.boolean(d - 1)); bin(*self.r.pick(&[Op::Eq, Op::Ne, Op::Lt, Op::Gt, Op::Le, Op::Ge, Op::And, Op::Or, Op::Xor]), x, y) }
            10 => match self.enumv(d - 1) { Some((x, e)) => { let y = self.enum_of(&e, d - 1); bin(*self.r.pick(&[Op::Eq, Op::Ne]), x, y) } None => Expr::Bool(true) },
            11 => match self.member() { Some(e) => e, None => Expr::Bool(false) },
            12 => { let double = self.r.chance(1, 2); let (x, y) = (self.flt(double, d - 1), self.flt(double, d - 1)); bin(self.cmp(), x, y) }
            _ => match self.bits.first().cloned() { Some(e) => { let (x, y) = (self.bits_of(&e, d - 1), self.bits_of(&e, d - 1)); bin(*self.r.pick(&[Op::Eq, Op::Ne]), x, y) } None => Expr::Bool(true) },
        }
    }
    fn cmp(&mut self) -> Op { *self.r.pick(&[Op::Lt, Op::Gt, Op::Le, Op::Ge, Op::Eq, Op::Ne]) }
    fn member(&mut self) -> Option<Expr> {
        let e = self.bits.first()?.clone();
        let vs = values(self.spec, &e);
        let x = self.bits_of(&e, 1);
        Some(Expr::Member(b(x), self.r.pick(&vs).0.clone()))
    }
    fn enumv(&mut self, d: usize) -> Option<(Expr, String)> { if self.enums.is_empty() { return None; } let e = self.r.pick(&self.enums).clone(); Some((self.enum_of(&e, d), e)) }
    pub fn enum_of(&mut self, e: &str, d: usize) -> Expr {
        if d > 0 && self.r.chance(1, 3) { let (c, x, y) = (self.boolean(d - 1), self.enum_of(e, d - 1), self.enum_of(e, d - 1)); return Expr::Tern(b(c), b(x), b(y)); }
        let t = VT::Enum(e.to_string());
        match self.var(|x| *x == t) { Some((n, _)) if self.r.chance(1, 2) => f(&n), _ => { let vs = values(self.spec, e); Expr::Variant(e.to_string(), self.r.pick(&vs).0.clone()) } }
    }
    pub fn bits_of(&mut self, e: &str, d: usize) -> Expr {
        if d > 0 && self.r.chance(1, 2) { let (x, y) = (self.bits_of(e, d - 1), self.bits_of(e, d - 1)); return if self.r.chance(1, 4) { let c = self.boolean(d - 1); Expr::Tern(b(c), b(x), b(y)) } else { bin(*self.r.pick(&[Op::And, Op::Or, Op::Xor]), x, y) }; }
        let t = VT::Bits(e.to_string());
        match self.var(|x| *x == t) { Some((n, _)) if self.r.chance(1, 2) => f(&n), _ => { let vs = values(self.spec, e); Expr::Variant(e.to_string(), self.r.pick(&vs).0.clone()) } }
    }
}
fn values(spec: &Spec, e: &str) -> Vec<(String, u128)> {
    match spec.decl(e).map(|d| &d.field.ty) { Some(Ty::Enum(sc, _, vs)) => enum_values(spec, *sc, vs).unwrap_or_default(), Some(Ty::Bitfield(sc, _, vs)) => bit_values(spec, *sc, vs).unwrap_or_default(), _ => vec![] }
}
fn plain(name: String, ty: Ty) -> Field { Field { name, ty, calc: None, cond: None, xforms: vec![] } }

/// a spec that is all expressions
pub fn expr_spec(r: &mut Rng, name: &str) -> Spec {
    let mut s = Spec { name: name.into(), ffi_types: FOREIGN.iter().map(|x| x.to_string()).collect(), ffi_functions: ["sum", "pad", "bits"].iter().map(|x| x.to_string()).collect(), ..Default::default() };
    // enumerations first, constants may refer to them
    let es = *r.pick(&[U8, U8, U16, U32, I8, I16, I64]);
    s.decls.push(Decl { field: plain("E0".into(), Ty::Enum(es, false, vec![("A0".into(), EnumVal::Expr(Expr::Int(1, es, true))), ("A1".into(), EnumVal::Auto), ("A2".into(), EnumVal::Expr(Expr::Int(77, es, false)))])), args: vec![] });
    let bs = *r.pick(&[U8, U16, U32, I16, I64]);
    s.decls.push(Decl { field: plain("B0".into(), Ty::Bitfield(bs, false, vec![("F0".into(), Some(Expr::Int(1, bs, true))), ("F1".into(), None), ("F2".into(), Some(Expr::Int(*r.pick(&[64u128, 0x60, 0xf2]), bs, false)))])), args: vec![] });
    for i in 0..1 + r.below(4) {
        let sc = *r.pick(&ALL_SC);
        let e = { let mut x = X { r, spec: &s, vars: vec![], envs: vec![], enums: vec![], bits: vec![], wide: false }; x.sample(1); x.int(sc, 2, true) };
        s.consts.push((format!("K{}", i), Ty::Int(sc, false), e));
    }
    if r.chance(1, 2) { let e = { let mut x = X { r, spec: &s, vars: vec![], envs: vec![], enums: vec![], bits: vec![], wide: false }; x.sample(1); x.boolean(2) }; s.consts.push(("KB".into(), Ty::Bool, e)); }
    // a type that receives expressions as arguments
    let mut pv: Vec<(String, VT)> = vec![];
    let mut pargs = vec![];
    for i in 0..2 + r.below(3) {
        let n = format!("a{}", i);
        let (t, v) = match r.below(8) { 0 => (Ty::Bool, VT::Bool), 1 => (Ty::Ref("E0".into(), vec![]), VT::Enum("E0".into())), 2 => (Ty::F32, VT::F32), 3 => (Ty::F64, VT::F64), _ => { let sc = *r.pick(&ALL_SC); (Ty::Int(sc, false), VT::Int(sc)) } };
        pv.push((n.clone(), v)); pargs.push((n, t, None));
    }
    // the default of one may refer to others that have one
    for i in 0..r.below(4) { let sc = *r.pick(&ALL_SC); let n = format!("ad{}", i); let e = { let mut x = X { r, spec: &s, vars: pv.clone(), envs: vec![], enums: vec!["E0".into()], bits: vec!["B0".into()], wide: false }; x.sample(24); x.int(sc, 2, true) }; pv.push((n.clone(), VT::Int(sc))); pargs.push((n, Ty::Int(sc, false), Some(e))); }
    let pt = pargs.clone();
    body(r, &mut s, "P0".into(), pargs, pv, None);
    body(r, &mut s, "Root".into(), vec![], vec![], Some(("P0".into(), pt)));
    s
}
fn body(r: &mut Rng, s: &mut Spec, name: String, args: Vec<(String, Ty, Option<Expr>)>, avars: Vec<(String, VT)>, sub: Option<(String, Vec<(String, Ty, Option<Expr>)>)>) {
    let root = sub.is_some();
    let mut items = vec![];
    let mut vars = avars;
    let mut conds = vec![];
    for i in 0..if root { 7 + r.below(6) } else { r.below(4) } {
        let n = format!("{}{}{}", if root { "x" } else { "y" }, i, if root && r.chance(1, 5) { "l" } else { "" });
        let (t, v) = match r.below(20) {
            0 | 1 => { conds.push(n.clone()); (Ty::Bool, VT::Bool) }
            2 => (Ty::F32, VT::F32), 3 => (Ty::F64, VT::F64),
            4 | 5 => (Ty::Ref("E0".into(), vec![]), VT::Enum("E0".into())),
            6 | 7 => (Ty::Ref("B0".into(), vec![]), VT::Bits("B0".into())),
            8 | 9 => { let sc = *r.pick(&ALL_SC); let le = sc.bytes > 1 && r.chance(1, 3); (Ty::Arr(b(Ty::Int(sc, le)), Len::Fixed(Expr::Int(elems(&n) as u128, U64, true))), VT::Arr(sc)) }
            10 => (Ty::Ref("utf8".into(), vec![]), VT::Str),
            11 | 12 if !conds.is_empty() => { let sc = *r.pick(&ALL_SC); let c = r.pick(&conds).clone(); items.push(Item::Field(Field { cond: Some(f(&c)), ..plain(n.clone(), Ty::Int(sc, false)) })); vars.push((n, VT::Opt(sc))); continue; }
            _ => { let sc = *r.pick(&ALL_SC); let le = sc.bytes > 1 && r.chance(1, 3); (Ty::Int(sc, le), VT::Int(sc)) }
        };
        items.push(Item::Field(plain(n.clone(), t)));
        vars.push((n, v));
    }
    let nc = if root { 5 + r.below(4) } else { 2 + r.below(2) };
    let mut made = vec![];
    {
        let mut x = X { r, spec: s, vars, envs: vec![], enums: vec!["E0".into()], bits: vec!["B0".into()], wide: false };
        x.sample(24);
        for i in 0..nc {
            let n = format!("{}{}", if root { "c" } else { "d" }, i);
            let d = 1 + x.r.below(4);
            let fl = match x.r.below(12) {
                0 | 1 => { let c = x.boolean(d); Field { calc: Some(c), ..plain(n, Ty::Bool) } }
                2 => { let double = x.r.chance(1, 2); let e = x.flt(double, d); Field { calc: Some(e), ..plain(n, if double { Ty::F64 } else { Ty::F32 }) } }
                3 | 4 => { let c = x.boolean(d); Field { cond: Some(c), ..plain(n, Ty::Int(*x.r.pick(&ALL_SC), false)) } }
                5 => { let e = x.int(U64, d, true); plain(n, Ty::Arr(b(Ty::Int(U8, false)), Len::Fixed(bin(Op::And, e, Expr::Int(3, U64, true))))) }
                6 => { let e = x.enum_of("E0", d); Field { calc: Some(e), ..plain(n, Ty::Ref("E0".into(), vec![])) } }
                7 => { let e = x.bits_of("B0", d); Field { calc: Some(e), ..plain(n, Ty::Ref("B0".into(), vec![])) } }
                8 if sub.is_some() => {
                    let (p, pargs) = sub.as_ref().unwrap();
                    let mut a = vec![];
                    for (_, t, def) in pargs {
                        if def.is_some() && x.r.chance(1, 2) { break; }
                        let d = 1 + x.r.below(3);
                        a.push(match t { Ty::Bool => x.boolean(d), Ty::F32 => x.flt(false, d), Ty::F64 => x.flt(true, d), Ty::Ref(e, _) => x.enum_of(e, d), Ty::Int(sc, _) => x.int(*sc, d, true), _ => unreachable!() });
                    }
                    plain(n, Ty::Ref(p.clone(), a))
                }
                _ => { let sc = *x.r.pick(&ALL_SC); let e = x.int(sc, d, true); let le = sc.bytes > 1 && x.r.chance(1, 4); Field { calc: Some(e), ..plain(n, Ty::Int(sc, le)) } }
            };
            // later ones may refer to it
            if let Some(e) = &fl.calc {
                let v = match &fl.ty { Ty::Bool => Some(VT::Bool), Ty::Int(sc, _) => Some(VT::Int(*sc)), Ty::F32 => Some(VT::F32), Ty::F64 => Some(VT::F64), Ty::Ref(n, _) if n == "E0" => Some(VT::Enum(n.clone())), Ty::Ref(n, _) if n == "B0" => Some(VT::Bits(n.clone())), _ => None };
                let want = match &v { Some(VT::Int(sc)) => Some(*sc), _ => None };
                let vs: Vec<EV> = x.envs.iter().map_while(|env| eval_w(x.spec, env, e, want).ok().and_then(|v| crate::refcodec::coerce(x.spec, &fl.ty, v).ok())).collect();
                if v.is_some() && vs.len() == x.envs.len() { for (env, v) in x.envs.iter_mut().zip(vs) { env.fields.insert(fl.name.clone(), v); } x.vars.push((fl.name.clone(), v.unwrap())); }
            }
            made.push(Item::Field(fl));
        }
    }
    items.extend(made);
    // a calculated field may stand anywhere before what it is used for
    if r.chance(1, 2) {
        for _ in 0..1 + r.below(4) {
            let cs: Vec<usize> = (0..items.len()).filter(|i| matches!(&items[*i], Item::Field(f) if f.calc.is_some() && f.cond.is_none())).collect();
            if cs.is_empty() { break; }
            let i = *r.pick(&cs);
            let it = items.remove(i);
            let j = r.below(i + 1);
            items.insert(j, it);
        }
    }
    s.decls.push(Decl { field: plain(name, Ty::Cont(Container { len: None, tagged: false, items })), args });
}

/// whether the language gives a constant value to the expression (functions and floating point have none)
fn is_const(e: &Expr) -> bool { let t = expr_text(e); !t.contains("f32") && !t.contains("f64") && !t.contains("len(") && !t.contains("bits(") && !t.contains("pad(") && !t.contains("sum(") }
fn cexpr(r: &mut Rng, s: &Spec, sc: Sc, d: usize) -> Expr {
    for _ in 0..20 {
        let e = {
            let some = s.decl("B0").is_some();
            let mut x = X { r, spec: s, vars: vec![], envs: vec![], enums: if some { vec!["E0".into()] } else { vec![] }, bits: if some { vec!["B0".into()] } else { vec![] }, wide: false };
            x.sample(1);
            let e = x.int(sc, d, true);
            match x.r.below(8) {
                _ if !some => e,
                0 => { let v = Expr::Variant("E0".into(), x.r.pick(&["A0", "A1", "A2"]).to_string()); bin(*x.r.pick(&[Op::Xor, Op::Or, Op::Add]), e, if x.r.chance(1, 2) { v } else { Expr::Cast(b(v), sc) }) }
                1 => { let v = Expr::Variant("B0".into(), x.r.pick(&["F0", "F1", "F2"]).to_string()); bin(Op::Xor, Expr::Cast(b(v), sc), e) }
                2 => { let c = x.boolean(d.max(1)); let y = x.int(sc, d, true); Expr::Tern(b(c), b(e), b(y)) }
                _ => e,
            }
        };
        if is_const(&e) && matches!(eval_w(s, &Env::default(), &e, Some(sc)), Ok(EV::Int(..))) && typed(s, &e, sc) { return e; }
    }
    Expr::Int(r.below(100) as u128, sc, false)
}
/// only coercions that keep the signedness and do not narrow
fn typed(s: &Spec, e: &Expr, sc: Sc) -> bool {
    let reps = |n: &str| match s.decl(n).map(|d| &d.field.ty) { Some(Ty::Enum(x, ..)) | Some(Ty::Bitfield(x, ..)) => Some(*x), _ => None };
    match e {
        Expr::Bin(Op::Xor | Op::Or | Op::Add, x, y) => match (&**x, &**y) {
            (_, Expr::Variant(n, _)) => { let r = reps(n).unwrap(); r.signed == sc.signed && r.bytes <= sc.bytes && typed(s, x, sc) }
            (Expr::Cast(v, _), _) | (_, Expr::Cast(v, _)) if matches!(&**v, Expr::Variant(..)) => match &**v { Expr::Variant(n, _) => reps(n).unwrap().signed == sc.signed, _ => true },
            _ => true,
        },
        _ => true,
    }
}
/// a spec of constants, enums and bitfields whose values are expressions
pub fn const_spec(r: &mut Rng, name: &str) -> Spec {
    let mut s = Spec { name: name.into(), ..Default::default() };
    for i in 0..2 + r.below(6) {
        let sc = *r.pick(&ALL_SC);
        let d = 1 + r.below(3);
        let e = cexpr(r, &s, sc, d);
        s.consts.push((format!("K{}", i), Ty::Int(sc, false), e));
    }
    if r.chance(1, 2) { let e = { let mut x = X { r, spec: &s, vars: vec![], envs: vec![], enums: vec![], bits: vec![], wide: false }; x.sample(1); x.boolean(2) }; if is_const(&e) { s.consts.push(("KB".into(), Ty::Bool, e)); } }
    let es = *r.pick(&[U8, U8, U16, U32, I8, I16, I64]);
    s.decls.push(Decl { field: plain("E0".into(), Ty::Enum(es, false, vec![("A0".into(), EnumVal::Expr(Expr::Int(1, es, true))), ("A1".into(), EnumVal::Auto), ("A2".into(), EnumVal::Expr(Expr::Int(77, es, false)))])), args: vec![] });
    let bs = *r.pick(&[U8, U16, U32]);
    s.decls.push(Decl { field: plain("B0".into(), Ty::Bitfield(bs, false, vec![("F0".into(), Some(Expr::Int(1, bs, true))), ("F1".into(), None), ("F2".into(), Some(Expr::Int(*r.pick(&[64u128, 0x60, 0xf2]), bs, false)))])), args: vec![] });
    // many variants, few of them with a value of their own
    if r.chance(1, 12) {
        let sc = *r.pick(&[U16, U32, U64, I16, I32, I64]);
        let start = if r.chance(1, 2) { Expr::Int(r.below(1000) as u128, sc, true) } else { cexpr(r, &s, sc, 1) };
        let mut vs = vec![("V0".to_string(), EnumVal::Expr(start))];
        for j in 1..250 + r.below(40) { vs.push((format!("V{}", j), EnumVal::Auto)); }
        if enum_values(&s, sc, &vs).is_ok() { let le = r.chance(1, 3); s.decls.push(Decl { field: plain("EM".into(), Ty::Enum(sc, le, vs)), args: vec![] }); }
    }
    if r.chance(1, 4) {
        let sc = *r.pick(&[U16, U32, U64, U128]);
        let mut vs = vec![("G0".to_string(), Some(Expr::Int(1, sc, true)))];
        for j in 1..(sc.bits() as usize).min(8 + r.below(120)) { vs.push((format!("G{}", j), None)); }
        if bit_values(&s, sc, &vs).is_ok() { let le = r.chance(1, 3); s.decls.push(Decl { field: plain("BM".into(), Ty::Bitfield(sc, le, vs)), args: vec![] }); }
    }
    for i in 0..8 + r.below(8) {
        let d = 1 + r.below(4);
        if r.chance(1, 3) {
            let sc = *r.pick(&[U8, U16, U32, U64]);
            let mut vs: Vec<(String, Option<Expr>)> = vec![];
            for j in 0..1 + r.below(4) { let e = if j > 0 && r.chance(1, 3) { None } else { Some(cexpr(r, &s, sc, d)) }; vs.push((format!("G{}", j), e)); if bit_values(&s, sc, &vs).is_err() { vs.pop(); } }
            let le = sc.bytes > 1 && r.chance(1, 3);
            if !vs.is_empty() { s.decls.push(Decl { field: plain(format!("B{}", i + 1), Ty::Bitfield(sc, le, vs)), args: vec![] }); }
        } else {
            let sc = *r.pick(&[U8, U16, U32, U64, I8, I16, I32, I64]);
            let mut vs: Vec<(String, EnumVal)> = vec![];
            for j in 0..1 + r.below(5) {
                let e = if j > 0 && r.chance(1, 3) { EnumVal::Auto } else { EnumVal::Expr(cexpr(r, &s, sc, d)) };
                vs.push((format!("V{}", j), e));
                let ok = match enum_values(&s, sc, &vs) { Ok(v) => { let mut x: Vec<u128> = v.iter().map(|x| x.1).collect(); x.sort(); x.dedup(); x.len() == v.len() } Err(_) => false };
                if !ok { vs.pop(); }
            }
            let le = sc.bytes > 1 && r.chance(1, 3);
            if !vs.is_empty() { s.decls.push(Decl { field: plain(format!("E{}", i + 1), Ty::Enum(sc, le, vs)), args: vec![] }); }
        }
    }
    s
}
/// an expression of the type that has no value, or none that is constant
pub fn no_const(r: &mut Rng, s: &Spec, sc: Sc) -> Expr {
    let lit = |v: u128| Expr::Int(v, sc, true);
    let d = r.below(3);
    let min = if sc.signed { bin(Op::Sub, Expr::Neg(b(lit(sc.max_u()))), lit(1)) } else { lit(0) };
    // the literal gives the type where none is expected
    let typed = |e: Expr| bin(Op::Xor, lit(0), e);
    let e = typed(cexpr(r, s, sc, d));
    let mut bad = match r.below(10) {
        0 => bin(Op::Div, e, lit(0)), 1 => bin(Op::Mod, e, lit(0)),
        2 => bin(Op::Add, lit(sc.max_u()), lit(1 + r.below(100) as u128)),
        3 => bin(Op::Sub, min, lit(1 + r.below(100) as u128)),
        4 => bin(Op::Mul, lit(sc.max_u()), lit(2 + r.below(100) as u128)),
        5 => bin(*r.pick(&[Op::Shl, Op::Shr, Op::ShrS]), e, lit((sc.bits() as usize + r.below(128 - sc.bits() as usize).min(sc.max_u() as usize - sc.bits() as usize)) as u128)),
        6 if sc.signed => Expr::Neg(b(min)),
        7 if sc.signed => bin(*r.pick(&[Op::Div, Op::Mod]), min, Expr::Neg(b(lit(1)))),
        8 if sc.signed => bin(Op::Shl, e, Expr::Neg(b(lit(1)))),
        9 => Expr::Cast(b(Expr::Call("len".into(), vec![Expr::Str(b"ab".to_vec())])), sc),
        _ => bin(Op::Div, e, bin(Op::Xor, lit(5), lit(5))),
    };
    for _ in 0..r.below(4) {
        let o = typed(cexpr(r, s, sc, 1));
        bad = match r.below(7) {
            0 => bin(Op::And, bad, lit(0)), 1 => bin(Op::Or, o, bad), 2 => Expr::Tern(b(Expr::Bool(true)), b(bad), b(o)), 3 => Expr::Tern(b(Expr::Bool(false)), b(o), b(bad)),
            4 => Expr::BitNot(b(bad)), 5 => Expr::Tern(b(bin(Op::Eq, bad, o.clone())), b(lit(1)), b(o)), _ => { let t = *r.pick(&ALL_SC); let bs = Expr::Cast(b(bad), t); Expr::Cast(b(bs), sc) }
        };
    }
    bad
}
pub fn refusals(seed: u64, n: u64, rep: &mut crate::report::Report) {
    std::panic::set_hook(Box::new(|i| { if let Some(l) = i.location() { crate::front::set_where(format!("{}:{}", l.file().rsplit("protospec-build/src/").next().unwrap_or(""), l.line())); } }));
    for i in 0..n {
        let mut r = Rng::derive(seed, "C26 refusals", i);
        let mut s = const_spec(&mut r, "x");
        let n = s.decls.len();
        let k = r.below(n);
        let (mut done, mut name) = ("", String::new());
        let sp = s.clone();
        let via_const = r.chance(1, 4);
        let mut add = None;
        let mut put = |r: &mut Rng, sc: Sc| { let e = no_const(r, &sp, sc); if via_const { add = Some((sc, e)); Expr::Const("KX".into()) } else { e } };
        match &mut s.decls[k].field.ty {
            Ty::Enum(sc, _, vs) => { let j = r.below(vs.len()); name = vs[j].0.clone();
                if vs.len() > 1 && r.chance(1, 4) { let v = enum_values(&sp, *sc, vs).unwrap(); let j = 1 + r.below(vs.len() - 1); name = vs[j].0.clone(); let o = v[r.below(j)].1; let l = Expr::Int(if sc.signed && sc.sext(o) < 0 { (sc.sext(o) as u128).wrapping_neg() } else { o }, *sc, true); if !sc.signed || sc.sext(o) != sc.min() { vs.truncate(j + 1); vs[j].1 = EnumVal::Expr(if sc.signed && sc.sext(o) < 0 { Expr::Neg(Box::new(l)) } else { l }); done = "two variants of one value"; } }
                else { let sc = *sc; vs[j].1 = EnumVal::Expr(put(&mut r, sc)); vs.truncate(j + 1); done = "a variant without value"; } }
            Ty::Bitfield(sc, _, vs) => { let j = r.below(vs.len()); name = vs[j].0.clone(); let sc = *sc; vs[j].1 = Some(put(&mut r, sc)); vs.truncate(j + 1); done = "a flag without value"; }
            _ => (),
        }
        if done.is_empty() || k < 2 { continue; }
        if let Some((sc, e)) = add { if expr_text(&e).contains("E0") || expr_text(&e).contains("B0") { continue; } s.consts.push(("KX".into(), Ty::Int(sc, false), e)); }
        let t = s.text();
        rep.case(Some(&t));
        rep.count(done, 1);
        match crate::front::guard(|| crate::ffi::asg_of(&t)) {
            Ok(Err(e)) => { if !e.contains(&format!("'{}'", name)) { rep.violation(&format!("{} ({}) is refused for another reason: {}", done, name, e), &t, ""); } }
            Ok(Ok(_)) => rep.violation(&format!("{} ({} of {}) is accepted", done, name, s.decls[k].field.name), &t, ""),
            Err(e) => rep.violation(&format!("{} ({}): panic: {}", done, name, e), &t, ""),
        }
    }
}
