//! Independent model of the ProtoSpec language: the specs the monitors generate, how they are written down,
//! and what their expressions mean.  Nothing here uses the code under test.
use std::collections::HashMap;
use std::fmt::Write;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub struct Sc { pub signed: bool, pub bytes: u8 }
impl Sc {
    pub const fn new(signed: bool, bytes: u8) -> Sc { Sc { signed, bytes } }
    pub fn bits(&self) -> u32 { self.bytes as u32 * 8 }
    pub fn name(&self) -> String { format!("{}{}", if self.signed { "i" } else { "u" }, self.bits()) }
    pub fn wrap(&self, bits: u128) -> u128 { if self.bytes == 16 { bits } else { bits & ((1u128 << self.bits()) - 1) } }
    /// value of the (wrapped) bit pattern, as i128 for signed ones
    pub fn sext(&self, bits: u128) -> i128 {
        if self.bytes == 16 { return bits as i128; }
        let b = self.wrap(bits);
        let sh = 128 - self.bits();
        ((b << sh) as i128) >> sh
    }
    pub fn min(&self) -> i128 { if !self.signed { 0 } else if self.bytes == 16 { i128::MIN } else { -(1i128 << (self.bits() - 1)) } }
    pub fn max_u(&self) -> u128 { let m = if self.bytes == 16 { u128::MAX } else { (1u128 << self.bits()) - 1 }; if self.signed { m >> 1 } else { m } }
    pub fn show(&self, bits: u128) -> String { if self.signed { self.sext(bits).to_string() } else { self.wrap(bits).to_string() } }
}
pub const U8: Sc = Sc::new(false, 1);
pub const U16: Sc = Sc::new(false, 2);
pub const U32: Sc = Sc::new(false, 4);
pub const U64: Sc = Sc::new(false, 8);
pub const U128: Sc = Sc::new(false, 16);
pub const I8: Sc = Sc::new(true, 1);
pub const I16: Sc = Sc::new(true, 2);
pub const I32: Sc = Sc::new(true, 4);
pub const I64: Sc = Sc::new(true, 8);
pub const I128: Sc = Sc::new(true, 16);
pub const ALL_SC: [Sc; 10] = [U8, U16, U32, U64, U128, I8, I16, I32, I64, I128];

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Op { Add, Sub, Mul, Div, Mod, And, Or, Xor, Shl, Shr, ShrS, Lt, Gt, Le, Ge, Eq, Ne, LAnd, LOr }
impl Op {
    pub fn text(&self) -> &'static str {
        use Op::*;
        match self { Add => "+", Sub => "-", Mul => "*", Div => "/", Mod => "%", And => "&", Or => "|", Xor => "^", Shl => "<<", Shr => ">>", ShrS => ">>>", Lt => "<", Gt => ">", Le => "<=", Ge => ">=", Eq => "==", Ne => "!=", LAnd => "&&", LOr => "||" }
    }
    pub fn is_bool(&self) -> bool { use Op::*; matches!(self, Lt | Gt | Le | Ge | Eq | Ne | LAnd | LOr) }
}

#[derive(Clone, PartialEq, Debug)]
pub enum Expr {
    /// literal, with its scalar type; `true` = write the suffix
    Int(u128, Sc, bool),
    Bool(bool),
    Str(Vec<u8>),
    Field(String),
    Arg(String),
    Const(String),
    Bin(Op, Box<Expr>, Box<Expr>),
    Neg(Box<Expr>),
    Not(Box<Expr>),
    BitNot(Box<Expr>),
    Cast(Box<Expr>, Sc),
    /// cast to f32 or (true) f64
    CastF(Box<Expr>, bool),
    Tern(Box<Expr>, Box<Expr>, Box<Expr>),
    Elvis(Box<Expr>, Box<Expr>),
    Idx(Box<Expr>, Box<Expr>),
    Variant(String, String),
    Member(Box<Expr>, String),
    Call(String, Vec<Expr>),
}

#[derive(Clone, PartialEq, Debug)]
pub enum Len { Fixed(Expr), Unbounded, Term(Vec<u8>) }

#[derive(Clone, PartialEq, Debug)]
pub struct Container { pub len: Option<Expr>, pub tagged: bool, pub items: Vec<Item> }

#[derive(Clone, PartialEq, Debug)]
pub enum Item { Field(Field), Pad(Expr) }

#[derive(Clone, PartialEq, Debug)]
pub enum Ty {
    Int(Sc, bool),
    F32,
    F64,
    Bool,
    Arr(Box<Ty>, Len),
    Ref(String, Vec<Expr>),
    Cont(Container),
    /// rep, little endian, variants (name, explicit value as expression if written, is default)
    Enum(Sc, bool, Vec<(String, EnumVal)>),
    Bitfield(Sc, bool, Vec<(String, Option<Expr>)>),
}
#[derive(Clone, PartialEq, Debug)]
pub enum EnumVal { Auto, Expr(Expr), Default }

#[derive(Clone, PartialEq, Debug)]
pub struct Xform { pub name: String, pub args: Vec<Expr>, pub cond: Option<Expr> }

#[derive(Clone, PartialEq, Debug)]
pub struct Field { pub name: String, pub ty: Ty, pub calc: Option<Expr>, pub cond: Option<Expr>, pub xforms: Vec<Xform> }

#[derive(Clone, PartialEq, Debug)]
pub struct Decl { pub field: Field, pub args: Vec<(String, Ty, Option<Expr>)> }

#[derive(Clone, PartialEq, Debug, Default)]
pub struct Spec {
    pub name: String,
    pub ffi_types: Vec<String>,
    pub ffi_transforms: Vec<String>,
    pub ffi_functions: Vec<String>,
    pub consts: Vec<(String, Ty, Expr)>,
    pub decls: Vec<Decl>,
}

/// Foreign types the harness knows; everything else in Ty::Ref is a declaration.
pub const FOREIGN: &[&str] = &["v8", "v16", "v32", "v64", "v128", "utf8", "utf16", "boxed32", "triple"];
pub fn is_foreign(n: &str) -> bool { FOREIGN.contains(&n) }
pub fn varint_sc(n: &str) -> Option<Sc> {
    Some(match n { "v8" => I8, "v16" => I16, "v32" => I32, "v64" => I64, "v128" => I128, _ => return None })
}

impl Spec {
    pub fn decl(&self, n: &str) -> Option<&Decl> { self.decls.iter().find(|d| d.field.name == n) }
    /// follow plain references to the underlying declaration type
    pub fn resolve<'a>(&'a self, t: &'a Ty) -> &'a Ty {
        let mut t = t;
        for _ in 0..64 {
            match t {
                Ty::Ref(n, _) if !is_foreign(n) => match self.decl(n) { Some(d) => t = &d.field.ty, None => return t },
                _ => return t,
            }
        }
        t
    }
    /// follow references to declarations that only give another type a name
    pub fn unalias<'a>(&'a self, t: &'a Ty) -> &'a Ty {
        let mut t = t;
        for _ in 0..64 {
            match t {
                Ty::Ref(n, _) if !is_foreign(n) => match self.decl(n).map(|d| &d.field.ty) { None | Some(Ty::Cont(_) | Ty::Enum(..) | Ty::Bitfield(..)) => return t, Some(x) => t = x },
                _ => return t,
            }
        }
        t
    }
    pub fn text(&self) -> String { self.text_with(&mut |s, _| s.push(' ')) }
    /// `sep` is asked for every piece of trivia between declarations (used for whitespace/comment variants)
    pub fn text_with(&self, _sep: &mut dyn FnMut(&mut String, usize)) -> String {
        let mut o = String::new();
        for f in &self.ffi_types { writeln!(o, "import_ffi {} as type;", f).unwrap(); }
        for f in &self.ffi_transforms { writeln!(o, "import_ffi {} as transform;", f).unwrap(); }
        for f in &self.ffi_functions { writeln!(o, "import_ffi {} as function;", f).unwrap(); }
        for (n, t, e) in &self.consts { writeln!(o, "const {}: {} = {};", n, ty_text(t, 0), expr_text(e)).unwrap(); }
        for d in &self.decls {
            write!(o, "type {}", d.field.name).unwrap();
            if !d.args.is_empty() {
                o.push('(');
                for (i, (n, t, def)) in d.args.iter().enumerate() {
                    if i > 0 { o.push_str(", "); }
                    write!(o, "{}: {}", n, ty_text(t, 0)).unwrap();
                    if let Some(e) = def { write!(o, " ? {}", expr_text(e)).unwrap(); }
                }
                o.push(')');
            }
            writeln!(o, " = {};", field_text(&d.field, 0)).unwrap();
        }
        o
    }
}

pub fn sc_text(sc: Sc, le: bool) -> String { format!("{}{}", sc.name(), if le { "le" } else { "" }) }

pub fn ty_text(t: &Ty, ind: usize) -> String {
    match t {
        Ty::Int(sc, le) => sc_text(*sc, *le),
        Ty::F32 => "f32".into(),
        Ty::F64 => "f64".into(),
        Ty::Bool => "bool".into(),
        Ty::Arr(e, l) => {
            // array suffixes apply left to right, the outermost array is written last
            let base = ty_text(e, ind);
            match l {
                Len::Fixed(e) => format!("{}[{}]", base, expr_text(e)),
                Len::Unbounded => format!("{}[..]", base),
                Len::Term(t) => format!("{}[..{}]", base, str_text(t)),
            }
        }
        Ty::Ref(n, a) => if a.is_empty() { n.clone() } else { format!("{}({})", n, a.iter().map(expr_text).collect::<Vec<_>>().join(", ")) },
        Ty::Cont(c) => {
            let mut o = String::from("container ");
            if let Some(l) = &c.len { write!(o, "[{}] ", expr_text(l)).unwrap(); }
            if c.tagged { o.push_str("+tagged_enum "); }
            o.push_str("{\n");
            for it in &c.items {
                for _ in 0..ind + 1 { o.push_str("    "); }
                match it {
                    Item::Field(f) => writeln!(o, "{}: {},", f.name, field_text(f, ind + 1)).unwrap(),
                    Item::Pad(e) => writeln!(o, ".pad: {},", expr_text(e)).unwrap(),
                }
            }
            for _ in 0..ind { o.push_str("    "); }
            o.push('}');
            o
        }
        Ty::Enum(sc, le, vs) => {
            let mut o = format!("enum {} {{\n", sc_text(*sc, *le));
            for (n, v) in vs {
                match v {
                    EnumVal::Auto => writeln!(o, "    {},", n).unwrap(),
                    EnumVal::Expr(e) => writeln!(o, "    {} = {},", n, expr_text(e)).unwrap(),
                    EnumVal::Default => writeln!(o, "    {} = default,", n).unwrap(),
                }
            }
            o.push('}');
            o
        }
        Ty::Bitfield(sc, le, vs) => {
            let mut o = format!("bitfield {} {{\n", sc_text(*sc, *le));
            for (n, v) in vs {
                match v { None => writeln!(o, "    {},", n).unwrap(), Some(e) => writeln!(o, "    {} = {},", n, expr_text(e)).unwrap() }
            }
            o.push('}');
            o
        }
    }
}
pub fn field_text(f: &Field, ind: usize) -> String {
    let mut o = ty_text(&f.ty, ind);
    if let Some(c) = &f.calc { write!(o, " = {}", expr_text(c)).unwrap(); }
    if let Some(c) = &f.cond { write!(o, " {{ {} }}", expr_text(c)).unwrap(); }
    for x in &f.xforms {
        write!(o, " -> {}", x.name).unwrap();
        if !x.args.is_empty() { write!(o, "({})", x.args.iter().map(expr_text).collect::<Vec<_>>().join(", ")).unwrap(); }
        if let Some(c) = &x.cond { write!(o, " {{ {} }}", expr_text(c)).unwrap(); }
    }
    o
}
pub fn str_text(s: &[u8]) -> String {
    // only bytes that need no escape, or an escape followed by a non-hex character, are written raw
    let mut o = String::from("\"");
    for (i, b) in s.iter().enumerate() {
        match b {
            b'"' => o.push_str("\\\""),
            b'\\' => o.push_str("\\\\"),
            0x20..=0x7e => o.push(*b as char),
            _ if *b < 16 && !s.get(i + 1).map_or(false, |n| n.is_ascii_hexdigit()) => write!(o, "\\{:x}", b).unwrap(),
            _ => write!(o, "\\{:02x}", b).unwrap(),
        }
    }
    o.push('"');
    o
}
pub fn expr_text(e: &Expr) -> String {
    match e {
        Expr::Int(v, sc, sfx) => {
            if !*sfx && *v > sc.max_u() { return v.to_string(); }
            let n = sc.show(*v);
            let s = if *sfx { format!("{}{}", n.trim_start_matches('-'), sc.name()) } else { n.trim_start_matches('-').to_string() };
            if n.starts_with('-') { format!("-{}", s) } else { s }
        }
        Expr::Bool(b) => b.to_string(),
        Expr::Str(s) => str_text(s),
        Expr::Field(n) | Expr::Arg(n) | Expr::Const(n) => n.clone(),
        Expr::Bin(op, a, b) => format!("({} {} {})", expr_text(a), op.text(), expr_text(b)),
        Expr::Neg(a) => format!("(-{})", expr_text(a)),
        Expr::Not(a) => format!("(!{})", expr_text(a)),
        Expr::BitNot(a) => format!("(~{})", expr_text(a)),
        Expr::Cast(a, t) => format!("({} :> {})", expr_text(a), t.name()),
        Expr::CastF(a, d) => format!("({} :> {})", expr_text(a), if *d { "f64" } else { "f32" }),
        Expr::Tern(c, a, b) => format!("({} ? {} : {})", expr_text(c), expr_text(a), expr_text(b)),
        Expr::Elvis(a, b) => format!("({} ?: {})", expr_text(a), expr_text(b)),
        Expr::Idx(a, i) => format!("{}[{}]", expr_text(a), expr_text(i)),
        Expr::Variant(e, v) => format!("{}::{}", e, v),
        Expr::Member(a, m) => format!("{}.{}", expr_text(a), m),
        Expr::Call(f, a) => format!("{}({})", f, a.iter().map(expr_text).collect::<Vec<_>>().join(", ")),
    }
}

// ---------------------------------------------------------------- values

/// Values carried by a spec's types.  Integers are bit patterns wrapped to their width.
#[derive(Clone, PartialEq, Debug)]
pub enum Val {
    I(u128),
    F(u32),
    D(u64),
    B(bool),
    S(String),
    L(Vec<Val>),
    /// container: named, flattened
    C(Vec<(String, Val)>),
    None,
    Some(Box<Val>),
    /// tagged enum
    V(String, Box<Val>),
}
impl Val {
    /// token form used on the wire between driver and target (field names are positional there)
    pub fn ser(&self, o: &mut String) {
        match self {
            Val::I(x) => write!(o, "i{} ", x).unwrap(),
            Val::F(x) => write!(o, "f{} ", x).unwrap(),
            Val::D(x) => write!(o, "d{} ", x).unwrap(),
            Val::B(x) => write!(o, "b{} ", *x as u8).unwrap(),
            Val::S(x) => write!(o, "s{} ", hex(x.as_bytes())).unwrap(),
            Val::L(x) => { write!(o, "l{} ", x.len()).unwrap(); for v in x { v.ser(o) } }
            Val::C(x) => { write!(o, "c{} ", x.len()).unwrap(); for (_, v) in x { v.ser(o) } }
            Val::None => o.push_str("n "),
            Val::Some(x) => { o.push_str("o "); x.ser(o) }
            Val::V(n, x) => { write!(o, "v{} ", n).unwrap(); x.ser(o) }
        }
    }
    pub fn text(&self) -> String { let mut s = String::new(); self.ser(&mut s); s.trim_end().to_string() }
}
pub fn hex(b: &[u8]) -> String { let mut s = String::with_capacity(b.len() * 2); for x in b { write!(s, "{:02x}", x).unwrap(); } s }
pub fn unhex(s: &str) -> Vec<u8> { (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect() }

// ---------------------------------------------------------------- expression semantics

#[derive(Clone, PartialEq, Debug)]
pub enum EV { Int(u128, Sc), Bool(bool), Enum(String, u128), Bits(String, u128), Arr(Ty, Vec<Val>), Str(String), Raw(Vec<u8>), Opt(Option<Box<EV>>), F32(u32), F64(u64), Opaque }

#[derive(Clone, PartialEq, Debug)]
pub enum EErr {
    /// the spec's own arithmetic is undefined here (overflow, division by zero, index out of bounds, oversize shift)
    Undefined,
    /// the model has no answer
    Model(String),
}

#[derive(Clone, Default)]
pub struct Env { pub fields: HashMap<String, EV>, pub args: HashMap<String, EV>, pub blen: HashMap<String, u64>, /// inside a conditional container that is present
    pub opt: bool }

pub fn to_ev(spec: &Spec, ty: &Ty, v: &Val) -> EV {
    match (spec.unalias(ty), v) {
        (Ty::Ref(n, _), Val::I(x)) if varint_sc(n).is_some() => EV::Int(*x, varint_sc(n).unwrap()),
        (Ty::Ref(n, _), Val::S(s)) if n == "utf8" || n == "utf16" => EV::Str(s.clone()),
        (Ty::Ref(n, _), _) if !is_foreign(n) => match spec.decl(n) {
            Some(d) => match (&d.field.ty, v) {
                (Ty::Enum(..), Val::I(x)) => EV::Enum(n.clone(), *x),
                (Ty::Bitfield(..), Val::I(x)) => EV::Bits(n.clone(), *x),
                _ => EV::Opaque,
            },
            None => EV::Opaque,
        },
        (Ty::Int(sc, _), Val::I(x)) => EV::Int(*x, *sc),
        (Ty::Bool, Val::B(b)) => EV::Bool(*b),
        (Ty::F32, Val::F(b)) => EV::F32(*b),
        (Ty::F64, Val::D(b)) => EV::F64(*b),
        (Ty::Arr(e, _), Val::L(x)) => EV::Arr((**e).clone(), x.clone()),
        _ => EV::Opaque,
    }
}

pub fn int_op(op: Op, a: u128, b: u128, sc: Sc) -> Result<u128, EErr> {
    use Op::*;
    let fit_s = |r: Option<i128>| -> Result<u128, EErr> { match r { Some(r) if r >= sc.min() && r <= sc.max_u() as i128 => Ok(sc.wrap(r as u128)), _ => Err(EErr::Undefined) } };
    let fit_u = |r: Option<u128>| -> Result<u128, EErr> { match r { Some(r) if r <= sc.max_u() => Ok(r), _ => Err(EErr::Undefined) } };
    let (a, b) = (sc.wrap(a), sc.wrap(b));
    match op {
        And => return Ok(a & b),
        Or => return Ok(a | b),
        Xor => return Ok(a ^ b),
        Shl | Shr | ShrS => {
            let n = if sc.signed { let n = sc.sext(b); if n < 0 { return Err(EErr::Undefined); } n as u128 } else { b };
            if n >= sc.bits() as u128 { return Err(EErr::Undefined); }
            return Ok(match op {
                Shl => sc.wrap(a << n),
                // >> follows the operand's signedness; >>> always replicates the sign bit
                Shr => if sc.signed { sc.wrap((sc.sext(a) >> n) as u128) } else { a >> n },
                _ => sc.wrap((sc.sext(a) >> n) as u128),
            });
        }
        _ => (),
    }
    if sc.signed {
        let (a, b) = (sc.sext(a), sc.sext(b));
        match op { Add => fit_s(a.checked_add(b)), Sub => fit_s(a.checked_sub(b)), Mul => fit_s(a.checked_mul(b)), Div => fit_s(a.checked_div(b)),
            Mod => if b == -1 && a == sc.min() { Err(EErr::Undefined) } else { fit_s(a.checked_rem(b)) }, _ => unreachable!() }
    } else {
        match op { Add => fit_u(a.checked_add(b)), Sub => fit_u(a.checked_sub(b)), Mul => fit_u(a.checked_mul(b)), Div => fit_u(a.checked_div(b)), Mod => fit_u(a.checked_rem(b)), _ => unreachable!() }
    }
}
pub fn f_to_int(v: f64, t: Sc) -> u128 {
    if v.is_nan() { return 0; }
    if t.signed { let x = v as i128; let (lo, hi) = (t.min(), t.max_u() as i128); t.wrap(x.clamp(lo, hi) as u128) } else { (v as u128).min(t.max_u()) }
}
pub fn cmp_op(op: Op, a: u128, b: u128, sc: Sc) -> bool {
    use Op::*;
    let o = if sc.signed { sc.sext(a).cmp(&sc.sext(b)) } else { sc.wrap(a).cmp(&sc.wrap(b)) };
    match op { Lt => o.is_lt(), Gt => o.is_gt(), Le => o.is_le(), Ge => o.is_ge(), Eq => o.is_eq(), Ne => o.is_ne(), _ => unreachable!() }
}
pub fn cast(bits: u128, from: Sc, to: Sc) -> u128 { to.wrap(if from.signed { from.sext(bits) as u128 } else { from.wrap(bits) }) }

fn model_err<T>(s: &str) -> Result<T, EErr> { Err(EErr::Model(s.to_string())) }

/// values of the variants of an enum (defaults excluded)
pub fn enum_values(spec: &Spec, sc: Sc, vs: &[(String, EnumVal)]) -> Result<Vec<(String, u128)>, EErr> {
    let mut out = vec![];
    let mut last: Option<u128> = None;
    for (n, v) in vs {
        let x = match v {
            EnumVal::Default => continue,
            EnumVal::Expr(e) => match eval_w(spec, &Env::default(), e, Some(sc))? { EV::Int(b, s) => cast(b, s, sc), _ => return model_err("enum value") },
            EnumVal::Auto => match last { None => 0, Some(l) => int_op(Op::Add, l, 1, sc)? },
        };
        last = Some(x);
        out.push((n.clone(), x));
    }
    Ok(out)
}
pub fn bit_values(spec: &Spec, sc: Sc, vs: &[(String, Option<Expr>)]) -> Result<Vec<(String, u128)>, EErr> {
    let mut out: Vec<(String, u128)> = vec![];
    for (n, v) in vs {
        let x = match v {
            Some(e) => match eval_w(spec, &Env::default(), e, Some(sc))? { EV::Int(b, s) => cast(b, s, sc), _ => return model_err("bit value") },
            // the previous flag shifted left by one
            None => match out.last() { None => return model_err("first flag"), Some((_, l)) => {
                if sc.wrap(l << 1) >> 1 != *l { return Err(EErr::Undefined) }
                l << 1
            } },
        };
        out.push((n.clone(), x));
    }
    Ok(out)
}

fn scalar_of(spec: &Spec, v: &EV) -> Option<Sc> {
    match v { EV::Int(_, s) => Some(*s), EV::Enum(n, _) | EV::Bits(n, _) => match spec.decl(n).map(|d| &d.field.ty) { Some(Ty::Enum(s, ..)) | Some(Ty::Bitfield(s, ..)) => Some(*s), _ => None }, EV::Opt(Some(x)) => scalar_of(spec, x), _ => None }
}
pub fn eval_int(spec: &Spec, env: &Env, e: &Expr) -> Result<(u128, Sc), EErr> {
    match eval(spec, env, e)? {
        EV::Int(b, s) => Ok((b, s)),
        EV::Enum(n, b) => match spec.decl(&n).map(|d| &d.field.ty) { Some(Ty::Enum(sc, ..)) => Ok((b, *sc)), _ => model_err("enum") },
        o => model_err(&format!("expected int, got {:?}", o)),
    }
}
pub fn eval_bool(spec: &Spec, env: &Env, e: &Expr) -> Result<bool, EErr> {
    match eval(spec, env, e)? { EV::Bool(b) => Ok(b), o => model_err(&format!("expected bool, got {:?}", o)) }
}

pub fn eval(spec: &Spec, env: &Env, e: &Expr) -> Result<EV, EErr> { eval_w(spec, env, e, None) }
/// literals without a suffix take the type of the other operand, or the type the context asks for
pub fn untyped(e: &Expr) -> bool {
    match e {
        Expr::Int(_, _, s) => !*s,
        Expr::Neg(a) | Expr::BitNot(a) => untyped(a),
        Expr::Bin(op, a, b) => !op.is_bool() && untyped(a) && untyped(b),
        Expr::Tern(_, a, b) => untyped(a) && untyped(b),
        _ => false,
    }
}
fn const_value(spec: &Spec, env: &Env, n: &str) -> Option<Result<EV, EErr>> {
    Some(match spec.consts.iter().find(|c| c.0 == n)? {
        (_, Ty::Int(sc, _), e) => match eval_w(spec, env, e, Some(*sc)) { Ok(EV::Int(b, s)) => Ok(EV::Int(cast(b, s, *sc), *sc)), Ok(EV::Enum(n, b)) => match spec.decl(&n).map(|d| &d.field.ty) { Some(Ty::Enum(s, ..)) => Ok(EV::Int(cast(b, *s, *sc), *sc)), _ => model_err("const") }, o => o },
        (_, _, e) => eval(spec, env, e),
    })
}
/// evaluation where a scalar type is expected: narrower results of the same signedness are widened to it
pub fn eval_w(spec: &Spec, env: &Env, e: &Expr, want: Option<Sc>) -> Result<EV, EErr> {
    let v = eval_in(spec, env, e, want)?;
    Ok(match (want, scalar_of(spec, &v), &v) { (Some(w), Some(s), EV::Int(x, _) | EV::Enum(_, x) | EV::Bits(_, x)) if w.signed == s.signed && s.bytes <= w.bytes => EV::Int(cast(*x, s, w), w), _ => v })
}
/// a length, index or size: 64 bits, unsigned
pub fn eval_u64(spec: &Spec, env: &Env, e: &Expr) -> Result<(u128, Sc), EErr> {
    match eval_w(spec, env, e, Some(U64))? { EV::Int(b, s) => Ok((b, s)), o => model_err(&format!("expected length, got {:?}", o)) }
}
fn float(v: f64, double: bool) -> Result<EV, EErr> { if v.is_nan() { Err(EErr::Undefined) } else if double { Ok(EV::F64(v.to_bits())) } else { Ok(EV::F32((v as f32).to_bits())) } }
fn eval_in(spec: &Spec, env: &Env, e: &Expr, want: Option<Sc>) -> Result<EV, EErr> {
    Ok(match e {
        Expr::Int(v, sc, sfx) => { let sc = if *sfx { *sc } else { want.unwrap_or(*sc) }; if *v > sc.max_u() { return model_err("literal does not fit"); } EV::Int(*v, sc) }
        Expr::Bool(b) => EV::Bool(*b),
        Expr::Str(s) => EV::Raw(s.clone()),
        Expr::Field(n) => match env.fields.get(n).or_else(|| env.args.get(n)) {
            Some(x) => x.clone(),
            None => match const_value(spec, env, n) { Some(r) => r?, None => return model_err(&format!("no name {}", n)) },
        },
        Expr::Arg(n) => env.args.get(n).cloned().ok_or_else(|| EErr::Model(format!("no arg {}", n)))?,
        Expr::Const(n) => match const_value(spec, env, n) { Some(r) => r?, None => return model_err("no const") },
        Expr::Bin(op, a, b) => {
            if let Op::LAnd = op { return Ok(EV::Bool(eval_bool(spec, env, a)? && eval_bool(spec, env, b)?)); }
            if let Op::LOr = op { return Ok(EV::Bool(eval_bool(spec, env, a)? || eval_bool(spec, env, b)?)); }
            let w = if op.is_bool() { None } else { want };
            let (x, y) = if untyped(a) && !(untyped(b) || w.is_some()) {
                let y = eval_w(spec, env, b, w)?;
                (eval_w(spec, env, a, scalar_of(spec, &y))?, y)
            } else {
                let x = eval_w(spec, env, a, w)?;
                let s = scalar_of(spec, &x);
                (x, eval_w(spec, env, b, s)?)
            };
            // an enum operand next to a number counts as its value
            let deval = |v: EV, o: &EV| match (&v, o) { (EV::Enum(..) | EV::Bits(..), EV::Int(..)) => match scalar_of(spec, &v) { Some(s) => match v { EV::Enum(_, b) | EV::Bits(_, b) => EV::Int(b, s), v => v }, None => v }, _ => v };
            let (x, y) = { let x2 = deval(x.clone(), &y); let y2 = deval(y, &x); (x2, y2) };
            match (x, y) {
                (EV::Int(x, s), EV::Int(y, s2)) => {
                    // the right operand is widened to the left one's type
                    if s != s2 && (s.signed != s2.signed || s2.bytes > s.bytes) { return model_err("mixed int types"); }
                    let y = cast(y, s2, s);
                    if op.is_bool() { EV::Bool(cmp_op(*op, x, y, s)) } else { EV::Int(int_op(*op, x, y, s)?, s) }
                }
                (EV::F32(x), EV::F32(y)) => { let (x, y) = (f32::from_bits(x), f32::from_bits(y)); match op { Op::Lt => EV::Bool(x < y), Op::Gt => EV::Bool(x > y), Op::Le => EV::Bool(x <= y), Op::Ge => EV::Bool(x >= y), Op::Eq => EV::Bool(x == y), Op::Ne => EV::Bool(x != y), Op::Add => float((x + y) as f64, false)?, Op::Sub => float((x - y) as f64, false)?, Op::Mul => float((x * y) as f64, false)?, Op::Div => float((x / y) as f64, false)?, Op::Mod => float((x % y) as f64, false)?, _ => return model_err("float op") } }
                (EV::F64(x), EV::F64(y)) => { let (x, y) = (f64::from_bits(x), f64::from_bits(y)); match op { Op::Lt => EV::Bool(x < y), Op::Gt => EV::Bool(x > y), Op::Le => EV::Bool(x <= y), Op::Ge => EV::Bool(x >= y), Op::Eq => EV::Bool(x == y), Op::Ne => EV::Bool(x != y), Op::Add => float(x + y, true)?, Op::Sub => float(x - y, true)?, Op::Mul => float(x * y, true)?, Op::Div => float(x / y, true)?, Op::Mod => float(x % y, true)?, _ => return model_err("float op") } }
                (EV::Bool(x), EV::Bool(y)) => match op { Op::Eq => EV::Bool(x == y), Op::Ne | Op::Xor => EV::Bool(x != y), Op::Lt => EV::Bool(!x && y), Op::Gt => EV::Bool(x && !y), Op::Le => EV::Bool(!x || y), Op::Ge => EV::Bool(x || !y), Op::And => EV::Bool(x && y), Op::Or => EV::Bool(x || y), _ => return model_err("bool op") },
                (EV::Enum(n, x), EV::Enum(m, y)) if n == m => match op { Op::Eq => EV::Bool(x == y), Op::Ne => EV::Bool(x != y), _ => return model_err("enum op") },
                (EV::Bits(n, x), EV::Bits(m, y)) if n == m => match op { Op::Eq => EV::Bool(x == y), Op::Ne => EV::Bool(x != y), Op::And => EV::Bits(n, x & y), Op::Or => EV::Bits(n, x | y), Op::Xor => EV::Bits(n, x ^ y), _ => return model_err("bits op") },
                (x, y) => return model_err(&format!("operands {:?} {:?}", x, y)),
            }
        }
        Expr::Neg(a) => { let (x, s) = match eval_w(spec, env, a, want)? { EV::F32(x) => return Ok(EV::F32(x ^ 1 << 31)), EV::F64(x) => return Ok(EV::F64(x ^ 1 << 63)), EV::Int(x, s) => (x, s), o => return model_err(&format!("neg {:?}", o)) }; EV::Int(int_op(Op::Sub, 0, x, s)?, s) }
        Expr::Not(a) => EV::Bool(!eval_bool(spec, env, a)?),
        Expr::BitNot(a) => { let (x, s) = match eval_w(spec, env, a, want)? { EV::Int(x, s) => (x, s), o => return model_err(&format!("bitnot {:?}", o)) }; EV::Int(s.wrap(!x), s) }
        Expr::Cast(a, t) => match eval(spec, env, a)? {
            EV::Bits(n, x) => match spec.decl(&n).map(|d| &d.field.ty) { Some(Ty::Bitfield(sc, ..)) => EV::Int(cast(x, *sc, *t), *t), _ => return model_err("bits") },
            EV::Bool(b) => EV::Int(b as u128, *t),
            EV::Enum(n, x) => match spec.decl(&n).map(|d| &d.field.ty) { Some(Ty::Enum(sc, ..)) => EV::Int(cast(x, *sc, *t), *t), _ => return model_err("enum") },
            EV::Int(x, s) => EV::Int(cast(x, s, *t), *t),
            // towards zero, saturating
            EV::F32(x) => EV::Int(f_to_int(f32::from_bits(x) as f64, *t), *t),
            EV::F64(x) => EV::Int(f_to_int(f64::from_bits(x), *t), *t),
            o => return model_err(&format!("cast of {:?}", o)),
        },
        Expr::CastF(a, d) => match eval(spec, env, a)? {
            EV::Int(x, s) => { let v = |d: bool| if s.signed { if d { s.sext(x) as f64 } else { (s.sext(x) as f32) as f64 } } else if d { s.wrap(x) as f64 } else { (s.wrap(x) as f32) as f64 }; float(v(*d), *d)? }
            EV::F32(x) => float(f32::from_bits(x) as f64, *d)?,
            EV::F64(x) => float(f64::from_bits(x), *d)?,
            o => return model_err(&format!("float cast of {:?}", o)),
        },
        Expr::Tern(c, a, b) => if eval_bool(spec, env, c)? { eval_w(spec, env, a, want)? } else { let w = match eval_w(spec, env, a, want) { Ok(v @ EV::Int(..)) => scalar_of(spec, &v), _ => want }; eval_w(spec, env, b, want.or(w))? },
        Expr::Elvis(a, b) => match eval(spec, env, a)? { EV::Opt(Some(x)) => *x, EV::Opt(None) => eval_w(spec, env, b, want)?, o => return model_err(&format!("elvis on {:?}", o)) },
        Expr::Idx(a, i) => {
            let (i, _) = eval_u64(spec, env, i)?;
            match eval(spec, env, a)? {
                EV::Arr(t, v) => { if i >= v.len() as u128 { return Err(EErr::Undefined); } to_ev(spec, &t, &v[i as usize]) }
                _ => return model_err("index"),
            }
        }
        Expr::Variant(e, v) => match spec.decl(e).map(|d| &d.field.ty) {
            Some(Ty::Enum(sc, _, vs)) => EV::Enum(e.clone(), enum_values(spec, *sc, vs)?.iter().find(|x| &x.0 == v).ok_or(EErr::Model("variant".into()))?.1),
            Some(Ty::Bitfield(sc, _, vs)) => EV::Bits(e.clone(), bit_values(spec, *sc, vs)?.iter().find(|x| &x.0 == v).ok_or(EErr::Model("flag".into()))?.1),
            _ => return model_err("variant"),
        },
        Expr::Member(a, m) => match eval(spec, env, a)? {
            EV::Bits(n, x) => match spec.decl(&n).map(|d| &d.field.ty) {
                Some(Ty::Bitfield(sc, _, vs)) => EV::Bool(x & bit_values(spec, *sc, vs)?.iter().find(|y| &y.0 == m).ok_or(EErr::Model("flag".into()))?.1 != 0),
                _ => return model_err("member"),
            },
            _ => return model_err("member"),
        },
        Expr::Call(f, a) => match f.as_str() {
            "len" => match eval(spec, env, &a[0])? {
                EV::Arr(_, v) => EV::Int(v.len() as u128, U64),
                // utf16 lengths are counted in code units, utf8 in bytes
                EV::Str(s) => EV::Int(if str_is_utf16(spec, &a[0], env) { s.encode_utf16().count() } else { s.len() } as u128, U64),
                EV::Int(_, s) => EV::Int(s.bytes as u128, U64),
                EV::Enum(n, _) | EV::Bits(n, _) => match spec.decl(&n).map(|d| &d.field.ty) { Some(Ty::Enum(sc, ..)) | Some(Ty::Bitfield(sc, ..)) => EV::Int(sc.bytes as u128, U64), _ => return model_err("len") },
                EV::Bool(_) => EV::Int(1, U64),
                EV::F32(_) => EV::Int(4, U64),
                EV::F64(_) => EV::Int(8, U64),
                o => return model_err(&format!("len of {:?}", o)),
            },
            "blen" => match &a[0] { Expr::Field(n) => EV::Int(*env.blen.get(n).ok_or(EErr::Model("blen".into()))? as u128, U64), _ => return model_err("blen") },
            "sum" => match eval(spec, env, &a[0])? {
                EV::Arr(Ty::Int(sc, _), v) => {
                    let mut t = 0u128;
                    for x in &v { if let Val::I(x) = x { t = int_op(Op::Add, t, cast(*x, sc, U64), U64)?; } }
                    EV::Int(t, U64)
                }
                _ => return model_err("sum"),
            },
            "bits" => { let (x, s) = eval_u64(spec, env, &a[0])?; EV::Int(s.wrap(x).count_ones() as u128, U8) }
            "pad" => {
                let (p, _) = eval_u64(spec, env, &a[0])?;
                let (b, _) = eval_u64(spec, env, &a[1])?;
                if p == 0 { return Err(EErr::Undefined); }
                EV::Int((p - b % p) % p, U64)
            }
            _ => return model_err("call"),
        },
    })
}
fn str_is_utf16(_spec: &Spec, e: &Expr, env: &Env) -> bool {
    match e { Expr::Field(n) => matches!(env.fields.get(&format!("{}#utf16", n)), Some(_)), _ => false }
}
