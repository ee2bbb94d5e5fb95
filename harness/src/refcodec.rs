//! Reference encoder/decoder over the model: the oracle for wire bytes, values and consumption.
use crate::model::*;

#[derive(Clone, PartialEq, Debug)]
pub enum CErr {
    /// the data or value is invalid: the code under test has to report an error
    Bad(&'static str),
    /// the spec's own arithmetic is undefined for this input: no claim
    Undefined,
    /// model gap
    Model(String),
}
impl From<EErr> for CErr { fn from(e: EErr) -> Self { match e { EErr::Undefined => CErr::Undefined, EErr::Model(s) => CErr::Model(s) } } }
type R<T> = Result<T, CErr>;

/// flattened field list of a container: (field, path is conditional)
pub fn flat<'a>(c: &'a Container, cond: bool, out: &mut Vec<(&'a Field, bool)>) {
    for it in &c.items {
        if let Item::Field(f) = it {
            if let Ty::Cont(sub) = &f.ty { flat(sub, cond || f.cond.is_some(), out) } else { out.push((f, cond || f.cond.is_some())) }
        }
    }
}
pub fn flatten(c: &Container) -> Vec<(&Field, bool)> { let mut v = vec![]; flat(c, false, &mut v); v }

pub fn set_env(spec: &Spec, env: &mut Env, f: &Field, v: &Val, opt: bool) {
    if let Ty::Ref(n, _) = spec.unalias(&f.ty) { if n == "utf16" { env.fields.insert(format!("{}#utf16", f.name), EV::Bool(true)); } }
    let ev = if opt {
        match v { Val::None => EV::Opt(None), Val::Some(x) => EV::Opt(Some(Box::new(to_ev(spec, &f.ty, x)))), x => to_ev(spec, &f.ty, x) }
    } else { to_ev(spec, &f.ty, v) };
    env.fields.insert(f.name.clone(), ev);
}

// ------------------------------------------------------------------ transforms

pub fn xform_enc(name: &str, args: &[u128], data: &[u8]) -> Vec<u8> {
    match name {
        "xadd" => { let k = *args.first().unwrap_or(&1) as u8; data.iter().map(|b| b.wrapping_add(k)).collect() }
        "xxor" => { let k = args[0] as u8; data.iter().map(|b| b ^ k).collect() }
        "xrot" => { let k = args[0] as u32 % 8; let j = args.get(1).map_or(0, |x| *x as u8); data.iter().map(|b| b.rotate_left(k).wrapping_sub(j)).collect() }
        // streaming, position independent
        "sxor" => { let k = args[0] as u8; data.iter().map(|b| b ^ k).collect() }
        "sadd" => { let k = args[0] as u8; data.iter().map(|b| b.wrapping_add(k)).collect() }
        // length-changing: every byte becomes two nibble bytes
        "hexy" => data.iter().flat_map(|b| vec![0x40 | (b >> 4), 0x40 | (b & 15)]).collect(),
        "gzip" => gzip(data),
        "base64" => b64(data),
        _ => panic!("unknown transform {}", name),
    }
}
/// `cut`: an error follows the data; the same is returned for what comes out
pub fn xform_dec(name: &str, args: &[u128], data: &[u8], cut: bool) -> R<(Vec<u8>, bool)> {
    let v = match name {
        "xadd" => { let k = *args.first().unwrap_or(&1) as u8; data.iter().map(|b| b.wrapping_sub(k)).collect() }
        "xxor" => { let k = args[0] as u8; data.iter().map(|b| b ^ k).collect() }
        "xrot" => { let k = args[0] as u32 % 8; let j = args.get(1).map_or(0, |x| *x as u8); data.iter().map(|b| b.wrapping_add(j).rotate_right(k)).collect() }
        "sxor" => { let k = args[0] as u8; data.iter().map(|b| b ^ k).collect() }
        "sadd" => { let k = args[0] as u8; data.iter().map(|b| b.wrapping_sub(k)).collect() }
        "hexy" => {
            if data.len() % 2 != 0 || data.iter().any(|b| b & 0xf0 != 0x40) { return Err(CErr::Bad("hexy")); }
            data.chunks(2).map(|c| (c[0] & 15) << 4 | (c[1] & 15)).collect()
        }
        "gzip" => return gunzip(data),
        "base64" => return unb64(data, cut),
        _ => panic!("unknown transform {}", name),
    };
    Ok((v, cut))
}

// gzip and base64; damaged data is refused, or taken up to the damage where that is asked for
thread_local! { static ALT: std::cell::Cell<u64> = const { std::cell::Cell::new(0) }; static LENIENT: std::cell::Cell<bool> = const { std::cell::Cell::new(false) }; }
static INFL: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
/// other encodings of the same content (0: the usual one)
pub fn set_alt(n: u64) { ALT.with(|a| a.set(n)); }
/// the most that a compressed stream inflated to
pub fn inflated() -> usize { INFL.load(std::sync::atomic::Ordering::Relaxed) }
fn gzip(data: &[u8]) -> Vec<u8> {
    use std::io::Write;
    let alt = ALT.with(|a| a.get());
    let b = flate2::GzBuilder::new();
    let b = match alt % 5 { 1 => b.filename("some name"), 2 => b.comment("# \u{e9}").mtime(7), 3 => b.extra(vec![0u8; 9]).filename(""), _ => b };
    let mut e = b.write(vec![], if alt == 0 { flate2::Compression::default() } else { flate2::Compression::new(alt as u32 / 5 % 10) });
    if alt % 3 == 1 { for c in data.chunks(data.len() / 3 + 1) { e.write_all(c).unwrap(); e.flush().unwrap(); } } else { e.write_all(data).unwrap(); }
    e.finish().unwrap()
}
fn gunzip(data: &[u8]) -> R<(Vec<u8>, bool)> {
    use std::io::Read;
    let mut d = flate2::bufread::GzDecoder::new(data);
    let mut o = vec![];
    let r = d.by_ref().take(64 << 20).read_to_end(&mut o);
    INFL.fetch_max(o.len(), std::sync::atomic::Ordering::Relaxed);
    if o.len() >= 64 << 20 { return Err(CErr::Undefined); }
    match r {
        // what follows the end of a member is another member, or not part of this
        Ok(_) if !d.get_ref().is_empty() => Err(CErr::Undefined),
        Ok(_) => Ok((o, false)),
        Err(_) => {
            // a failing step takes along what it produced, so go in the smallest steps
            let mut d = flate2::bufread::GzDecoder::new(std::io::BufReader::with_capacity(1, data));
            let (mut o, mut b) = (vec![], [0]);
            while o.len() < 64 << 20 && matches!(d.read(&mut b), Ok(1)) { o.push(b[0]); }
            damaged(o, "gzip")
        }
    }
}
fn damaged(o: Vec<u8>, why: &'static str) -> R<(Vec<u8>, bool)> {
    if LENIENT.with(|e| e.get()) { Ok((o, true)) } else { Err(CErr::Bad(why)) }
}
const B64: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
fn b64(d: &[u8]) -> Vec<u8> {
    let mut o = vec![];
    for c in d.chunks(3) {
        let n = (c[0] as usize) << 16 | (*c.get(1).unwrap_or(&0) as usize) << 8 | *c.get(2).unwrap_or(&0) as usize;
        o.extend([B64[n >> 18], B64[n >> 12 & 63], if c.len() > 1 { B64[n >> 6 & 63] } else { b'=' }, if c.len() > 2 { B64[n & 63] } else { b'=' }]);
    }
    o
}
fn unb64(d: &[u8], cut: bool) -> R<(Vec<u8>, bool)> {
    let (mut o, mut padded) = (vec![], false);
    for (i, c) in d.chunks(4).enumerate() {
        let pad = c.iter().rev().take_while(|x| **x == b'=').count();
        let v: Option<Vec<usize>> = c[..c.len() - pad].iter().map(|x| B64.iter().position(|y| y == x)).collect();
        let last = i * 4 + c.len() == d.len();
        // an ending without padding is read by some and refused by others
        match v {
            Some(v) if c.len() == 4 && pad <= 2 => {
                let n = v.iter().fold(0, |a, x| a << 6 | x) << (6 * pad);
                if n & ((1 << (8 * pad)) - 1) != 0 { return damaged(o, "base64"); }
                o.extend(&(n as u32).to_be_bytes()[1..4 - pad]);
                if pad > 0 && !last { return damaged(o, "base64"); }
                padded = pad > 0;
            }
            _ => return damaged(o, "base64"),
        }
    }
    Ok((o, cut && !padded))
}
pub fn is_streaming(n: &str) -> bool { matches!(n, "sxor" | "sadd") }

fn xargs(spec: &Spec, env: &Env, x: &Xform) -> R<Option<Vec<u128>>> {
    if let Some(c) = &x.cond { if !eval_bool(spec, env, c)? { return Ok(None); } }
    let mut v = vec![];
    for a in &x.args { v.push(match eval_w(spec, env, a, Some(U8))? { EV::Int(x, _) => x, o => return Err(CErr::Model(format!("transform argument {:?}", o))) }); }
    Ok(Some(v))
}

// ------------------------------------------------------------------ encoding

pub struct Codec<'a> { pub spec: &'a Spec }

fn int_bytes(sc: Sc, le: bool, v: u128) -> Vec<u8> {
    let b = v.to_le_bytes();
    let mut b = b[..sc.bytes as usize].to_vec();
    if !le { b.reverse(); }
    b
}

impl<'a> Codec<'a> {
    pub fn arg_env(&self, d: &Decl, args: &[EV]) -> R<Env> {
        let mut env = Env::default();
        for (i, (n, _, def)) in d.args.iter().enumerate() {
            let v = match args.get(i) { Some(v) => v.clone(), None => match def { Some(e) => coerce(self.spec, &d.args[i].1, eval_w(self.spec, &env, e, match self.spec.unalias(&d.args[i].1) { Ty::Int(sc, _) => Some(*sc), _ => None })?)?, None => return Err(CErr::Model("missing arg".into())) } };
            env.args.insert(n.clone(), v);
        }
        Ok(env)
    }
    fn ref_args(&self, n: &str, a: &[Expr], env: &Env) -> R<Vec<EV>> {
        let d = self.spec.decl(n).ok_or(CErr::Model("decl".into()))?;
        a.iter().zip(d.args.iter()).map(|(e, da)| coerce(self.spec, &da.1, eval_w(self.spec, env, e, match self.spec.unalias(&da.1) { Ty::Int(sc, _) => Some(*sc), _ => None })?)).collect()
    }
    pub fn encode(&self, decl: &str, args: &[EV], v: &Val) -> R<Vec<u8>> {
        let mut out = vec![];
        self.enc_decl(decl, args, v, &mut out)?;
        Ok(out)
    }
    fn enc_decl(&self, decl: &str, args: &[EV], v: &Val, out: &mut Vec<u8>) -> R<()> {
        let d = self.spec.decl(decl).ok_or_else(|| CErr::Model(format!("no decl {}", decl)))?;
        let mut env = self.arg_env(d, args)?;
        let f = &d.field;
        if let Some(c) = &f.cond {
            if !eval_bool(self.spec, &env, c)? { return Ok(()); }
        }
        let v = if f.cond.is_some() { match v { Val::Some(x) => &**x, Val::None => return Err(CErr::Bad("absent conditional")), x => x } } else { v };
        let mut buf = vec![];
        match &f.ty {
            Ty::Cont(c) if c.tagged => self.enc_tagged(c, v, &mut env, &mut buf)?,
            Ty::Cont(c) => {
                let vals = match v { Val::C(x) => x, _ => return Err(CErr::Model("container value".into())) };
                let fl = flatten(c);
                for (f, opt) in &fl {
                    let val = vals.iter().find(|x| x.0 == f.name).map(|x| &x.1).ok_or_else(|| CErr::Model(format!("missing {}", f.name)))?;
                    set_env(self.spec, &mut env, f, val, *opt);
                }
                self.enc_container(c, vals, &mut env, &mut buf, &fl)?;
                self.check_len(c, &env, &buf)?;
            }
            Ty::Enum(..) | Ty::Bitfield(..) => self.enc_scalarish(&f.ty, v, &mut buf)?,
            t => self.enc_ty(t, v, &env, &mut buf)?,
        }
        self.apply_xforms(&f.xforms, &env, buf, out)
    }
    fn apply_xforms(&self, xs: &[Xform], env: &Env, mut buf: Vec<u8>, out: &mut Vec<u8>) -> R<()> {
        // serialization applies the chain left to right
        for x in xs {
            if let Some(a) = xargs(self.spec, env, x)? { buf = xform_enc(&x.name, &a, &buf); }
        }
        out.extend_from_slice(&buf);
        Ok(())
    }
    fn enc_scalarish(&self, t: &Ty, v: &Val, out: &mut Vec<u8>) -> R<()> {
        match (t, v) {
            (Ty::Enum(sc, le, vs), Val::I(x)) => {
                if !vs.iter().any(|y| y.1 == EnumVal::Default) && !enum_values(self.spec, *sc, vs)?.iter().any(|y| y.1 == *x) { return Err(CErr::Model("unrepresentable enum value".into())); }
                out.extend(int_bytes(*sc, *le, *x));
            }
            (Ty::Bitfield(sc, le, _), Val::I(x)) => out.extend(int_bytes(*sc, *le, *x)),
            _ => return Err(CErr::Model("scalarish".into())),
        }
        Ok(())
    }
    fn enc_tagged(&self, c: &Container, v: &Val, env: &mut Env, out: &mut Vec<u8>) -> R<()> {
        let (name, payload) = match v { Val::V(n, p) => (n, &**p), _ => return Err(CErr::Model("variant value".into())) };
        for it in &c.items {
            let f = match it { Item::Field(f) => f, _ => continue };
            let on = match &f.cond { Some(e) => eval_bool(self.spec, env, e)?, None => true };
            if !on { continue; }
            if &f.name != name { return Err(CErr::Bad("discriminant mismatch")); }
            let mut buf = vec![];
            match &f.ty {
                Ty::Cont(sub) => {
                    let vals = match payload { Val::C(x) => x, _ => return Err(CErr::Model("variant payload".into())) };
                    let fl = flatten(sub);
                    for (f, opt) in &fl {
                        let val = vals.iter().find(|x| x.0 == f.name).map(|x| &x.1).ok_or_else(|| CErr::Model("missing".into()))?;
                        set_env(self.spec, env, f, val, *opt);
                    }
                    self.enc_container(sub, vals, env, &mut buf, &fl)?;
                    self.check_len(sub, env, &buf)?;
                }
                t => self.enc_ty(t, payload, env, &mut buf)?,
            }
            let at = out.len();
            self.apply_xforms(&f.xforms, env, buf, out)?;
            return self.check_len(c, env, &out[at..]);
        }
        Err(CErr::Bad("no variant enabled"))
    }
    /// content that does not have the length its container declares cannot be read back
    fn check_len(&self, c: &Container, env: &Env, buf: &[u8]) -> R<()> {
        if let Some(l) = &c.len {
            let (n, s) = eval_u64(self.spec, env, l)?;
            if cast(n, s, U64) != buf.len() as u128 { return Err(CErr::Bad("container length mismatch")); }
        }
        Ok(())
    }
    /// all fields are already in `env`; calculated ones are replaced by their computed value
    fn enc_container(&self, c: &Container, vals: &[(String, Val)], env: &mut Env, out: &mut Vec<u8>, fl: &[(&Field, bool)]) -> R<()> {
        let _ = fl;
        self.calcs(c, env)?;
        // byte lengths of nested containers referenced by blen: computed by encoding them in isolation
        self.blens(c, vals, env)?;
        self.enc_items(c, vals, env, out)
    }
    /// calculated fields outside conditional containers
    fn calcs(&self, c: &Container, env: &mut Env) -> R<()> {
        fn list<'a>(c: &'a Container, opt: bool, out: &mut Vec<(&'a Field, &'a Expr)>) {
            for it in &c.items {
                if let Item::Field(f) = it {
                    if let Ty::Cont(sub) = &f.ty { if f.cond.is_none() && !opt { list(sub, opt, out); } continue; }
                    if let Some(e) = &f.calc { if !has_blen(e) { out.push((f, e)); } }
                }
            }
        }
        let mut todo = vec![];
        list(c, env.opt, &mut todo);
        // each once those it refers to are there, wherever they are declared
        while !todo.is_empty() {
            let i = todo.iter().position(|(_, e)| !todo.iter().any(|(g, _)| refers(e, &g.name))).ok_or_else(|| CErr::Model("cycle of calculated fields".into()))?;
            let (f, e) = todo.remove(i);
            self.calc(f, e, env)?;
        }
        Ok(())
    }
    fn calc(&self, f: &Field, e: &Expr, env: &mut Env) -> R<()> {
        let want = match self.spec.unalias(&f.ty) { Ty::Int(sc, _) => Some(*sc), Ty::Ref(n, _) => varint_sc(n), _ => None };
        let v = coerce(self.spec, &f.ty, eval_w(self.spec, env, e, want)?)?;
        env.fields.insert(f.name.clone(), v);
        Ok(())
    }
    fn blens(&self, c: &Container, vals: &[(String, Val)], env: &mut Env) -> R<()> {
        for it in &c.items {
            if let Item::Field(f) = it {
                if let Ty::Cont(sub) = &f.ty {
                    if f.cond.is_some() || env.opt {
                        if match &f.cond { Some(e) => eval_bool(self.spec, env, e)?, None => true } {
                            let mut inner = self.inner_env(sub, env)?;
                            self.blens(sub, vals, &mut inner)?;
                            env.blen.extend(inner.blen);
                            for (g, _) in flatten(sub) { if g.calc.as_ref().map_or(false, has_blen) { if let Some(v) = inner.fields.get(&g.name) { env.fields.insert(g.name.clone(), v.clone()); } } }
                        }
                    } else { self.blens(sub, vals, env)?; }
                }
                env.blen.remove(&f.name);
                if !is_blen_target(c, &f.name) { continue; }
                // a nested container counts without its transforms, as its declared length does
                let mut b = vec![];
                let xf = !(matches!(f.ty, Ty::Cont(_)) && f.cond.is_none());
                self.enc_field(f, vals, env, &mut b, false, xf)?;
                env.blen.insert(f.name.clone(), b.len() as u64);
            }
        }
        for it in &c.items {
            if let Item::Field(f) = it { if let Some(e) = &f.calc { if has_blen(e) { self.calc(f, e, env)?; } } }
        }
        Ok(())
    }
    fn enc_items(&self, c: &Container, vals: &[(String, Val)], env: &Env, out: &mut Vec<u8>) -> R<()> {
        for it in &c.items {
            match it {
                Item::Pad(e) => { let (n, _) = eval_u64(self.spec, env, e)?; if n > 1 << 20 { return Err(CErr::Model("big pad".into())); } out.extend(std::iter::repeat(0).take(n as usize)); }
                Item::Field(f) => self.enc_field(f, vals, env, out, true, true)?,
            }
        }
        Ok(())
    }
    /// inside a conditional container that is present, its fields are plain
    fn inner_env(&self, sub: &Container, env: &Env) -> R<Env> {
        let mut inner = env.clone();
        inner.opt = true;
        for it in &sub.items {
            if let Item::Field(g) = it {
                if g.cond.is_some() || g.calc.is_some() || matches!(g.ty, Ty::Cont(_)) { continue; }
                match inner.fields.get(&g.name).cloned() {
                    Some(EV::Opt(Some(x))) => { inner.fields.insert(g.name.clone(), *x); }
                    Some(EV::Opt(None)) => return Err(CErr::Bad("absent field of a present container")),
                    _ => (),
                }
            }
        }
        self.calcs(sub, &mut inner)?;
        Ok(inner)
    }
    fn enc_field(&self, f: &Field, vals: &[(String, Val)], env: &Env, out: &mut Vec<u8>, check: bool, xf: bool) -> R<()> {
                    if let Some(e) = &f.cond { if !eval_bool(self.spec, env, e)? { return Ok(()); } }
                    let mut buf = vec![];
                    match &f.ty {
                        Ty::Cont(sub) if f.cond.is_some() || env.opt => {
                            let inner = self.inner_env(sub, env)?;
                            self.enc_items(sub, vals, &inner, &mut buf)?;
                            if check { self.check_len(sub, &inner, &buf)?; }
                        }
                        Ty::Cont(sub) => { self.enc_items(sub, vals, env, &mut buf)?; if check { self.check_len(sub, env, &buf)?; } }
                        t => {
                            if f.calc.is_some() {
                                match env.fields.get(&f.name) { Some(EV::F32(x)) => { self.enc_ty(t, &Val::F(*x), env, &mut buf)?; if !xf { out.extend(buf); return Ok(()); } return self.apply_xforms(&f.xforms, env, buf, out); } Some(EV::F64(x)) => { self.enc_ty(t, &Val::D(*x), env, &mut buf)?; if !xf { out.extend(buf); return Ok(()); } return self.apply_xforms(&f.xforms, env, buf, out); } _ => () }
                                let (b, _) = match env.fields.get(&f.name) { Some(EV::Int(b, s)) => (*b, *s), Some(EV::Enum(_, b)) | Some(EV::Bits(_, b)) => (*b, U128), Some(EV::Bool(x)) => (*x as u128, U8), o => return Err(CErr::Model(format!("calc {:?}", o))) };
                                let v = if let Ty::Bool = self.spec.unalias(t) { Val::B(b != 0) } else { Val::I(b) };
                                self.enc_ty(t, &v, env, &mut buf)?
                            } else {
                                let v = &vals.iter().find(|x| x.0 == f.name).unwrap().1;
                                let v = match v { Val::Some(x) => &**x, Val::None => return Err(CErr::Bad("absent conditional field")), x => x };
                                self.enc_ty(t, v, env, &mut buf)?
                            }
                        }
                    }
                    if !xf { out.extend(buf); return Ok(()); }
                    self.apply_xforms(&f.xforms, env, buf, out)
    }
    pub fn enc_ty(&self, t: &Ty, v: &Val, env: &Env, out: &mut Vec<u8>) -> R<()> {
        match (t, v) {
            (Ty::Int(sc, le), Val::I(x)) => out.extend(int_bytes(*sc, *le, *x)),
            (Ty::F32, Val::F(x)) => out.extend(x.to_be_bytes()),
            (Ty::F64, Val::D(x)) => out.extend(x.to_be_bytes()),
            (Ty::Bool, Val::B(x)) => out.push(*x as u8),
            (Ty::Arr(e, l), Val::L(xs)) => {
                if let Len::Fixed(n) = l {
                    let (n, s) = eval_u64(self.spec, env, n)?;
                    let n = cast(n, s, U64);
                    if n != xs.len() as u128 { return Err(CErr::Bad("array length mismatch")); }
                }
                for x in xs {
                    let at = out.len();
                    self.enc_ty(e, x, env, out)?;
                    // an element that begins with the terminator would end the array early
                    if let Len::Term(t) = l { let mut look = out[at..].to_vec(); look.extend_from_slice(&[]); if look.starts_with(t) { return Err(CErr::Model("element starts with terminator".into())); } }
                }
                if let Len::Term(t) = l { out.extend_from_slice(t); }
            }
            (Ty::Ref(n, a), v) => {
                if let Some(sc) = varint_sc(n) {
                    let x = match v { Val::I(x) => sc.wrap(*x), _ => return Err(CErr::Model("varint".into())) };
                    let mut x = x;
                    while x & !0x7f != 0 { out.push(x as u8 & 0x7f | 0x80); x >>= 7; }
                    out.push(x as u8);
                    return Ok(());
                }
                match (n.as_str(), v) {
                    ("utf8", Val::S(s)) => {
                        if let Some(e) = a.first() {
                            let (l, sc) = eval_u64(self.spec, env, e)?;
                            if cast(l, sc, U64) != s.len() as u128 { return Err(CErr::Bad("utf8 length mismatch")); }
                            out.extend_from_slice(s.as_bytes());
                        } else {
                            if s.as_bytes().contains(&0) { return Err(CErr::Bad("embedded NUL")); }
                            out.extend_from_slice(s.as_bytes());
                            out.push(0);
                        }
                    }
                    ("utf16", Val::S(s)) => {
                        let u: Vec<u16> = s.encode_utf16().collect();
                        let (l, sc) = eval_u64(self.spec, env, &a[0])?;
                        if cast(l, sc, U64) != u.len() as u128 { return Err(CErr::Bad("utf16 length mismatch")); }
                        for c in u { out.extend_from_slice(&c.to_be_bytes()); }
                    }
                    ("boxed32", Val::I(x)) => out.extend(int_bytes(U32, false, *x)),
                    ("triple", Val::I(x)) => {
                        let k = match eval_w(self.spec, env, &a[0], Some(U8))? { EV::Int(x, _) => x as u8, o => return Err(CErr::Model(format!("argument {:?}", o))) };
                        let b = int_bytes(U32, false, *x);
                        if b[0] != 0 { return Err(CErr::Bad("triple too big")); }
                        out.extend(b[1..].iter().map(|b| b ^ k));
                    }
                    (n, v) if !is_foreign(n) => {
                        let args = self.ref_args(n, a, env)?;
                        self.enc_decl(n, &args, v, out)?;
                    }
                    (n, v) => return Err(CErr::Model(format!("foreign {} {:?}", n, v))),
                }
            }
            (t, v) => return Err(CErr::Model(format!("enc {:?} {:?}", t, v))),
        }
        Ok(())
    }

    // -------------------------------------------------------------- decoding
    pub fn decode(&self, decl: &str, args: &[EV], data: &[u8]) -> R<(Val, usize)> {
        let mut s = Src { data, pos: 0, end: data.len(), cut: false };
        let v = self.dec_decl(decl, args, &mut s, 0)?;
        Ok((v, s.pos))
    }
    /// damage to compressed data is met where the decoder gets to it
    pub fn decode_lenient(&self, decl: &str, args: &[EV], data: &[u8]) -> R<(Val, usize)> {
        LENIENT.with(|e| e.set(true));
        let r = self.decode(decl, args, data);
        LENIENT.with(|e| e.set(false));
        r
    }
    fn dec_decl(&self, decl: &str, args: &[EV], s: &mut Src, depth: usize) -> R<Val> {
        if depth > 200 { return Err(CErr::Undefined); }
        let d = self.spec.decl(decl).ok_or_else(|| CErr::Model(format!("no decl {}", decl)))?;
        let mut env = self.arg_env(d, args)?;
        let f = &d.field;
        if let Some(c) = &f.cond { if !eval_bool(self.spec, &env, c)? { return Ok(Val::None); } }
        let spec = self.spec;
        let v = self.with_xforms(&f.xforms, &mut env, s, &mut |s: &mut Src, env: &mut Env| match &f.ty {
            Ty::Cont(c) if c.tagged => self.dec_tagged(c, s, env, depth),
            Ty::Cont(c) => {
                let mut got = vec![];
                self.dec_container(c, s, env, &mut got, false, depth)?;
                let vals = flatten(c).into_iter().map(|(f, _)| (f.name.clone(), got.iter().find(|x: &&(String, Val)| x.0 == f.name).unwrap().1.clone())).collect();
                Ok(Val::C(vals))
            }
            Ty::Enum(sc, le, vs) => {
                let x = s.int(*sc, *le)?;
                if !vs.iter().any(|y| y.1 == EnumVal::Default) && !enum_values(spec, *sc, vs)?.iter().any(|y| y.1 == x) { return Err(CErr::Bad("enum value")); }
                Ok(Val::I(x))
            }
            Ty::Bitfield(sc, le, vs) => {
                let x = s.int(*sc, *le)?;
                let all = bit_values(spec, *sc, vs)?.iter().fold(0, |a, b| a | b.1);
                if x & !all != 0 { return Err(CErr::Bad("bitfield value")); }
                Ok(Val::I(x))
            }
            t => self.dec_ty(t, s, env, depth),
        })?;
        Ok(if f.cond.is_some() { Val::Some(Box::new(v)) } else { v })
    }
    fn with_xforms(&self, xs: &[Xform], env: &mut Env, s: &mut Src, k: &mut dyn FnMut(&mut Src, &mut Env) -> R<Val>) -> R<Val> {
        // deserialization undoes the chain right to left
        let mut active = vec![];
        for x in xs.iter() { if let Some(a) = xargs(self.spec, env, x)? { active.push((x.name.clone(), a)); } }
        if active.is_empty() { return k(s, env); }
        if active.iter().all(|a| is_streaming(&a.0)) {
            let mut data = s.data[s.pos..s.end].to_vec();
            for (n, a) in active.iter().rev() { data = xform_dec(n, a, &data, false)?.0; }
            let mut sub = Src { data: &data, pos: 0, end: data.len(), cut: s.cut };
            let r = k(&mut sub, env)?;
            s.pos += sub.pos;
            return Ok(r);
        }
        // buffering transforms swallow everything that is left of the enclosing stream
        let mut data = s.data[s.pos..s.end].to_vec();
        s.pos = s.end;
        let mut cut = s.cut;
        for (n, a) in active.iter().rev() { (data, cut) = xform_dec(n, a, &data, cut)?; }
        let mut sub = Src { data: &data, pos: 0, end: data.len(), cut };
        k(&mut sub, env)
    }
    fn dec_tagged(&self, c: &Container, s: &mut Src, env: &mut Env, depth: usize) -> R<Val> {
        let saved = (s.end, s.cut);
        // what is bounded takes its length, however much of that its contents need
        let stop = match &c.len { Some(l) => { let (n, sc) = eval_u64(self.spec, env, l)?; Some(s.limit(cast(n, sc, U64))?) } None => None };
        for it in &c.items {
            let f = match it { Item::Field(f) => f, _ => continue };
            let on = match &f.cond { Some(e) => eval_bool(self.spec, env, e)?, None => true };
            if !on { continue; }
            let v = self.with_xforms(&f.xforms, env, s, &mut |s, env| match &f.ty {
                Ty::Cont(sub) => {
                    let mut got = vec![];
                    self.dec_container(sub, s, env, &mut got, false, depth)?;
                    Ok(Val::C(flatten(sub).into_iter().map(|(f, _)| (f.name.clone(), got.iter().find(|x: &&(String, Val)| x.0 == f.name).unwrap().1.clone())).collect()))
                }
                t => self.dec_ty(t, s, env, depth),
            })?;
            if let Some(p) = stop { s.pos = p; }
            (s.end, s.cut) = saved;
            return Ok(Val::V(f.name.clone(), Box::new(v)));
        }
        Err(CErr::Bad("no variant enabled"))
    }
    fn dec_container(&self, c: &Container, s: &mut Src, env: &mut Env, got: &mut Vec<(String, Val)>, opt: bool, depth: usize) -> R<()> {
        let saved = (s.end, s.cut);
        // what is bounded takes its length, however much of that its contents need
        let stop = match &c.len { Some(l) => { let (n, sc) = eval_u64(self.spec, env, l)?; Some(s.limit(cast(n, sc, U64))?) } None => None };
        for it in &c.items {
            match it {
                Item::Pad(e) => { let (n, sc) = eval_u64(self.spec, env, e)?; let n = cast(n, sc, U64); if n > (s.end - s.pos) as u128 { return Err(CErr::Bad("eof")); } s.pos += n as usize; }
                Item::Field(f) => {
                    if let Some(e) = &f.cond {
                        if !eval_bool(self.spec, env, e)? {
                            if let Ty::Cont(sub) = &f.ty { for (g, _) in flatten(sub) { got.push((g.name.clone(), Val::None)); set_env(self.spec, env, g, &Val::None, true); } }
                            else { got.push((f.name.clone(), Val::None)); set_env(self.spec, env, f, &Val::None, true); }
                            continue;
                        }
                    }
                    let is_opt = opt || f.cond.is_some();
                    let mut sub_got = vec![];
                    let v = self.with_xforms(&f.xforms, env, s, &mut |s, env| match &f.ty {
                        Ty::Cont(sub) => { self.dec_container(sub, s, env, &mut sub_got, is_opt, depth)?; Ok(Val::None) }
                        t => self.dec_ty(t, s, env, depth),
                    })?;
                    if let Ty::Cont(_) = &f.ty { got.extend(sub_got); continue; }
                    // inside a conditional container a field is plain while its siblings are decoded
                    set_env(self.spec, env, f, &if f.cond.is_some() { Val::Some(Box::new(v.clone())) } else { v.clone() }, f.cond.is_some());
                    got.push((f.name.clone(), if is_opt { Val::Some(Box::new(v)) } else { v }));
                }
            }
        }
        if let Some(p) = stop { s.pos = p; }
        (s.end, s.cut) = saved;
        Ok(())
    }
    fn dec_ty(&self, t: &Ty, s: &mut Src, env: &Env, depth: usize) -> R<Val> {
        Ok(match t {
            Ty::Int(sc, le) => Val::I(s.int(*sc, *le)?),
            Ty::F32 => Val::F(s.int(U32, false)? as u32),
            Ty::F64 => Val::D(s.int(U64, false)? as u64),
            Ty::Bool => Val::B(s.int(U8, false)? != 0),
            Ty::Arr(e, l) => {
                let mut out = vec![];
                match l {
                    Len::Fixed(n) => {
                        let (n, sc) = eval_u64(self.spec, env, n)?;
                        let n = cast(n, sc, U64);
                        for _ in 0..n {
                            let p = s.pos;
                            out.push(self.dec_ty(e, s, env, depth)?);
                            if out.len() > 1 << 20 || (s.pos == p && out.len() > 2000) { return Err(CErr::Undefined); }
                        }
                    }
                    Len::Unbounded => while s.more()? {
                        let p = s.pos;
                        out.push(self.dec_ty(e, s, env, depth)?);
                        if s.pos == p { return Err(CErr::Undefined); }
                    },
                    Len::Term(t) => loop {
                        if t.is_empty() || !s.more()? { break; }
                        if s.data[s.pos..s.end].starts_with(t) { s.pos += t.len(); break; }
                        let p = s.pos;
                        out.push(self.dec_ty(e, s, env, depth)?);
                        if s.pos == p { return Err(CErr::Undefined); }
                    },
                }
                Val::L(out)
            }
            Ty::Ref(n, a) => {
                if let Some(sc) = varint_sc(n) {
                    let mut x = 0u128;
                    let max = (sc.bits() as usize + 6) / 7;
                    let mut i = 0;
                    loop {
                        let b = s.int(U8, false)? as u8;
                        if i >= max { return Err(CErr::Bad("varint too long")); }
                        let part = (b & 0x7f) as u128;
                        if sc.wrap(part << (7 * i)) >> (7 * i) != part { return Err(CErr::Bad("varint overflow")); }
                        x |= part << (7 * i);
                        i += 1;
                        if b & 0x80 == 0 { break; }
                        if i >= max { return Err(CErr::Bad("varint too long")); }
                    }
                    return Ok(Val::I(sc.wrap(x)));
                }
                match n.as_str() {
                    "utf8" => {
                        let b = if let Some(e) = a.first() {
                            let (n, sc) = eval_u64(self.spec, env, e)?;
                            s.take(cast(n, sc, U64))?.to_vec()
                        } else {
                            let rest = &s.data[s.pos..s.end];
                            match rest.iter().position(|x| *x == 0) { Some(p) => { s.pos += p + 1; rest[..p].to_vec() } None => { s.pos = s.end; s.more()?; rest.to_vec() } }
                        };
                        Val::S(String::from_utf8(b).map_err(|_| CErr::Bad("utf8"))?)
                    }
                    "utf16" => {
                        let (n, sc) = eval_u64(self.spec, env, &a[0])?;
                        let n = cast(n, sc, U64);
                        let b = s.take(n.saturating_mul(2))?;
                        let u: Vec<u16> = b.chunks(2).map(|c| u16::from_be_bytes([c[0], c[1]])).collect();
                        Val::S(String::from_utf16(&u).map_err(|_| CErr::Bad("utf16"))?)
                    }
                    "boxed32" => Val::I(s.int(U32, false)?),
                    "triple" => {
                        let k = match eval_w(self.spec, env, &a[0], Some(U8))? { EV::Int(x, _) => x as u8, o => return Err(CErr::Model(format!("argument {:?}", o))) };
                        let b = s.take(3)?;
                        Val::I(((b[0] ^ k) as u128) << 16 | ((b[1] ^ k) as u128) << 8 | (b[2] ^ k) as u128)
                    }
                    _ => {
                        let args = self.ref_args(n, a, env)?;
                        self.dec_decl(n, &args, s, depth + 1)?
                    }
                }
            }
            t => return Err(CErr::Model(format!("dec {:?}", t))),
        })
    }
}

fn refers(e: &Expr, name: &str) -> bool {
    match e {
        Expr::Field(n) => n == name,
        Expr::Call(_, a) => a.iter().any(|x| refers(x, name)),
        Expr::Bin(_, a, b) | Expr::Elvis(a, b) | Expr::Idx(a, b) => refers(a, name) || refers(b, name),
        Expr::Neg(a) | Expr::Not(a) | Expr::BitNot(a) | Expr::Cast(a, _) | Expr::CastF(a, _) | Expr::Member(a, _) => refers(a, name),
        Expr::Tern(a, b, c) => refers(a, name) || refers(b, name) || refers(c, name),
        _ => false,
    }
}
pub fn coerce(spec: &Spec, t: &Ty, v: EV) -> R<EV> {
    Ok(match (spec.resolve(t), v) {
        (Ty::Int(sc, _), EV::Int(b, s)) => EV::Int(cast(b, s, *sc), *sc),
        (Ty::Ref(n, _), EV::Int(b, s)) if varint_sc(n).is_some() => EV::Int(cast(b, s, varint_sc(n).unwrap()), varint_sc(n).unwrap()),
        (_, v) => v,
    })
}

pub fn has_blen(e: &Expr) -> bool {
    match e {
        Expr::Call(f, a) => f == "blen" || a.iter().any(has_blen),
        Expr::Bin(_, a, b) | Expr::Elvis(a, b) | Expr::Idx(a, b) => has_blen(a) || has_blen(b),
        Expr::Neg(a) | Expr::Not(a) | Expr::BitNot(a) | Expr::Cast(a, _) | Expr::CastF(a, _) | Expr::Member(a, _) => has_blen(a),
        Expr::Tern(a, b, c) => has_blen(a) || has_blen(b) || has_blen(c),
        _ => false,
    }
}

pub fn is_blen_target(c: &Container, name: &str) -> bool {
    fn in_expr(e: &Expr, name: &str) -> bool {
        match e {
            Expr::Call(f, a) => (f == "blen" && a[0] == Expr::Field(name.to_string())) || a.iter().any(|x| in_expr(x, name)),
            Expr::Bin(_, a, b) | Expr::Elvis(a, b) | Expr::Idx(a, b) => in_expr(a, name) || in_expr(b, name),
            Expr::Neg(a) | Expr::Not(a) | Expr::BitNot(a) | Expr::Cast(a, _) | Expr::CastF(a, _) | Expr::Member(a, _) => in_expr(a, name),
            Expr::Tern(a, b, c) => in_expr(a, name) || in_expr(b, name) || in_expr(c, name),
            _ => false,
        }
    }
    c.items.iter().any(|i| match i { Item::Field(f) => f.calc.as_ref().map_or(false, |e| in_expr(e, name)), _ => false })
}

/// `cut`: what follows `end` is damaged, so the end is not the end of the stream
pub struct Src<'a> { pub data: &'a [u8], pub pos: usize, pub end: usize, pub cut: bool }
impl<'a> Src<'a> {
    fn take(&mut self, n: u128) -> R<&'a [u8]> {
        if n > (self.end - self.pos) as u128 { return Err(CErr::Bad("eof")); }
        let r = &self.data[self.pos..self.pos + n as usize];
        self.pos += n as usize;
        Ok(r)
    }
    fn int(&mut self, sc: Sc, le: bool) -> R<u128> {
        let b = self.take(sc.bytes as u128)?;
        let mut x = 0u128;
        for i in 0..b.len() { x = x << 8 | if le { b[b.len() - 1 - i] } else { b[i] } as u128; }
        Ok(x)
    }
    fn more(&self) -> R<bool> { if self.pos == self.end && self.cut { Err(CErr::Bad("damaged")) } else { Ok(self.pos < self.end) } }
    fn limit(&mut self, n: u128) -> R<usize> {
        if n > (self.end - self.pos) as u128 { return Err(CErr::Bad("eof")); }
        self.end = self.pos + n as usize;
        self.cut = false;
        Ok(self.end)
    }
}
/// flattened fields with whether they are optional
pub fn flatten_cond(c: &Container) -> Vec<(&Field, bool)> { let mut v = vec![]; flat(c, false, &mut v); v }
