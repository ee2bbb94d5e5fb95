//! Independent tokenizer and parser for specs, written from the documented grammar (SPEC.md, README): text -> model.
use crate::model::*;

#[derive(Clone, Debug, PartialEq)]
pub enum Tok { Id(String), Str(Vec<u8>), Num(u128), P(&'static str) }
type R<T> = Result<T, String>;

const PUNCT: &[&str] = &[">>>", "==", "!=", "<=", ">=", "<<", ">>", "->", ":>", "::", "?:", "||", "&&", "..", "=", ",", ";", "?", "[", "]", "{", "}", "(", ")", "+", "*", "%", "^", "~", "|", "/", "&", ".", ":", "<", ">", "-", "!"];
pub const KEYWORDS: &[&str] = &["type", "as", "import", "import_ffi", "i8", "i16", "i32", "i64", "i128", "u8", "u16", "u32", "u64", "u128", "i16le", "i32le", "i64le", "i128le", "u16le", "u32le", "u64le", "u128le", "transform", "function", "const", "container", "f32", "f64", "enum", "default", "bitfield", "bool", "from", "true", "false"];

pub fn lex(s: &str) -> R<Vec<Tok>> {
    let b = s.as_bytes();
    let mut i = 0;
    let mut out = vec![];
    'o: while i < b.len() {
        let c = b[i];
        if c.is_ascii_whitespace() { i += 1; continue; }
        if b[i..].starts_with(b"//") { while i < b.len() && b[i] != b'\n' { i += 1; } continue; }
        if b[i..].starts_with(b"/*") { let mut j = i + 2; while j < b.len() && !b[j..].starts_with(b"*/") { j += 1; } i = (j + 2).min(b.len()); continue; }
        if c == b'"' {
            let mut v = vec![];
            i += 1;
            loop {
                if i >= b.len() { return Err("unterminated string".into()); }
                match b[i] {
                    b'"' => { i += 1; break; }
                    b'\\' if i + 1 < b.len() => {
                        let h = |k: usize| b.get(k).and_then(|c| (*c as char).to_digit(16));
                        match (h(i + 1), h(i + 2)) {
                            (Some(x), Some(y)) => { v.push((x * 16 + y) as u8); i += 3; }
                            (Some(x), None) => { v.push(x as u8); i += 2; }
                            _ => { v.push(b[i + 1]); i += 2; }
                        }
                    }
                    x => { v.push(x); i += 1; }
                }
            }
            out.push(Tok::Str(v));
            continue;
        }
        if c.is_ascii_digit() {
            let hexa = c == b'0' && b.get(i + 1) == Some(&b'x');
            let st = i;
            if hexa { i += 2; while i < b.len() && b[i].is_ascii_hexdigit() { i += 1; } } else { while i < b.len() && b[i].is_ascii_digit() { i += 1; } }
            let t = &s[st..i];
            let v = if hexa { u128::from_str_radix(&t[2..], 16) } else { t.parse() }.map_err(|e| format!("{}: {}", t, e))?;
            out.push(Tok::Num(v));
            continue;
        }
        if c.is_ascii_alphabetic() || c == b'_' {
            let st = i;
            while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == b'_') { i += 1; }
            out.push(Tok::Id(s[st..i].to_string()));
            continue;
        }
        for p in PUNCT { if b[i..].starts_with(p.as_bytes()) { out.push(Tok::P(p)); i += p.len(); continue 'o; } }
        return Err(format!("bad byte {}", c));
    }
    Ok(out)
}

pub fn scalar(n: &str) -> Option<(Sc, bool)> {
    let (base, le) = match n.strip_suffix("le") { Some(b) => (b, true), None => (n, false) };
    let sc = ALL_SC.iter().find(|s| s.name() == base)?;
    if le && sc.bytes == 1 { return None; }
    Some((*sc, le))
}

pub struct P { t: Vec<Tok>, i: usize, pub prims: Vec<String>, /// `type NAME = OTHER;`
    named: std::collections::HashMap<String, String> }
impl P {
    pub fn new(t: Vec<Tok>) -> P {
        let named = t.windows(5).filter_map(|w| match w { [Tok::Id(k), Tok::Id(a), Tok::P("="), Tok::Id(b), Tok::P(";")] if k == "type" => Some((a.clone(), b.clone())), _ => None }).collect();
        P { t, i: 0, prims: vec![], named }
    }
    /// the type that a name of a type stands for
    fn plain(&self, t: Ty) -> R<Ty> {
        let mut t = t;
        for _ in 0..64 {
            match &t { Ty::Ref(n, a) if a.is_empty() => match self.named.get(n) { Some(x) => t = P::new(vec![Tok::Id(x.clone())]).ty()?, None => break }, _ => break }
        }
        Ok(t)
    }
    fn peek(&self) -> Option<&Tok> { self.t.get(self.i) }
    fn is(&self, p: &str) -> bool { matches!(self.peek(), Some(Tok::P(x)) if *x == p) }
    fn eat(&mut self, p: &str) -> bool { if self.is(p) { self.i += 1; true } else { false } }
    fn want(&mut self, p: &str) -> R<()> { if self.eat(p) { Ok(()) } else { Err(format!("expected {} at {}: {:?}", p, self.i, self.peek())) } }
    fn is_kw(&self, k: &str) -> bool { matches!(self.peek(), Some(Tok::Id(x)) if x == k) }
    fn eat_kw(&mut self, k: &str) -> bool { if self.is_kw(k) { self.i += 1; true } else { false } }
    fn ident(&mut self) -> R<String> {
        match self.peek() { Some(Tok::Id(x)) if !KEYWORDS.contains(&x.as_str()) => { let x = x.clone(); self.i += 1; Ok(x) } o => Err(format!("ident expected, got {:?}", o)) }
    }
    fn scalar(&mut self) -> Option<(Sc, bool)> { if let Some(Tok::Id(x)) = self.peek() { if let Some(s) = scalar(x) { self.i += 1; return Some(s); } } None }

    pub fn spec(&mut self) -> R<Spec> {
        let mut s = Spec::default();
        while self.peek().is_some() {
            if self.eat_kw("import_ffi") {
                let n = self.ident()?;
                if !self.eat_kw("as") { return Err("as".into()); }
                if self.eat_kw("type") { s.ffi_types.push(n) } else if self.eat_kw("transform") { s.ffi_transforms.push(n) } else if self.eat_kw("function") { s.ffi_functions.push(n) } else { return Err("ffi kind".into()); }
            } else if self.eat_kw("const") {
                let n = self.ident()?;
                self.want(":")?;
                let t = self.ty()?;
                self.want("=")?;
                let e = self.expr()?;
                s.consts.push((n, t, e));
            } else if self.eat_kw("type") {
                let n = self.ident()?;
                let mut args = vec![];
                if self.eat("(") {
                    while !self.eat(")") {
                        let n = self.ident()?;
                        self.want(":")?;
                        let t = self.ty()?;
                        let d = if self.eat("?") { Some(self.expr()?) } else { None };
                        args.push((n, t, d));
                        if !self.eat(",") { self.want(")")?; break; }
                    }
                }
                self.want("=")?;
                let f = self.field(n)?;
                s.decls.push(Decl { field: f, args });
            } else { return Err(format!("declaration expected, got {:?}", self.peek())); }
            self.want(";")?;
        }
        Ok(s)
    }
    fn field(&mut self, name: String) -> R<Field> {
        let ty = self.ty()?;
        let calc = if self.eat("=") { Some(self.expr()?) } else { None };
        let cond = self.cond()?;
        let mut xforms = vec![];
        while self.eat("->") {
            let name = self.ident()?;
            let args = if self.is("(") { self.args()? } else { vec![] };
            xforms.push(Xform { name, args, cond: self.cond()? });
        }
        Ok(Field { name, ty, calc, cond, xforms })
    }
    fn cond(&mut self) -> R<Option<Expr>> { Ok(if self.eat("{") { let e = self.expr()?; self.want("}")?; Some(e) } else { None }) }
    fn args(&mut self) -> R<Vec<Expr>> {
        self.want("(")?;
        let mut v = vec![];
        loop {
            if self.eat(")") { break; }
            v.push(self.expr()?);
            if !self.eat(",") { self.want(")")?; break; }
        }
        Ok(v)
    }
    pub fn ty(&mut self) -> R<Ty> {
        let mut t = if self.eat_kw("container") {
            let len = if self.eat("[") { let e = self.expr()?; self.want("]")?; Some(e) } else { None };
            let mut tagged = false;
            while self.eat("+") { let f = self.ident()?; if f == "tagged_enum" { tagged = true } else { return Err("flag".into()); } }
            self.want("{")?;
            let mut items = vec![];
            while !self.is("}") {
                if self.eat(".") { if self.ident()? != "pad" { return Err("directive".into()); } self.want(":")?; items.push(Item::Pad(self.expr()?)); }
                else { let n = self.ident()?; self.want(":")?; items.push(Item::Field(self.field(n)?)); }
                if !self.eat(",") { break; }
            }
            self.want("}")?;
            Ty::Cont(Container { len, tagged, items })
        } else if self.eat_kw("enum") {
            let (sc, le) = self.scalar().ok_or("enum rep")?;
            self.want("{")?;
            let mut vs = vec![];
            loop {
                let n = self.ident()?;
                let v = if self.eat("=") { if self.eat_kw("default") { EnumVal::Default } else { EnumVal::Expr(self.expr()?) } } else { EnumVal::Auto };
                vs.push((n, v));
                if !self.eat(",") || self.is("}") { break; }
            }
            self.want("}")?;
            Ty::Enum(sc, le, vs)
        } else if self.eat_kw("bitfield") {
            let (sc, le) = self.scalar().ok_or("bitfield rep")?;
            self.want("{")?;
            let mut vs = vec![];
            loop {
                let n = self.ident()?;
                let v = if self.eat("=") { Some(self.expr()?) } else { None };
                vs.push((n, v));
                if !self.eat(",") || self.is("}") { break; }
            }
            self.want("}")?;
            Ty::Bitfield(sc, le, vs)
        } else if let Some((sc, le)) = self.scalar() { Ty::Int(sc, le) }
        else if self.eat_kw("f32") { Ty::F32 } else if self.eat_kw("f64") { Ty::F64 } else if self.eat_kw("bool") { Ty::Bool }
        else { let n = self.ident()?; let a = if self.is("(") { self.args()? } else { vec![] }; Ty::Ref(n, a) };
        while self.eat("[") {
            let l = if self.eat("..") {
                if self.is("]") { Len::Unbounded } else { match self.expr()? { Expr::Str(s) => Len::Term(s), _ => return Err("terminator".into()) } }
            } else { Len::Fixed(self.expr()?) };
            self.want("]")?;
            t = Ty::Arr(Box::new(t), l);
        }
        Ok(t)
    }
    pub fn expr(&mut self) -> R<Expr> {
        let c = self.level(0)?;
        if self.eat("?") { let a = self.expr()?; self.want(":")?; let b = self.level(0)?; return Ok(Expr::Tern(Box::new(c), Box::new(a), Box::new(b))); }
        Ok(c)
    }
    fn level(&mut self, l: usize) -> R<Expr> {
        use Op::*;
        const L: &[&[(&str, Op)]] = &[&[("||", LOr)], &[("&&", LAnd)], &[("|", Or)], &[("^", Xor)], &[("&", And)], &[("==", Eq), ("!=", Ne)], &[("<", Lt), ("<=", Le), (">", Gt), (">=", Ge)], &[("<<", Shl), (">>", Shr), (">>>", ShrS)], &[("+", Add), ("-", Sub)], &[("*", Mul), ("/", Div), ("%", Mod)]];
        if l == L.len() { return self.cast(); }
        let mut e = self.level(l + 1)?;
        'o: loop {
            for (t, op) in L[l] { if self.eat(t) { let r = self.level(l + 1)?; e = Expr::Bin(*op, Box::new(e), Box::new(r)); continue 'o; } }
            return Ok(e);
        }
    }
    fn cast(&mut self) -> R<Expr> {
        let mut e = self.unary()?;
        loop {
            if self.eat(":>") {
                let t = self.ty()?;
                match self.plain(t)? { Ty::F32 => e = Expr::CastF(Box::new(e), false), Ty::F64 => e = Expr::CastF(Box::new(e), true), Ty::Int(sc, _) => e = Expr::Cast(Box::new(e), sc), Ty::Ref(n, a) if a.is_empty() && varint_sc(&n).is_some() => e = Expr::Cast(Box::new(e), varint_sc(&n).unwrap()), t => return Err(format!("cast to {:?}", t)) }
            } else if self.eat("?:") { let r = self.unary()?; e = Expr::Elvis(Box::new(e), Box::new(r)); } else { return Ok(e); }
        }
    }
    fn unary(&mut self) -> R<Expr> {
        if self.eat("!") { return Ok(Expr::Not(Box::new(self.unary()?))); }
        if self.eat("-") { return Ok(Expr::Neg(Box::new(self.unary()?))); }
        if self.eat("~") { return Ok(Expr::BitNot(Box::new(self.unary()?))); }
        let mut e = self.primary()?;
        loop {
            if self.eat("[") { let i = self.expr()?; self.want("]")?; e = Expr::Idx(Box::new(e), Box::new(i)); }
            else if self.eat(".") { e = Expr::Member(Box::new(e), self.ident()?); } else { return Ok(e); }
        }
    }
    fn primary(&mut self) -> R<Expr> {
        match self.peek().cloned() {
            Some(Tok::Num(v)) => { self.i += 1; Ok(match self.scalar() { Some((sc, _)) => Expr::Int(v, sc, true), None => Expr::Int(v, U64, false) }) }
            Some(Tok::Str(s)) => { self.i += 1; Ok(Expr::Str(s)) }
            Some(Tok::Id(x)) if x == "true" || x == "false" => { self.i += 1; Ok(Expr::Bool(x == "true")) }
            Some(Tok::Id(_)) => {
                let n = self.ident()?;
                if self.eat("::") { return Ok(Expr::Variant(n, self.ident()?)); }
                if self.is("(") { return Ok(Expr::Call(n, self.args()?)); }
                Ok(Expr::Field(n))
            }
            Some(Tok::P("(")) => { self.i += 1; let e = self.expr()?; self.want(")")?; Ok(e) }
            o => Err(format!("expression expected, got {:?}", o)),
        }
    }
}
pub fn parse_spec(name: &str, text: &str) -> R<Spec> { let mut s = P::new(lex(text)?).spec()?; s.name = name.to_string(); Ok(s) }
pub fn parse_expr(text: &str) -> R<Expr> { let mut p = P::new(lex(text)?); let e = p.expr()?; if p.i == p.t.len() { Ok(e) } else { Err("trailing".into()) } }
