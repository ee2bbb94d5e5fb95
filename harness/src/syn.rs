//! Independent lexer and parser for the surface syntax (after SPEC.md), a generator of syntax trees with their text, and
//! the same canonical form for trees of the code under test.
use crate::rng::Rng;
use protospec_build as ps;
use std::fmt::Write;

#[derive(Clone, Debug, PartialEq)]
pub enum T { Id(String), Kw(&'static str), Str(Vec<u8>), Num(String), P(&'static str), Line(String), Block(String) }
#[derive(Clone, Debug)]
pub struct Tok { pub t: T, pub start: usize, pub end: usize }

pub const PUNCT: &[&str] = &[">>>", "==", "!=", "<=", ">=", "<<", ">>", "->", ":>", "::", "?:", "||", "&&", "..", "=", ",", ";", "?", "[", "]", "{", "}", "(", ")", "+", "*", "%", "^", "~", "|", "/", "&", ".", ":", "<", ">", "-", "!"];
pub const KW: &[&str] = &["type", "as", "import", "import_ffi", "i8", "i16", "i32", "i64", "i128", "u8", "u16", "u32", "u64", "u128", "i16le", "i32le", "i64le", "i128le", "u16le", "u32le", "u64le", "u128le", "transform", "function", "const", "container", "f32", "f64", "enum", "default", "bitfield", "bool", "from", "true", "false"];
pub fn is_scalar(k: &str) -> bool { matches!(k.trim_end_matches("le"), "i8" | "i16" | "i32" | "i64" | "i128" | "u8" | "u16" | "u32" | "u64" | "u128") }

/// Err(true): not a token sequence; Err(false): not specified (a block comment that never ends)
pub fn lex(s: &str) -> Result<Vec<Tok>, bool> {
    let b = s.as_bytes();
    let n = b.len();
    let mut i = 0;
    let mut out: Vec<Tok> = vec![];
    while i < n {
        let st = i;
        let c = b[i];
        let t = if matches!(c, b' ' | b'\t' | b'\n' | b'\r' | 0x0c) { i += 1; continue; }
        else if c == b'/' && i + 1 < n && b[i + 1] == b'/' {
            let e = (i..n).find(|k| b[*k] == b'\n').unwrap_or(n);
            i = (e + 1).min(n);
            T::Line(String::from_utf8_lossy(&b[st + 2..e]).to_string())
        } else if c == b'/' && i + 1 < n && b[i + 1] == b'*' {
            let e = (i + 2..n.saturating_sub(1)).find(|k| b[*k] == b'*' && b[*k + 1] == b'/').ok_or(false)?;
            i = e + 2;
            T::Block(String::from_utf8_lossy(&b[st + 2..e]).to_string())
        } else if c == b'"' {
            let mut v = vec![];
            i += 1;
            loop {
                let c = *b.get(i).ok_or(true)?;
                i += 1;
                if c == b'"' { break; }
                if c != b'\\' { v.push(c); continue; }
                let e = *b.get(i).ok_or(true)?;
                i += 1;
                let hx = |c: u8| (c as char).to_digit(16);
                match hx(e) {
                    None => v.push(e),
                    Some(h) => match b.get(i).and_then(|c| hx(*c)) { Some(l) => { i += 1; v.push((h * 16 + l) as u8) } None => v.push(h as u8) },
                }
            }
            T::Str(v)
        } else if c.is_ascii_digit() {
            if c == b'0' && b.get(i + 1) == Some(&b'x') { i += 2; while i < n && b[i].is_ascii_hexdigit() { i += 1; } } else { while i < n && b[i].is_ascii_digit() { i += 1; } }
            T::Num(s[st..i].to_string())
        } else if c.is_ascii_alphabetic() || c == b'_' {
            while i < n && (b[i].is_ascii_alphanumeric() || b[i] == b'_') { i += 1; }
            match KW.iter().find(|k| **k == &s[st..i]) { Some(k) => T::Kw(k), None => T::Id(s[st..i].to_string()) }
        } else {
            let p = PUNCT.iter().find(|p| b[i..].starts_with(p.as_bytes())).ok_or(true)?;
            i += p.len();
            T::P(p)
        };
        out.push(Tok { t, start: st, end: i });
    }
    Ok(out)
}
/// 1-based line and byte column
pub fn pos(s: &str, at: usize) -> (u64, u64) {
    let b = &s.as_bytes()[..at];
    let line = b.iter().filter(|c| **c == b'\n').count();
    let col = at - b.iter().rposition(|c| *c == b'\n').map_or(0, |x| x + 1);
    (line as u64 + 1, col as u64 + 1)
}
pub fn offset(s: &str, line: u64, col: u64) -> Option<usize> {
    let mut at = 0usize;
    for _ in 1..line { at += s.as_bytes().get(at..)?.iter().position(|c| *c == b'\n')? + 1; }
    let o = at + (col as usize).checked_sub(1)?;
    if o <= s.len() { Some(o) } else { None }
}
pub fn of_ps(t: &ps::Token) -> T {
    use ps::Token::*;
    match t {
        Ident(s) => T::Id(s.clone()), String(s) => T::Str(s.clone()), Int(s) => T::Num(s.clone()), CommentLine(s) => T::Line(s.clone()), CommentBlock(s) => T::Block(s.clone()),
        Type => T::Kw("type"), As => T::Kw("as"), Import => T::Kw("import"), From => T::Kw("from"), ImportFfi => T::Kw("import_ffi"), Transform => T::Kw("transform"), Function => T::Kw("function"), Const => T::Kw("const"),
        U8 => T::Kw("u8"), U16 => T::Kw("u16"), U32 => T::Kw("u32"), U64 => T::Kw("u64"), U128 => T::Kw("u128"), I8 => T::Kw("i8"), I16 => T::Kw("i16"), I32 => T::Kw("i32"), I64 => T::Kw("i64"), I128 => T::Kw("i128"),
        U16Le => T::Kw("u16le"), U32Le => T::Kw("u32le"), U64Le => T::Kw("u64le"), U128Le => T::Kw("u128le"), I16Le => T::Kw("i16le"), I32Le => T::Kw("i32le"), I64Le => T::Kw("i64le"), I128Le => T::Kw("i128le"),
        F32 => T::Kw("f32"), F64 => T::Kw("f64"), Bool => T::Kw("bool"), Container => T::Kw("container"), Enum => T::Kw("enum"), Default => T::Kw("default"), Bitfield => T::Kw("bitfield"), True => T::Kw("true"), False => T::Kw("false"),
        Equal => T::P("="), Comma => T::P(","), DotDot => T::P(".."), Dot => T::P("."), Elvis => T::P("?:"), Lt => T::P("<"), Gt => T::P(">"), Arrow => T::P("->"), LeftSquare => T::P("["), RightSquare => T::P("]"), LeftCurly => T::P("{"), RightCurly => T::P("}"),
        LtEq => T::P("<="), GtEq => T::P(">="), Eq => T::P("=="), Ne => T::P("!="), Question => T::P("?"), Colon => T::P(":"), DoubleColon => T::P("::"), Semicolon => T::P(";"), Plus => T::P("+"), Minus => T::P("-"), Mul => T::P("*"), Div => T::P("/"), Mod => T::P("%"), Not => T::P("!"),
        LeftParen => T::P("("), RightParen => T::P(")"), Cast => T::P(":>"), Or => T::P("||"), And => T::P("&&"), BitOr => T::P("|"), BitXor => T::P("^"), BitAnd => T::P("&"), Shr => T::P(">>"), Shl => T::P("<<"), ShrSigned => T::P(">>>"), BitNot => T::P("~"),
    }
}

fn hexs(b: &[u8]) -> String { format!("\"{}\"", crate::model::hex(b)) }
fn opt(x: Option<String>) -> String { x.unwrap_or_else(|| "-".into()) }

// ------------------------------------------------------------------ trees of the code under test
pub mod conv {
    use super::*;
    use ps::ast::*;
    pub fn program(p: &Program) -> Vec<String> { p.declarations.iter().map(decl).collect() }
    fn decl(d: &Declaration) -> String {
        match d {
            Declaration::Type(t) => format!("(type {} ({}) {})", t.name.name, t.arguments.iter().map(|a| format!("({} {} {})", a.name.name, ty(&a.type_), opt(a.default_value.as_ref().map(expr)))).collect::<String>(), field(&t.value)),
            Declaration::Import(i) => format!("(import {} {})", i.items.iter().map(|x| format!("({} {})", x.name.name, opt(x.alias.as_ref().map(|a| a.name.clone())))).collect::<String>(), hexs(&i.from.content)),
            Declaration::Ffi(f) => format!("(ffi {} {})", f.name.name, match f.ffi_type { FfiType::Type => "type", FfiType::Transform => "transform", FfiType::Function => "function" }),
            Declaration::Const(c) => format!("(const {} {} {})", c.name.name, ty(&c.type_), expr(&c.value)),
        }
    }
    fn field(f: &Field) -> String {
        let mut o = format!("(f {} {} ({}) {}", ty(&f.type_), opt(f.calculated.as_ref().map(|e| expr(e))), f.flags.iter().map(|x| x.name.as_str()).collect::<Vec<_>>().join(" "), opt(f.condition.as_ref().map(|e| expr(e))));
        for t in &f.transforms { write!(o, " (x {} ({}) {})", t.name.name, exprs(&t.arguments), opt(t.conditional.as_ref().map(|e| expr(e)))).unwrap(); }
        o + ")"
    }
    fn exprs(e: &[Expression]) -> String { e.iter().map(expr).collect::<Vec<_>>().join(" ") }
    fn sc(s: &EndianScalarType) -> String { format!("{}{}", scn(&s.scalar), if s.endian == Endian::Little { "le" } else { "" }) }
    fn scn(s: &ScalarType) -> &'static str { use ScalarType::*; match s { U8 => "u8", U16 => "u16", U32 => "u32", U64 => "u64", U128 => "u128", I8 => "i8", I16 => "i16", I32 => "i32", I64 => "i64", I128 => "i128" } }
    pub fn ty(t: &Type) -> String {
        match &t.raw_type {
            RawType::Container(c) => format!("(cont {} ({}){})", opt(c.length.as_ref().map(|e| expr(e))), c.flags.iter().map(|x| x.name.as_str()).collect::<Vec<_>>().join(" "), c.items.iter().map(|i| match i { ContainerItem::Field(n, f) => format!(" ({} {})", n.name, field(f)), ContainerItem::Pad(e) => format!(" (.pad {})", expr(e)) }).collect::<String>()),
            RawType::Enum(e) => format!("(enum {}{})", sc(&e.rep), e.items.iter().map(|(n, v)| format!(" ({} {})", n.name, match v { EnumValue::Expression(e) => expr(e), EnumValue::Default => "default".into(), EnumValue::None => "-".into() })).collect::<String>()),
            RawType::Bitfield(e) => format!("(bits {}{})", sc(&e.rep), e.items.iter().map(|(n, v)| format!(" ({} {})", n.name, opt(v.as_ref().map(|e| expr(e))))).collect::<String>()),
            RawType::Scalar(s) => sc(s),
            RawType::Array(a) => format!("(arr {} {} {})", ty(&a.interior_type), if a.length.expandable { "ext" } else { "fix" }, opt(a.length.inner.as_ref().map(|e| expr(e)))),
            RawType::F32 => "f32".into(), RawType::F64 => "f64".into(), RawType::Bool => "bool".into(),
            RawType::Ref(r) => format!("(ref {} {})", r.name.name, exprs(&r.arguments)),
        }
    }
    pub fn expr(e: &Expression) -> String {
        match e {
            Expression::Binary(b) => { use BinaryOp::*; format!("({} {} {})", match b.op { Lt => "<", Gt => ">", Lte => "<=", Gte => ">=", Eq => "==", Ne => "!=", Or => "||", And => "&&", BitOr => "|", BitAnd => "&", BitXor => "^", Shr => ">>", Shl => "<<", ShrSigned => ">>>", Add => "+", Sub => "-", Mul => "*", Div => "/", Mod => "%", Elvis => "?:" }, expr(&b.left), expr(&b.right)) }
            Expression::Unary(u) => format!("({} {})", match u.op { UnaryOp::Negate => "neg", UnaryOp::Not => "!", UnaryOp::BitNot => "~" }, expr(&u.inner)),
            Expression::Cast(c) => format!("(:> {} {})", expr(&c.inner), ty(&c.type_)),
            Expression::ArrayIndex(a) => format!("(idx {} {})", expr(&a.array), expr(&a.index)),
            Expression::EnumAccess(a) => format!("(:: {} {})", a.name.name, a.variant.name),
            Expression::Int(i) => format!("#{}{}", i.value, i.type_.as_ref().map(|s| format!(":{}", scn(s))).unwrap_or_default()),
            Expression::Ref(i) => i.name.clone(),
            Expression::Str(s) => hexs(&s.content),
            Expression::Ternary(t) => format!("(? {} {} {})", expr(&t.condition), expr(&t.if_true), expr(&t.if_false)),
            Expression::Bool(b) => format!("%{}", b.value),
            Expression::Call(c) => format!("(call {} {})", c.function.name, exprs(&c.arguments)),
            Expression::Member(m) => format!("(. {} {})", expr(&m.target), m.member.name),
        }
    }
}

// ------------------------------------------------------------------ reference parser
pub struct Parser<'a> { t: &'a [Tok], i: usize }
type R = Result<String, String>;
const LEVELS: &[&[&str]] = &[&["||"], &["&&"], &["|"], &["^"], &["&"], &["==", "!="], &["<", "<=", ">", ">="], &["<<", ">>", ">>>"], &["+", "-"], &["*", "/", "%"]];
impl<'a> Parser<'a> {
    fn peek(&self) -> Option<&'a T> { self.t.get(self.i).map(|t| &t.t) }
    fn is(&self, p: &str) -> bool { matches!(self.peek(), Some(T::P(x)) if *x == p) }
    fn eat(&mut self, p: &str) -> bool { let r = self.is(p); if r { self.i += 1; } r }
    fn want(&mut self, p: &str) -> Result<(), String> { if self.eat(p) { Ok(()) } else { Err(format!("{} expected at token {}", p, self.i)) } }
    fn kw(&mut self, p: &str) -> bool { let r = matches!(self.peek(), Some(T::Kw(x)) if *x == p); if r { self.i += 1; } r }
    fn id(&mut self) -> R { match self.peek() { Some(T::Id(x)) => { self.i += 1; Ok(x.clone()) } _ => Err(format!("identifier expected at token {}", self.i)) } }
    fn scalar(&mut self) -> Option<&'static str> { match self.peek() { Some(T::Kw(x)) if is_scalar(x) => { self.i += 1; Some(x) } _ => None } }
    /// the error comes with the token it is about: the first one with which the tokens so far begin no program
    pub fn program(t: &'a [Tok]) -> Result<Vec<String>, (String, usize)> {
        let mut p = Parser { t, i: 0 };
        let mut out = vec![];
        while p.i < t.len() { match p.decl().and_then(|d| p.want(";").map(|_| d)) { Ok(d) => out.push(d), Err(e) => { let back = e == "directive" || e == "representation"; return Err((e, p.i - back as usize)); } } }
        Ok(out)
    }
    fn decl(&mut self) -> R {
        if self.kw("type") {
            let n = self.id()?;
            let mut args = String::new();
            if self.eat("(") {
                while !self.eat(")") {
                    let a = self.id()?;
                    self.want(":")?;
                    let t = self.ty()?;
                    let d = if self.eat("?") { self.expr()? } else { "-".into() };
                    write!(args, "({} {} {})", a, t, d).unwrap();
                    if !self.eat(",") { self.want(")")?; break; }
                }
            }
            self.want("=")?;
            return Ok(format!("(type {} ({}) {})", n, args, self.field()?));
        }
        if self.kw("import") {
            let mut items = String::new();
            loop {
                let n = self.id()?;
                let a = if self.kw("as") { self.id()? } else { "-".into() };
                write!(items, "({} {})", n, a).unwrap();
                if !self.eat(",") || matches!(self.peek(), Some(T::Kw("from"))) { break; }
            }
            if !self.kw("from") { return Err("from".into()); }
            return match self.peek() { Some(T::Str(s)) => { self.i += 1; Ok(format!("(import {} {})", items, hexs(s))) } _ => Err("path".into()) };
        }
        if self.kw("import_ffi") {
            let n = self.id()?;
            if !self.kw("as") { return Err("as".into()); }
            for k in ["type", "transform", "function"] { if self.kw(k) { return Ok(format!("(ffi {} {})", n, k)); } }
            return Err("ffi kind".into());
        }
        if self.kw("const") {
            let n = self.id()?;
            self.want(":")?;
            let t = self.ty()?;
            self.want("=")?;
            return Ok(format!("(const {} {} {})", n, t, self.expr()?));
        }
        Err("declaration".into())
    }
    fn flags(&mut self) -> R { let mut v = vec![]; while self.eat("+") { v.push(self.id()?); } Ok(v.join(" ")) }
    fn cond(&mut self) -> R { if !self.eat("{") { return Ok("-".into()); } let e = self.expr()?; self.want("}")?; Ok(e) }
    fn field(&mut self) -> R {
        let t = self.ty()?;
        let c = if self.eat("=") { self.expr()? } else { "-".into() };
        let mut o = format!("(f {} {} ({}) {}", t, c, self.flags()?, self.cond()?);
        while self.eat("->") { let n = self.id()?; let a = if self.is("(") { self.args()? } else { String::new() }; write!(o, " (x {} ({}) {})", n, a, self.cond()?).unwrap(); }
        Ok(o + ")")
    }
    fn args(&mut self) -> R {
        self.want("(")?;
        let mut v = vec![];
        while !self.eat(")") { v.push(self.expr()?); if !self.eat(",") { self.want(")")?; break; } }
        Ok(v.join(" "))
    }
    fn ty(&mut self) -> R {
        let mut t = if self.kw("container") {
            let l = if self.eat("[") { let e = self.expr()?; self.want("]")?; e } else { "-".into() };
            let mut o = format!("(cont {} ({})", l, self.flags()?);
            self.want("{")?;
            while !self.is("}") {
                if self.eat(".") { if self.id()? != "pad" { return Err("directive".into()); } self.want(":")?; write!(o, " (.pad {})", self.expr()?).unwrap(); }
                else { let n = self.id()?; self.want(":")?; write!(o, " ({} {})", n, self.field()?).unwrap(); }
                if !self.eat(",") { break; }
            }
            self.want("}")?;
            o + ")"
        } else if self.kw("enum") || self.kw("bitfield") {
            let en = self.t[self.i - 1].t == T::Kw("enum");
            let mut o = format!("({} {}", if en { "enum" } else { "bits" }, self.scalar().ok_or("representation")?);
            self.want("{")?;
            let mut first = true;
            loop {
                let n = self.id()?;
                let v = if self.eat("=") { if en && self.kw("default") { "default".into() } else { self.expr()? } } else if first { return Err("first value".into()) } else { "-".to_string() };
                first = false;
                write!(o, " ({} {})", n, v).unwrap();
                if !self.eat(",") || self.is("}") { break; }
            }
            self.want("}")?;
            o + ")"
        } else if let Some(s) = self.scalar() { s.into() } else if self.kw("f32") { "f32".into() } else if self.kw("f64") { "f64".into() } else if self.kw("bool") { "bool".into() }
        else { let n = self.id()?; let a = if self.is("(") { self.args()? } else { String::new() }; format!("(ref {} {})", n, a) };
        while self.eat("[") {
            let x = self.eat("..");
            let e = if self.is("]") { if !x { return Err("empty length".into()); } "-".into() } else { self.expr()? };
            self.want("]")?;
            t = format!("(arr {} {} {})", t, if x { "ext" } else { "fix" }, e);
        }
        Ok(t)
    }
    fn expr(&mut self) -> R {
        let c = self.level(0)?;
        if !self.eat("?") { return Ok(c); }
        let a = self.expr()?;
        self.want(":")?;
        let b = self.level(0)?;
        Ok(format!("(? {} {} {})", c, a, b))
    }
    fn level(&mut self, l: usize) -> R {
        if l == LEVELS.len() {
            let mut e = self.unary()?;
            loop {
                if self.eat(":>") { e = format!("(:> {} {})", e, self.ty()?); } else if self.eat("?:") { e = format!("(?: {} {})", e, self.unary()?); } else { return Ok(e); }
            }
        }
        let mut e = self.level(l + 1)?;
        while let Some(op) = LEVELS[l].iter().find(|o| self.is(o)) { self.i += 1; e = format!("({} {} {})", op, e, self.level(l + 1)?); }
        Ok(e)
    }
    fn unary(&mut self) -> R {
        for (p, n) in [("!", "!"), ("-", "neg"), ("~", "~")] { if self.eat(p) { return Ok(format!("({} {})", n, self.unary()?)); } }
        let mut e = self.primary()?;
        loop {
            if self.eat("[") { let i = self.expr()?; self.want("]")?; e = format!("(idx {} {})", e, i); } else if self.eat(".") { e = format!("(. {} {})", e, self.id()?); } else { return Ok(e); }
        }
    }
    fn primary(&mut self) -> R {
        match self.peek().cloned() {
            Some(T::Num(v)) => { self.i += 1; Ok(match self.scalar() { Some(s) => format!("#{}:{}", v, s.trim_end_matches("le")), None => format!("#{}", v) }) }
            Some(T::Str(s)) => { self.i += 1; Ok(hexs(&s)) }
            Some(T::Kw(k @ ("true" | "false"))) => { self.i += 1; Ok(format!("%{}", k)) }
            Some(T::Id(n)) => {
                self.i += 1;
                if self.eat("::") { return Ok(format!("(:: {} {})", n, self.id()?)); }
                if self.is("(") { return Ok(format!("(call {} {})", n, self.args()?)); }
                Ok(n)
            }
            Some(T::P("(")) => { self.i += 1; let e = self.expr()?; self.want(")")?; Ok(e) }
            _ => Err(format!("expression expected at token {}", self.i)),
        }
    }
}

// ------------------------------------------------------------------ generator
/// appends tokens, returns the tree they stand for
pub struct Gen<'a> { pub r: &'a mut Rng, pub t: Vec<String>, pub extra_parens: bool, pub names: Vec<String> }
impl<'a> Gen<'a> {
    pub fn new(r: &'a mut Rng) -> Gen<'a> {
        let extra_parens = r.chance(1, 2);
        let names = ["a", "b", "c", "foo", "Bar", "_x", "type_", "u9", "i8le", "len", "u8x", "inner_2", "Zz", "true_", "x", "pad", "tagged_enum", "r", "self_"].iter().map(|s| s.to_string()).collect();
        Gen { r, t: vec![], extra_parens, names }
    }
    fn p(&mut self, s: &str) { self.t.push(s.to_string()); }
    fn id(&mut self) -> String { let s = if self.r.chance(1, 12) { format!("v{}", self.r.below(1000)) } else { self.r.pick(&self.names).clone() }; self.p(&s); s }
    fn scalar(&mut self) -> &'static str { let l: Vec<&'static str> = KW.iter().copied().filter(|k| is_scalar(k)).collect(); let s = *self.r.pick(&l); self.p(s); s }
    pub fn num(&mut self) -> String {
        let v = match self.r.below(6) { 0 => 0, 1 => self.r.below(10) as u128, 2 => self.r.below(300) as u128, 3 => self.r.next() as u32 as u128, 4 => self.r.next() as u128, _ => self.r.u128() };
        match self.r.below(5) { 0 => format!("0x{:x}", v), 1 => format!("0x{:X}", v), 2 => format!("00{}", v), _ => v.to_string() }
    }
    pub fn string(&mut self) -> String {
        let (src, content) = rand_string(self.r);
        self.p(&src);
        hexs(&content)
    }
    /// level: the loosest construct allowed without parentheses
    pub fn expr(&mut self, level: usize, depth: usize) -> String {
        let kind = if depth == 0 { 14 } else { match self.r.below(20) { 0 => 0, 1..=11 => 1 + self.r.below(10), 12 => 11, 13 => 11, 14 => 12, 15 => 12, 16 => 13, 17 => 13, _ => 14 } };
        let wrap = kind < level || (self.extra_parens && self.r.chance(1, 6));
        if wrap { self.p("("); }
        let d = depth.saturating_sub(1);
        let e = match kind {
            0 => { let c = self.expr(1, d); self.p("?"); let a = self.expr(0, d); self.p(":"); let b = self.expr(1, d); format!("(? {} {} {})", c, a, b) }
            1..=10 => { let op = *self.r.pick(LEVELS[kind - 1]); let l = self.expr(kind, d); self.p(op); let r = self.expr(kind + 1, d); format!("({} {} {})", op, l, r) }
            11 => { let l = self.expr(11, d); if self.r.chance(1, 2) { self.p(":>"); let t = self.ty(d.min(1), false); format!("(:> {} {})", l, t) } else { self.p("?:"); let r = self.expr(12, d); format!("(?: {} {})", l, r) } }
            12 => { let (p, n) = *self.r.pick(&[("!", "!"), ("-", "neg"), ("~", "~")]); self.p(p); let e = self.expr(12, d); format!("({} {})", n, e) }
            13 => { let e = self.expr(13, d); if self.r.chance(1, 2) { self.p("["); let i = self.expr(0, d); self.p("]"); format!("(idx {} {})", e, i) } else { self.p("."); let m = self.id(); format!("(. {} {})", e, m) } }
            _ => match self.r.below(if depth == 0 { 8 } else { 9 }) {
                0..=2 => { let n = self.num(); self.p(&n); if self.r.chance(1, 3) { let s = self.scalar(); format!("#{}:{}", n, s.trim_end_matches("le")) } else { format!("#{}", n) } }
                3 => { let b = self.r.chance(1, 2); self.p(if b { "true" } else { "false" }); format!("%{}", b) }
                4 => self.string(),
                5 => { let a = self.id(); self.p("::"); let b = self.id(); format!("(:: {} {})", a, b) }
                6 | 7 => self.id(),
                _ => { let n = self.id(); let a = self.args(d); format!("(call {} {})", n, a) }
            },
        };
        if wrap { self.p(")"); }
        e
    }
    fn args(&mut self, depth: usize) -> String {
        self.p("(");
        let n = self.r.below(4);
        let mut v = vec![];
        for i in 0..n { v.push(self.expr(0, depth)); if i + 1 < n || self.r.chance(1, 5) { self.p(","); } }
        self.p(")");
        v.join(" ")
    }
    pub fn ty(&mut self, depth: usize, complex: bool) -> String {
        let mut t = match self.r.below(if complex && depth > 0 { 12 } else { 7 }) {
            0..=2 => self.scalar().to_string(),
            3 => { let k = *self.r.pick(&["f32", "f64", "bool"]); self.p(k); k.to_string() }
            4 | 5 => { let n = self.id(); format!("(ref {} )", n) }
            6 => { let n = self.id(); let a = self.args(depth.min(1)); format!("(ref {} {})", n, a) }
            7..=9 => {
                self.p("container");
                let l = if self.r.chance(1, 4) { self.p("["); let e = self.expr(0, 2); self.p("]"); e } else { "-".into() };
                let mut fl: Vec<String> = vec![];
                while self.r.chance(2, 5) { self.p("+"); let again = if self.r.chance(1, 2) { fl.last().cloned() } else { None }; match again { Some(x) => { self.p(&x); fl.push(x) } None => fl.push(self.id()) } }
                self.p("{");
                let mut o = format!("(cont {} ({})", l, fl.join(" "));
                let n = self.r.below(5);
                for i in 0..n {
                    if self.r.chance(1, 8) { self.p("."); self.p("pad"); self.p(":"); let e = self.expr(0, 2); write!(o, " (.pad {})", e).unwrap(); }
                    else { let n = self.id(); self.p(":"); let f = self.field(depth - 1); write!(o, " ({} {})", n, f).unwrap(); }
                    if i + 1 < n || self.r.chance(1, 2) { self.p(","); }
                }
                self.p("}");
                o + ")"
            }
            k => {
                let en = k == 10;
                self.p(if en { "enum" } else { "bitfield" });
                let s = self.scalar();
                let mut o = format!("({} {}", if en { "enum" } else { "bits" }, s);
                self.p("{");
                let n = 1 + self.r.below(4);
                for i in 0..n {
                    let id = self.id();
                    let v = if i == 0 || self.r.chance(1, 2) { self.p("="); if en && self.r.chance(1, 4) { self.p("default"); "default".into() } else { self.expr(0, 2) } } else { "-".to_string() };
                    write!(o, " ({} {})", id, v).unwrap();
                    if i + 1 < n || self.r.chance(1, 2) { self.p(","); }
                }
                self.p("}");
                o + ")"
            }
        };
        while self.r.chance(1, 4) {
            self.p("[");
            let x = self.r.chance(1, 3);
            if x { self.p(".."); }
            let e = if x && self.r.chance(1, 2) { "-".into() } else { self.expr(0, 2) };
            self.p("]");
            t = format!("(arr {} {} {})", t, if x { "ext" } else { "fix" }, e);
        }
        t
    }
    fn cond(&mut self) -> String { if self.r.chance(1, 4) { self.p("{"); let e = self.expr(0, 3); self.p("}"); e } else { "-".into() } }
    fn field(&mut self, depth: usize) -> String {
        let t = self.ty(depth, true);
        let calc = self.r.chance(1, 4);
        let c = if calc { self.p("="); self.expr(0, 3) } else { "-".into() };
        let mut fl: Vec<String> = vec![];
        while !calc && self.r.chance(1, 8) { self.p("+"); let again = if self.r.chance(1, 2) { fl.last().cloned() } else { None }; match again { Some(x) => { self.p(&x); fl.push(x) } None => fl.push(self.id()) } }
        let mut o = format!("(f {} {} ({}) {}", t, c, fl.join(" "), self.cond());
        for _ in 0..[0, 0, 0, 1, 2][self.r.below(5)] { self.p("->"); let n = self.id(); let a = if self.r.chance(1, 3) { self.args(2) } else { String::new() }; write!(o, " (x {} ({}) {})", n, a, self.cond()).unwrap(); }
        o + ")"
    }
    pub fn decl(&mut self) -> String {
        let s = match self.r.below(9) {
            0 => {
                self.p("import");
                let mut o = String::from("(import ");
                let n = 1 + self.r.below(3);
                for i in 0..n { let a = self.id(); let b = if self.r.chance(1, 3) { self.p("as"); self.id() } else { "-".into() }; write!(o, "({} {})", a, b).unwrap(); if i + 1 < n || self.r.chance(1, 4) { self.p(","); } }
                self.p("from");
                let s = self.string();
                format!("{} {})", o, s)
            }
            1 => { self.p("import_ffi"); let n = self.id(); self.p("as"); let k = *self.r.pick(&["type", "transform", "function"]); self.p(k); format!("(ffi {} {})", n, k) }
            2 | 3 => { self.p("const"); let n = self.id(); self.p(":"); let t = self.ty(1, false); self.p("="); let e = self.expr(0, 4); format!("(const {} {} {})", n, t, e) }
            _ => {
                self.p("type");
                let n = self.id();
                let mut a = String::new();
                if self.r.chance(1, 3) {
                    self.p("(");
                    let n = self.r.below(3);
                    for i in 0..n { let x = self.id(); self.p(":"); let t = self.ty(0, false); let d = if self.r.chance(1, 3) { self.p("?"); self.expr(0, 2) } else { "-".into() }; write!(a, "({} {} {})", x, t, d).unwrap(); if i + 1 < n || self.r.chance(1, 4) { self.p(","); } }
                    self.p(")");
                }
                self.p("=");
                let f = self.field(3);
                format!("(type {} ({}) {})", n, a, f)
            }
        };
        self.p(";");
        s
    }
    pub fn text(&mut self) -> String { let t = std::mem::take(&mut self.t); spread(self.r, &t) }
}
/// source form of a string literal and its content
pub fn rand_string(r: &mut Rng) -> (String, Vec<u8>) {
    let mut src = String::from("\"");
    let mut out: Vec<u8> = vec![];
    // after a one-digit hex escape, the next character must not be a hex digit
    let mut guard = false;
    for _ in 0..r.below(7) {
        match r.below(9) {
            0 if !guard => { let c = *r.pick(&['a', 'F', '0', '7']); src.push(c); out.push(c as u8); }
            1 => { let b = r.next() as u8; if r.chance(1, 2) { write!(src, "\\{:02x}", b).unwrap() } else { write!(src, "\\{:02X}", b).unwrap() } out.push(b); guard = false; }
            2 => { let b = r.below(16) as u8; write!(src, "\\{:x}", b).unwrap(); out.push(b); guard = true; }
            3 => { let c = *r.pick(&['"', '\\', 'n', 'r', 't', 'z', '/', ' ']); src.push('\\'); src.push(c); out.push(c as u8); guard = false; }
            4 => { let c = *r.pick(&['é', '→', '😀', 'ß']); src.push(c); let mut b = [0; 4]; out.extend(c.encode_utf8(&mut b).bytes()); guard = false; }
            5 => { let c = *r.pick(&['\n', '\t', '\r']); src.push(c); out.push(c as u8); guard = false; }
            _ => { let c = *r.pick(&['x', 'q', '/', '*', ' ', ';', '\'', 'Z', '{']); src.push(c); out.push(c as u8); guard = false; }
        }
    }
    src.push('"');
    (src, out)
}
pub fn trivia(r: &mut Rng) -> String {
    let mut o = String::new();
    for _ in 0..1 + r.below(2) {
        match r.below(9) {
            0 => o.push('\n'), 1 => o.push_str("\r\n"), 2 => o.push('\t'), 3 => o.push_str("/* c */"), 4 => o.push_str("// l \"\n"), 5 => o.push_str("/* a\n * \" b → \n*/"), 6 => o.push_str("/***/"), _ => o.push(' '),
        }
    }
    o
}
/// tokens with random trivia between them; never changes how they lex
pub fn spread(r: &mut Rng, t: &[String]) -> String {
    let dense = r.chance(1, 2);
    let mut o = String::new();
    for i in 0..t.len() {
        if i > 0 {
            let need = match lex(&format!("{}{}", t[i - 1], t[i])) { Ok(v) => v.len() != 2 || v[0].end != t[i - 1].len(), Err(_) => true };
            if need || !dense || r.chance(1, 6) { if r.chance(1, 3) { o.push_str(&trivia(r)); } else { o.push(' '); } }
        }
        o.push_str(&t[i]);
    }
    // three punctuation tokens may still join; then fall back to spaces
    let ok = match lex(&o) { Ok(v) => v.iter().filter(|x| !matches!(x.t, T::Line(_) | T::Block(_))).map(|x| &o[x.start..x.end]).eq(t.iter().map(|s| s.as_str())), Err(_) => false };
    if ok { o } else { t.join(" ") }
}
pub fn words(text: &str) -> Vec<String> { lex(text).map(|v| v.iter().filter(|x| !matches!(x.t, T::Line(_) | T::Block(_))).map(|x| text[x.start..x.end].to_string()).collect()).unwrap_or_default() }
/// change a token sequence at random
pub fn mutate(r: &mut Rng, t: &mut Vec<String>, n: usize) {
    const POOL: &[&str] = &["type", "container", "enum", "bitfield", "u8", "u16le", "i64", "u128", "f32", "bool", "true", "(", ")", "{", "}", "[", "]", "=", ";", ":", ",", "..", ".", "->", ":>", "?:", "?", "+", "-", "*", "/", "%", "<<", ">>", ">>>", "==", "!=", "<", "&&", "||", "!", "~", "&", "|", "^", "::", "0", "1", "300", "0xff", "\"x\"", "\"\\00\"", "a", "b", "len", "blen", "utf8", "v32", "default", "import", "from", "as", "const", "import_ffi", "function", "transform", "340282366920938463463374607431768211456", "0x", "sum", "pad", "bits"];
    for _ in 0..n {
        if t.is_empty() { return; }
        let i = r.below(t.len());
        match r.below(8) {
            0 => { t.remove(i); }
            1 => { let x = r.pick(POOL).to_string(); t.insert(i, x); }
            2 => { let x = r.pick(POOL).to_string(); t[i] = x; }
            3 => { let j = r.below(t.len()); t.swap(i, j); }
            4 => { let j = r.below(t.len()); let x = t[j].clone(); t[i] = x; }
            5 => { let x = t[i].clone(); t.insert(i, x); }
            6 => { // an identifier or number becomes another one of the same text
                let cls = |s: &str| s.as_bytes().first().map(|c| if c.is_ascii_digit() { 1 } else if c.is_ascii_alphabetic() { 2 } else { 3 }).unwrap_or(0);
                let c = cls(&t[i]);
                let same: Vec<usize> = (0..t.len()).filter(|j| cls(&t[*j]) == c && c < 3).collect();
                if !same.is_empty() { let j = *r.pick(&same); let x = t[j].clone(); t[i] = x; }
            }
            _ => { let l = 1 + r.below(6); let e = (i + l).min(t.len()); let part: Vec<String> = t[i..e].to_vec(); let j = r.below(t.len()); for (k, x) in part.into_iter().enumerate() { t.insert((j + k).min(t.len()), x); } }
        }
    }
}
