//! Conversion and dispatch code placed next to the generated code under test.
use crate::model::*;
use std::fmt::Write;

pub fn snake(s: &str) -> String {
    let mut o = String::new();
    let c: Vec<char> = s.chars().collect();
    for i in 0..c.len() {
        if c[i].is_uppercase() { if i > 0 && c[i - 1] != '_' && !(c[i - 1].is_uppercase()) { o.push('_'); } o.extend(c[i].to_lowercase()); } else { o.push(c[i]); }
    }
    o
}
fn uns(sc: Sc) -> String { format!("u{}", sc.bits()) }

/// code of module `name`: generated code, conversions and `run`
pub fn module(spec: &Spec, generated: &str, with_async: bool) -> String {
    let mut o = String::new();
    writeln!(o, "#[allow(unused_imports)] use crate::rt;\n{}\n", generated).unwrap();
    for d in &spec.decls {
        let n = &d.field.name;
        match &d.field.ty {
            Ty::Cont(c) if c.tagged => {
                let (mut to, mut from) = (String::new(), String::new());
                for it in &c.items {
                    let f = match it { Item::Field(f) => f, _ => continue };
                    match &f.ty {
                        Ty::Cont(sub) => {
                            let fl: Vec<String> = crate::refcodec::flatten(sub).iter().map(|(f, _)| f.name.clone()).collect();
                            writeln!(to, "{n}::{v} {{ {} }} => rt::Val::V(\"{v}\".to_string(), Box::new(rt::Val::C(vec![{}]))),", fl.join(", "), fl.iter().map(|x| format!("rt::Conv::to({})", x)).collect::<Vec<_>>().join(", "), v = f.name).unwrap();
                            writeln!(from, "\"{v}\" => {{ let f = p.fields(); {n}::{v} {{ {} }} }},", fl.iter().enumerate().map(|(i, x)| format!("{}: rt::Conv::from(&f[{}])", x, i)).collect::<Vec<_>>().join(", "), v = f.name).unwrap();
                        }
                        _ => {
                            writeln!(to, "{n}::{v}(x) => rt::Val::V(\"{v}\".to_string(), Box::new(rt::Conv::to(x))),", v = f.name).unwrap();
                            writeln!(from, "\"{v}\" => {n}::{v}(rt::Conv::from(p)),", v = f.name).unwrap();
                        }
                    }
                }
                writeln!(o, "impl rt::Conv for {n} {{ fn to(&self) -> rt::Val {{ match self {{ {to} }} }} fn from(v: &rt::Val) -> Self {{ match v {{ rt::Val::V(k, p) => match k.as_str() {{ {from} k => panic!(\"variant {{}}\", k) }}, _ => panic!(\"variant expected\") }} }} }}").unwrap();
            }
            Ty::Cont(c) => {
                let fl: Vec<String> = crate::refcodec::flatten(c).iter().map(|(f, _)| f.name.clone()).collect();
                writeln!(o, "impl rt::Conv for {n} {{ fn to(&self) -> rt::Val {{ rt::Val::C(vec![{}]) }} fn from(v: &rt::Val) -> Self {{ let f = v.fields(); {n} {{ {} }} }} }}",
                    fl.iter().map(|x| format!("rt::Conv::to(&self.{})", x)).collect::<Vec<_>>().join(", "),
                    fl.iter().enumerate().map(|(i, x)| format!("{}: rt::Conv::from(&f[{}])", x, i)).collect::<Vec<_>>().join(", ")).unwrap();
            }
            Ty::Enum(sc, ..) => writeln!(o, "impl rt::Conv for {n} {{ fn to(&self) -> rt::Val {{ rt::Val::I(self.to_repr() as {} as u128) }} fn from(v: &rt::Val) -> Self {{ match v {{ rt::Val::I(x) => {n}::from_repr(*x as {}).expect(\"enum value\"), _ => panic!(\"int expected\") }} }} }}", uns(*sc), sc.name()).unwrap(),
            Ty::Bitfield(sc, ..) => writeln!(o, "impl rt::Conv for {n} {{ fn to(&self) -> rt::Val {{ rt::Val::I(self.0 as {} as u128) }} fn from(v: &rt::Val) -> Self {{ match v {{ rt::Val::I(x) => {n}(*x as {}), _ => panic!(\"int expected\") }} }} }}", uns(*sc), sc.name()).unwrap(),
            _ => writeln!(o, "impl rt::Conv for {n} {{ fn to(&self) -> rt::Val {{ rt::Conv::to(&self.0) }} fn from(v: &rt::Val) -> Self {{ {n}(rt::Conv::from(v)) }} }}").unwrap(),
        }
    }
    writeln!(o, "pub fn run(decl: &str, op: &rt::Op) -> Option<String> {{ match (decl, op.kind.as_str()) {{").unwrap();
    for d in &spec.decls {
        let n = &d.field.name;
        let mut a = String::new();
        for (i, (_, _, def)) in d.args.iter().enumerate() {
            if def.is_some() { write!(a, ", op.args.get({i}).map(|x| rt::Conv::from(x))").unwrap(); } else { write!(a, ", rt::Conv::from(&op.args[{i}])").unwrap(); }
        }
        writeln!(o, "(\"{n}\", \"enc\") => {{ let v: {n} = rt::Conv::from(op.val.as_ref().unwrap()); Some(op.enc(|w| v.encode_sync(w{a}).map_err(|e| e.to_string()))) }}").unwrap();
        writeln!(o, "(\"{n}\", \"dec\") => Some(op.dec(|r| {n}::decode_sync(r{a}).map(|v| rt::Conv::to(&v)).map_err(|e| e.to_string()))),").unwrap();
        writeln!(o, "(\"{n}\", \"rt\") => {{ let v: {n} = rt::Conv::from(op.val.as_ref().unwrap()); Some(op.rt(|w| v.encode_sync(w{a}).map_err(|e| e.to_string()), |r| {n}::decode_sync(r{a}).map(|v| rt::Conv::to(&v)).map_err(|e| e.to_string()))) }}").unwrap();
        if with_async {
            writeln!(o, "(\"{n}\", \"art\") => {{ let v: {n} = rt::Conv::from(op.val.as_ref().unwrap()); Some(op.art(|w| rt::block_on(v.encode_async(w{a})).map_err(|e| e.to_string()), |r| rt::block_on({n}::decode_async(r{a})).map(|v| rt::Conv::to(&v)).map_err(|e| e.to_string()))) }}").unwrap();
            writeln!(o, "(\"{n}\", \"aenc\") => {{ let v: {n} = rt::Conv::from(op.val.as_ref().unwrap()); Some(op.aenc(|w| rt::block_on(v.encode_async(w{a})).map_err(|e| e.to_string()))) }}").unwrap();
            writeln!(o, "(\"{n}\", \"adec\") => Some(op.adec(|r| rt::block_on({n}::decode_async(r{a})).map(|v| rt::Conv::to(&v)).map_err(|e| e.to_string()))),").unwrap();
        }
        match &d.field.ty {
            Ty::Enum(sc, _, vs) => {
                writeln!(o, "(\"{n}\", \"info\") => {{ let mut o = String::new(); use std::fmt::Write;").unwrap();
                for (v, k) in vs {
                    if *k == EnumVal::Default { writeln!(o, "for x in [0u128, 1, 77, 200, u128::MAX] {{ write!(o, \"{v}({{}})={{}};\", x as {u}, {n}::{v}(x as {s}).to_repr() as {u}).unwrap(); }}", u = uns(*sc), s = sc.name()).unwrap(); }
                    else { writeln!(o, "write!(o, \"{v}={{}},{{}};\", {n}::{v}.to_repr() as {u}, matches!({n}::from_repr({n}::{v}.to_repr()), Ok({n}::{v}))).unwrap(); write!(o, \"{{:?}},{{:?}};\", {n}::{v}.to_be_bytes(), {n}::{v}.to_le_bytes()).unwrap();", u = uns(*sc)).unwrap(); }
                }
                writeln!(o, "Some(format!(\"ok {{}}\", o.replace(' ', \"\"))) }}").unwrap();
            }
            Ty::Bitfield(sc, _, vs) => {
                let u = uns(*sc);
                writeln!(o, "(\"{n}\", \"info\") => {{ let mut o = String::new(); use std::fmt::Write; write!(o, \"ALL={{}};ZERO={{}};\", {n}::ALL.0 as {u}, {n}::ZERO.0 as {u}).unwrap();").unwrap();
                for (v, _) in vs {
                    let up = snake(v).to_uppercase(); let lo = snake(v);
                    writeln!(o, "write!(o, \"{v}={{}};\", {n}::{up}.0 as {u}).unwrap(); {{ let mut x = {n}::ZERO; x.set_{lo}(); write!(o, \"set={{}},{{}},{{}};\", x.0 as {u}, x.{lo}(), {n}::ZERO.{lo}()).unwrap(); write!(o, \"{{:?}}{{:?}};\", x.to_be_bytes(), x.to_le_bytes()).unwrap(); let mut y = {n}::ALL; y.set_{lo}(); write!(o, \"{{}},{{}};\", y.0 as {u}, (({n}::ALL ^ {n}::{up}).{lo}())).unwrap(); let mut w = {n}::{up}; w |= {n}::ALL; let mut z = {n}::ALL; z &= {n}::{up}; write!(o, \"{{}},{{}},{{}},{{}};\", w.0 as {u}, z.0 as {u}, (!{n}::{up} & {n}::ALL).0 as {u}, ({n}::{up} | {n}::ZERO).0 as {u}).unwrap(); let mut q = {n}::{up}; q &= {n}::ALL; let mut p = {n}::{up}; p |= {n}::ZERO; let mut t = {n}::ALL; t ^= {n}::{up}; let mut k = {n}::{up}; k ^= {n}::{up}; write!(o, \"{{}},{{}},{{}},{{}},{{}};\", q.0 as {u}, p.0 as {u}, t.0 as {u}, k.0 as {u}, ({n}::{up} & {n}::ALL).0 as {u}).unwrap(); }}").unwrap();
                }
                writeln!(o, "Some(format!(\"ok {{}}\", o.replace(' ', \"\"))) }}").unwrap();
            }
            _ => (),
        }
    }
    writeln!(o, "_ => None }} }}").unwrap();
    o
}

/// what `info` has to say
pub fn expected_info(spec: &Spec, d: &Decl) -> Option<String> {
    let mut o = String::new();
    let be = |x: u128, sc: Sc| { let b = x.to_be_bytes(); b[16 - sc.bytes as usize..].to_vec() };
    let le = |x: u128, sc: Sc| { let b = x.to_le_bytes(); b[..sc.bytes as usize].to_vec() };
    match &d.field.ty {
        Ty::Enum(sc, _, vs) => {
            let vals = enum_values(spec, *sc, vs).ok()?;
            for (v, k) in vs {
                if *k == EnumVal::Default { for x in [0u128, 1, 77, 200, u128::MAX] { write!(o, "{}({})={};", v, sc.wrap(x), sc.wrap(x)).unwrap(); } }
                else { let x = vals.iter().find(|y| &y.0 == v)?.1; write!(o, "{}={},true;{:?},{:?};", v, x, be(x, *sc), le(x, *sc)).unwrap(); }
            }
        }
        Ty::Bitfield(sc, _, vs) => {
            let vals = bit_values(spec, *sc, vs).ok()?;
            let all = vals.iter().fold(0, |a, b| a | b.1);
            write!(o, "ALL={};ZERO=0;", all).unwrap();
            for (v, x) in &vals {
                write!(o, "{}={};set={},{},false;{:?}{:?};", v, x, x, *x != 0, be(*x, *sc), le(*x, *sc)).unwrap();
                write!(o, "{},false;{},{},{},{};", all, all, x, all & !x, x).unwrap();
                write!(o, "{},{},{},0,{};", x, x, all & !x, x).unwrap();
            }
        }
        _ => return None,
    }
    Some(o.replace(' ', ""))
}
