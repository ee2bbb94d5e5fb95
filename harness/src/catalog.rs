//! Hand-written specs: the documented features one by one and combined.
use crate::model::*;
use crate::run::Unit;

const TEXT: &str = include_str!("../specs/catalog.txt");
pub fn header() -> String {
    let mut s = String::new();
    for f in FOREIGN { s.push_str(&format!("import_ffi {} as type;\n", f)); }
    for f in ["xadd", "xxor", "xrot", "hexy", "sxor", "sadd"] { s.push_str(&format!("import_ffi {} as transform;\n", f)); }
    for f in ["sum", "pad", "bits"] { s.push_str(&format!("import_ffi {} as function;\n", f)); }
    s
}
/// (name, categories, text without header)
pub fn sections() -> Vec<(&'static str, Vec<&'static str>, &'static str)> {
    TEXT.split("=== ").filter(|s| !s.trim().is_empty()).map(|s| { let (h, b) = s.split_once('\n').unwrap(); let mut w = h.split_whitespace(); let n = w.next().unwrap(); (n, w.collect(), b) }).collect()
}
pub fn units(cats: &[&str]) -> Vec<Unit> {
    sections().into_iter().filter(|s| cats.iter().any(|c| *c == "*" || s.1.contains(c))).map(|(n, _, b)| {
        let text = format!("{}{}", header(), b);
        let key = format!("cat_{}", n);
        match crate::mparse::parse_spec(&key, &text) { Ok(m) => Unit { key, spec: m, text }, Err(e) => crate::broken(&format!("model parser on catalogue spec {}: {}", n, e)) }
    }).collect()
}
