//! The checks: one per property.
use crate::campaign::*;
use crate::report::Report;

pub fn ops(s: &str) -> Ops {
    let mut o = Ops::default();
    for w in s.split_whitespace() {
        match w { "rt" => o.rt = true, "enc" => o.enc = true, "scramble" => o.scramble = true, "wshort" => o.wshort = true, "wfault" => o.wfault = true, "dec" => o.dec = true, "suffix" => o.suffix = true, "chunk" => o.chunk = true, "trunc" => o.trunc = true, "rfault" => o.rfault = true, "mutate" => o.mutate = true, "random" => o.random = true, "badval" => o.badval = true, "info" => o.info = true, "exhaust" => o.exhaust = true, "asy" => o.asy = true, x => crate::broken(&format!("op {}", x)) }
    }
    o
}
fn plan(prop: &'static str, profs: &[(&'static str, usize)], cats: &[&'static str], vals: usize, o: &str, thorough: bool, seed: u64) -> Plan {
    let k = if thorough { 8 } else { 1 };
    let o = ops(o);
    Plan { prop, profs: profs.iter().map(|p| (p.0, p.1 * k * 3)).collect(), cats: cats.to_vec(), extra: vec![], vals: vals * if thorough { 4 } else { 1 }, deps: o.asy, ops: o, seed, heavy: 0 }
}
pub fn codec_plan(prop: &str, th: bool, seed: u64) -> Option<(Plan, &'static str)> {
    let all: &[(&'static str, usize)] = &[("all", 14), ("cond", 8), ("arr", 8), ("strs", 8), ("xform", 8), ("blen", 8), ("calc", 8), ("args", 8), ("enums", 8), ("prim", 6), ("expr", 6)];
    Some(match prop {
        "C01" => (plan("C01", all, &["*"], 40, "rt", th, seed), "one evaluation = one value encoded and decoded again by the generated coder; distinct by (spec, arguments, value); non-trivial if the encoding is not empty"),
        "C02" => (plan("C02", all, &["*"], 40, "enc", th, seed), "one evaluation = one value encoded and compared byte for byte with the reference encoder; distinct by (spec, arguments, value); non-trivial if the encoding is not empty"),
        "C03" => (plan("C03", all, &["*"], 14, "dec suffix mutate random", th, seed), "one evaluation = one byte string decoded: outcome, value, bytes consumed and peak allocation compared with the reference decoder; distinct by (spec, arguments, bytes)"),
        "C04" => (plan("C04", all, &["*"], 12, "chunk trunc rfault suffix", th, seed), "one evaluation = one decoding through a hostile reader (short windows, truncation, injected error); distinct by (spec, bytes, reader behaviour)"),
        "C05" => (plan("C05", all, &["*"], 14, "wshort wfault", th, seed), "one evaluation = one encoding through a hostile writer (short writes, interruptions, injected error, zero-length writes); distinct by (spec, value, writer behaviour)"),
        "C06" => (plan("C06", all, &["*"], 24, "badval", th, seed), "one evaluation = one altered value encoded: refused exactly if the reference encoder finds it inconsistent, else its bytes are compared; distinct by (spec, arguments, value)"),
        "C07" => (plan("C07", &[("calc", 60), ("blen", 40), ("all", 8)], &["calc", "bound", "strs", "expr"], 40, "enc scramble rt", th, seed), "one evaluation = one value encoded, most with the calculated fields overwritten by noise, compared with the reference; distinct by (spec, value)"),
        "C08" => (plan("C08", &[("cond", 80), ("args", 16), ("expr", 24)], &["cond", "expr"], 26, "enc dec badval mutate", th, seed), "one evaluation = one encoding or decoding of a spec with conditional fields compared with the reference; distinct by (spec, value or bytes)"),
        "C09" => (plan("C09", &[("cond", 40), ("args", 40), ("xform", 16)], &["tagged"], 40, "enc dec rt badval mutate trunc", th, seed), "one evaluation = one encoding or decoding of a spec with tagged enums compared with the reference; distinct by (spec, value or bytes)"),
        "C10" => (plan("C10", &[("xform", 80)], &["xform"], 30, "enc dec rt chunk wfault wshort trunc mutate", th, seed), "one evaluation = one encoding or decoding through chains of transforms compared with the reference; distinct by (spec, value or bytes, stream behaviour)"),
        "C11" => (plan("C11", &[("blen", 60), ("calc", 10)], &["bound", "pad"], 30, "enc dec rt badval mutate trunc suffix chunk", th, seed), "one evaluation = one encoding or decoding of length-bounded containers and padding compared with the reference; distinct by (spec, value or bytes)"),
        "C12" => (plan("C12", &[("enums", 60), ("const", 10)], &["enums"], 30, "info exhaust enc dec mutate", th, seed), "one evaluation = one set of constants, or one decoding or encoding of an enum or bitfield, compared with the reference; 8-bit representations are enumerated; distinct by (spec, bytes or value)"),
        "C13" => (plan("C13", &[("arr", 60)], &["arr"], 30, "enc dec rt badval mutate trunc chunk", th, seed), "one evaluation = one encoding or decoding of arrays (counted, terminated, unbounded, nested) compared with the reference; distinct by (spec, value or bytes)"),
        "C14" => (plan("C14", &[("strs", 60)], &["strs", "vari"], 36, "enc dec rt badval mutate trunc random", th, seed), "one evaluation = one encoding or decoding of strings and variable-length integers compared with the reference; distinct by (spec, value or bytes)"),
        "C15" => ({ let mut p = plan("C15", &[("gz", 30)], &[], 12, "", th, seed); p.extra = crate::gz::catalogue(); p }, "one evaluation = one encoding or decoding through gzip and base64: what was encoded is decoded by the reference, the same content in other encodings, cut and damaged data is decoded; distinct by (spec, value or bytes, stream behaviour)"),
        "C16" => (plan("C16", all, &["*"], 5, "enc dec rt scramble wshort wfault chunk trunc rfault mutate badval asy", th, seed), "one evaluation = one encoding or decoding by the synchronous or the asynchronous coder (random suspensions at every poll), both compared with the reference; distinct by (spec, value or bytes, schedule)"),
        "C17" => (plan("C17", &[("expr", 120)], &["expr", "calc"], 60, "enc dec scramble rt", th, seed), "one evaluation = one encoding or decoding of a spec whose calculated fields, conditions, lengths and arguments are random well-typed expressions over all operators and types, compared with the reference evaluator; distinct by (spec, value or bytes)"),
        "C26" => (plan("C26", &[("const", 80)], &["enums"], 6, "info exhaust enc", th, seed), "one evaluation = the set of constants of one enum or bitfield, or one coding of one of them, compared with the values the reference evaluator gives their expressions; distinct by (spec, type, bytes or value)"),
        "C24" => (plan("C24", &[("hide-expr", 40), ("hide-args", 40), ("hide-calc", 20), ("hide-blen", 16), ("hide-cond", 16), ("hide-all", 20)], &[], 16, "enc dec scramble mutate badval", th, seed), "one evaluation = one encoding or decoding of a spec whose fields, arguments and constants hide one another, compared with the reference, which works on the spec without the hiding; distinct by (spec, value or bytes)"),
        "C18" => (plan("C18", &[("args", 90)], &["args", "rec", "alias"], 30, "enc dec rt badval mutate", th, seed), "one evaluation = one encoding or decoding of specs whose types take arguments or refer to themselves, compared with the reference; distinct by (spec, arguments, value or bytes)"),
        _ => return None,
    })
}
pub fn run(prop: &str) -> i32 {
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    let th = tier == "thorough";
    let mut rep = Report::new(prop, &tier, seed);
    if let Some((p, rule)) = codec_plan(prop, th, seed) {
        rep.rule = rule.into();
        if prop == "C15" { crate::gz::run(&p, &mut rep); } else { crate::campaign::run(&p, &mut rep); }
        if prop == "C26" { crate::gexpr::refusals(seed, if th { 100000 } else { 6000 }, &mut rep); }
    } else if prop == "C29" { crate::opts::run(th, seed, &mut rep);
    } else if let Some(m) = crate::front::modes(prop) {
        crate::front::run(&m, th, seed, &mut rep);
        if prop == "C21" { crate::fchecks::bottomless(&mut rep); }
    } else if prop == "C25" { crate::comp::run(th, seed, &mut rep);
    } else { crate::broken(&format!("no check {}", prop)); }
    rep.finish()
}
