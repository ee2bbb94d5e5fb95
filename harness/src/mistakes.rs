//! C19: one definite mistake in an otherwise valid spec.  Every case comes in two versions that differ in one place:
//! the valid one must be accepted, the other refused with the right kind of error, naming the culprit, at its place.
use crate::front::Out;
use crate::rng::Rng;
use crate::syn;
use protospec_build as ps;
use std::collections::BTreeMap;

/// declarations every case has; `$x` are names, chosen at random
const ENV: &str = r#"const $K8: u8 = 3u8; const $KS: u8[..] = "ab"; const $K64: u64 = 5; const $KB: bool = true; const $KI: i32 = 7;
type $E = enum u8 { $A = 1, $B, $D = default }; type $E2 = enum i32 { $P = 1, $Q }; type $E3 = enum u8 { $A = 1, $B2 }; type $BF = bitfield u8 { $X = 1, $Y };
type $NW = u16; type $NA = u8[2]; type $CO = container { $z: u8 };
type $G8($ga: u8, $gb: u16 ? 7) = container { $gq: u8 { $ga > 1 } }; type $GB($gc: bool) = container { $gr: u8 { $gc } }; type $GE($ge: $E) = container { $gs: u8 { $ge == $E::$B } }; type $GF($gf: f64) = container { $gt: u8 { $gf > $gf } };"#;
const FIELDS: &str = "$u1: u8, $s1: i8, $u2: u16le, $s4: i32, $u8: u64, $uw: u128, $fl: f32, $db: f64, $bo: bool, $e1: $E, $e3: $E3, $ei: $E2, $b1: $BF, $ar: u8[2], $ab: bool[2], $st: utf8, $co: $CO, $in: container { $nested: u8, $nb: bool },";
const LATER: &str = "$la8: u8, $la64: u64, $lab: bool, $lai: i32, $laE: $E, $laf: f64";
const HOLES: &[&str] = &["u8", "u64", "i32", "bool", "E", "f64"];

/// (kind of error, holes it can stand in (* = all), needs the fields, mistake with the culprit between « and »)
/// a culprit that is checked for its place is a name or a literal
const ABSOLUTE: &[(&str, &str, bool, &str)] = &[
    ("UnresolvedVar", "*", false, "«$zz»"), ("UnresolvedFunction", "*", false, "«$zz»(1u8)"), ("UnresolvedFunction", "*", false, "«$zz»()"), ("UnresolvedType", "*", false, "«$zz»::$A"), ("UnresolvedType", "*", false, "(1u8 :> «$zz»)"),
    ("UnresolvedEnumVariant", "*", false, "$E::«$zz»"), ("UnresolvedEnumVariant", "*", false, "$E::«$P»"), ("UnresolvedBitfieldVariant", "*", false, "$BF::«$zz»"), ("ReferencedDefaultEnumVariant", "*", false, "$E::«$D»"), ("BitfieldMemberUndefined", "*", true, "$b1.«$zz»"), ("BitfieldMemberUndefined", "*", false, "$BF::$X.«$A»"),
    ("UnexpectedType", "*", true, "$u1.$X"), ("UnexpectedType", "*", false, "$E::$A.$A"), ("UnexpectedType", "*", true, "$in.$nested"), ("UnexpectedType", "*", true, "$co.$z"),
    ("IllegalCast", "*", true, "($bo :> u8)"), ("IllegalCast", "*", false, "(\"ab\" :> u8)"), ("IllegalCast", "*", true, "($st :> u64)"), ("IllegalCast", "*", true, "($ar :> u16)"), ("IllegalCast", "*", true, "($u1 :> bool)"), ("IllegalCast", "*", true, "($db :> bool)"), ("IllegalCast", "*", true, "($ei :> $E)"), ("IllegalCast", "*", true, "($co :> u8)"), ("IllegalCast", "*", false, "(true :> $E)"), ("IllegalCast", "*", true, "($db :> $E)"), ("IllegalCast", "*", true, "($e1 :> bool)"), ("IllegalCast", "*", true, "($e1 :> $E3)"), ("IllegalCast", "*", true, "($fl :> $BF)"), ("IllegalCast", "*", true, "($bo :> f64)"),
    ("InvalidFFIArgumentCount 1 1 0", "*", false, "len()"), ("InvalidFFIArgumentCount 2 2 1", "*", false, "pad(1u64)"), ("InvalidFFIArgumentCount 2 2 3", "*", false, "pad(1u64, 2u64, 3u64)"), ("InvalidFFIArgumentCount 1 1 2", "*", true, "len($ar, $ar)"), ("InvalidFFIArgumentCount 1 1 0", "*", false, "bits()"),
    ("InvalidInt", "*", false, "«256»u8"), ("InvalidInt", "*", false, "«65536»u16"), ("InvalidInt", "*", false, "«128»i8"), ("InvalidInt", "*", false, "«0x100000000»u32"), ("InvalidInt", "*", false, "«340282366920938463463374607431768211456»u128"), ("InvalidInt", "*", false, "«18446744073709551616»u64"), ("InvalidInt", "*", false, "«32768»i16"), ("InvalidInt", "*", false, "«9223372036854775808»i64"),
    ("UnresolvedVar", "*", true, "«$nested»"), ("UnresolvedVar", "*", true, "«$nb»"), ("UnresolvedVar", "*", false, "«$gq»"), ("UnresolvedVar", "*", false, "«$ga»"), ("UnresolvedVar", "*", false, "«$z»"), ("UnresolvedVar", "*", false, "«$E»"), ("UnresolvedVar", "*", false, "«$A»"), ("UnresolvedVar", "*", false, "«$X»"),
    ("CastTypeDefinition", "*", false, "(1u8 :> container { $zz: u8 })"), ("CastTypeDefinition", "*", false, "(1u8 :> enum u8 { $zz = 1 })"),
    ("UnexpectedType", "*", true, "$NW::$A"), ("UnexpectedType", "*", true, "$CO::$z"), ("UnexpectedType", "*", true, "$G8::$ga"),
    ("UnexpectedType", "*", true, "(-$u1)"), ("UnexpectedType", "*", false, "(-1u8)"), ("UnexpectedType", "*", false, "(-$K64)"), ("UnexpectedType", "*", true, "(-$bo)"), ("UnexpectedType", "*", true, "(~$db)"), ("UnexpectedType", "*", true, "(!$db)"), ("UnexpectedType", "*", false, "(!\"ab\")"), ("UnexpectedType", "bool f64", true, "(-$e1)"), ("UnexpectedType", "*", true, "($st + $st)"), ("UnexpectedType", "*", true, "($bo + $bo)"), ("UnexpectedType", "*", true, "($db << $db)"), ("UnexpectedType", "*", true, "($db | $db)"), ("UnexpectedType", "bool f64", true, "($b1 + $b1)"), ("UnexpectedType", "*", true, "($ar + $ar)"), ("UnexpectedType", "*", true, "($bo << $bo)"), ("UnexpectedType", "*", true, "($ar & $ar)"), ("UnexpectedType", "*", true, "(-$ar)"), ("UnexpectedType", "*", true, "(~$st)"), ("UnexpectedType", "*", true, "($co - $co)"),
    ("UnexpectedType", "bool", true, "($u1 == $s1)"), ("UnexpectedType", "bool", true, "($bo == $u1)"), ("UnexpectedType", "bool", true, "($e1 == $ei)"), ("UnexpectedType", "bool", true, "($e1 != $e3)"), ("UnexpectedType", "bool", false, "(\"ab\" == 1u8)"), ("UnexpectedType", "bool", true, "($u1 < $u2)"), ("UnexpectedType", "bool", false, "(1u8 == 1u16)"), ("UnexpectedType", "bool", true, "($bo && $u1)"), ("UnexpectedType", "bool", true, "($u1 || $bo)"), ("UnexpectedType", "bool", true, "($e1 < $e1)"), ("UnexpectedType", "bool", true, "($st < $st)"), ("UnexpectedType", "bool", true, "($ar >= $ar)"), ("UnexpectedType", "bool", true, "($b1 > $b1)"), ("UnexpectedType", "bool", true, "($db == $u1)"), ("UnexpectedType", "bool", false, "(1 == 2)"), ("UnexpectedType", "bool", true, "($bo && 1)"), ("UnexpectedType", "bool", true, "($s4 >= $uw)"), ("UnexpectedType", "bool", true, "($b1 == $e1)"), ("UnexpectedType", "bool", true, "($st == $bo)"), ("UnexpectedType", "bool", true, "($co == $u1)"), ("UnexpectedType", "bool", true, "($e1 == $E2::$P)"),
    ("UnexpectedType", "u8 bool u64 i32", true, "($u1 ? @ : @)"), ("UnexpectedType", "u8 bool u64 i32 E", false, "(1u8 ? @ : @)"), ("UnexpectedType", "*", true, "(\"a\" ? @ : @)"), ("UnexpectedType", "*", true, "($e1 ? @ : @)"), ("UnexpectedType", "*", true, "($b1 ? @ : @)"),
    ("UnexpectedType", "*", true, "$u1[0]"), ("UnexpectedType", "*", true, "$bo[0]"), ("UnexpectedType", "*", true, "$co[0]"), ("UnexpectedType", "u8", true, "$ar[true]"), ("UnexpectedType", "u8", true, "$ar[\"a\"]"), ("UnexpectedType", "u8", true, "$ar[$s1]"), ("UnexpectedType", "bool", true, "$ab[$uw]"), ("UnexpectedType", "bool", true, "$ab[$db]"), ("UnexpectedType", "u8", true, "$ar[1i32]"), ("UnexpectedType", "u8", true, "$ab[0]"),
    ("UnexpectedType", "u64", false, "len(1)"), ("UnexpectedType", "u64", false, "pad(true, 4u64)"), ("UnexpectedType", "u64", false, "pad(4u64, \"ab\")"), ("UnexpectedType", "u64", true, "pad($s1, 4u64)"), ("UnexpectedType", "u64", true, "(bits($bo) :> u64)"), ("UnexpectedType", "u64", true, "pad(4u64, $uw)"),
];
/// values of another type than the hole's, which no implicit conversion takes there
const TYPED: &[(&str, bool, &str)] = &[
    ("u8", true, "$u2"), ("u8", true, "$s1"), ("u8", true, "$bo"), ("u8", true, "$db"), ("u8", true, "$st"), ("u8", true, "$ar"), ("u8", true, "$ei"), ("u8", false, "true"), ("u8", false, "\"a\""), ("u8", false, "1u16"), ("u8", false, "1i8"), ("u8", true, "$co"), ("u8", true, "$in"), ("u8", false, "$K64"), ("u8", false, "$KS"), ("u8", true, "$u8"), ("u8", false, "$E2::$P"), ("u8", true, "len($ar)"), ("u8", false, "(1u8 == 1u8)"), ("u8", false, "(1u8 :> u16)"),
    ("u64", true, "$s4"), ("u64", true, "$uw"), ("u64", true, "$bo"), ("u64", true, "$fl"), ("u64", true, "$st"), ("u64", true, "$ei"), ("u64", false, "1i64"), ("u64", false, "1u128"), ("u64", false, "\"a\""), ("u64", false, "false"), ("u64", true, "$ar"), ("u64", true, "$s1"), ("u64", false, "$KI"),
    ("i32", true, "$u1"), ("i32", true, "$u8"), ("i32", true, "$bo"), ("i32", true, "$e1"), ("i32", true, "$b1"), ("i32", false, "1u8"), ("i32", false, "1i64"), ("i32", true, "$db"), ("i32", false, "$K8"), ("i32", false, "\"\""),
    ("bool", true, "$u1"), ("bool", false, "1u8"), ("bool", false, "\"a\""), ("bool", true, "$e1"), ("bool", true, "$b1"), ("bool", true, "$db"), ("bool", true, "$ar"), ("bool", false, "1"), ("bool", false, "$K8"), ("bool", true, "!$u1"), ("bool", true, "$ab"), ("bool", true, "$st"), ("bool", false, "$E::$A"), ("bool", true, "$in"),
    ("E", true, "$ei"), ("E", true, "$e3"), ("E", false, "true"), ("E", false, "\"a\""), ("E", true, "$b1"), ("E", true, "$db"), ("E", false, "$E3::$A"), ("E", true, "$st"), ("E", true, "$u2"), ("E", true, "$s1"), ("E", true, "$ar"), ("E", false, "1"),
    ("f64", true, "$u1"), ("f64", false, "true"), ("f64", true, "$e1"), ("f64", false, "1"), ("f64", true, "$st"), ("f64", false, "$KI"), ("f64", true, "$uw"), ("f64", true, "$bo"), ("f64", false, "\"1.0\""),
];
fn leaf(r: &mut Rng, h: &str, fields: bool) -> &'static str {
    let (c, f): (&[&str], &[&str]) = match h {
        "u8" => (&["3u8", "$K8", "7u8", "($E::$A :> u8)", "(2u8 << 1u8)"], &["$u1", "$ta", "$ar[0]", "$ar[$u1]", "bits($u2)", "($s4 :> u8)", "($u1 + 1u8)"]),
        "u64" => (&["5u64", "$K64", "(9u8 :> u64)", "0x10u64"], &["$u8", "len($ar)", "len($st)", "($u1 :> u64)", "pad(4u64, $u8)", "($db :> u64)"]),
        "i32" => (&["5i32", "$KI", "(-4i32)", "($E2::$P :> i32)", "(1u8 :> i32)"], &["$s4", "($u1 :> i32)", "(-$s4)", "($fl :> i32)"]),
        "bool" => (&["true", "$KB", "(1u8 < 2u8)", "!false", "($E::$A == $E::$B)", "$BF::$X.$Y"], &["$bo", "$tb", "($u1 == 1u8)", "$b1.$X", "$ab[1]", "($e1 == $te)", "($db < $db)"]),
        "E" => (&["$E::$A", "$E::$B"], &["$e1", "$te", "($bo ? $e1 : $E::$A)"]),
        _ => (&["(1u8 :> f64)", "(-(2i64 :> f64))"], &["$db", "($u1 :> f64)", "($db * $db)", "($fl :> f64)"]),
    };
    let v = if fields && r.chance(2, 3) { f } else { c };
    v[r.below(v.len())]
}
/// an expression of type `h` around a place for one of type `*at`; `exact` while nothing fixes the type of that place
fn wrap(r: &mut Rng, mut at: &'static str, h: &str, fields: bool, exact: bool) -> Option<String> {
    let mut e = "@".to_string();
    let mut free = !exact;
    for step in 0.. {
        if at == h && (step > 4 || r.chance(1, 3)) { return Some(e); }
        if step > 7 { return None; }
        let l = leaf(r, at, fields).to_string();
        let num = !matches!(at, "bool" | "E");
        let int = matches!(at, "u8" | "u64" | "i32");
        let (n, to, fix) = match r.below(if free { 14 } else { 6 }) {
            0 => (format!("(true ? {} : {})", e, l), at, false),
            1 => (format!("({} ? {} : {})", leaf(r, "bool", fields), e, l), at, false),
            2 if num => (format!("({} {} {})", l, r.pick(&["+", "*", "-"]), e), at, true),
            3 => (format!("({} == {})", l, e), "bool", true),
            4 if int => (format!("({} {} {})", l, r.pick(&["<", ">=", "<=", ">"]), e), "bool", true),
            5 if at == "bool" => (format!("({} {} {})", l, r.pick(&["&&", "||"]), e), "bool", true),
            6 if int => (format!("(~{})", e), at, false),
            7 if num => (format!("({} + {})", e, l), at, false),
            8 if at == "bool" => (format!("(!{} || {})", e, l), at, false),
            9 => (format!("({} != {})", e, l), "bool", false),
            10 if int => { let t = *r.pick(&["u8", "u64", "i32", "f64"]); (format!("({} :> {})", e, t), t, false) }
            11 if at == "bool" => { let t = *r.pick(HOLES); let (x, y) = (leaf(r, t, fields), leaf(r, t, fields)); (format!("({} ? {} : {})", e, x, y), t, false) }
            12 if at == "u64" && fields => (format!("$ar[{}]", e), "u8", false),
            13 if at == "u64" => (r.pick(&["pad(@, 4u64)", "pad(2u64, @)", "(bits(@) :> u64)"]).replace('@', &e), "u64", false),
            _ => continue,
        };
        e = n; at = to;
        if fix { free = true; }
    }
    None
}
/// (context, hole, has the fields, are later fields visible)
const CONTEXTS: &[(&str, &str, bool, bool)] = &[
    ("$m: u8 = @,", "u8", true, true), ("$m: u64le = @,", "u64", true, true), ("$m: i32 = @,", "i32", true, true), ("$m: bool = @,", "bool", true, true), ("$m: $E = @,", "E", true, true), ("$m: f64 = @,", "f64", true, true),
    ("$m: u8 { @ },", "bool", true, false), ("$m: container { $m2: u8 } { @ },", "bool", true, false), ("$m: u16[@],", "u64", true, false), ("$m: $E[@],", "u64", true, false), ("$m: container [@] { $m2: u8 },", "u64", true, false), (".pad: @, $m: u8,", "u64", true, false), ("$m: utf8(@),", "u64", true, false),
    ("$m: $G8(@),", "u8", true, false), ("$m: $G8(@, $u2),", "u8", true, false), ("$m: $GB(@),", "bool", true, false), ("$m: $GE(@)[2],", "E", true, false), ("$m: $GF(@),", "f64", true, false), ("$m: u8 -> xadd(@),", "u8", true, false), ("$m: $NW -> xadd { @ },", "bool", true, false), ("$m: u8[3] -> xadd -> xxor(@) { true },", "u8", true, false), ("$m: triple(@),", "u8", true, false),
    // in a container of its own
    ("$w: container { $w1: u8, $m: bool = @, $w2: u8 },", "bool", true, true), ("$w: container { $w1: u8, $m: u8[@], $w2: u8 },", "u64", true, false), ("$w: container { $w1: container { $m: u8 { @ } }, $w2: u8 } { $tb },", "bool", true, false),
];
const TOP: &[(&str, &str)] = &[
    ("const $m: u8 = @;", "u8"), ("const $m: u64 = @;", "u64"), ("const $m: i32 = @;", "i32"), ("const $m: bool = @;", "bool"), ("const $m: f64 = @;", "f64"), ("const $m: $E = @;", "E"),
    ("type $m($m2: u8 ? @) = u8;", "u8"), ("type $m($m2: bool ? @) = container { $m3: u8 { $m2 } };", "bool"), ("type $m($m2: u8, $m3: $E ? @) = u8;", "E"), ("type $m = $G8(@);", "u8"), ("type $m = $GE(@);", "E"), ("type $m = u8[@];", "u64"), ("type $m = $GB(@)[3];", "bool"), ("type $m = u8 { @ };", "bool"), ("type $m = u8 -> xxor(@);", "u8"), ("type $m = u8 -> xadd { @ };", "bool"), ("type $m = container [@] { $m2: u8[..] };", "u64"), ("type $m = container { .pad: @ };", "u64"), ("type $m($m2: u8) = container +tagged_enum { $m3: u8 { @ }, $m4: u16 };", "bool"), ("type $m = container +tagged_enum { $m3: u8[@] { true }, $m4: $G8(1) };", "u64"),
    ("type $m = utf8(@);", "u64"), ("type $m = utf16(@);", "u64"), ("type $m = triple(@);", "u8"),
];
/// pairs of declarations, (kind, wrong, right); the first « » is what the error names
const DECLS: &[(&str, &str, &str)] = &[
    ("TypeRedefinition", "type $a = u8; type <$a> = u16;", "type $a = u8; type $b = u16;"), ("TypeRedefinition", "type $a = enum u8 { $b = 1 }; type <$a> = container { $c: u8 };", "type $b = enum u8 { $b = 1 }; type $a = container { $c: u8 };"), ("TypeRedefinition", "type $a($b: u8) = u8[$b :> u64]; type <$a> = u16;", "type $a($b: u8) = u8[$b :> u64]; type $b = u16;"), ("TypeRedefinition", "type <$E> = u8;", "type $a = u8;"), ("TypeRedefinition", "type <$CO> = bitfield u8 { $A = 1 };", "type $a = bitfield u8 { $A = 1 };"), ("TypeRedefinition", "type <utf8> = u8;", "type utf9 = u8;"), ("TypeRedefinition", "import_ffi <utf8> as type;", ""), ("TransformRedefinition", "import_ffi <xadd> as transform;", "import_ffi gzip as transform;"), ("FunctionRedefinition", "import_ffi <len> as function;", ""), ("FunctionRedefinition", "import_ffi <pad> as function;", "import_ffi base64 as transform;"),
    ("FfiMissing", "import_ffi <$zz> as type;", ""), ("FfiMissing", "import_ffi <$zz> as transform;", ""), ("FfiMissing", "import_ffi <$zz> as function;", ""), ("FfiMissing", "import_ffi <gzip> as type;", "import_ffi gzip as transform;"), ("FfiMissing", "import_ffi <utf8> as transform;", "import_ffi base64 as transform;"), ("FfiMissing", "import_ffi <xadd> as function;", ""),
    ("ConstRedefinition", "const $a: u8 = 1; const <$a>: u8 = 1;", "const $a: u8 = 1; const $b: u8 = 1;"), ("ConstRedefinition", "const <$K8>: u64 = 1;", "const $a: u64 = 1;"),
    ("ConstTypeDefinition", "const <$a>: container { $b: u8 } = 1u8;", "const $a: u8 = 1u8;"), ("MustBeToplevel", "const $a: enum u8 { $b = 1 } = 1u8;", "const $a: u8 = 1u8;"), ("MustBeToplevel", "const $a: bitfield u8 { $b = 1 } = 1u8;", ""),
    ("UnresolvedVar", "const $a: u8 = «$b»; const $b: u8 = 1;", "const $b: u8 = 1; const $a: u8 = $b;"), ("UnresolvedVar", "const $a: u8 = «$a»;", "const $a: u8 = 1;"), ("UnresolvedVar", "type $a = enum u8 { $b = «$c» }; const $c: u8 = 1;", "const $c: u8 = 1; type $a = enum u8 { $b = $c };"), ("UnresolvedVar", "type $a = enum u8 { $b = 1, $c = «$b» };", "type $a = enum u8 { $b = 1, $c = 2 };"), ("UnresolvedVar", "type $a = bitfield u8 { $b = 1, $c = «$b» };", "type $a = bitfield u8 { $b = 1, $c = 2 };"), ("UnresolvedType", "const $a: u8 = «$c»::$d; type $c = enum u8 { $d = 1 };", "type $c = enum u8 { $d = 1 }; const $a: u8 = $c::$d;"),
    ("EnumVariantRedefinition", "type $a = enum u8 { $b = 1, «$b» = 2 };", "type $a = enum u8 { $b = 1, $c = 2 };"), ("EnumVariantRedefinition", "type $a = enum u8 { $b = 1, $c, «$b», };", "type $a = enum u8 { $b = 1, $c, $d, };"), ("EnumVariantRedefinition", "type $a = enum u8 { $b = 1, $c = default, «$b» };", "type $a = enum u8 { $b = 1, $c = default };"), ("EnumVariantRedefinition", "type $a = enum u8 { $b = 1, «$b» = default };", "type $a = enum u8 { $b = 1, $c = default };"), ("EnumDefaultRedefinition", "type $a = enum u8 { $b = 1, $c = default, «$d» };", "type $a = enum u8 { $b = 1, $d, $c = default };"), ("EnumDefaultRedefinition", "type $a = enum u16le { $b = 1, $c = default, «$d» = default };", "type $a = enum u16le { $b = 1, $d = default };"), ("EnumDefaultRedefinition", "type $a = enum u8 { $b = 1, $c = default, «$d» = 5 };", ""),
    ("EnumValueRedefinition", "type $a = enum u8 { $b = 1, «$c» = 1 };", "type $a = enum u8 { $b = 1, $c = 2 };"), ("EnumValueRedefinition", "type $a = enum i16 { $b = 6, $c = 5, «$d» };", "type $a = enum i16 { $b = 6, $c = 5, $d = 7 };"), ("EnumValueRedefinition", "type $a = enum u8 { $b = 3, $c = 9, «$d» = $K8 };", "type $a = enum u8 { $b = 4, $c = 9, $d = $K8 };"),
    ("InvalidConst", "type $a = enum u8 { $b = 255, «$c» };", "type $a = enum u8 { $b = 254, $c };"), ("InvalidConst", "type $a = enum u8 { «$b» = 1u8 / 0u8 };", "type $a = enum u8 { $b = 1u8 / 1u8 };"), ("InvalidConst", "type $a = enum u64 { «$b» = len(\"ab\") };", "type $a = enum u64 { $b = 2 };"), ("InvalidConst", "type $a = bitfield u8 { $b = 1, «$c» = 1 << 8 };", "type $a = bitfield u8 { $b = 1, $c = 1 << 7 };"),
    ("BitfieldFlagRedefinition", "type $a = bitfield u8 { $b = 1, «$b» };", "type $a = bitfield u8 { $b = 1, $c };"), ("BitfieldFlagRedefinition", "type $a = bitfield u32 { $b = 1, $c, «$b» = 8 };", "type $a = bitfield u32 { $b = 1, $c, $d = 8 };"),
    ("UnexpectedType", "type $a = enum u8 { $b = true };", "type $a = enum u8 { $b = 1 };"), ("UnexpectedType", "type $a = enum u8 { $b = -1 };", "type $a = enum i8 { $b = -1 };"), ("InvalidInt", "type $a = enum u8 { $b = 1, $c = «256» };", "type $a = enum u8 { $b = 1, $c = 255 };"), ("InvalidInt", "type $a = bitfield i8 { $b = 1, $c = «128» };", "type $a = bitfield u8 { $b = 1, $c = 128 };"), ("UnexpectedType", "type $a = enum u8 { $b = \"1\" };", ""), ("UnexpectedType", "type $a = enum u8 { $b = 1u16 };", "type $a = enum u16 { $b = 1u8 };"), ("UnexpectedType", "type $a = bitfield u16 { $b = 1i8 };", "type $a = bitfield u16 { $b = 1u8 };"), ("UnexpectedType", "type $a = enum i8 { $b = $K8 };", "type $a = enum u16 { $b = $K8 };"), ("UnexpectedType", "type $a = enum u8 { $b = $K64 };", "type $a = enum u64 { $b = $K64 };"),
    ("ContainerFieldRedefinition", "type $a = container { $b: u8, «$b»: u8 };", "type $a = container { $b: u8, $c: u8 };"), ("ContainerFieldRedefinition", "type $a = container { $b: u8, $c: container { $d: u8, $f: u8, «$d»: bool } };", "type $a = container { $b: u8, $c: container { $d: u8, $f: u8, $g: bool } };"), ("ContainerFieldRedefinition", "type $a = container +tagged_enum { $b: u8 { true }, «$b»: u8 };", "type $a = container +tagged_enum { $b: u8 { true }, $c: u8 };"), ("ContainerFieldRedefinition", "type $a = container { $b: u8, $c: bool { $b == 1 }, «$b»: u16 };", ""),
    ("MustBeToplevel", "type $a = container { $b: enum u8 { $c = 1 } };", "type $d = enum u8 { $c = 1 }; type $a = container { $b: $d };"), ("MustBeToplevel", "type $a = container { $b: bitfield u8 { $c = 1 } };", "type $d = bitfield u8 { $c = 1 }; type $a = container { $b: $d };"), ("MustBeToplevel", "type $a = container { $b: container +tagged_enum { $c: u8 } };", "type $a = container { $b: container { $c: u8 } };"), ("MustBeToplevel", "type $a = enum u8 { $c = 1 }[2];", "type $d = enum u8 { $c = 1 }; type $a = $d[2];"), ("MustBeToplevel", "type $a($b: enum u8 { $c = 1 }) = u8;", "type $a($b: $E) = u8;"),
    ("InlineRepetition", "type $a = container { $b: u8 }[3];", "type $c = container { $b: u8 }; type $a = $c[3];"), ("InlineRepetition", "type $a = container { $c: container { $b: u8 }[..] };", "type $a = container { $c: container { $b: u8 } };"),
    ("TypeCycle", "type <$a>($b: u8) = $a(1);", "type $a($b: u8) = container { $b: $a(1)[..] };"), ("TypeCycle", "type $a($b: u8) = $c($b); type <$c>($b: u8) = $a($b);", "type $a($b: u8) = $c($b); type $c($b: u8) = $G8($b);"), ("TypeCycle", "type $a($b: u8) = $c; type $c = $d(2); type <$d>($b: u8) = $a($b);", ""),
    ("TypeCycle", "type <$a> = $a;", "type $a = u8;"), ("TypeCycle", "type $a = $b; type <$b> = $a;", "type $a = $b; type $b = u8;"), ("TypeCycle", "type $a = $b; type $b = $c; type <$c> = $a;", "type $a = $b; type $b = $c; type $c = container { $d: $a[..] };"),
    ("UnresolvedType", "type $a = «$zz»;", "type $a = $NW;"), ("UnresolvedType", "type $a = container { $b: u8, $c: «$zz» };", "type $a = container { $b: u8, $c: $CO };"), ("UnresolvedType", "type $a = «$zz»[2];", "type $a = $E[2];"), ("UnresolvedType", "type $a($b: «$zz») = u8;", "type $a($b: $E) = u8;"), ("UnresolvedType", "const $a: «$zz» = 1;", "const $a: u8 = 1;"), ("UnresolvedType", "type $a = container { $b: container { $c: «$zz»(1)[3] } };", "type $a = container { $b: container { $c: $G8(1)[3] } };"), ("UnresolvedType", "type $a = «$K8»;", ""), ("UnresolvedType", "type $a = container { $b: u8, $c: «$b» };", "type $a = container { $b: u8, $c: u8 };"), ("UnresolvedType", "type $a($b: u8) = «$b»;", ""), ("UnresolvedType", "type $a = «xadd»;", ""), 
    ("InvalidTypeArgumentCount 1 2 0", "type $a = $G8();", "type $a = $G8(1);"), ("InvalidTypeArgumentCount 1 2 0", "type $a = container { $b: $G8 };", "type $a = container { $b: $G8(1, 2) };"), ("InvalidTypeArgumentCount 1 2 3", "type $a = $G8(1, 2, 3)[2];", "type $a = $G8(1, 2)[2];"), ("InvalidTypeArgumentCount 0 0 1", "type $a = $NW(1);", "type $a = $NW;"), ("InvalidTypeArgumentCount 1 1 0", "type $a = triple;", "type $a = triple(1);"), ("InvalidTypeArgumentCount 1 1 2", "type $a = triple(1, 2);", ""), ("InvalidTypeArgumentCount 0 1 2", "type $a = utf8(1, 2);", "type $a = utf8(1);"), ("InvalidTypeArgumentCount 0 0 2", "type $a = container { $b: $E(1, 2) };", ""),
    ("InvalidTypeArgumentOrder", "type $a($b: u8, $c: u16, $d: bool ? true, $f: u8) = u8; type $g = $a(1, 2, true, 3);", "type $a($b: u8, $c: u16, $f: u8, $d: bool ? true) = u8; type $g = $a(1, 2, 3);"), ("InvalidTypeArgumentOrder", "type $a($b: u8, $c: u16, $d: u8, $f: u8 ? 1, $h: u8) = u8; type $g = $a(1, 2, 3, 4, 5)[2];", ""),
    ("InvalidTypeArgumentOrder", "type $a($b: u8 ? 1, $c: u8) = u8; type $d = $a(1, 2);", "type $a($c: u8, $b: u8 ? 1) = u8; type $d = $a(1, 2);"),
    ("TypeArgumentRedefinition", "type $a($b: u8, «$b»: u8) = u8;", "type $a($b: u8, $c: u8) = u8;"), ("TypeArgumentRedefinition", "type $a($b: u8, $c: bool, «$b»: u16 ? 1) = u8;", "type $a($b: u8, $c: bool, $d: u16 ? 1) = u8;"),
    ("UnresolvedVar", "type $a($b: u8 ? «$c», $c: u8 ? 1) = u8;", "type $a($c: u8, $b: u8 ? $c) = u8;"), ("UnresolvedVar", "type $a($b: u8) = u8; type $c = u8[«$b»];", "type $a($b: u8) = u8; type $c($b: u64) = u8[$b];"),
    ("UnresolvedTransform", "type $a = u8 -> «$zz»;", "type $a = u8 -> xadd;"), ("UnresolvedTransform", "type $a = container { $b: u8[..] -> xadd -> «$zz»(1) };", "type $a = container { $b: u8[..] -> xadd -> xxor(1) };"), ("UnresolvedTransform", "type $a = u8 -> «gzip»;", "import_ffi gzip as transform; type $a = u8 -> gzip;"), ("UnresolvedTransform", "type $a = u8 -> «utf8»;", ""), ("UnresolvedTransform", "type $a = u8 -> «$NW»;", ""),
    ("InvalidFFIArgumentCount 0 1 2", "type $a = u8 -> xadd(1, 2);", "type $a = u8 -> xadd(1);"), ("InvalidFFIArgumentCount 1 1 0", "type $a = u8 -> xxor;", "type $a = u8 -> xxor(1);"), ("InvalidFFIArgumentCount 1 2 0", "type $a = container { $b: u8 -> xrot() };", "type $a = container { $b: u8 -> xrot(1) };"), ("InvalidFFIArgumentCount 1 2 3", "type $a = container { $b: u8 -> xrot(1, 2, 3) };", "type $a = container { $b: u8 -> xrot(1, 2) };"), ("InvalidFFIArgumentCount 0 0 1", "type $a = u8 -> hexy(1);", "type $a = u8 -> hexy;"),
    ("InvalidFlag", "type $a = container { $b: u8 +«$zz» };", "type $a = container { $b: u8 };"), ("InvalidFlag", "type $a = container +«$zz» { $b: u8 };", "type $a = container +tagged_enum { $b: u8 };"), ("InvalidFlag", "type $a = container +tagged_enum +«tagged_enun» { $b: u8 };", ""), ("InvalidFlag", "type $a = u8 +«auto»;", "type $a = u8;"), ("InvalidFlag", "type $a = container { $b: u8 +«tagged_enum» };", ""),
    ("EnumContainerPad", "type $a = container +tagged_enum { $b: u8 { true }, .pad: 1 };", "type $a = container { $b: u8 { true }, .pad: 1 };"), ("EnumContainerFieldAfterUnconditional", "type $a = container +tagged_enum { $b: u8, $c: u8 };", "type $a = container +tagged_enum { $b: u8 { true }, $c: u8 };"), ("EnumContainerFieldAfterUnconditional", "type $a($d: u8) = container +tagged_enum { $b: u8 { $d == 1 }, $c: u8, $f: u16 { $d == 2 } };", "type $a($d: u8) = container +tagged_enum { $b: u8 { $d == 1 }, $c: u8 { $d == 2 }, $f: u16 };"),
    ("UnexpectedType", "type $a = u8[..5u8];", "type $a = u8[..\"a\"];"), ("UnexpectedType", "type $a = u8[..true];", "type $a = u8[..$KS];"), ("UnexpectedType", "type $a = u8[..$K8];", ""), ("UnexpectedType", "type $a = u8[true];", "type $a = u8[1];"), ("UnexpectedType", "type $a = u8[\"a\"];", ""), ("UnexpectedType", "type $a = u8[$KI];", "type $a = u8[$K8];"), ("UnexpectedType", "type $a = container [true] { $b: u8 };", "type $a = container [1] { $b: u8 };"), ("UnexpectedType", "type $a = container { $b: i32, $c: u8[$b] };", "type $a = container { $b: u32, $c: u8[$b] };"), ("UnexpectedType", "type $a = container { $b: f32, $c: u8[$b] };", ""), ("UnexpectedType", "type $a = container { $b: bool, .pad: $b };", "type $a = container { $b: u8, .pad: $b };"), ("UnexpectedType", "type $a = container { $b: u8[2] = 1u8 };", "type $a = container { $b: u8 = 1u8 };"), ("UnexpectedType", "type $a = container { $b: u8, $c: $E2 = $b };", "type $a = container { $b: u8, $c: u16 = $b };"), ("UnexpectedType", "type $a = container { $b: u128, $c: u8[$b] };", "type $a = container { $b: u64, $c: u8[$b] };"), ("UnexpectedType", "type $a = u8 { 1 };", "type $a = u8 { true };"), ("UnexpectedType", "type $a = container { $b: utf8(2), $c: u8[2] = $b };", ""),
    ("UnresolvedVar", "type $a = container { $b: u8[«$c»], $c: u8 };", "type $a = container { $c: u8, $b: u8[$c] };"), ("UnresolvedVar", "type $a = container { $b: u8 { «$c» }, $c: bool };", "type $a = container { $c: bool, $b: u8 { $c } };"), ("UnresolvedVar", "type $a = container { $b: u8 { «$b» > 1u8 } };", "type $a = container { $c: u8, $b: u8 { $c > 1u8 } };"), ("UnresolvedVar", "type $a = container { $b: container { $c: u8, $d: u8[«$f»] }, $f: u8 };", "type $a = container { $f: u8, $b: container { $c: u8, $d: u8[$f] } };"), ("UnresolvedVar", "type $a = container { $b: container { $c: u8 }, $d: u8[«$c»] };", "type $a = container { $b: container { $c: u8, $d: u8[$c] } };"), ("UnresolvedVar", "type $a = container { $b: u8 }; type $c = container { $d: u8[«$b»] };", "type $a = container { $b: u8 }; type $c = container { $b: u8, $d: u8[$b] };"), ("UnresolvedVar", "type $a = container [«$b»] { $b: u8 };", "type $a($b: u8) = container [$b] { $c: u8 };"), ("UnresolvedVar", "type $a = container { $b: u8 -> xadd(«$c»), $c: u8 };", "type $a = container { $c: u8, $b: u8 -> xadd($c) };"), ("UnresolvedVar", "type $a = container { $b: $G8(«$c»), $c: u8 };", "type $a = container { $c: u8, $b: $G8($c) };"), ("UnresolvedVar", "type $a = container { .pad: «$c», $c: u8 };", "type $a = container { $c: u8, .pad: $c };"), ("UnresolvedVar", "type $a = container { $b: utf8(«$b») };", "type $a = container { $c: u8, $b: utf8($c) };"),
    ("ImportMissing", "import $a from «\"nofile\"»;", "import $fa from \"other\";"), ("ImportUnresolved", "import «$zz» from \"other\";", "import $fa from \"other\";"), ("ImportUnresolved", "import $fa, «$zz» as $a from \"other\";", "import $fa, $fb as $a from \"other\";"), ("ImportParse", "import $fa from «\"bad\"»;", "import $fa as $a from \"other\";"), ("ImportCycle", "import $fa from \"self\";", "import $fa as $d, $fc as $c from \"other\";"), ("UnresolvedType", "import $fa from \"other\"; type $a = «$fb»;", "import $fa, $fb from \"other\"; type $a = $fb;"), ("UnresolvedType", "import $fa as $a from \"other\"; type $b = «$fa»;", "import $fa as $a from \"other\"; type $b = $a;"), ("UnresolvedVar", "import $fa from \"other\"; const $a: u8 = «$fc»;", "import $fa, $fc from \"other\"; const $a: u8 = $fc;"), ("UnresolvedType", "import $fa from \"broken\";", "import $fa from \"other\";"), ("TypeRedefinition", "import $fa from \"other\"; type <$fa> = u8;", "import $fa as $a from \"other\"; type $fa = u8;"), ("ConstRedefinition", "import $fc from \"other\"; const <$fc>: u8 = 1;", "import $fc from \"other\"; const $a: u8 = 1;"),
    ("TransformRedefinition", "import $fa, xadd as <xxor> from \"other\";", "import $fa, xxor, xxor as $a from \"other\";"), ("FunctionRedefinition", "import sum as <len> from \"other\";", "import sum, sum as $a, len from \"other\";"), ("TypeRedefinition", "import $fa from \"other\"; import $fb as <$fa> from \"other\";", "import $fa, $fa from \"other\"; import $fc, $fa from \"other\"; import $fc from \"other\";"),
    ("UnresolvedVar", "import $fc as $a from \"other\"; const $b: u8 = «$fc»;", "import $fc as $a from \"other\"; const $fc: u8 = $a;"), ("UnresolvedTransform", "import xadd as $a from \"other\"; type $b = u8 -> «xadd2»;", "import xadd as $a from \"other\"; type $b = u8 -> $a(1);"),
    ("TypeRedefinition", "import $fa, $fb as <$fa> from \"other\";", "import $fa, $fb as $a from \"other\";"), ("TypeRedefinition", "import $fa as <utf8> from \"other\";", "import $fa as utf9 from \"other\";"), ("ConstRedefinition", "import $fc, $fd as <$fc> from \"other\";", "import $fc, $fd as $a from \"other\"; const $fd: u8 = $a;"),
];
const OTHER: &str = "import_ffi xadd as transform; import_ffi xxor as transform; import_ffi sum as function; type $fa = container { $x1: u8, $x2: $fb }; type $fb = u16le; const $fc: u8 = 4; const $fd: u8 = 5;";

struct Names { map: BTreeMap<String, String> }
fn name(r: &mut Rng) -> String {
    loop {
        let n = 1 + r.below(6);
        let mut s = String::new();
        for i in 0..n { let c = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_0123456789"; s.push(c[r.below(if i == 0 { 53 } else { 63 })] as char); }
        if s != "_" && !syn::KW.contains(&s.as_str()) && !syn::is_scalar(&s) && !["utf8", "utf9", "utf16", "v8", "v16", "v32", "v64", "v128", "boxed32", "triple", "xadd", "xxor", "xrot", "hexy", "sxor", "sadd", "sum", "pad", "bits", "len", "blen", "gzip", "base64", "auto", "tagged_enum", "tagged_enun"].contains(&s.as_str()) { return s; }
    }
}
impl Names {
    fn sub(&mut self, r: &mut Rng, t: &str) -> String {
        let mut o = String::new();
        let mut it = t.char_indices().peekable();
        while let Some((_, c)) = it.next() {
            if c != '$' { o.push(c); continue; }
            let mut k = String::new();
            while let Some((_, c)) = it.peek() { if c.is_ascii_alphanumeric() { k.push(*c); it.next(); } else { break; } }
            if !self.map.contains_key(&k) { loop { let n = name(r); if !self.map.values().any(|x| *x == n) { self.map.insert(k.clone(), n); break; } } }
            o.push_str(&self.map[&k]);
        }
        o
    }
}
/// (kind, what it names, place of what is wrong)
fn kind(e: &ps::AsgError) -> (String, Vec<String>, Option<ps::Span>) { kind_of(e) }
use ps::AsgError;
fn kind_of(e: &AsgError) -> (String, Vec<String>, Option<ps::Span>) {
    use AsgError::*;
    let k = |k: &str, n: &[&String], s: &ps::Span| (k.to_string(), n.iter().map(|s| s.to_string()).collect(), Some(*s));
    match e {
        FfiMissing(n, s) => k("FfiMissing", &[n], s), ImportMissing(n, s) => k("ImportMissing", &[n], s), ImportUnresolved(n, m, s) => k("ImportUnresolved", &[n, m], s), ImportCycle(n, s) => k("ImportCycle", &[n], s), ImportParse(n, s, _) => k("ImportParse", &[n], s), TypeCycle(n, s) => k("TypeCycle", &[n], s),
        TypeRedefinition(n, s, _) => k("TypeRedefinition", &[n], s), TransformRedefinition(n, s, _) => k("TransformRedefinition", &[n], s), FunctionRedefinition(n, s, _) => k("FunctionRedefinition", &[n], s), ConstRedefinition(n, s, _) => k("ConstRedefinition", &[n], s), ConstTypeDefinition(n, s) => k("ConstTypeDefinition", &[n], s), CastTypeDefinition(s) => k("CastTypeDefinition", &[], s),
        EnumDefaultRedefinition(n, s) => k("EnumDefaultRedefinition", &[n], s), EnumVariantRedefinition(n, s) => k("EnumVariantRedefinition", &[n], s), BitfieldFlagRedefinition(n, s, _) => k("BitfieldFlagRedefinition", &[n], s), ContainerFieldRedefinition(n, s, _) => k("ContainerFieldRedefinition", &[n], s),
        UnresolvedType(n, s) => k("UnresolvedType", &[n], s), UnresolvedVar(n, s) => k("UnresolvedVar", &[n], s), UnresolvedTransform(n, s) => k("UnresolvedTransform", &[n], s), UnresolvedFunction(n, s) => k("UnresolvedFunction", &[n], s), UnexpectedType(_, _, s) => k("UnexpectedType", &[], s), IllegalCast(_, _, s) => k("IllegalCast", &[], s),
        ReferencedDefaultEnumVariant(a, b, s) => k("ReferencedDefaultEnumVariant", &[b, a], s), UnresolvedEnumVariant(a, b, s) => k("UnresolvedEnumVariant", &[b, a], s), UnresolvedBitfieldVariant(a, b, s) => k("UnresolvedBitfieldVariant", &[b, a], s), UninferredType(s) => k("UninferredType", &[], s), InvalidInt(n, s) => k("InvalidInt", &[n], s),
        InvalidFFIArgumentCount(a, b, c, s) => k(&format!("InvalidFFIArgumentCount {} {} {}", a, b, c), &[], s), InvalidTypeArgumentCount(a, b, c, s) => k(&format!("InvalidTypeArgumentCount {} {} {}", a, b, c), &[], s), InvalidTypeArgumentOrder(s) => k("InvalidTypeArgumentOrder", &[], s),
        InvalidFlag(n, s) => k("InvalidFlag", &[n], s), InlineRepetition(s) => k("InlineRepetition", &[], s), MustBeToplevel(s) => k("MustBeToplevel", &[], s), EnumContainerFieldAfterUnconditional(s) => k("EnumContainerFieldAfterUnconditional", &[], s), EnumContainerPad(s) => k("EnumContainerPad", &[], s), BitfieldMemberUndefined(n, s) => k("BitfieldMemberUndefined", &[n], s),
        // kinds that a repair of the repository added are told by their text, so that the monitor builds without them
        e => { let t = e.to_string(); let n = t.split('\'').nth(1).unwrap_or("").to_string(); (match () { _ if t.starts_with("enum variant has the value of another") => "EnumValueRedefinition", _ if t.starts_with("value of '") && t.contains("is not a constant") => "InvalidConst", _ if t.starts_with("type argument name already in use") => "TypeArgumentRedefinition", _ => "other" }.to_string(), vec![n], None) }
    }
}
/// (text, culprit, its place)
/// «token» is what the error names and points at, ‹tokens› is what is wrong
fn place(r: &mut Rng, t: &str) -> (String, Option<String>, Option<(usize, usize)>, Option<(usize, usize)>) {
    // tokens with trivia between them; the marks become part of the token they surround
    let marked: String = t.chars().filter(|c| !"«»".contains(*c)).collect();
    let plain: String = marked.chars().filter(|c| !"‹›".contains(*c)).collect();
    let region = marked.find('‹').map(|a| (a, marked.find('›').unwrap() - '‹'.len_utf8()));
    let t: String = t.chars().filter(|c| !"‹›".contains(*c)).collect();
    let at = t.find('«').map(|a| (a, t.find('»').unwrap() - '«'.len_utf8()));
    let toks: Vec<syn::Tok> = syn::lex(&plain).unwrap_or_else(|_| crate::broken(&format!("template: {}", plain)));
    let words: Vec<String> = toks.iter().map(|x| plain[x.start..x.end].to_string()).collect();
    let rk = region.map(|(a, b)| (toks.iter().position(|x| x.start >= a).unwrap(), toks.iter().rposition(|x| x.end <= b).unwrap()));
    let k = at.map(|(a, b)| (toks.iter().position(|x| x.start == a).unwrap(), plain[a..b].to_string()));
    if r.chance(1, 2) {
        let s = syn::spread(r, &words);
        let v: Vec<syn::Tok> = syn::lex(&s).unwrap().into_iter().filter(|t| !matches!(t.t, syn::T::Line(_) | syn::T::Block(_))).collect();
        let rg = rk.map(|(a, b)| (v[a].start, v[b].end));
        match k { Some((k, n)) => { let a = v[k].start; (s, Some(n.clone()), Some((a, a + n.len())), rg) } None => (s, None, None, rg) }
    } else { match k { Some((k, n)) => { let a = toks[k].start; (plain, Some(n.clone()), Some((a, a + n.len())), region) } None => (plain, None, None, region) } }
}
fn check(r: &mut Rng, out: &mut Out, names: &mut Names, what: &str, want: &str, bad: &str, good: &str) {
    let mut files = std::collections::HashMap::new();
    files.insert("other".to_string(), names.sub(r, OTHER));
    files.insert("bad".to_string(), names.sub(r, "type $fa = ;"));
    files.insert("self".to_string(), names.sub(r, "import $fb from \"self\"; type $fa = u8;"));
    files.insert("broken".to_string(), names.sub(r, "type $fa = container { $fb: $zz };"));
    let asg = |t: &str| -> Result<Result<(), AsgError>, String> {
        let ast = match crate::front::guard(|| ps::parse(t)) { Ok(Ok(a)) => a, Ok(Err(e)) => return Err(format!("does not parse: {}", e)), Err(e) => return Err(format!("panic: {}", e)) };
        let rs = ps::PreludeImportResolver(crate::ffi::Resolver { files: files.clone() });
        crate::front::guard(|| ps::asg::Program::from_ast(&ast, &rs).map(|_| ())).map_err(|e| format!("panic: {}", e))
    };
    // <x>: the error names x, somewhere
    let named = bad.find('<').filter(|i| bad[*i + 1..].starts_with(|c: char| c == '$' || c.is_ascii_lowercase()) && bad[*i..].contains('>') && !bad[*i..bad[*i..].find('>').unwrap() + i].contains(' ')).map(|i| { let j = bad[i..].find('>').unwrap() + i; bad[i + 1..j].to_string() });
    let bad = match &named { Some(n) => bad.replacen(&format!("<{}>", n), n, 1), None => bad.to_string() };
    let named = named.map(|n| names.sub(r, &n));
    let env = if r.chance(1, 6) { String::new() } else { crate::fchecks::filler(r) };
    let bad = names.sub(r, &bad);
    let good = names.sub(r, good);
    if !good.is_empty() {
        let t = place(r, &good).0;
        let t = format!("{}{}", t, env);
        out.case(&t);
        match asg(&t) { Ok(Ok(())) => out.count("valid counterparts accepted"), Ok(Err(e)) => out.bad(format!("a valid spec is refused: {} ({})", e, what), t), Err(e) => out.bad(format!("a valid spec: {} ({})", e, what), t) }
    }
    let (t, culprit, at, region) = place(r, &bad);
    let t = format!("{}{}", t, env);
    out.case(&t);
    let e = match asg(&t) { Ok(Err(e)) => e, Ok(Ok(())) => return out.bad(format!("a mistake is accepted: {} ({})", want, what), t), Err(e) => return out.bad(format!("a mistake leads to a {}: {} ({})", e, want, what), t) };
    let (k, n, s) = kind(&e);
    if k != want { return out.bad(format!("a mistake of kind {} is refused as {} ({})", want, e, what), t); }
    out.count(want.split(' ').next().unwrap());
    if let Some(c) = culprit.as_ref().or(named.as_ref()) { let c = c.trim_matches('"'); if !n.is_empty() && n[0] != c.trim_start_matches("0x") { return out.bad(format!("the error does not name {}: {} ({})", c, e, what), t); } }
    if let (Some((a, b)), Some(s)) = (region, s) {
        let (x, y) = (syn::pos(&t, a), syn::pos(&t, b));
        out.count("places overlapping what is wrong");
        // types are declared in another order than they are written: either of two may be the one at fault
        if k == "TypeRedefinition" {} else if (s.line_stop, s.col_stop) <= x || (s.line_start, s.col_start) >= y { return out.bad(format!("the error at {} lies outside what is wrong, {:?} to {:?}: {} ({})", s, x, y, e, what), t); }
    }
    if let (Some((a, b)), Some(s)) = (at, s) {
        let (x, y) = (syn::pos(&t, a), syn::pos(&t, b));
        out.count("places compared");
        // a literal's place includes its suffix
        if (s.line_start, s.col_start) != x || (k != "InvalidInt" && (s.line_stop, s.col_stop) != y) { return out.bad(format!("the error is at {:?} to {:?}, not {}:{} to {}:{} ({})", x, y, s.line_start, s.col_start, s.line_stop, s.col_stop, what), t); }
    }
}
pub fn mistakes(r: &mut Rng, i: u64, out: &mut Out) {
    let mut names = Names { map: BTreeMap::new() };
    let Some((what, want, bad, good)) = planted(r, i, out) else { return };
    check(r, out, &mut names, &what, &want, &bad, &good)
}
/// a text with one mistake, or none
pub fn one(r: &mut Rng) -> Option<String> {
    let mut names = Names { map: BTreeMap::new() };
    let i = r.next() % 100_000;
    let (_, _, bad, good) = planted(r, i, &mut Out::default())?;
    let t = if !good.is_empty() && r.chance(1, 2) { good } else { bad };
    let t = names.sub(r, &t);
    Some(t.chars().filter(|c| !"\u{ab}\u{bb}\u{2039}\u{203a}".contains(*c)).collect())
}
fn planted(r: &mut Rng, i: u64, out: &mut Out) -> Option<(String, String, String, String)> {
    let head = crate::catalog::header();
    if i % 3 == 0 {
        let (want, bad, good) = if (i / 3) < DECLS.len() as u64 { DECLS[(i / 3) as usize] } else { *r.pick(DECLS) };
        let front = r.chance(1, 2) && !bad.contains("$K") && !good.contains("$K");
        let f = |d: &str| if d.is_empty() { String::new() } else if front { format!("{}{}\n{}", head, d, ENV) } else if d.contains("import") { format!("{}{}\n{}", head, ENV, d) } else { format!("{}{}\n‹{}›", head, ENV, d) };
        let (bad, good) = (f(bad), f(good));
        return Some(("declaration".into(), want.into(), bad, good));
    }
    for _ in 0..100 {
        let (ctx, h, fields, later, top) = if r.chance(1, 3) { let c = *r.pick(TOP); (c.0, c.1, false, true, true) } else { let c = *r.pick(CONTEXTS); (c.0, c.1, c.2, c.3, false) };
        let typed = r.chance(2, 5);
        // a field that is declared later
        let (want, at, m): (&str, &'static str, String) = if !later && r.chance(1, 10) { let k = r.below(6); ("UnresolvedVar", HOLES[k], format!("«{}»", ["$la8", "$la64", "$lai", "$lab", "$laE", "$laf"][k])) }
            else if typed { let x = *r.pick(TYPED); if x.1 && !fields { continue; } ("UnexpectedType", x.0, x.2.to_string()) }
            else { let x = *r.pick(ABSOLUTE); if x.2 && !fields { continue; } let at = if x.1 == "*" { *r.pick(HOLES) } else { HOLES.iter().find(|h| **h == *r.pick(&x.1.split(' ').collect::<Vec<_>>())).copied().unwrap_or("u8") }; if x.1 != "*" && !x.1.split(' ').any(|y| y == at) { continue; } let l = leaf(r, at, fields); (x.0, at, x.3.replace('@', l)) };
        let w = match wrap(r, at, h, fields, typed || m == "$ab[0]" || m.contains('?')) { Some(w) => w, None => continue };
        let ok = leaf(r, at, fields);
        let mk = |e: &str| { let c = ctx.replace('@', e); if top { format!("{}{}\n{}", head, ENV, c) } else { format!("{}{}\ntype $T($ta: u8, $te: $E, $tb: bool) = container {{ {} {} {} }};", head, ENV, FIELDS, c, LATER) } };
        let (bad, good) = (mk(&w.replace('@', &format!("‹{}›", m))), mk(&w.replace('@', ok)));
        if i < 24 { out.sample = Some(format!("{} in {}", m, ctx.replace('@', &w))); }
        return Some((format!("{} in {}", m, ctx.replace('@', &w)), want.into(), bad, good));
    }
    None
}
