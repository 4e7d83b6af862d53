//! C10: numbers in JSON and RON.
use crate::common::*;
use vh::big::*;
use vh::gen::*;
use vh::model::*;
use vh::mon::*;
use vh::ops::*;
use vh::rng::*;
use std::collections::*;

/// Where a number can stand.
struct Place {
    t: TypeOps,
    json: Option<(&'static str, &'static str)>,
    ron: Option<(&'static str, &'static str)>,
    wrap: fn(Val) -> Val,
    unwrap: fn(&Val) -> Option<Val>,
}
fn first(v: &Val, i: usize) -> Option<Val> {
    match v {
        Val::Seq(x) | Val::Struct(x) => x.get(i).cloned(),
        Val::Opt(Some(x)) => Some((**x).clone()),
        Val::Map(x) => x.first().map(|e| if i == 0 { e.0.clone() } else { e.1.clone() }),
        _ => None,
    }
}
#[cfg(feature = "gen")]
#[derive(Clone, Debug, PartialEq, nanoserde::DeJson, nanoserde::SerJson, nanoserde::DeRon, nanoserde::SerRon)]
struct InStruct<T> {
    x: T,
    y: Option<T>,
}
#[cfg(feature = "gen")]
impl<T: Model> Model for InStruct<T> {
    fn ty() -> Ty {
        // only the numbers in it are looked at
        Ty::Tup(vec![T::ty(), Ty::Opt(arc(&T::ty()))])
    }
    fn from_val(v: &Val) -> Self {
        match v {
            Val::Struct(x) => InStruct { x: T::from_val(&x[0]), y: Model::from_val(&x[1]) },
            v => bad(v),
        }
    }
    fn to_val(&self) -> Val {
        Val::Struct(vec![self.x.to_val(), self.y.to_val()])
    }
}
#[cfg(feature = "gen")]
#[derive(Clone, Debug, PartialEq, nanoserde::DeJson, nanoserde::SerJson, nanoserde::DeRon, nanoserde::SerRon)]
enum InEnum<T> {
    V(T, T),
    W { f: T },
}
#[cfg(feature = "gen")]
impl<T: Model> Model for InEnum<T> {
    fn ty() -> Ty {
        Ty::Tup(vec![T::ty(), T::ty()])
    }
    fn from_val(v: &Val) -> Self {
        match v {
            Val::Enum(0, x) => InEnum::V(T::from_val(&x[0]), T::from_val(&x[1])),
            Val::Enum(1, x) => InEnum::W { f: T::from_val(&x[0]) },
            v => bad(v),
        }
    }
    fn to_val(&self) -> Val {
        match self {
            InEnum::V(a, b) => Val::Seq(vec![a.to_val(), b.to_val()]),
            InEnum::W { f } => Val::Seq(vec![f.to_val()]),
        }
    }
}
fn some(v: Val) -> Val {
    Val::Opt(Some(Box::new(v)))
}
fn places<T: Model + Clone + Sync + nanoserde::SerJson + nanoserde::DeJson + nanoserde::SerRon + nanoserde::DeRon>(name: &'static str) -> Vec<Place> {
    let mk = |n: &str, ty: Ty, json: Option<TextOps>, ron: Option<TextOps>| TypeOps { name: Box::leak(n.replace("BTreeMap", "{map}").replace('T', name).replace("{map}", "BTreeMap").into_boxed_str()), ty, bin: None, json, ron, writers: vec![], readers: vec![] };
    macro_rules! place {
        ($n:expr, $t:ty, $j:expr, $r:expr, $w:expr, $u:expr) => {
            Place { t: mk($n, <$t as Model>::ty(), Some(json::ops::<$t>()), Some(ron::ops::<$t>())), json: $j, ron: $r, wrap: $w, unwrap: $u }
        };
    }
    #[allow(unused_mut)]
    let mut v = vec![
        place!("T", T, Some(("", "")), Some(("", "")), |v| v, |v| Some(v.clone())),
        place!("Vec<T>", Vec<T>, Some(("[", "]")), Some(("[", "]")), |v| Val::Seq(vec![v]), |v| first(v, 0)),
        place!("Vec<T>", Vec<T>, Some(("[0,", ", 1 ]")), Some(("[0,", ",1 , ]")), |v| Val::Seq(vec![v.clone(), v]), |v| first(v, 1)),
        place!("[T; 2]", [T; 2], Some(("[1,", "]")), Some(("(1,", ")")), |v| Val::Seq(vec![v.clone(), v]), |v| first(v, 1)),
        place!("(T, T)", (T, T), Some(("[", ",9]")), Some(("(", ",9)")), |v| Val::Seq(vec![v.clone(), v]), |v| first(v, 0)),
        place!("Option<T>", Option<T>, Some(("", "")), Some(("", "")), some, |v| first(v, 0)),
        place!("LinkedList<T>", LinkedList<T>, Some(("[", "]")), Some(("[", "]")), |v| Val::Seq(vec![v]), |v| first(v, 0)),
        place!("BTreeMap<String, T>", BTreeMap<String, T>, Some(("{\"1\":", "}")), Some(("{\"2\":", "}")), |v| Val::Map(vec![(Val::Str("k".into()), v)]), |v| first(v, 1)),
    ];
    #[cfg(feature = "gen")]
    v.extend([
        place!("struct with T", InStruct<T>, Some(("{\"x\":", "}")), Some(("(x:", ")")), |v| Val::Struct(vec![v, Val::Opt(None)]), |v| first(v, 0)),
        place!("struct with Option<T>", InStruct<T>, Some(("{\"y\":", ",\"x\":3}")), Some(("(y:", ",x:3)")), |v| Val::Struct(vec![v.clone(), some(v)]), |v| match first(v, 1) {
            Some(o) => first(&o, 0),
            None => None,
        }),
        place!("enum with T", InEnum<T>, Some(("{\"V\":[1,", "]}")), Some(("V(1,", ")")), |v| Val::Enum(0, vec![v.clone(), v]), |v| first(v, 1)),
        place!("enum with f: T", InEnum<T>, Some(("{\"W\":{\"f\":", "}}")), Some(("W(f:", ")")), |v| Val::Enum(1, vec![v]), |v| first(v, 0)),
        place!("unknown before T", InStruct<T>, Some(("{\"z\":[-1.5e3, 7],\"x\":", "}")), None, |v| Val::Struct(vec![v, Val::Opt(None)]), |v| first(v, 0)),
    ]);
    v
}
fn key_place<T: Model + Ord + Clone + Sync + nanoserde::SerRon + nanoserde::DeRon>(name: &'static str) -> Place {
    let t = TypeOps { name: Box::leak(format!("BTreeMap<{name}, bool>").into_boxed_str()), ty: <BTreeMap<T, bool> as Model>::ty(), bin: None, json: None, ron: Some(ron::ops::<BTreeMap<T, bool>>()), writers: vec![], readers: vec![] };
    Place { t, json: None, ron: Some(("{", ":true}")), wrap: |v| Val::Map(vec![(v, Val::Bool(true))]), unwrap: |v| first(v, 0) }
}
struct Kind {
    ty: Ty,
    lo: i128,
    hi: i128,
    places: Vec<Place>,
}
fn kinds() -> Vec<Kind> {
    macro_rules! int {
        ($($t:ident $v:ident)*) => { vec![$( {
            let mut places = places::<$t>(stringify!($t));
            places.push(key_place::<$t>(stringify!($t)));
            Kind { ty: Ty::$v, lo: $t::MIN as i128, hi: $t::MAX as i128, places }
        } ),*] };
    }
    let mut v = int!(u8 U8 u16 U16 u32 U32 u64 U64 usize Usize i8 I8 i16 I16 i32 I32 i64 I64);
    v.push(Kind { ty: Ty::F32, lo: 0, hi: 0, places: places::<f32>("f32") });
    v.push(Kind { ty: Ty::F64, lo: 0, hi: 0, places: places::<f64>("f64") });
    v
}
fn blank(r: &mut Rng) -> &'static str {
    *r.pick(&["", "", "", " ", "\n", "\t", "\r\n", "/**/", "/* 1 */", "//2\n"])
}
fn digits(r: &mut Rng, n: usize) -> String {
    (0..n).map(|i| (b'0' + if i == 0 { 1 + r.below(9) } else { r.below(10) } as u8) as char).collect()
}
/// Decimal digits of a magnitude near something that matters to an integer type.
fn magnitude(r: &mut Rng, k: &Kind) -> String {
    match r.below(10) {
        0..=2 => {
            // around a power of two
            let p = *r.pick(&[7u32, 8, 15, 16, 31, 32, 53, 63, 64, 64, 65, 127]);
            let b = 1u128 << p;
            let d = r.below(4) as u128;
            (if r.bool() { b - d } else { b + d }).to_string()
        }
        3 | 4 => {
            let b = if r.bool() { k.hi } else { k.lo }.unsigned_abs();
            let d = r.below(3) as u128;
            (if r.bool() { b.saturating_sub(d) } else { b + d }).to_string()
        }
        5 => {
            // a limit with one digit changed, added or doubled
            let mut s = k.hi.to_string().into_bytes();
            match r.below(3) {
                0 => {
                    let i = r.below(s.len());
                    s[i] = b'0' + if i == 0 { 1 + r.below(9) } else { r.below(10) } as u8;
                }
                1 => s.push(b'0' + r.below(10) as u8),
                _ => s.extend_from_slice(&s.clone()),
            }
            String::from_utf8(s).unwrap()
        }
        6 => {
            let e = r.below(42) as u32;
            let mut b = Big::from_u64(1);
            b.pow10(e);
            let s = b.to_decimal();
            if r.bool() {
                s
            } else {
                "9".repeat(s.len())
            }
        }
        7 => {
            let n = r.range(1, 45);
            digits(r, n)
        }
        8 => {
            let mut b = k.hi.unsigned_abs();
            b >>= r.below(64);
            (b / (1 + r.below(10) as u128)).to_string()
        }
        _ => r.below(300).to_string(),
    }
}
fn integers(f: Fmt, ks: &[Kind]) {
    let ks: Vec<&Kind> = ks.iter().filter(|k| k.hi != 0).collect();
    let n = per(120_000, 6_000_000);
    let split = 8;
    let seed = run().seed;
    parallel(ks.len() * split, |c, i| {
        let k = ks[i % ks.len()];
        let mut rr = Rng::stream(seed, &format!("C10/int/{f:?}/{i}"), 0, 0);
        let r = &mut rr;
        for _ in 0..n / split {
            if c.stop() || run().left() < 0.0 {
                break;
            }
            let p = r.pick(&k.places);
            let Some((pre, post)) = (if f == Fmt::Json { p.json } else { p.ron }) else { continue };
            let mag = magnitude(r, k);
            let neg = r.chance(2, 5);
            // forms beyond plain decimals: they may be rejected in JSON, never misread
            let mut odd = false;
            let mut lit = mag.clone();
            if r.chance(1, 12) {
                lit = format!("{}{lit}", "0".repeat(1 + r.below(25)));
                odd = true;
            }
            if neg {
                lit.insert(0, '-');
                if mag == "0" {
                    odd = true;
                }
            } else if r.chance(1, 15) {
                lit.insert(0, '+');
                odd = true;
            }
            let text = format!("{pre}{}{lit}{}{post}", blank(r), blank(r));
            let want = match mag.parse::<i128>() {
                Ok(m) => {
                    let m = if neg { -m } else { m };
                    (m >= k.lo && m <= k.hi).then(|| if k.lo == 0 { Val::U(m as u128) } else { Val::I(m) })
                }
                Err(_) => None,
            };
            let x = text_of(&p.t, f);
            let Some(got) = op(c, &p.t, "deserialize", text.as_bytes(), || (x.de)(&text)) else { return };
            c.eval(key(&p.t, text.as_bytes()) ^ f as u64, true);
            c.count(match (&want, got.is_ok()) {
                (Some(_), true) => "integers that fit and were read",
                (None, false) => "integers that do not fit and were rejected",
                _ => "integers in an unusual form, rejected",
            });
            let show_want = want.as_ref().map(show);
            let ok = match (&got, &want) {
                (Ok(g), Some(w)) => (p.unwrap)(g).as_ref() == Some(w),
                (Ok(_), None) => false,
                (Err(_), None) => true,
                (Err(_), Some(_)) => odd && (f == Fmt::Json || mag == "0"),
            };
            c.sample(p.t.name, || format!("{} {f:?} {text:?} -> {got:?}", p.t.name));
            if !ok {
                c.violation("integer", format!("{f:?}, type {}: {text:?}: the integer {lit} reads as {got:?}; in the type it is {show_want:?}", p.t.name));
                return;
            }
        }
    });
}
/// A decimal literal: text, digits, exponent of ten.
struct Lit {
    text: String,
    neg: bool,
    digits: String,
    e10: i64,
}
fn spell(r: &mut Rng, digits: &str, e10: i64, f: Fmt) -> Lit {
    let neg = r.chance(1, 3);
    // the point goes after the first `p` digits
    let mut d = digits.to_string();
    let mut e = e10;
    if r.chance(1, 8) {
        let z = r.below(30);
        d.push_str(&"0".repeat(z));
        e -= z as i64;
    }
    let len = d.len() as i64;
    let mut p = match r.below(4) {
        0 => len,
        1 => 1,
        2 if e > -60 && e <= 0 => (len + e).max(0),
        _ => r.below(d.len() + 1) as i64,
    };
    if p == 0 {
        d.insert(0, '0');
        p = 1;
    }
    let len = d.len() as i64;
    let mut exp = e + (len - p);
    if e > 0 && e < 40 && r.chance(1, 3) && p == len {
        d.push_str(&"0".repeat(e as usize));
        p += e;
        exp = 0;
    }
    let (a, b) = d.split_at(p as usize);
    let mut a = a.trim_start_matches('0').to_string();
    if a.is_empty() {
        a.push('0');
    }
    let mut text = String::new();
    if neg {
        text.push('-');
    } else if f == Fmt::Ron && r.chance(1, 20) {
        text.push('+');
    }
    let bare_point = f == Fmt::Ron && r.chance(1, 10);
    if !(bare_point && a == "0" && !b.is_empty()) {
        text.push_str(&a);
    }
    if !b.is_empty() {
        text.push('.');
        text.push_str(b);
    } else if bare_point {
        text.push('.');
    } else if r.chance(1, 6) {
        text.push_str(".0");
    }
    if exp != 0 || r.chance(1, 10) {
        text.push(*r.pick(&['e', 'E']));
        if exp < 0 {
            text.push('-');
        } else if r.chance(1, 3) {
            text.push('+');
        }
        text.push_str(&"0".repeat(if r.chance(1, 10) { r.below(4) } else { 0 }));
        text.push_str(&exp.abs().to_string());
    }
    Lit { text, neg, digits: digits.to_string(), e10 }
}
fn float_literal(r: &mut Rng, ff: FloatFmt, f: Fmt) -> Lit {
    let bits = if ff.mant == 52 { gen_f64(r, true) } else { gen_f32(r, true) as u64 } & (ff.sign() - 1);
    match r.below(12) {
        0..=2 => {
            // exactly half way, or a hair to one side
            let b = match r.below(8) {
                0 => r.below(5) as u64,
                1 => ff.inf() - 1 - r.below(3) as u64,
                2 => (1u64 << ff.mant) - 2 + r.below(4) as u64,
                3 => ((bits >> ff.mant) << ff.mant).wrapping_sub(r.below(2) as u64) & (ff.sign() - 1),
                _ => bits,
            };
            let b = b.min(ff.inf() - 1);
            let (mut d, e) = ff.middle(b);
            let mut e = e;
            match r.below(4) {
                0 => {
                    d.push('1');
                    e -= 1;
                }
                1 => {
                    let n = Big::from_decimal(&d);
                    let mut s = n.to_decimal().into_bytes();
                    // one less in the last place: midpoints are odd in binary, so never ...0 unless scaled by ten
                    let mut i = s.len() - 1;
                    loop {
                        if s[i] > b'0' {
                            s[i] -= 1;
                            break;
                        }
                        s[i] = b'9';
                        if i == 0 {
                            break;
                        }
                        i -= 1;
                    }
                    d = String::from_utf8(s).unwrap();
                }
                _ => {}
            }
            spell(r, &d, e, f)
        }
        3 | 4 => {
            // the shortest text of a float
            let s = if ff.mant == 52 { format!("{:e}", f64::from_bits(bits)) } else { format!("{:e}", f32::from_bits(bits as u32)) };
            let (d, e) = s.split_once('e').unwrap();
            let frac = d.split_once('.').map(|x| x.1.len()).unwrap_or(0);
            spell(r, &d.replace('.', ""), e.parse::<i64>().unwrap() - frac as i64, f)
        }
        5 => {
            // large integers
            let n = r.range(1, 40);
            let d = digits(r, n);
            spell(r, &d, 0, f)
        }
        6 => {
            let d = (*r.pick(&[1u128 << 24, 1 << 53, 1 << 54, 1 << 63, 1 << 64, 1 << 65, u64::MAX as u128, i64::MAX as u128, (1 << 53) + 1, (1 << 24) + 1, (1 << 60) + 64, (1 << 63) + 1024, (1 << 63) + 1025, (1 << 64) + 2048]))
                .wrapping_add(r.below(5) as u128);
            spell(r, &d.to_string(), 0, f)
        }
        7 => {
            let z = r.below(4);
            let e = r.below(50) as i64 - 25;
            spell(r, &"0".repeat(1 + z), e, f)
        }
        8 => {
            let n = r.range(1, 20);
            let d = digits(r, n);
            let e = *r.pick(&[-500i64, -400, -346, -345, -330, -324, -323, -308, -60, -46, -45, -38, 30, 38, 39, 292, 308, 309, 340, 500]);
            spell(r, &d, e, f)
        }
        _ => {
            let n = r.range(1, 25);
            let d = digits(r, n);
            let e = r.below(80) as i64 - 60;
            spell(r, &d, e, f)
        }
    }
}
fn floats(f: Fmt, ks: &[Kind]) {
    let ks: Vec<&Kind> = ks.iter().filter(|k| k.hi == 0).collect();
    let n = per(400_000, 20_000_000);
    let split = 32;
    let seed = run().seed;
    parallel(ks.len() * split, |c, i| {
        let k = ks[i % ks.len()];
        let ff = if matches!(k.ty, Ty::F64) { F64 } else { F32 };
        let mut rr = Rng::stream(seed, &format!("C10/float/{f:?}/{i}"), 0, 0);
        let r = &mut rr;
        for _ in 0..n / split {
            if c.stop() || run().left() < 0.0 {
                break;
            }
            let p = r.pick(&k.places);
            let Some((pre, post)) = (if f == Fmt::Json { p.json } else { p.ron }) else { continue };
            let l = float_literal(r, ff, f);
            let text = format!("{pre}{}{}{}{post}", blank(r), l.text, blank(r));
            let x = text_of(&p.t, f);
            let Some(got) = op(c, &p.t, "deserialize", text.as_bytes(), || (x.de)(&text)) else { return };
            c.eval(key(&p.t, text.as_bytes()) ^ f as u64, true);
            let digits = Big::from_decimal(&l.digits);
            let verdict = match &got {
                Ok(g) => {
                    let bits = match (p.unwrap)(g) {
                        Some(Val::F32(b)) => b as u64,
                        Some(Val::F64(b)) => b,
                        other => {
                            c.violation("float", format!("{f:?}, type {}: {text:?} reads as {other:?}", p.t.name));
                            return;
                        }
                    };
                    let neg = bits & ff.sign() != 0;
                    let mag = bits & (ff.sign() - 1);
                    if mag == ff.inf() {
                        c.count("floats beyond the range, read as infinite");
                    }
                    if l.digits.len() > 17 {
                        c.count("floats of more than 17 digits");
                    }
                    // sign: the literal's, a zero's included
                    neg == l.neg && ff.nearest(mag, &digits, l.e10)
                }
                // beyond the range
                Err(_) => {
                    c.count("floats rejected");
                    ff.nearest(ff.inf(), &digits, l.e10)
                }
            };
            c.sample(p.t.name, || format!("{} {f:?} {} -> {got:?}", p.t.name, clip(&text, 200)));
            if !verdict {
                c.violation("float", format!("{f:?}, type {}: {text:?} reads as {got:?}, not the nearest float to {}", p.t.name, l.text));
                return;
            }
        }
    });
}
/// Every float is written so that it reads back, and what is written denotes it.
fn written(f: Fmt, ks: &[Kind]) {
    let ks: Vec<&Kind> = ks.iter().filter(|k| k.hi == 0).collect();
    let n = per(400_000, 30_000_000);
    let split = 32;
    let seed = run().seed;
    parallel(ks.len() * split, |c, i| {
        let k = ks[i % ks.len()];
        let mut rr = Rng::stream(seed, &format!("C10/write/{f:?}/{i}"), 0, 0);
        let r = &mut rr;
        for j in 0..n / split {
            if c.stop() || run().left() < 0.0 {
                break;
            }
            let p = r.pick(&k.places);
            if (if f == Fmt::Json { p.json } else { p.ron }).is_none() {
                continue;
            }
            let v = if matches!(k.ty, Ty::F64) {
                Val::F64(gen_f64(r, true))
            } else {
                // a stride through all of them, and random ones
                let b = if r.bool() { ((i / ks.len() * (n / split) + j) as u64).wrapping_mul(0x9e37_79b1) as u32 } else { gen_f32(r, true) };
                if !f32::from_bits(b).is_finite() {
                    continue;
                }
                Val::F32(b)
            };
            let w = (p.wrap)(v.clone());
            let x = text_of(&p.t, f);
            let Some((_, text)) = op(c, &p.t, &format!("serialize {}", show(&w)), &[], || (x.ser)(&w)) else { return };
            let Some(got) = op(c, &p.t, "deserialize", text.as_bytes(), || (x.de)(&text)) else { return };
            c.eval(key(&p.t, text.as_bytes()) ^ f as u64 ^ 77, true);
            c.count("floats written and read back");
            let back = got.as_ref().ok().and_then(|g| (p.unwrap)(g));
            if back.as_ref() != Some(&v) {
                c.violation("float written", format!("{f:?}, type {}: {} is written {text:?}, which reads as {got:?}", p.t.name, show(&w)));
                return;
            }
            if p.t.name.len() == 3 {
                // the text itself denotes it, read by std's parser
                let same = match &v {
                    Val::F32(b) => text.trim().parse::<f32>().map(|y| y.to_bits() == *b),
                    Val::F64(b) => text.trim().parse::<f64>().map(|y| y.to_bits() == *b),
                    _ => unreachable!(),
                };
                if same != Ok(true) {
                    c.violation("float written", format!("{f:?}, type {}: {} is written {text:?}", p.t.name, show(&w)));
                    return;
                }
            }
        }
    });
}
pub fn c10() {
    let ks = kinds();
    for f in [Fmt::Json, Fmt::Ron] {
        integers(f, &ks);
        floats(f, &ks);
        written(f, &ks);
    }
    finish(
        "integers around every power of two and limit, in 15 places of a document, against exact big-integer comparison; decimal literals (half-way points between adjacent floats included) against exact big-integer rounding; random and strided floats written and read back; distinct by type, format and text",
        1_000_000,
    );
}
