//! Random values of a type.
use crate::model::*;
use crate::rng::Rng;
use std::sync::Arc;

#[derive(Clone, Copy)]
pub struct GenOpts {
    /// only finite floats
    pub finite: bool,
    /// allow times before the epoch
    pub pre_epoch: bool,
    /// allow the occasional large collection or string
    pub big: bool,
}
pub const ANY: GenOpts = GenOpts { finite: false, pre_epoch: true, big: true };
pub const TEXT: GenOpts = GenOpts { finite: true, pre_epoch: true, big: true };
pub const SMALL: GenOpts = GenOpts { finite: true, pre_epoch: true, big: false };
pub const SMALL_ANY: GenOpts = GenOpts { finite: false, pre_epoch: true, big: false };

pub struct Gen<'a> {
    pub r: &'a mut Rng,
    pub o: GenOpts,
    /// how many more elements may be made
    pub budget: usize,
}

pub fn gen(r: &mut Rng, t: &Ty, o: GenOpts) -> Val {
    let fuel = 1 + r.below(6);
    let mut g = Gen { r, o, budget: 400 };
    g.val(t, fuel)
}

const SPECIAL: &[&str] = &[
    "", " ", "null", "true", "None", "Some", "\"", "\\", "\\\\", "\\\"", "//", "/*", "*/", "/* x */", "// x\n", "\\u0041", "\\n",
    "{}", "[]", "()", "[1,2]", "{\"a\":1}", ",", ":", "=", "#", "\0", "\u{7f}", "\u{80}", "\u{feff}", "\u{2028}\u{2029}",
    "\u{d7ff}", "\u{e000}", "\u{fffd}", "\u{ffff}", "\u{10000}", "\u{10ffff}", "e\u{301}", "\t", "\r\n", "\n", "\r", "\u{8}", "\u{c}",
    "\u{1b}", "\u{1f}", "a\0b", "'", "''", "end\\", "-", "1", "1.5", "tab\tquote\"slash/back\\nl\n", "日本語", "😀", "ß→ß",
];

pub fn gen_char(r: &mut Rng) -> char {
    match r.below(12) {
        0..=3 => (b'a' + r.below(26) as u8) as char,
        4 => *r.pick(&['"', '\\', '/', '\'', '{', '}', '[', ']', '(', ')', ',', ':', '#', '=', '*', ' ', '.', '-', '+', '_', 'u', 'x', '0', 'n']),
        5 => char::from_u32(r.below(0x20) as u32).unwrap(),
        6 => *r.pick(&['\n', '\t', '\r', '\0', '\u{8}', '\u{c}', '\u{7f}', '\u{b}', '\u{a0}', '\u{85}']),
        7 => char::from_u32(0x20 + r.below(0x60) as u32).unwrap(),
        8 => char::from_u32(0x80 + r.below(0x780) as u32).unwrap(),
        9 => *r.pick(&['\u{d7ff}', '\u{e000}', '\u{ffff}', '\u{fffe}', '\u{2028}', '\u{feff}', '\u{10000}', '\u{10ffff}', '\u{1f600}', '\u{800}', '\u{7ff}', '\u{fffd}']),
        10 => loop {
            if let Some(c) = char::from_u32(0x800 + r.below(0xf800) as u32) {
                break c;
            }
        },
        _ => char::from_u32(0x10000 + r.below(0x100000) as u32).unwrap(),
    }
}
pub fn gen_str(r: &mut Rng, big: bool) -> String {
    if r.chance(1, 4) {
        return r.pick(SPECIAL).to_string();
    }
    let n = if big && r.chance(1, 60) {
        *r.pick(&[63, 64, 127, 128, 255, 256, 257, 1000, 4097])
    } else {
        match r.below(5) {
            0 => r.below(3),
            1..=3 => r.below(12),
            _ => r.below(40),
        }
    };
    let plain = r.chance(1, 3);
    let mut s = String::new();
    for _ in 0..n {
        if plain {
            s.push((b' ' + r.below(95) as u8) as char);
        } else {
            s.push(gen_char(r));
        }
    }
    s
}
/// An unsigned number below 2^bits.
pub fn gen_uint(r: &mut Rng, bits: u32) -> u128 {
    let max = if bits == 128 { u128::MAX } else { (1u128 << bits) - 1 };
    let v = match r.below(10) {
        0 => 0,
        1 => 1 + r.below(9) as u128,
        2 => max,
        3 => max - r.below(3) as u128,
        4 => {
            let k = r.below(bits as usize) as u32;
            let b = 1u128 << k;
            match r.below(3) {
                0 => b,
                1 => b - 1,
                _ => b.wrapping_add(1),
            }
        }
        5 => {
            let k = r.below(39) as u32;
            let b = 10u128.checked_pow(k).unwrap_or(1);
            match r.below(3) {
                0 => b,
                1 => b - 1,
                _ => b + 1,
            }
        }
        6 => (max >> 1).wrapping_add(r.below(3) as u128),
        _ => {
            let k = 1 + r.below(bits as usize) as u32;
            r.u128() >> (128 - k)
        }
    };
    v & max
}
pub fn gen_int(r: &mut Rng, bits: u32) -> i128 {
    let u = gen_uint(r, bits);
    // reinterpret the low bits
    let sh = 128 - bits;
    ((u << sh) as i128) >> sh
}
pub fn gen_f64(r: &mut Rng, finite: bool) -> u64 {
    let f = match r.below(14) {
        0 => *r.pick(&[0.0, -0.0, 1.0, -1.0, 0.1, 0.2, 0.3, 1.0 / 3.0, 100.0, 1e21, 1e22, 1e23, 1e-7, 123456789.123456789]),
        1 => *r.pick(&[f64::MIN_POSITIVE, f64::MAX, f64::MIN, f64::EPSILON, 5e-324, -5e-324, 2.2250738585072011e-308, 9007199254740992.0, 9007199254740993.0, 4503599627370496.5]),
        2 => r.below(2000) as f64 - 1000.0,
        3 => (r.below(2_000_000) as f64 - 1e6) / 10f64.powi(r.below(8) as i32),
        4 => (r.u64() >> r.below(64)) as f64,
        5 => 10f64.powi(r.below(617) as i32 - 308),
        6 => 2f64.powi(r.below(2046) as i32 - 1022),
        7 => f64::from_bits(2f64.powi(r.below(120) as i32 - 60).to_bits().wrapping_add(r.below(5) as u64).wrapping_sub(2)),
        8 => f64::from_bits(r.u64() >> 12),
        9 if !finite => *r.pick(&[f64::INFINITY, f64::NEG_INFINITY, f64::NAN, -f64::NAN, f64::from_bits(0x7ff0_0000_0000_0001), f64::from_bits(0xfff8_dead_beef_0001)]),
        10 => f32::from_bits(r.u64() as u32) as f64,
        _ => f64::from_bits(r.u64()),
    };
    if finite && !f.is_finite() {
        return 1.5f64.to_bits();
    }
    f.to_bits()
}
pub fn gen_f32(r: &mut Rng, finite: bool) -> u32 {
    let f = match r.below(12) {
        0 => *r.pick(&[0.0, -0.0, 1.0, -1.0, 0.1, 0.2, 0.3, 1.0 / 3.0, 16777216.0, 16777217.0, 8388608.5, 1e-45]),
        1 => *r.pick(&[f32::MIN_POSITIVE, f32::MAX, f32::MIN, f32::EPSILON, 1.1754942e-38, 3.4028234e38, 0.0010000001, 1e10, 1e16, 1e-5]),
        2 => r.below(2000) as f32 - 1000.0,
        3 => (r.below(2_000_000) as f32 - 1e6) / 10f32.powi(r.below(8) as i32),
        4 => (r.u64() >> r.below(64)) as f32,
        5 => 10f32.powi(r.below(77) as i32 - 38),
        6 => f32::from_bits(2f32.powi(r.below(120) as i32 - 60).to_bits().wrapping_add(r.below(5) as u32).wrapping_sub(2)),
        7 => f32::from_bits(r.u64() as u32 >> 9),
        8 if !finite => *r.pick(&[f32::INFINITY, f32::NEG_INFINITY, f32::NAN, -f32::NAN, f32::from_bits(0x7f80_0001), f32::from_bits(0xffc0_beef)]),
        _ => f32::from_bits(r.u64() as u32),
    };
    if finite && !f.is_finite() {
        return 1.5f32.to_bits();
    }
    f.to_bits()
}

/// The type can reach the named type again.
fn reaches(t: &Ty, name: &'static str) -> bool {
    any_ty(t, &mut |t, _| matches!(t, Ty::Named(n, _) if *n == name))
}

impl<'a> Gen<'a> {
    pub fn len(&mut self, elem: &Ty, fuel: usize) -> usize {
        if fuel == 0 || self.budget == 0 {
            return 0;
        }
        let simple = matches!(elem, Ty::U8 | Ty::I8 | Ty::U16 | Ty::Bool | Ty::U32 | Ty::Unit | Ty::F32);
        let n = if self.o.big && simple && self.r.chance(1, 80) {
            *self.r.pick(&[127, 128, 255, 256, 257, 300])
        } else {
            match self.r.below(8) {
                0 => 0,
                1..=2 => 1,
                3..=5 => 2 + self.r.below(2),
                6 => 4 + self.r.below(5),
                _ => {
                    if fuel > 2 {
                        2
                    } else {
                        9 + self.r.below(24)
                    }
                }
            }
        };
        n.min(self.budget)
    }
    fn seq(&mut self, t: &Ty, n: usize, fuel: usize) -> Vec<Val> {
        self.budget = self.budget.saturating_sub(n);
        (0..n).map(|_| self.val(t, fuel.saturating_sub(1))).collect()
    }
    pub fn val(&mut self, t: &Ty, fuel: usize) -> Val {
        match t {
            Ty::U8 => Val::U(gen_uint(self.r, 8)),
            Ty::U16 => Val::U(gen_uint(self.r, 16)),
            Ty::U32 => Val::U(gen_uint(self.r, 32)),
            Ty::U64 | Ty::Usize => Val::U(gen_uint(self.r, 64)),
            Ty::U128 => Val::U(gen_uint(self.r, 128)),
            Ty::I8 => Val::I(gen_int(self.r, 8)),
            Ty::I16 => Val::I(gen_int(self.r, 16)),
            Ty::I32 => Val::I(gen_int(self.r, 32)),
            Ty::I64 => Val::I(gen_int(self.r, 64)),
            Ty::I128 => Val::I(gen_int(self.r, 128)),
            Ty::F32 => Val::F32(gen_f32(self.r, self.o.finite)),
            Ty::F64 => Val::F64(gen_f64(self.r, self.o.finite)),
            Ty::Bool => Val::Bool(self.r.bool()),
            Ty::Str => Val::Str(gen_str(self.r, self.o.big)),
            Ty::Unit => Val::Unit,
            Ty::Dur => {
                let s = gen_uint(self.r, 64) as u64;
                let n = match self.r.below(6) {
                    0 | 1 => 0,
                    2 => 999_999_999,
                    3 => 1,
                    4 => 100_000_000 * self.r.below(10) as u32,
                    _ => self.r.below(1_000_000_000) as u32,
                };
                Val::Dur(s, n)
            }
            Ty::Time => {
                if self.o.pre_epoch && self.r.chance(1, 6) {
                    return Val::Time(None);
                }
                let s = match self.r.below(5) {
                    0 => 0,
                    1 => i64::MAX as u64,
                    2 => gen_uint(self.r, 63) as u64,
                    _ => self.r.below(1 << 31) as u64,
                };
                let n = match self.r.below(4) {
                    0 => 0,
                    1 => 999_999_999,
                    _ => self.r.below(1_000_000_000) as u32,
                };
                Val::Time(Some((s, n)))
            }
            Ty::Opt(t) => {
                if fuel == 0 && !matches!(**t, Ty::U8) || self.r.chance(1, 3) {
                    Val::Opt(None)
                } else {
                    Val::Opt(Some(Box::new(self.val(t, fuel.saturating_sub(1)))))
                }
            }
            Ty::Boxed(t) => self.val(t, fuel.saturating_sub(1)),
            Ty::Vec(t) | Ty::List(t) => {
                let n = self.len(t, fuel);
                Val::Seq(self.seq(t, n, fuel))
            }
            Ty::HSet(t) | Ty::BSet(t) => {
                let n = self.len(t, fuel);
                let v = self.seq(t, n, fuel);
                Val::Seq(dedup(v, t))
            }
            Ty::HMap(k, t) | Ty::BMap(k, t) => {
                let n = self.len(k, fuel);
                let ks = self.seq(k, n, fuel);
                let ks = dedup(ks, k);
                Val::Map(ks.into_iter().map(|k| (k, self.val(t, fuel.saturating_sub(1)))).collect())
            }
            Ty::Arr(t, n) => {
                self.budget = self.budget.saturating_sub(*n);
                Val::Seq((0..*n).map(|_| self.val(t, fuel.saturating_sub(1))).collect())
            }
            Ty::Tup(ts) => Val::Seq(ts.iter().map(|t| self.val(t, fuel.saturating_sub(1))).collect()),
            Ty::Named(n, f) => {
                let d = def(n, *f);
                self.def_val(&d, fuel)
            }
        }
    }
    fn def_val(&mut self, d: &Def, fuel: usize) -> Val {
        match &d.body {
            Body::Struct(_, fs) => Val::Struct(self.fields(fs, fuel)),
            Body::Enum(vs) => {
                let mut i = self.r.below(vs.len());
                if fuel == 0 || self.budget == 0 {
                    let leafs: Vec<usize> =
                        (0..vs.len()).filter(|i| !vs[*i].fields.iter().any(|f| reaches(&f.ty, d.name))).collect();
                    if !leafs.is_empty() {
                        i = *self.r.pick(&leafs);
                    }
                }
                self.budget = self.budget.saturating_sub(1);
                Val::Enum(i, self.fields(&vs[i].fields, fuel))
            }
            Body::Proxy(_, inner) => self.def_val(inner, fuel),
        }
    }
    fn fields(&mut self, fs: &[Field], fuel: usize) -> Vec<Val> {
        fs.iter().map(|f| self.val(&f.ty, fuel.saturating_sub(1))).collect()
    }
}
pub fn dedup(v: Vec<Val>, t: &Ty) -> Vec<Val> {
    let mut seen = std::collections::HashSet::new();
    v.into_iter().filter(|x| seen.insert(canon(t, x))).collect()
}

/// A map from its entries: of two with one key the last counts.
pub fn last_wins(xs: impl Iterator<Item = (Val, Val)>) -> Val {
    let mut at = std::collections::HashMap::new();
    let mut m: Vec<(Val, Val)> = vec![];
    for (a, b) in xs {
        if let Some(i) = at.get(&a) {
            let e: &mut (Val, Val) = &mut m[*i];
            e.1 = b;
        } else {
            at.insert(a.clone(), m.len());
            m.push((a, b));
        }
    }
    Val::Map(m)
}
/// What the binary round trip gives back.
pub fn norm_bin(t: &Ty, v: &Val) -> Val {
    norm(t, v, Fmt::Bin)
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Fmt {
    Bin,
    Json,
    Ron,
}
/// The text of the value is `null` (JSON) or `None` (RON).
pub fn nullish(t: &Ty, v: &Val, f: Fmt) -> bool {
    match (t, v) {
        (Ty::Unit, _) => f == Fmt::Json,
        (Ty::Opt(_), Val::Opt(None)) => true,
        (Ty::Opt(t), Val::Opt(Some(x))) => nullish(t, x, f),
        (Ty::Boxed(t), x) => nullish(t, x, f),
        (Ty::Time, Val::Time(None)) => true,
        (Ty::Named(n, g), x) => nullish_def(&def(n, *g), x, f),
        _ => false,
    }
}
fn nullish_def(d: &Def, v: &Val, f: Fmt) -> bool {
    match (&d.body, v) {
        (Body::Struct(Shape::Tuple, fs), Val::Struct(xs)) if f == Fmt::Json && d.transparent && fs.len() == 1 => {
            nullish(&fs[0].ty, &xs[0], f)
        }
        (Body::Proxy(p, _), v) => nullish(&p.ty, &(p.to)(v), f),
        _ => false,
    }
}
/// The value a round trip through the format gives back (sets and maps in any order).
pub fn norm(t: &Ty, v: &Val, f: Fmt) -> Val {
    match (t, v) {
        (Ty::Time, Val::Time(None)) => Val::Time(Some((0, 0))),
        (Ty::Opt(t), Val::Opt(Some(x))) => {
            if f != Fmt::Bin && nullish(t, x, f) {
                Val::Opt(None)
            } else {
                Val::Opt(Some(Box::new(norm(t, x, f))))
            }
        }
        (Ty::Boxed(t), x) => norm(t, x, f),
        (Ty::Vec(t), Val::Seq(xs)) | (Ty::List(t), Val::Seq(xs)) | (Ty::Arr(t, _), Val::Seq(xs)) => {
            Val::Seq(xs.iter().map(|x| norm(t, x, f)).collect())
        }
        (Ty::HSet(t), Val::Seq(xs)) | (Ty::BSet(t), Val::Seq(xs)) => {
            let v = xs.iter().map(|x| norm(t, x, f)).collect();
            Val::Seq(dedup(v, t))
        }
        (Ty::HMap(k, t), Val::Map(xs)) | (Ty::BMap(k, t), Val::Map(xs)) => {
            last_wins(xs.iter().map(|(a, b)| (canon(k, &norm(k, a, f)), norm(t, b, f))))
        }
        (Ty::Tup(ts), Val::Seq(xs)) => Val::Seq(ts.iter().zip(xs).map(|(t, x)| norm(t, x, f)).collect()),
        (Ty::Named(n, g), v) => norm_def(&def(n, *g), v, f),
        (_, v) => v.clone(),
    }
}
/// The value an absent member reads as; None: an error.
pub fn absent(d: &Def, fl: &Field, f: Fmt) -> Option<Val> {
    let opt = fl.is_opt();
    match &fl.default {
        Dflt::Value(v) | Dflt::With(v) => Some(v.clone()),
        Dflt::Plain => Some(ty_default(&fl.ty)),
        Dflt::None if opt => Some(Val::Opt(None)),
        Dflt::None if d.container_default && matches!(d.body, Body::Struct(..)) => Some(ty_default(&fl.ty)),
        Dflt::None => {
            let _ = f;
            None
        }
    }
}
pub fn omitted(d: &Def, fl: &Field, v: &Val, _f: Fmt) -> bool {
    let nulls = (fl.none_as_null || d.none_as_null) && fl.proxy.is_none();
    fl.is_opt() && *v == Val::Opt(None) && !(nulls && _f == Fmt::Json)
}
fn norm_fields(d: &Def, named: bool, fs: &[Field], xs: &[Val], f: Fmt) -> Vec<Val> {
    fs.iter()
        .zip(xs)
        .map(|(fl, x)| {
            if fl.skip {
                return if f == Fmt::Bin || !named { ty_default(&fl.ty) } else { fl.text_default() };
            }
            if f != Fmt::Bin && named && omitted(d, fl, x, f) {
                return absent(d, fl, f).unwrap();
            }
            if let Some(p) = &fl.proxy {
                if let (Ty::Opt(_), Val::Opt(o)) = (&fl.ty, x) {
                    return match (o, f) {
                        (Some(y), Fmt::Json) => Val::Opt(Some(Box::new((p.from)(&norm(&p.ty, &(p.to)(y), f))))),
                        (None, _) => Val::Opt(None),
                        _ => panic!("harness: proxied Option outside JSON"),
                    };
                }
                return (p.from)(&norm(&p.ty, &(p.to)(x), f));
            }
            norm(&fl.ty, x, f)
        })
        .collect()
}
fn norm_def(d: &Def, v: &Val, f: Fmt) -> Val {
    match (&d.body, v) {
        (Body::Struct(sh, fs), Val::Struct(xs)) => Val::Struct(norm_fields(d, *sh == Shape::Named, fs, xs, f)),
        (Body::Enum(vs), Val::Enum(i, xs)) => {
            Val::Enum(*i, norm_fields(d, vs[*i].shape == Shape::Named, &vs[*i].fields, xs, f))
        }
        (Body::Proxy(p, _), v) => (p.from)(&norm(&p.ty, &(p.to)(v), f)),
        _ => v.clone(),
    }
}
pub fn arc(t: &Ty) -> Arc<Ty> {
    Arc::new(t.clone())
}
/// A small value.
pub fn gen_small(r: &mut Rng, t: &Ty) -> Val {
    let mut g = Gen { r, o: SMALL, budget: 8 };
    g.val(t, 2)
}
