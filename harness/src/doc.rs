//! Documents in JSON and RON: every spelling of a value, and every way to spoil one.
use crate::gen::*;
use crate::model::*;
use crate::rng::Rng;
use std::fmt::Write as _;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum TK {
    Word,
    Num,
    Str,
    Punct,
}
#[derive(Clone, Debug)]
pub struct Tok {
    pub s: String,
    pub k: TK,
}
pub fn tok(s: impl Into<String>, k: TK) -> Tok {
    Tok { s: s.into(), k }
}
pub fn punct(s: &str) -> Tok {
    tok(s, TK::Punct)
}

#[derive(Clone, Copy)]
pub struct Opts {
    /// leave out members that may be absent, this often in 100
    pub omit: usize,
    /// unknown members and repeated members
    pub extras: bool,
    /// spellings other than the printer's
    pub spell: bool,
    /// remember where the document can be spoiled
    pub sites: bool,
}

/// The place of something that can be spoiled.
#[derive(Clone)]
pub enum Site {
    /// tokens start..end are a value of the type
    Value { start: usize, end: usize, ty: Ty, inside: bool },
    /// a member name or map key, by token
    Name { at: usize },
    Comma { at: usize, trailing: bool },
    Colon { at: usize },
    Open { at: usize, end: usize, ty: Option<Ty> },
    Close { at: usize },
    /// a required member and the commas around it
    Required { start: usize, end: usize, comma_before: Option<usize>, comma_after: Option<usize>, close: usize },
    /// a list of fixed length: elements and the commas after them
    Fixed { open: usize, close: usize, items: Vec<(usize, usize, Option<usize>)> },
    /// the name of a variant
    Variant { at: usize, start: usize, end: usize, shape: Shape, names: Vec<&'static str>, old: Vec<&'static str>, inside: bool },
    /// the field list of a struct or variant: where its opening bracket is
    Fields { open: usize, close: usize, known: Vec<&'static str>, old: Vec<&'static str> },
}

/// One way to spoil a document.
#[derive(Clone, Debug)]
pub struct Edit {
    pub name: &'static str,
    pub start: usize,
    pub end: usize,
    pub with: Vec<Tok>,
    /// the first token, in the spoiled document, that no valid document has there; and how many tokens after it
    /// may have been read when it is noticed
    pub bad: Option<(usize, usize)>,
    /// no comments after this point: they could repair it
    pub plain: bool,
}

pub struct Doc {
    pub f: Fmt,
    pub toks: Vec<Tok>,
    pub sites: Vec<Site>,
    pub expect: Val,
    pub tags: Tags,
}
/// What the document contains, for the record of coverage.
#[derive(Default, Clone, Debug)]
pub struct Tags {
    pub omitted: u32,
    pub unknown: u32,
    pub dups: u32,
    pub escapes: u32,
    pub trailing: u32,
    pub respelled: u32,
    pub reordered: u32,
}

struct B<'a> {
    r: &'a mut Rng,
    f: Fmt,
    o: Opts,
    toks: Vec<Tok>,
    sites: Vec<Site>,
    tags: Tags,
    depth: usize,
    quiet: usize,
}

pub fn build(r: &mut Rng, t: &Ty, v: &Val, f: Fmt, o: Opts) -> Doc {
    let mut b = B { r, f, o, toks: vec![], sites: vec![], tags: Tags::default(), depth: 0, quiet: 0 };
    let expect = b.val(t, v);
    Doc { f, toks: b.toks, sites: b.sites, expect, tags: b.tags }
}

pub const NULL: u32 = 1;
pub const BOOL: u32 = 2;
pub const POS: u32 = 4;
pub const NEG: u32 = 8;
pub const FLOAT: u32 = 16;
pub const STR: u32 = 32;
pub const ARR: u32 = 64;
pub const OBJ: u32 = 128;
pub const PAREN: u32 = 256;
pub const IDENT: u32 = 512;
pub const NONE: u32 = 1024;

/// The kinds of value the type can start as.
pub fn expects(t: &Ty, f: Fmt) -> u32 {
    let json = f == Fmt::Json;
    match t {
        Ty::U8 | Ty::U16 | Ty::U32 | Ty::U64 | Ty::Usize | Ty::U128 => POS,
        Ty::I8 | Ty::I16 | Ty::I32 | Ty::I64 | Ty::I128 => POS | NEG,
        Ty::F32 | Ty::F64 => POS | NEG | FLOAT,
        Ty::Bool => {
            if json {
                BOOL
            } else {
                BOOL | POS
            }
        }
        Ty::Str => STR,
        Ty::Unit => {
            if json {
                NULL
            } else {
                PAREN
            }
        }
        Ty::Dur => OBJ,
        Ty::Time => OBJ | if json { NULL } else { NONE },
        Ty::Opt(t) => expects(t, f) | if json { NULL } else { NONE },
        Ty::Boxed(t) => expects(t, f),
        Ty::Vec(_) | Ty::List(_) | Ty::HSet(_) | Ty::BSet(_) => ARR,
        Ty::HMap(..) | Ty::BMap(..) => OBJ,
        Ty::Arr(..) | Ty::Tup(_) => {
            if json {
                ARR
            } else {
                PAREN
            }
        }
        Ty::Named(n, g) => {
            let d = def(n, *g);
            match &d.body {
                Body::Proxy(p, _) => expects(&p.ty, f),
                Body::Enum(vs) => {
                    if !json {
                        return IDENT;
                    }
                    let mut e = 0;
                    for v in vs {
                        e |= if v.shape == Shape::Unit { STR } else { OBJ };
                    }
                    e
                }
                Body::Struct(sh, fs) => match sh {
                    _ if !json => PAREN,
                    Shape::Tuple if d.transparent && fs.len() == 1 => expects(&fs[0].ty, f),
                    Shape::Tuple => ARR,
                    _ => OBJ,
                },
            }
        }
    }
}

pub fn escape_into(r: &mut Rng, s: &str, f: Fmt, spell: bool, o: &mut String, n: &mut u32) {
    let mode = if spell { r.below(5) } else { 0 };
    for c in s.chars() {
        let must = c == '"' || c == '\\' || (c as u32) < 0x20 && (f == Fmt::Json || c == '\0');
        let esc = must || mode == 1 && r.chance(1, 4) || mode == 2;
        if !esc {
            o.push(c);
            continue;
        }
        *n += !must as u32;
        let short = match c {
            '"' => Some('"'),
            '\\' => Some('\\'),
            '/' => Some('/'),
            '\u{8}' => Some('b'),
            '\u{c}' => Some('f'),
            '\n' => Some('n'),
            '\r' => Some('r'),
            '\t' => Some('t'),
            _ => None,
        };
        if let Some(x) = short {
            if mode == 0 || r.bool() {
                o.push('\\');
                o.push(x);
                continue;
            }
        }
        let mut buf = [0u16; 2];
        for u in c.encode_utf16(&mut buf) {
            let _ = match r.below(3) {
                0 => write!(o, "\\u{u:04X}"),
                1 => write!(o, "\\u{u:04x}"),
                _ => {
                    let h = format!("{u:04x}");
                    let h: String = h.chars().map(|c| if r.bool() { c.to_ascii_uppercase() } else { c }).collect();
                    write!(o, "\\u{h}")
                }
            };
        }
    }
}

/// A decimal that denotes exactly this finite float (as f32 if `single`).
pub fn spell_float(r: &mut Rng, neg: bool, sci: &str, exact: &dyn Fn(usize) -> String, ron: bool) -> String {
    // sci: "d.ddde-x" of the magnitude
    let (m, e) = sci.split_once('e').unwrap();
    let e: i64 = e.parse().unwrap();
    let mut digits: String = m.chars().filter(|c| *c != '.').collect();
    let mut o = String::new();
    if neg {
        o.push('-');
    } else if ron && r.chance(1, 8) {
        o.push('+');
    }
    if digits.bytes().all(|b| b == b'0') {
        o.push_str(r.pick(&["0", "0.0", "0e0", "0.000", "0E+7", "0e-3", "0.0e00"]));
        return o;
    }
    for _ in 0..if r.chance(1, 3) { r.below(6) } else { 0 } {
        digits.push('0');
    }
    let n = digits.len() as i64;
    let p = e - (m.len() as i64 - 1).max(0) + if m.contains('.') { 1 } else { 0 }; // power of the last shortest digit
    let short = m.chars().filter(|c| *c != '.').count() as i64;
    debug_assert_eq!(p, e - (short - 1));
    let p = p - (n - short); // power of the last digit now
    match r.below(5) {
        0 if p >= 0 && p <= 30 => {
            o.push_str(&digits);
            for _ in 0..p {
                o.push('0');
            }
            if r.bool() {
                o.push_str(".0");
            }
        }
        1 if p < 0 && p + n > -30 => {
            if p + n <= 0 {
                if !(ron && r.chance(1, 6)) {
                    o.push('0');
                }
                o.push('.');
                for _ in 0..-(p + n) {
                    o.push('0');
                }
                o.push_str(&digits);
            } else {
                o.push_str(&digits[..(p + n) as usize]);
                o.push('.');
                o.push_str(&digits[(p + n) as usize..]);
            }
        }
        2 if e.abs() < 40 => o.push_str(&exact(160)),
        3 if e.abs() < 320 && r.chance(1, 10) => o.push_str(&exact(1100)),
        _ => {
            // any position of the point, and the exponent that goes with it
            let j = 1 + r.below(digits.len());
            o.push_str(&digits[..j]);
            if j < digits.len() {
                o.push('.');
                o.push_str(&digits[j..]);
            } else if r.chance(1, 4) {
                o.push_str(".0");
            }
            let x = p + n - j as i64;
            if x != 0 || r.bool() {
                o.push(if r.bool() { 'e' } else { 'E' });
                if x < 0 {
                    o.push('-');
                } else if r.chance(1, 3) {
                    o.push('+');
                }
                if r.chance(1, 6) {
                    o.push('0');
                }
                let _ = write!(o, "{}", x.abs());
            }
        }
    }
    o
}
pub fn spell_f64(r: &mut Rng, bits: u64, ron: bool) -> String {
    let x = f64::from_bits(bits);
    let a = x.abs();
    spell_float(r, x.is_sign_negative(), &format!("{a:e}"), &|n| format!("{a:.n$}").trim_end_matches('0').to_string() + "0", ron)
}
pub fn spell_f32(r: &mut Rng, bits: u32, ron: bool) -> String {
    let x = f32::from_bits(bits);
    let a = x.abs();
    spell_float(r, x.is_sign_negative(), &format!("{a:e}"), &|n| format!("{a:.n$}").trim_end_matches('0').to_string() + "0", ron)
}

/// Some JSON value, whatever it is.
pub fn any_json(r: &mut Rng, depth: usize, o: &mut Vec<Tok>) {
    if depth > 0 && r.chance(1, 80) {
        // deeper than a byte counts
        let n = *r.pick(&[17, 65, 129, 255, 256, 257, 300, 1000]);
        let arr: Vec<bool> = (0..n).map(|_| r.bool()).collect();
        for a in &arr {
            if *a {
                o.push(punct("["));
                if r.chance(1, 9) {
                    o.push(tok("1", TK::Num));
                    o.push(punct(","));
                }
            } else {
                o.push(punct("{"));
                o.push(tok(r.pick(&["\"a\"", "\"]\"", "\"}\"", "\"\""]).to_string(), TK::Str));
                o.push(punct(":"));
            }
        }
        any_json(r, 0, o);
        for a in arr.iter().rev() {
            o.push(punct(if *a { "]" } else { "}" }));
        }
        return;
    }
    match r.below(if depth == 0 { 7 } else { 11 }) {
        0 => o.push(tok("null", TK::Word)),
        1 => o.push(tok(if r.bool() { "true" } else { "false" }, TK::Word)),
        2 => {
            let n = gen_int(r, 64);
            o.push(tok(n.to_string(), TK::Num))
        }
        3 => {
            let b = gen_f64(r, true);
            let s = spell_f64(r, b, false);
            o.push(tok(s, TK::Num))
        }
        4 => o.push(tok(r.pick(&["1e400", "-1e999", "123456789012345678901234567890", "0.1e-999", "-0"]).to_string(), TK::Num)),
        5 | 6 => {
            let s = gen_str(r, false);
            o.push(str_tok(r, &s, Fmt::Json, true, &mut 0));
        }
        7 | 8 => {
            o.push(punct("["));
            let n = r.below(4);
            for i in 0..n {
                if i > 0 {
                    o.push(punct(","));
                }
                any_json(r, depth - 1, o);
            }
            o.push(punct("]"));
        }
        _ => {
            o.push(punct("{"));
            let n = r.below(4);
            for i in 0..n {
                if i > 0 {
                    o.push(punct(","));
                }
                let s = gen_str(r, false);
                o.push(str_tok(r, &s, Fmt::Json, true, &mut 0));
                o.push(punct(":"));
                any_json(r, depth - 1, o);
            }
            o.push(punct("}"));
        }
    }
}
pub fn str_tok(r: &mut Rng, s: &str, f: Fmt, spell: bool, n: &mut u32) -> Tok {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    escape_into(r, s, f, spell, &mut o, n);
    o.push('"');
    tok(o, TK::Str)
}

impl<'a> B<'a> {
    fn site(&mut self, s: Site) {
        if self.o.sites && self.quiet == 0 {
            self.sites.push(s);
        }
    }
    fn p(&mut self, s: &str) -> usize {
        self.toks.push(punct(s));
        self.toks.len() - 1
    }
    fn word(&mut self, s: &str) -> usize {
        self.toks.push(tok(s, TK::Word));
        self.toks.len() - 1
    }
    fn string(&mut self, s: &str) -> usize {
        let t = str_tok(self.r, s, self.f, self.o.spell, &mut self.tags.escapes);
        self.toks.push(t);
        self.toks.len() - 1
    }
    fn int(&mut self, neg: bool, mag: u128, signed: bool) {
        let mut s = String::new();
        if neg {
            s.push('-');
        } else if self.o.spell && self.f == Fmt::Ron && self.r.chance(1, 12) && !signed {
            s.push('+');
        }
        if self.o.spell && mag == 0 && signed && self.r.chance(1, 6) {
            s.push('-');
        }
        let _ = write!(s, "{mag}");
        self.toks.push(tok(s, TK::Num));
    }
    fn colon(&mut self) {
        let at = self.p(":");
        self.site(Site::Colon { at });
    }
    fn open(&mut self, s: &str) -> usize {
        self.depth += 1;
        self.p(s)
    }
    fn close(&mut self, s: &str) -> usize {
        self.depth -= 1;
        let at = self.p(s);
        self.site(Site::Close { at });
        at
    }
    /// Elements between brackets, with commas.
    fn list(&mut self, open: &str, close: &str, n: usize, trailing: bool, ty: Option<&Ty>, mut item: impl FnMut(&mut Self, usize)) -> (usize, usize, Vec<(usize, usize, Option<usize>)>) {
        let o = self.open(open);
        let mut items = vec![];
        for i in 0..n {
            let s = self.toks.len();
            item(self, i);
            let e = self.toks.len();
            let mut c = None;
            if i + 1 < n {
                let at = self.p(",");
                self.site(Site::Comma { at, trailing: false });
                c = Some(at);
            } else if trailing && self.o.spell && self.r.chance(1, 4) {
                let at = self.p(",");
                self.tags.trailing += 1;
                self.site(Site::Comma { at, trailing: true });
                c = Some(at);
            }
            items.push((s, e, c));
        }
        let c = self.close(close);
        let ty = ty.cloned();
        self.site(Site::Open { at: o, end: c, ty });
        (o, c, items)
    }
    fn fixed(&mut self, open: &str, close: &str, ts: &[&Ty], xs: &[Val], trailing: bool, ty: Option<&Ty>) -> Vec<Val> {
        let mut out = vec![];
        let (open, close, items) = self.list(open, close, ts.len(), trailing, ty, |b, i| {
            let v = b.val(ts[i], &xs[i]);
            out.push(v);
        });
        self.site(Site::Fixed { open, close, items });
        out
    }
    fn seq(&mut self, t: &Ty, xs: &[Val], ty: &Ty, set: bool) -> Vec<Val> {
        // members of a set may be written twice
        let mut idx: Vec<usize> = (0..xs.len()).collect();
        if set && self.o.extras && !xs.is_empty() && self.r.chance(1, 4) {
            let k = self.r.below(xs.len());
            idx.push(k);
            self.tags.dups += 1;
        }
        let mut out: Vec<Val> = vec![];
        self.list("[", "]", idx.len(), true, Some(ty), |b, i| {
            let v = b.val(t, &xs[idx[i]]);
            if !set || i < xs.len() {
                out.push(v);
            }
        });
        out
    }
    fn map(&mut self, k: &Ty, t: &Ty, xs: &[(Val, Val)], ty: &Ty) -> Val {
        // (entry, value to write or its own)
        let mut plan: Vec<(usize, Option<Val>)> = (0..xs.len()).map(|i| (i, None)).collect();
        if self.o.spell {
            self.r.shuffle(&mut plan);
        }
        if self.o.extras && !xs.is_empty() && self.r.chance(1, 4) {
            let i = self.r.below(plan.len());
            let v = gen_small(self.r, t);
            let at = self.r.below(i + 1);
            let e = plan[i].0;
            plan.insert(at, (e, Some(v)));
            self.tags.dups += 1;
        }
        let mut out = vec![];
        self.list("{", "}", plan.len(), true, Some(ty), |b, i| {
            let (e, over) = &plan[i];
            let at = b.toks.len();
            let kk = b.val(k, &xs[*e].0);
            b.site(Site::Name { at });
            b.colon();
            let v = b.val(t, over.as_ref().unwrap_or(&xs[*e].1));
            out.push((kk, v));
        });
        norm_map(k, out)
    }
    fn val(&mut self, t: &Ty, v: &Val) -> Val {
        let start = self.toks.len();
        let inside = self.depth > 0;
        let e = self.val1(t, v);
        let end = self.toks.len();
        self.site(Site::Value { start, end, ty: t.clone(), inside });
        e
    }
    fn val1(&mut self, t: &Ty, v: &Val) -> Val {
        let json = self.f == Fmt::Json;
        match (t, v) {
            (Ty::U8 | Ty::U16 | Ty::U32 | Ty::U64 | Ty::Usize | Ty::U128, Val::U(x)) => {
                self.int(false, *x, false);
                v.clone()
            }
            (Ty::I8 | Ty::I16 | Ty::I32 | Ty::I64 | Ty::I128, Val::I(x)) => {
                self.int(*x < 0, x.unsigned_abs(), true);
                v.clone()
            }
            (Ty::F32, Val::F32(b)) => {
                let s = if self.o.spell { spell_f32(self.r, *b, !json) } else { format!("{:?}", f32::from_bits(*b)) };
                self.tags.respelled += 1;
                self.toks.push(tok(s, TK::Num));
                v.clone()
            }
            (Ty::F64, Val::F64(b)) => {
                let s = if self.o.spell { spell_f64(self.r, *b, !json) } else { format!("{:?}", f64::from_bits(*b)) };
                self.tags.respelled += 1;
                self.toks.push(tok(s, TK::Num));
                v.clone()
            }
            (Ty::Bool, Val::Bool(b)) => {
                self.word(if *b { "true" } else { "false" });
                v.clone()
            }
            (Ty::Str, Val::Str(s)) => {
                self.string(s);
                v.clone()
            }
            (Ty::Unit, _) => {
                if json {
                    self.word("null");
                } else {
                    self.list("(", ")", 0, false, Some(t), |_, _| {});
                }
                Val::Unit
            }
            (Ty::Dur, Val::Dur(s, n)) => {
                self.dur(*s, *n, t);
                v.clone()
            }
            (Ty::Time, Val::Time(x)) => match x {
                None => {
                    self.word(if json { "null" } else { "None" });
                    Val::Time(Some((0, 0)))
                }
                Some((s, n)) => {
                    self.dur(*s, *n, &Ty::Dur);
                    v.clone()
                }
            },
            (Ty::Opt(_), Val::Opt(None)) => {
                self.word(if json { "null" } else { "None" });
                Val::Opt(None)
            }
            (Ty::Opt(t), Val::Opt(Some(x))) => {
                // no site of its own: what is wrong for the content may be right for the Option
                let e = self.val1(t, x);
                if nullish(t, x, self.f) {
                    Val::Opt(None)
                } else {
                    Val::Opt(Some(Box::new(e)))
                }
            }
            (Ty::Boxed(t), x) => self.val1(t, x),
            (Ty::Vec(e), Val::Seq(xs)) | (Ty::List(e), Val::Seq(xs)) => Val::Seq(self.seq(e, xs, t, false)),
            (Ty::HSet(e), Val::Seq(xs)) | (Ty::BSet(e), Val::Seq(xs)) => Val::Seq(dedup(self.seq(e, xs, t, true), e)),
            (Ty::HMap(k, e), Val::Map(xs)) | (Ty::BMap(k, e), Val::Map(xs)) => self.map(k, e, xs, t),
            (Ty::Arr(e, n), Val::Seq(xs)) => {
                let ts: Vec<&Ty> = (0..*n).map(|_| &**e).collect();
                let (o, c) = if json { ("[", "]") } else { ("(", ")") };
                Val::Seq(self.fixed(o, c, &ts, xs, true, Some(t)))
            }
            (Ty::Tup(ts), Val::Seq(xs)) => {
                let ts: Vec<&Ty> = ts.iter().collect();
                let (o, c) = if json { ("[", "]") } else { ("(", ")") };
                Val::Seq(self.fixed(o, c, &ts, xs, true, Some(t)))
            }
            (Ty::Named(n, g), v) => {
                let d = def(n, *g);
                self.named(&d, t, v)
            }
            (_, v) => bad(v),
        }
    }
    fn dur(&mut self, s: u64, n: u32, t: &Ty) {
        let mut m: Vec<(&str, u64)> = vec![("secs", s)];
        if n > 0 || self.o.spell && self.r.chance(1, 4) {
            m.push(("nanos", n as u64));
        }
        if self.o.spell && self.r.chance(1, 3) {
            m.reverse();
        }
        let mut parts = vec![];
        let (_, close, items) = self.list("{", "}", m.len(), true, Some(t), |b, i| {
            let at = b.string(m[i].0);
            b.site(Site::Name { at });
            b.colon();
            let st = b.toks.len();
            b.int(false, m[i].1 as u128, false);
            let en = b.toks.len();
            b.site(Site::Value { start: st, end: en, ty: Ty::U64, inside: true });
            parts.push(i);
        });
        let i = m.iter().position(|x| x.0 == "secs").unwrap();
        self.required(&items, i, close);
    }
    fn required(&mut self, items: &[(usize, usize, Option<usize>)], i: usize, close: usize) {
        let comma_before = if i > 0 { items[i - 1].2 } else { None };
        let (start, end, comma_after) = items[i];
        self.site(Site::Required { start, end, comma_before, comma_after, close });
    }
    fn named(&mut self, d: &Def, t: &Ty, v: &Val) -> Val {
        let json = self.f == Fmt::Json;
        match (&d.body, v) {
            (Body::Proxy(p, _), v) => {
                let e = self.val1(&p.ty, &(p.to)(v));
                (p.from)(&e)
            }
            (Body::Struct(sh, fs), Val::Struct(xs)) => match sh {
                Shape::Unit => {
                    let (o, c) = if json { ("{", "}") } else { ("(", ")") };
                    self.list(o, c, 0, false, Some(t), |_, _| {});
                    Val::Struct(vec![])
                }
                Shape::Tuple => {
                    if json && d.transparent && fs.len() == 1 {
                        return Val::Struct(vec![self.val1(&fs[0].ty, &xs[0])]);
                    }
                    let ts: Vec<&Ty> = fs.iter().map(|f| &f.ty).collect();
                    let (o, c) = if json { ("[", "]") } else { ("(", ")") };
                    let tr = !(json && fs.len() == 1);
                    Val::Struct(self.fixed(o, c, &ts, xs, tr, Some(t)))
                }
                Shape::Named => Val::Struct(self.members(d, fs, xs, Some(t))),
            },
            (Body::Enum(vs), Val::Enum(i, xs)) => {
                let va = &vs[*i];
                let start = self.toks.len();
                let inside = self.depth > 0;
                let at;
                let mut wrap = None;
                let mut out = vec![];
                if json {
                    if va.shape == Shape::Unit {
                        at = self.string(va.ext());
                    } else {
                        wrap = Some(self.open("{"));
                        at = self.string(va.ext());
                        self.colon();
                    }
                } else {
                    at = self.word(va.ext());
                }
                match va.shape {
                    Shape::Unit => {}
                    Shape::Tuple => {
                        let ts: Vec<&Ty> = va.fields.iter().map(|f| &f.ty).collect();
                        let (o, c) = if json { ("[", "]") } else { ("(", ")") };
                        out = self.fixed(o, c, &ts, xs, true, None);
                    }
                    Shape::Named => out = self.members(d, &va.fields, xs, None),
                }
                if let Some(w) = wrap {
                    let c = self.close("}");
                    self.site(Site::Open { at: w, end: c, ty: Some(t.clone()) });
                }
                let end = self.toks.len();
                let names: Vec<&'static str> = vs.iter().map(|v| v.ext()).collect();
                let old = vs.iter().map(|v| v.name).filter(|n| !names.contains(n)).collect();
                self.site(Site::Variant { at, start, end, shape: va.shape, names, old, inside });
                Val::Enum(*i, out)
            }
            _ => bad(v),
        }
    }
    fn members(&mut self, d: &Def, fs: &[Field], xs: &[Val], ty: Option<&Ty>) -> Vec<Val> {
        enum M {
            Field(usize),
            Dup(usize, Val),
            Unknown(String),
        }
        let json = self.f == Fmt::Json;
        let mut out: Vec<Val> = vec![];
        let mut plan = vec![];
        for (i, (f, x)) in fs.iter().zip(xs).enumerate() {
            if f.skip {
                out.push(f.text_default());
                continue;
            }
            let a = absent(d, f, self.f);
            let unwritable = f.proxy.is_some() && f.is_opt() && *x == Val::Opt(None);
            if let Some(a) = a {
                if unwritable || self.r.chance(self.o.omit, 100) {
                    self.tags.omitted += 1;
                    out.push(a);
                    continue;
                }
            }
            plan.push(M::Field(i));
            out.push(Val::Unit);
        }
        if self.o.spell && plan.len() > 1 && self.r.chance(2, 3) {
            self.r.shuffle(&mut plan);
            self.tags.reordered += 1;
        }
        let mut dupped = vec![false; fs.len()];
        if self.o.extras {
            if !plan.is_empty() && self.r.chance(1, 4) {
                let k = self.r.below(plan.len());
                if let M::Field(i) = plan[k] {
                    if fs[i].proxy.is_none() {
                        let v = gen_small(self.r, &fs[i].ty);
                        let at = self.r.below(k + 1);
                        plan.insert(at, M::Dup(i, v));
                        dupped[i] = true;
                        self.tags.dups += 1;
                    }
                }
            }
            if json {
                let n = if self.r.chance(1, 3) { 1 + self.r.below(2) } else { 0 };
                for _ in 0..n {
                    let name = match self.r.below(4) {
                        0 => gen_str(self.r, false),
                        1 | 2 if !fs.is_empty() => {
                            // the Rust names of renamed and skipped fields, and names close to known ones
                            let f = self.r.pick(fs);
                            match self.r.below(4) {
                                0 => f.ext().to_string() + "_",
                                1 => f.ext().chars().skip(1).collect(),
                                2 => f.ext().to_string(),
                                _ => f.name.to_string(),
                            }
                        }
                        _ => "unknown_member".to_string(),
                    };
                    if fs.iter().any(|f| !f.skip && f.ext() == name) {
                        continue;
                    }
                    let at = self.r.below(plan.len() + 1);
                    plan.insert(at, M::Unknown(name));
                    self.tags.unknown += 1;
                }
            }
        }
        let (ob, cb) = if json { ("{", "}") } else { ("(", ")") };
        let mut got: Vec<(usize, Val)> = vec![];
        let (open, close, items) = self.list(ob, cb, plan.len(), true, ty, |b, k| match &plan[k] {
            M::Unknown(name) => {
                b.quiet += 1;
                b.string(name);
                b.colon();
                let depth = if b.r.chance(1, 12) { 12 } else { 2 };
                let mut ts = vec![];
                any_json(b.r, depth, &mut ts);
                b.toks.extend(ts);
                b.quiet -= 1;
            }
            M::Field(i) | M::Dup(i, _) => {
                let f = &fs[*i];
                let x = if let M::Dup(_, v) = &plan[k] { v } else { &xs[*i] };
                let at = if json { b.string(f.ext()) } else { b.word(f.ext()) };
                b.site(Site::Name { at });
                b.colon();
                let e = match &f.proxy {
                    Some(p) if f.is_opt() => {
                        let y = match x {
                            Val::Opt(Some(y)) => y,
                            v => bad(v),
                        };
                        let e = b.val1(&p.ty, &(p.to)(y));
                        Val::Opt(Some(Box::new((p.from)(&e))))
                    }
                    Some(p) => {
                        let e = b.val(&p.ty, &(p.to)(x));
                        (p.from)(&e)
                    }
                    None => b.val(&f.ty, x),
                };
                got.push((*i, e));
            }
        });
        for (i, e) in got {
            out[i] = e;
        }
        let known: Vec<&'static str> = fs.iter().filter(|f| !f.skip).map(|f| f.ext()).collect();
        let old = fs.iter().flat_map(|f| [f.name, f.ext()]).filter(|n| !known.contains(n)).collect();
        self.site(Site::Fields { open, close, known, old });
        for (k, m) in plan.iter().enumerate() {
            if let M::Field(i) = m {
                if !dupped[*i] && absent(d, &fs[*i], self.f).is_none() {
                    self.required(&items, k, close);
                }
            }
        }
        out
    }
}
fn norm_map(k: &Ty, xs: Vec<(Val, Val)>) -> Val {
    last_wins(xs.into_iter().map(|(a, b)| (canon(k, &a), b)))
}

// ---------------------------------------------------------------- layout

#[derive(Clone, Copy)]
pub struct Layout {
    /// 0 nothing but what is needed, 1 blanks, 2 also comments
    pub style: u8,
    /// after this token no comments
    pub plain_from: usize,
    pub lines: bool,
}

fn comment_text(r: &mut Rng, line: bool) -> String {
    let n = r.below(12);
    let mut s = String::new();
    for _ in 0..n {
        let c = match r.below(5) {
            0 => *r.pick(&['"', '\'', '\\', '[', ']', '{', '}', '(', ')', ',', ':', '*', '/', '#']),
            1 => gen_char(r),
            _ => (b'a' + r.below(26) as u8) as char,
        };
        if c == '\0' || line && c == '\n' || !line && c == '/' && s.ends_with('*') {
            continue;
        }
        s.push(c);
    }
    if !line && r.chance(1, 6) {
        s.push('*');
    }
    s
}
pub fn gap(r: &mut Rng, style: u8, lines: bool) -> String {
    let mut s = String::new();
    if style == 0 {
        return s;
    }
    let n = match r.below(6) {
        0..=2 => 0,
        3 | 4 => 1,
        _ => 1 + r.below(4),
    };
    for _ in 0..n {
        if style == 2 && r.chance(1, 3) {
            if r.bool() {
                s.push_str("//");
                s.push_str(&comment_text(r, true));
                s.push('\n');
            } else {
                s.push_str("/*");
                s.push_str(&comment_text(r, false));
                s.push_str("*/");
            }
        } else if lines && r.bool() {
            s.push('\n');
        } else {
            s.push(*r.pick(&[' ', ' ', '\t', '\n', '\r']));
        }
    }
    s
}
fn wordish(c: char) -> bool {
    c.is_ascii_alphanumeric() || "_.+-".contains(c)
}
/// The text, and where each token lies in it (in characters).
pub fn render(r: &mut Rng, toks: &[Tok], l: Layout) -> (String, Vec<(usize, usize)>) {
    let mut s = String::new();
    let mut n = 0;
    let mut spans = Vec::with_capacity(toks.len());
    // rarely, one gap as wide or as high as counters of lines and columns get
    let far = if l.style > 0 && r.chance(1, 40) { r.below(toks.len() + 1) } else { usize::MAX };
    for (i, t) in toks.iter().enumerate() {
        let st = if i >= l.plain_from { l.style.min(1) } else { l.style };
        let mut g = gap(r, st, l.lines);
        if i > 0 && g.is_empty() && toks[i - 1].s.ends_with(wordish) && t.s.starts_with(wordish) {
            g.push(' ');
        }
        if i == far {
            let k = *r.pick(&[64, 255, 256, 257, 1000, 300, 128]);
            let k = if r.chance(1, 200) { 66_000 } else { k };
            let b = *r.pick(&[" ", "\t", "\n", "\n", "\r\n", " \n"]);
            g.push_str(&b.repeat(k));
        }
        n += g.chars().count();
        s.push_str(&g);
        let m = t.s.chars().count();
        spans.push((n, n + m));
        n += m;
        s.push_str(&t.s);
    }
    if toks.len() < l.plain_from {
        let g = gap(r, l.style, l.lines);
        s.push_str(&g);
    }
    (s, spans)
}

// ---------------------------------------------------------------- spoiling

fn rep(r: &mut Rng, class: u32) -> Vec<Tok> {
    match class {
        NULL => vec![tok("null", TK::Word)],
        BOOL => vec![tok(if r.bool() { "true" } else { "false" }, TK::Word)],
        POS => vec![tok(r.pick(&["7", "0", "1", "255"]).to_string(), TK::Num)],
        NEG => vec![tok(r.pick(&["-7", "-1", "-200"]).to_string(), TK::Num)],
        FLOAT => vec![tok(r.pick(&["1.5", "0.5e1", "2.0", "-0.25", "1e2"]).to_string(), TK::Num)],
        STR => vec![tok(r.pick(&["\"x\"", "\"\"", "\"7\"", "\"true\"", "\"null\""]).to_string(), TK::Str)],
        ARR => vec![punct("["), punct("]")],
        OBJ => vec![punct("{"), punct("}")],
        PAREN => vec![punct("("), punct(")")],
        IDENT => vec![tok("Zqx", TK::Word)],
        NONE => vec![tok("None", TK::Word)],
        _ => unreachable!(),
    }
}
const BAD_WORDS: &[&str] = &[
    "True", "TRUE", "tRUE", "False", "FALSE", "falsE", "Null", "NULL", "nuLl", "nul", "nulll", "null_", "nullnull", "n", "None", "none", "NONE", "nil", "undefined", "t", "tru", "truee", "f", "fals", "falsey", "'x'", "x", "yes", "on", "Some", "NaN", "_",
];
fn int_range(t: &Ty) -> Option<(i128, u128)> {
    Some(match t {
        Ty::U8 => (0, u8::MAX as u128),
        Ty::U16 => (0, u16::MAX as u128),
        Ty::U32 => (0, u32::MAX as u128),
        Ty::U64 | Ty::Usize => (0, u64::MAX as u128),
        Ty::I8 => (i8::MIN as i128, i8::MAX as u128),
        Ty::I16 => (i16::MIN as i128, i16::MAX as u128),
        Ty::I32 => (i32::MIN as i128, i32::MAX as u128),
        Ty::I64 => (i64::MIN as i128, i64::MAX as u128),
        _ => return None,
    })
}
fn base(t: &Ty) -> &Ty {
    match t {
        Ty::Opt(a) | Ty::Boxed(a) => base(a),
        t => t,
    }
}

/// A way to spoil the document at this site, if there is one.
pub fn spoil(r: &mut Rng, d: &Doc, s: &Site) -> Option<Edit> {
    let json = d.f == Fmt::Json;
    let edit = |name, start: usize, end: usize, with: Vec<Tok>, bad: Option<(usize, usize)>| Some(Edit { name, start, end, with, bad, plain: false });
    match s {
        Site::Value { start, end, ty, inside } => {
            let (start, end) = (*start, *end);
            let ex = expects(ty, d.f);
            let b = base(ty);
            // the site of a transparent or proxied value: its tokens tell
            let one = end - start == 1;
            let k = d.toks[start].k;
            if one && r.chance(1, 2) {
                if let (Some((lo, hi)), TK::Num) = (int_range(b), k) {
                    let t = match r.below(9) {
                        0 => (hi + 1).to_string(),
                        1 => (lo - 1).to_string(),
                        2 => (hi + 1 + r.below(1000) as u128).to_string(),
                        3 => "18446744073709551616".into(),
                        4 => (hi as f64 * 10.0 * (1.0 + r.below(9) as f64)).to_string().split('.').next().unwrap().to_string(),
                        5 => format!("{}{}", hi, r.below(10)),
                        6 => format!("{}.0", d.toks[start].s),
                        7 => format!("{}e0", d.toks[start].s),
                        _ => format!("{}.{}", d.toks[start].s, 1 + r.below(9)),
                    };
                    return edit("number out of range or not an integer", start, end, vec![tok(t, TK::Num)], Some((start, 1)));
                }
                if k == TK::Num && *inside {
                    let t = r.pick(&["1e", "-", "+", "--1", "1.2.3", "1e+", "1e5.5", "1__0", "0x1F", "1-1", "-e5", "1e--5"]).to_string();
                    if matches!(b, Ty::F32 | Ty::F64) || int_range(b).is_some() {
                        return edit("malformed number", start, end, vec![tok(t, TK::Num)], Some((start, 1)));
                    }
                }
                if json && k == TK::Num && matches!(b, Ty::F32 | Ty::F64) {
                    let t = r.pick(&["NaN", "nan", "Infinity", "inf", "-Infinity", "-inf", "-nan", ".5", "-.e1"]).to_string();
                    return edit("not a JSON number", start, end, vec![tok(t, TK::Num)], Some((start, 1)));
                }
                if k == TK::Str && matches!(b, Ty::Str) {
                    return bad_string(r, d, start);
                }
                if k == TK::Word && json {
                    let t = r.pick(BAD_WORDS).to_string();
                    return edit("bare word", start, end, vec![tok(t, TK::Word)], Some((start, 1)));
                }
            }
            if !json && one && k == TK::Word && !matches!(b, Ty::Named(..)) {
                let w: &[&str] = if d.toks[start].s == "None" { &["none", "NONE", "Non", "Nonee", "null", "nil", "Null", "NoneOf", "N", "None_"] } else { &["True", "TRUE", "tru", "truee", "t", "False", "FALSE", "fals", "falsey", "yes", "on", "None_"] };
                return edit("bare word", start, end, vec![tok(r.pick(w).to_string(), TK::Word)], Some((start, 1)));
            }
            if json && r.chance(1, 12) {
                return edit("bare word", start, end, vec![tok(r.pick(BAD_WORDS).to_string(), TK::Word)], Some((start, 1)));
            }
            let all: &[u32] = if json { &[NULL, BOOL, POS, NEG, FLOAT, STR, ARR, OBJ] } else { &[BOOL, POS, NEG, FLOAT, STR, ARR, OBJ, PAREN, IDENT, NONE] };
            let no: Vec<u32> = all.iter().copied().filter(|c| ex & c == 0).collect();
            if no.is_empty() {
                return None;
            }
            let c = *r.pick(&no);
            let with = rep(r, c);
            edit("value of the wrong kind", start, end, with, Some((start, 1)))
        }
        Site::Name { at } => {
            let at = *at;
            if json && d.toks[at].k == TK::Str && r.bool() {
                return bad_string(r, d, at);
            }
            match r.below(4) {
                0 => edit("name missing", at, at + 1, vec![], Some((at, 1))),
                1 if json => edit("name is a number", at, at + 1, vec![tok("7", TK::Num)], Some((at, 1))),
                2 if json => edit("name is a bare word", at, at + 1, vec![tok(r.pick(&["name", "true", "null"]).to_string(), TK::Word)], Some((at, 1))),
                // in RON any value may be a key of a map: only the missing value is certain
                3 => edit("value missing", at + 1, value_end(d, at + 2)?, vec![punct(":")], Some((at + 2, 1))),
                _ => edit("name doubled", at, at + 1, vec![d.toks[at].clone(), d.toks[at].clone()], Some((at + 1, 1))),
            }
        }
        Site::Comma { at, trailing } => {
            let at = *at;
            match r.below(4) {
                0 if !*trailing => edit("comma missing", at, at + 1, vec![], Some((at, 1))),
                1 => edit("comma doubled", at, at + 1, vec![punct(","), punct(",")], Some((at + 1, 1))),
                2 => edit("colon for comma", at, at + 1, vec![punct(":")], Some((at, 1))),
                _ => edit("semicolon for comma", at, at + 1, vec![punct(r.pick(&[";", "|", "=", "&", "#", "?", "\\", "\u{a0}", "\u{2028}", "`", "~"]))], Some((at, 1))),
            }
        }
        Site::Colon { at } => {
            let at = *at;
            match r.below(5) {
                0 => edit("colon missing", at, at + 1, vec![], Some((at, 1))),
                1 => edit("colon doubled", at, at + 1, vec![punct(":"), punct(":")], Some((at + 1, 1))),
                2 => edit("comma for colon", at, at + 1, vec![punct(",")], Some((at, 1))),
                3 => edit("equals for colon", at, at + 1, vec![punct("=")], Some((at, 1))),
                _ => edit("bracket for colon", at, at + 1, vec![punct(r.pick(&["]", "}", "[", "{"]))], Some((at, 1))),
            }
        }
        Site::Open { at, end, ty } => {
            let (at, end) = (*at, *end);
            let me = d.toks[at].s.as_str();
            let opens: &[&str] = if json { &["[", "{", "("] } else { &["[", "{", "("] };
            let others: Vec<&str> = opens.iter().copied().filter(|o| *o != me).collect();
            let o = *r.pick(&others);
            let class = match o {
                "[" => ARR,
                "{" => OBJ,
                _ => {
                    if json {
                        0
                    } else {
                        PAREN
                    }
                }
            };
            match r.below(4) {
                0 => edit("comma after opening bracket", at, at + 1, vec![d.toks[at].clone(), punct(",")], Some((at + 1, 1))),
                1 if d.toks[end - 1].s == "," || end == at + 1 => edit("comma before closing bracket", end, end + 1, vec![punct(","), d.toks[end].clone()], Some((end, 1))),
                2 => {
                    // an element without its bracket
                    let _ = ty;
                    if end > at + 1 {
                        edit("bracket doubled at the end", end, end + 1, vec![punct(closing(o)), d.toks[end].clone()], Some((end, 1)))
                    } else {
                        None
                    }
                }
                _ => {
                    if let Some(t) = ty {
                        if expects(t, d.f) & class != 0 {
                            return None;
                        }
                    }
                    edit("wrong opening bracket", at, at + 1, vec![punct(o)], Some((at, 1)))
                }
            }
        }
        Site::Close { at } => {
            let at = *at;
            if r.bool() {
                return edit("closing bracket missing", at, at + 1, vec![], None);
            }
            let others: Vec<&str> = ["]", "}", ")"].iter().copied().filter(|o| *o != d.toks[at].s).collect();
            edit("wrong closing bracket", at, at + 1, vec![punct(r.pick(&others))], Some((at, 1)))
        }
        Site::Required { start, end, comma_before, comma_after, close } => {
            let (s, e) = match (comma_before, comma_after) {
                (_, Some(c)) => (*start, *c + 1),
                (Some(c), None) => (*c, *end),
                (None, None) => (*start, *end),
            };
            edit("required member missing", s, e, vec![], Some((*close - (e - s), 1)))
        }
        Site::Fixed { open, close, items } => {
            if items.is_empty() || r.bool() {
                // one more
                let mut with = vec![];
                let at;
                if items.is_empty() {
                    at = *close;
                } else {
                    let last = items.last().unwrap();
                    at = *close;
                    if last.2.is_none() {
                        with.push(punct(","));
                    }
                }
                let n0 = with.len();
                if items.is_empty() {
                    with.push(tok("0", TK::Num));
                } else {
                    let last = items.last().unwrap();
                    with.extend(d.toks[last.0..last.1].iter().cloned());
                }
                // with one element, the wrapper does not take a comma in every place: no position then
                let bad = if items.len() == 1 { None } else { Some((at + n0, 1)) };
                return edit("one element too many", at, at, with, bad);
            }
            let i = r.below(items.len());
            let (s, e) = match (i, items[i].2) {
                (_, Some(c)) => (items[i].0, c + 1),
                (0, None) => (items[i].0, items[i].1),
                (_, None) => (items[i - 1].2.unwrap(), items[i].1),
            };
            let _ = open;
            // elements of other types may fail before the end: the position is certain only for the last
            let bad = if i + 1 == items.len() { Some((*close - (e - s), 1)) } else { None };
            // without the last element but with the comma, or without both: the closing bracket comes too early
            edit("one element too few", s, e, vec![], bad)
        }
        Site::Variant { at, start, end, shape, names, old, inside } => {
            let (at, start, end) = (*at, *start, *end);
            let unknown = {
                let mut n = names[r.below(names.len())].to_string();
                loop {
                    // the Rust name of a renamed variant
                    if !old.is_empty() && r.chance(1, 3) {
                        break r.pick(old).to_string();
                    }
                    match r.below(4) {
                        0 => n.push('_'),
                        1 => n = n.chars().skip(1).collect(),
                        2 => n = n.to_lowercase(),
                        _ => n = "Zqx".into(),
                    }
                    let plain = json || n.chars().next().is_some_and(|c| c.is_ascii_alphabetic()) && !["true", "false"].contains(&n.as_str());
                    if plain && !names.contains(&n.as_str()) && !(n == "None") {
                        break n;
                    }
                    if n.len() < 2 {
                        n = "Zqx".into();
                    }
                }
            };
            match r.below(3) {
                0 | 1 => {
                    let t = if json { str_tok(r, &unknown, d.f, true, &mut 0) } else { tok(unknown, TK::Word) };
                    let look = if json && *shape != Shape::Unit { 2 } else { 1 };
                    edit("unknown variant", at, at + 1, vec![t], Some((at, look)))
                }
                _ => match shape {
                    Shape::Unit if json => edit("unit variant with content", start, end, vec![punct("{"), d.toks[at].clone(), punct(":"), rep(r, NULL).remove(0), punct("}")], None),
                    Shape::Unit if *inside => edit("unit variant with content", start, end, vec![d.toks[at].clone(), punct("("), punct(")")], Some((at + 1, 1))),
                    Shape::Unit => None,
                    _ if json => match r.below(4) {
                        0 => edit("variant without content", start, end, vec![d.toks[at].clone()], Some((start, 1))),
                        1 => edit("empty variant object", start, end, vec![punct("{"), punct("}")], Some((start + 1, 1))),
                        2 => edit("two variants in one object", end - 1, end, vec![punct(","), d.toks[at].clone(), punct(":"), tok("null", TK::Word), punct("}")], Some((end - 1, 1))),
                        _ => {
                            let c = *r.pick(&[NULL, BOOL, POS, STR, if *shape == Shape::Tuple { OBJ } else { ARR }]);
                            let mut with = rep(r, c);
                            let n = with.len();
                            with.insert(0, punct(":"));
                            let _ = n;
                            edit("variant content of the wrong kind", at + 1, end - 1, with, Some((at + 2, 1)))
                        }
                    },
                    _ => match r.below(2) {
                        0 => edit("variant without content", start, end, vec![d.toks[at].clone()], Some((start + 1, 1))),
                        _ => {
                            let c = *r.pick(&[BOOL, POS, STR, ARR, OBJ]);
                            let with = rep(r, c);
                            edit("variant content of the wrong kind", at + 1, end, with, Some((at + 1, 1)))
                        }
                    },
                },
            }
        }
        Site::Fields { open, close, known, old } => {
            if json {
                return None;
            }
            let mut n = if known.is_empty() { "zqx".to_string() } else { known[r.below(known.len())].to_string() };
            loop {
                if !old.is_empty() && r.chance(1, 2) && old.iter().any(|o| ident(o)) {
                    n = r.pick(old).to_string();
                    if ident(&n) {
                        break;
                    }
                }
                n.push('_');
                if !known.contains(&n.as_str()) {
                    break;
                }
            }
            let mut with = vec![d.toks[*open].clone(), tok(n, TK::Word), punct(":"), tok("1", TK::Num)];
            if *close != *open + 1 {
                with.push(punct(","));
            }
            edit("unknown field", *open, *open + 1, with, Some((*open + 1, 1)))
        }
    }
}
fn ident(s: &str) -> bool {
    s.chars().next().is_some_and(|c| c.is_ascii_alphabetic() || c == '_') && s.chars().all(|c| c.is_ascii_alphanumeric() || c == '_')
}
fn closing(o: &str) -> &'static str {
    match o {
        "[" => "]",
        "{" => "}",
        _ => ")",
    }
}
/// The end of the value that starts at this token.
fn value_end(d: &Doc, at: usize) -> Option<usize> {
    d.sites
        .iter()
        .filter_map(|s| match s {
            Site::Value { start, end, .. } if *start == at => Some(*end),
            _ => None,
        })
        .max()
}
fn bad_string(r: &mut Rng, d: &Doc, at: usize) -> Option<Edit> {
    let t = &d.toks[at].s;
    let inner = &t[1..t.len() - 1];
    let mut e = Edit { name: "", start: at, end: at + 1, with: vec![], bad: Some((at, 1)), plain: false };
    let s = match r.below(6) {
        0 => {
            e.name = "string not closed";
            if d.toks[at + 1..].iter().any(|t| t.s.contains('"')) {
                return None;
            }
            e.plain = true;
            e.bad = None;
            format!("\"{inner}\\\"")
        }
        1 => {
            e.name = "string not closed";
            if d.toks[at + 1..].iter().any(|t| t.s.contains('"')) {
                return None;
            }
            e.plain = true;
            e.bad = None;
            format!("\"{inner}")
        }
        k => {
            e.name = if k < 4 { "lone surrogate" } else { "incomplete escape" };
            let x = if k < 4 {
                *r.pick(&["\\ud800", "\\uDFFF", "\\udc00\\ud800", "\\uD83D\\u0041", "\\ud83dx", "\\ud83d\\n", "\\uDBFF\\uDBFF", "\\ud83d \\ude00", "\\uD83D\\uE000", "\\udc00"])
            } else {
                *r.pick(&["\\u12", "\\u", "\\u12g4", "\\u+123", "\\u 123", "\\u{41}", "\\u004", "\\uD83D\\u", "\\uD83D\\uDE0", "\\uD83D\\u{DE00}", "\\u-041", "\\u00\u{e9}1", "\\u\u{ff11}234"])
            };
            // before, after or between the rest
            let tail = *r.pick(&["", "z", "\u{e9}", " "]);
            if r.bool() {
                format!("\"{inner}{x}{tail}\"")
            } else {
                // x and its tail cannot run into hex digits or a trailing surrogate
                format!("\"{x}z{inner}\"")
            }
        }
    };
    e.with = vec![tok(s, TK::Str)];
    Some(e)
}
pub fn apply(toks: &[Tok], e: &Edit) -> Vec<Tok> {
    let mut v = toks[..e.start].to_vec();
    v.extend(e.with.iter().cloned());
    v.extend(toks[e.end..].iter().cloned());
    v
}
