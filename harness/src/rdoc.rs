//! A strict reader of the RON this library writes, led by the type and the value.
use crate::gen::{omitted, Fmt};
use crate::model::*;

pub struct R<'a> {
    s: &'a str,
    i: usize,
}
/// The text is RON for exactly this value of the type.
pub fn denotes(t: &Ty, v: &Val, s: &str) -> Result<(), String> {
    let mut r = R { s, i: 0 };
    r.val(t, v)?;
    r.ws();
    if r.i != s.len() {
        return r.err("text after the value");
    }
    Ok(())
}
impl<'a> R<'a> {
    fn err<T>(&self, m: &str) -> Result<T, String> {
        Err(format!("{m} at byte {}: {:?}", self.i, clip(&self.s[self.i.min(self.s.len())..], 60)))
    }
    fn ws(&mut self) {
        while let Some(c) = self.s[self.i..].chars().next() {
            if !matches!(c, ' ' | '\t' | '\n' | '\r') {
                break;
            }
            self.i += 1;
        }
    }
    fn eat(&mut self, p: &str) -> bool {
        self.ws();
        if self.s[self.i..].starts_with(p) {
            self.i += p.len();
            return true;
        }
        false
    }
    fn need(&mut self, p: &str) -> Result<(), String> {
        if self.eat(p) {
            Ok(())
        } else {
            self.err(&format!("expected {p}"))
        }
    }
    fn word(&mut self) -> &'a str {
        self.ws();
        let s = &self.s[self.i..];
        let n = s.find(|c: char| !(c.is_ascii_alphanumeric() || "_.+-".contains(c))).unwrap_or(s.len());
        self.i += n;
        &s[..n]
    }
    fn exact(&mut self, w: &str) -> Result<(), String> {
        let at = self.i;
        let g = self.word();
        if g == w {
            return Ok(());
        }
        self.i = at;
        self.err(&format!("expected {w}"))
    }
    fn string(&mut self) -> Result<String, String> {
        self.need("\"")?;
        let mut o = String::new();
        let mut it = self.s[self.i..].char_indices();
        loop {
            match it.next() {
                None => return self.err("string not closed"),
                Some((n, '"')) => {
                    self.i += n + 1;
                    return Ok(o);
                }
                Some((_, '\\')) => match it.next() {
                    Some((_, 'n')) => o.push('\n'),
                    Some((_, 'r')) => o.push('\r'),
                    Some((_, 't')) => o.push('\t'),
                    Some((_, 'b')) => o.push('\u{8}'),
                    Some((_, 'f')) => o.push('\u{c}'),
                    Some((_, '0')) => o.push('\0'),
                    Some((_, c @ ('"' | '\\' | '/' | '\''))) => o.push(c),
                    Some((_, 'u')) => {
                        let h: String = it.by_ref().take(4).map(|x| x.1).collect();
                        match u32::from_str_radix(&h, 16).ok().filter(|_| h.len() == 4).and_then(char::from_u32) {
                            Some(c) => o.push(c),
                            None => return self.err("bad \\u escape"),
                        }
                    }
                    _ => return self.err("bad escape"),
                },
                Some((_, c)) => o.push(c),
            }
        }
    }
    fn float(&mut self, ok: impl Fn(&str) -> bool, want: String) -> Result<(), String> {
        let at = self.i;
        let w = self.word();
        if w.bytes().any(|b| b.is_ascii_digit()) && ok(w) {
            return Ok(());
        }
        self.i = at;
        self.err(&format!("expected {want}"))
    }
    /// items with commas between, one more allowed at the end
    fn list(&mut self, open: &str, close: &str, n: usize, mut f: impl FnMut(&mut Self, usize) -> Result<(), String>) -> Result<(), String> {
        self.need(open)?;
        for i in 0..n {
            f(self, i)?;
            if !self.eat(",") && i + 1 < n {
                return self.err("expected ,");
            }
        }
        self.need(close)
    }
    fn dur(&mut self, s: u64, n: u32) -> Result<(), String> {
        let mut seen = (false, false);
        self.need("{")?;
        loop {
            if self.eat("}") {
                break;
            }
            let k = self.string()?;
            self.need(":")?;
            match k.as_str() {
                "secs" if !seen.0 => {
                    seen.0 = true;
                    self.exact(&s.to_string())?;
                }
                "nanos" if !seen.1 => {
                    seen.1 = true;
                    self.exact(&n.to_string())?;
                }
                _ => return self.err("expected secs or nanos"),
            }
            if !self.eat(",") {
                self.need("}")?;
                break;
            }
        }
        if !seen.0 || !seen.1 && n != 0 {
            return self.err("a member of the duration is missing");
        }
        Ok(())
    }
    fn val(&mut self, t: &Ty, v: &Val) -> Result<(), String> {
        match (t, v) {
            (Ty::F32, Val::F32(b)) => self.float(|w| w.parse::<f32>().is_ok_and(|x| x.to_bits() == *b), format!("{:?}", f32::from_bits(*b))),
            (Ty::F64, Val::F64(b)) => self.float(|w| w.parse::<f64>().is_ok_and(|x| x.to_bits() == *b), format!("{:?}", f64::from_bits(*b))),
            (_, Val::U(x)) => self.exact(&x.to_string()),
            (_, Val::I(x)) => self.exact(&x.to_string()),
            (Ty::Bool, Val::Bool(b)) => self.exact(&b.to_string()),
            (Ty::Str, Val::Str(s)) => {
                let at = self.i;
                let g = self.string()?;
                if g != *s {
                    self.i = at;
                    return self.err(&format!("expected the string {:?}", clip(s, 200)));
                }
                Ok(())
            }
            (Ty::Unit, _) => self.list("(", ")", 0, |_, _| Ok(())),
            (Ty::Dur, Val::Dur(s, n)) => self.dur(*s, *n),
            (Ty::Time, Val::Time(None)) => self.exact("None"),
            (Ty::Time, Val::Time(Some((s, n)))) => self.dur(*s, *n),
            (Ty::Opt(_), Val::Opt(None)) => self.exact("None"),
            (Ty::Opt(t), Val::Opt(Some(x))) => self.val(t, x),
            (Ty::Boxed(t), x) => self.val(t, x),
            (Ty::Vec(t) | Ty::List(t) | Ty::HSet(t) | Ty::BSet(t), Val::Seq(xs)) => self.list("[", "]", xs.len(), |r, i| r.val(t, &xs[i])),
            (Ty::Arr(t, _), Val::Seq(xs)) => self.list("(", ")", xs.len(), |r, i| r.val(t, &xs[i])),
            (Ty::Tup(ts), Val::Seq(xs)) => self.list("(", ")", xs.len(), |r, i| r.val(&ts[i], &xs[i])),
            (Ty::HMap(k, t) | Ty::BMap(k, t), Val::Map(xs)) => self.list("{", "}", xs.len(), |r, i| {
                r.val(k, &xs[i].0)?;
                r.need(":")?;
                r.val(t, &xs[i].1)
            }),
            (Ty::Named(n, g), v) => self.named(&def(n, *g), v),
            (_, v) => bad(v),
        }
    }
    fn members(&mut self, d: &Def, fs: &[Field], xs: &[Val]) -> Result<(), String> {
        let mut todo: Vec<usize> = (0..fs.len()).filter(|i| !fs[*i].skip && !omitted(d, &fs[*i], &xs[*i], Fmt::Ron)).collect();
        let n = todo.len();
        self.list("(", ")", n, |r, _| {
            let at = r.i;
            let w = r.word();
            let Some(p) = todo.iter().position(|i| fs[*i].ext() == w) else {
                r.i = at;
                return r.err("expected one of the fields");
            };
            let i = todo.remove(p);
            r.need(":")?;
            r.val(&fs[i].ty, &xs[i])
        })
    }
    fn named(&mut self, d: &Def, v: &Val) -> Result<(), String> {
        match (&d.body, v) {
            (Body::Struct(Shape::Named, fs), Val::Struct(xs)) => self.members(d, fs, xs),
            (Body::Struct(_, fs), Val::Struct(xs)) => self.list("(", ")", fs.len(), |r, i| r.val(&fs[i].ty, &xs[i])),
            (Body::Enum(vs), Val::Enum(i, xs)) => {
                let va = &vs[*i];
                self.exact(va.ext())?;
                match va.shape {
                    Shape::Unit => Ok(()),
                    Shape::Tuple => self.list("(", ")", xs.len(), |r, i| r.val(&va.fields[i].ty, &xs[i])),
                    Shape::Named => self.members(d, &va.fields, xs),
                }
            }
            (Body::Proxy(p, _), v) => self.val(&p.ty, &(p.to)(v)),
            _ => bad(v),
        }
    }
}
