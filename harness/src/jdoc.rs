//! A strict RFC 8259 parser, and the data a value denotes in JSON.
use crate::gen::{omitted, Fmt};
use crate::model::*;

#[derive(Clone, Debug, PartialEq)]
pub enum J {
    Null,
    Bool(bool),
    /// as written
    Num(String),
    Str(String),
    Arr(Vec<J>),
    Obj(Vec<(String, J)>),
}
pub struct P<'a> {
    b: &'a [u8],
    i: usize,
    depth: usize,
}
/// One document, nothing else but white space.
pub fn parse(s: &str) -> Result<J, String> {
    let mut p = P { b: s.as_bytes(), i: 0, depth: 0 };
    p.ws();
    let v = p.value()?;
    p.ws();
    if p.i != p.b.len() {
        return Err(format!("text after the document at byte {}", p.i));
    }
    Ok(v)
}
impl<'a> P<'a> {
    fn ws(&mut self) {
        while self.i < self.b.len() && matches!(self.b[self.i], b' ' | b'\t' | b'\n' | b'\r') {
            self.i += 1;
        }
    }
    fn peek(&self) -> Option<u8> {
        self.b.get(self.i).copied()
    }
    fn err<T>(&self, m: &str) -> Result<T, String> {
        Err(format!("{m} at byte {}", self.i))
    }
    fn value(&mut self) -> Result<J, String> {
        self.depth += 1;
        if self.depth > 20_000 {
            return self.err("too deep");
        }
        let r = match self.peek() {
            Some(b'n') => self.word("null", J::Null),
            Some(b't') => self.word("true", J::Bool(true)),
            Some(b'f') => self.word("false", J::Bool(false)),
            Some(b'"') => Ok(J::Str(self.string()?)),
            Some(b'[') => {
                self.i += 1;
                let mut v = vec![];
                self.ws();
                if self.peek() == Some(b']') {
                    self.i += 1;
                } else {
                    loop {
                        self.ws();
                        v.push(self.value()?);
                        self.ws();
                        match self.peek() {
                            Some(b',') => self.i += 1,
                            Some(b']') => {
                                self.i += 1;
                                break;
                            }
                            _ => return self.err("expected , or ]"),
                        }
                    }
                }
                Ok(J::Arr(v))
            }
            Some(b'{') => {
                self.i += 1;
                let mut v = vec![];
                self.ws();
                if self.peek() == Some(b'}') {
                    self.i += 1;
                } else {
                    loop {
                        self.ws();
                        if self.peek() != Some(b'"') {
                            return self.err("expected a member name");
                        }
                        let k = self.string()?;
                        self.ws();
                        if self.peek() != Some(b':') {
                            return self.err("expected :");
                        }
                        self.i += 1;
                        self.ws();
                        let x = self.value()?;
                        v.push((k, x));
                        self.ws();
                        match self.peek() {
                            Some(b',') => self.i += 1,
                            Some(b'}') => {
                                self.i += 1;
                                break;
                            }
                            _ => return self.err("expected , or }"),
                        }
                    }
                }
                Ok(J::Obj(v))
            }
            Some(b'-' | b'0'..=b'9') => self.number(),
            _ => self.err("expected a value"),
        };
        self.depth -= 1;
        r
    }
    fn word(&mut self, w: &str, v: J) -> Result<J, String> {
        if self.b[self.i..].starts_with(w.as_bytes()) {
            self.i += w.len();
            Ok(v)
        } else {
            self.err("bad literal")
        }
    }
    fn digits(&mut self) -> Result<(), String> {
        let s = self.i;
        while matches!(self.peek(), Some(b'0'..=b'9')) {
            self.i += 1;
        }
        if self.i == s {
            return self.err("expected a digit");
        }
        Ok(())
    }
    fn number(&mut self) -> Result<J, String> {
        let s = self.i;
        if self.peek() == Some(b'-') {
            self.i += 1;
        }
        if self.peek() == Some(b'0') {
            self.i += 1;
        } else {
            self.digits()?;
        }
        if self.peek() == Some(b'.') {
            self.i += 1;
            self.digits()?;
        }
        if matches!(self.peek(), Some(b'e' | b'E')) {
            self.i += 1;
            if matches!(self.peek(), Some(b'+' | b'-')) {
                self.i += 1;
            }
            self.digits()?;
        }
        Ok(J::Num(String::from_utf8(self.b[s..self.i].to_vec()).unwrap()))
    }
    fn hex(&mut self) -> Result<u32, String> {
        let mut x = 0;
        for _ in 0..4 {
            let d = match self.peek() {
                Some(c @ b'0'..=b'9') => c - b'0',
                Some(c @ b'a'..=b'f') => c - b'a' + 10,
                Some(c @ b'A'..=b'F') => c - b'A' + 10,
                _ => return self.err("bad hex digit"),
            };
            x = x * 16 + d as u32;
            self.i += 1;
        }
        Ok(x)
    }
    fn string(&mut self) -> Result<String, String> {
        self.i += 1;
        let mut o: Vec<u8> = vec![];
        loop {
            match self.peek() {
                None => return self.err("string not closed"),
                Some(b'"') => {
                    self.i += 1;
                    return String::from_utf8(o).map_err(|_| "invalid UTF-8".into());
                }
                Some(c) if c < 0x20 => return self.err("control character in a string"),
                Some(b'\\') => {
                    self.i += 1;
                    let c = self.peek();
                    self.i += 1;
                    let x = match c {
                        Some(b'"') => '"',
                        Some(b'\\') => '\\',
                        Some(b'/') => '/',
                        Some(b'b') => '\u{8}',
                        Some(b'f') => '\u{c}',
                        Some(b'n') => '\n',
                        Some(b'r') => '\r',
                        Some(b't') => '\t',
                        Some(b'u') => {
                            let h = self.hex()?;
                            if (0xd800..0xdc00).contains(&h) {
                                if !self.b[self.i..].starts_with(b"\\u") {
                                    return self.err("lone surrogate");
                                }
                                self.i += 2;
                                let l = self.hex()?;
                                if !(0xdc00..0xe000).contains(&l) {
                                    return self.err("lone surrogate");
                                }
                                char::from_u32(0x10000 + ((h - 0xd800) << 10) + (l - 0xdc00)).unwrap()
                            } else {
                                match char::from_u32(h) {
                                    Some(c) => c,
                                    None => return self.err("lone surrogate"),
                                }
                            }
                        }
                        _ => return self.err("bad escape"),
                    };
                    o.extend_from_slice(x.encode_utf8(&mut [0; 4]).as_bytes());
                }
                Some(c) => {
                    o.push(c);
                    self.i += 1;
                }
            }
        }
    }
}

fn wrong<T>(path: &str, want: &str, j: &J) -> Result<T, String> {
    Err(format!("at {}: expected {want}, found {}", if path.is_empty() { "the top" } else { path }, clip(&format!("{j:?}"), 300)))
}
/// The document denotes exactly this value of the type.
pub fn denotes(t: &Ty, v: &Val, j: &J, path: &str) -> Result<(), String> {
    match (t, v, j) {
        (Ty::F32, Val::F32(b), J::Num(n)) => match n.parse::<f32>() {
            Ok(x) if x.to_bits() == *b => Ok(()),
            _ => wrong(path, &format!("{:?}", f32::from_bits(*b)), j),
        },
        (Ty::F64, Val::F64(b), J::Num(n)) => match n.parse::<f64>() {
            Ok(x) if x.to_bits() == *b => Ok(()),
            _ => wrong(path, &format!("{:?}", f64::from_bits(*b)), j),
        },
        (_, Val::U(x), J::Num(n)) => if *n == x.to_string() { Ok(()) } else { wrong(path, &x.to_string(), j) },
        (_, Val::I(x), J::Num(n)) => if *n == x.to_string() { Ok(()) } else { wrong(path, &x.to_string(), j) },
        (Ty::Bool, Val::Bool(b), J::Bool(x)) if b == x => Ok(()),
        (Ty::Str, Val::Str(s), J::Str(x)) if s == x => Ok(()),
        (Ty::Unit, _, J::Null) => Ok(()),
        (Ty::Dur, Val::Dur(s, n), J::Obj(m)) => dur(*s, *n, m, path, j),
        (Ty::Time, Val::Time(None), J::Null) => Ok(()),
        (Ty::Time, Val::Time(Some((s, n))), J::Obj(m)) => dur(*s, *n, m, path, j),
        (Ty::Opt(_), Val::Opt(None), J::Null) => Ok(()),
        (Ty::Opt(t), Val::Opt(Some(x)), j) => denotes(t, x, j, path),
        (Ty::Boxed(t), x, j) => denotes(t, x, j, path),
        (Ty::Vec(t) | Ty::List(t) | Ty::HSet(t) | Ty::BSet(t) | Ty::Arr(t, _), Val::Seq(xs), J::Arr(js)) => {
            if xs.len() != js.len() {
                return wrong(path, &format!("{} elements", xs.len()), j);
            }
            for (i, (x, j)) in xs.iter().zip(js).enumerate() {
                denotes(t, x, j, &format!("{path}[{i}]"))?;
            }
            Ok(())
        }
        (Ty::Tup(ts), Val::Seq(xs), J::Arr(js)) => tuple(&ts.iter().collect::<Vec<_>>(), xs, js, path, j),
        (Ty::HMap(k, t) | Ty::BMap(k, t), Val::Map(xs), J::Obj(m)) => {
            if xs.len() != m.len() {
                return wrong(path, &format!("{} members", xs.len()), j);
            }
            let mut names = std::collections::HashMap::new();
            for (n, x) in m {
                if names.insert(n, x).is_some() {
                    return wrong(path, "every key once", j);
                }
            }
            for (a, b) in xs {
                let n = key_name(k, a);
                match names.get(&n) {
                    Some(x) => denotes(t, b, x, &format!("{path}.{n:?}"))?,
                    None => return wrong(path, &format!("a member {n:?}"), j),
                }
            }
            Ok(())
        }
        (Ty::Named(n, g), v, j) => named(&def(n, *g), v, j, path),
        _ => wrong(path, &clip(&format!("{v:?}"), 200), j),
    }
}
fn dur(s: u64, n: u32, m: &[(String, J)], path: &str, j: &J) -> Result<(), String> {
    let want = [("secs", s.to_string(), false), ("nanos", n.to_string(), n == 0)];
    let mut used = 0;
    for (k, x, may_lack) in &want {
        let got = m.iter().filter(|e| e.0 == *k).count();
        used += got;
        if got == 0 && *may_lack {
            continue;
        }
        if got != 1 || !m.iter().any(|e| e.0 == *k && e.1 == J::Num(x.clone())) {
            return wrong(path, &format!("{k} {x}"), j);
        }
    }
    if m.len() != used {
        return wrong(path, "secs and nanos only", j);
    }
    Ok(())
}
fn key_name(k: &Ty, v: &Val) -> String {
    match (k, v) {
        (Ty::Str, Val::Str(s)) => s.clone(),
        (Ty::Boxed(k), v) => key_name(k, v),
        (Ty::Opt(k), Val::Opt(Some(v))) => key_name(k, v),
        (Ty::Named(n, g), v) => {
            let d = def(n, *g);
            match (&d.body, v) {
                (Body::Enum(vs), Val::Enum(i, _)) => vs[*i].ext().to_string(),
                (Body::Struct(Shape::Tuple, fs), Val::Struct(xs)) if d.transparent => key_name(&fs[0].ty, &xs[0]),
                (Body::Proxy(p, _), v) => key_name(&p.ty, &(p.to)(v)),
                _ => bad(v),
            }
        }
        (_, v) => bad(v),
    }
}
fn tuple(ts: &[&Ty], xs: &[Val], js: &[J], path: &str, j: &J) -> Result<(), String> {
    if xs.len() != js.len() {
        return wrong(path, &format!("{} elements", xs.len()), j);
    }
    for (i, ((t, x), j)) in ts.iter().zip(xs).zip(js).enumerate() {
        denotes(t, x, j, &format!("{path}[{i}]"))?;
    }
    Ok(())
}
fn members(d: &Def, fs: &[Field], xs: &[Val], m: &[(String, J)], path: &str, j: &J) -> Result<(), String> {
    let mut used = 0;
    for (f, x) in fs.iter().zip(xs) {
        if f.skip {
            continue;
        }
        let got: Vec<&J> = m.iter().filter(|e| e.0 == f.ext()).map(|e| &e.1).collect();
        let none = f.is_opt() && *x == Val::Opt(None);
        if none && f.proxy.is_some() {
            // both are ways to say that it is absent
            if got.is_empty() || got.len() == 1 && *got[0] == J::Null {
                used += got.len();
                continue;
            }
            return wrong(path, &format!("no member {:?}", f.ext()), j);
        }
        if omitted(d, f, x, Fmt::Json) {
            if !got.is_empty() {
                return wrong(path, &format!("no member {:?}", f.ext()), j);
            }
            continue;
        }
        if got.len() != 1 {
            return wrong(path, &format!("one member {:?}", f.ext()), j);
        }
        used += 1;
        let p = format!("{path}.{}", f.ext());
        match &f.proxy {
            Some(pr) => {
                let x = match x {
                    Val::Opt(Some(y)) if f.is_opt() => y,
                    x => x,
                };
                denotes(&pr.ty, &(pr.to)(x), got[0], &p)?
            }
            None => denotes(&f.ty, x, got[0], &p)?,
        }
    }
    if used != m.len() {
        return wrong(path, &format!("only the members of {}", d.name), j);
    }
    Ok(())
}
fn named(d: &Def, v: &Val, j: &J, path: &str) -> Result<(), String> {
    match (&d.body, v, j) {
        (Body::Proxy(p, _), v, j) => denotes(&p.ty, &(p.to)(v), j, path),
        (Body::Struct(Shape::Tuple, fs), Val::Struct(xs), j) if d.transparent && fs.len() == 1 => denotes(&fs[0].ty, &xs[0], j, path),
        (Body::Struct(Shape::Unit, _), _, J::Obj(m)) if m.is_empty() => Ok(()),
        (Body::Struct(Shape::Tuple, fs), Val::Struct(xs), J::Arr(js)) => tuple(&fs.iter().map(|f| &f.ty).collect::<Vec<_>>(), xs, js, path, j),
        (Body::Struct(Shape::Named, fs), Val::Struct(xs), J::Obj(m)) => members(d, fs, xs, m, path, j),
        (Body::Enum(vs), Val::Enum(i, xs), j) => {
            let va = &vs[*i];
            match (va.shape, j) {
                (Shape::Unit, J::Str(s)) if s == va.ext() => Ok(()),
                (Shape::Tuple, J::Obj(m)) if m.len() == 1 && m[0].0 == va.ext() => match &m[0].1 {
                    J::Arr(js) => tuple(&va.fields.iter().map(|f| &f.ty).collect::<Vec<_>>(), xs, js, &format!("{path}.{}", va.ext()), &m[0].1),
                    j => wrong(path, "an array", j),
                },
                (Shape::Named, J::Obj(m)) if m.len() == 1 && m[0].0 == va.ext() => match &m[0].1 {
                    J::Obj(m2) => members(d, &va.fields, xs, m2, &format!("{path}.{}", va.ext()), &m[0].1),
                    j => wrong(path, "an object", j),
                },
                _ => wrong(path, &format!("variant {}", va.ext()), j),
            }
        }
        _ => wrong(path, &format!("{} {}", d.name, clip(&format!("{v:?}"), 200)), j),
    }
}
