//! The binary layout, written from its description and not from the code under test.
use crate::model::*;

/// Places in an encoding that can be spoiled.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum BSite {
    /// a string: its length prefix, its bytes
    Str { at: usize, start: usize, len: usize },
    Disc { at: usize, n: usize },
    /// the seconds of a duration; its nanoseconds follow
    Dur { at: usize },
    /// a time: the seconds follow the tag
    Time { at: usize },
    /// the length of a collection whose elements take at least `min` bytes
    Len { at: usize, min: usize },
}
/// Writes the layout; with a source of choices, any of the encodings a value has.
pub struct Enc<'a> {
    pub o: Vec<u8>,
    pub r: Option<&'a mut crate::rng::Rng>,
    pub sites: Vec<BSite>,
    pub want_sites: bool,
    /// choices made other than the encoder's own
    pub odd: u32,
}
pub fn enc(t: &Ty, v: &Val, o: &mut Vec<u8>) {
    let mut e = Enc { o: std::mem::take(o), r: None, sites: vec![], want_sites: false, odd: 0 };
    e.enc(t, v);
    *o = e.o;
}
impl<'a> Enc<'a> {
    fn chance(&mut self, a: usize, b: usize) -> bool {
        let x = self.r.as_mut().is_some_and(|r| r.chance(a, b));
        self.odd += x as u32;
        x
    }
    fn site(&mut self, s: BSite) {
        if self.want_sites {
            self.sites.push(s);
        }
    }
    fn len(&mut self, n: usize, el: &[&Ty]) {
        if self.want_sites {
            let at = self.o.len();
            let min = el.iter().map(|t| min_bin(t, &mut vec![])).sum();
            self.sites.push(BSite::Len { at, min });
        }
        self.o.extend_from_slice(&(n as u64).to_le_bytes());
    }
    fn none_tag(&mut self) {
        let mut b = 0;
        if self.chance(1, 2) {
            while b == 0 || b == 1 {
                b = self.r.as_mut().unwrap().u64() as u8;
            }
        }
        self.o.push(b);
    }
    fn dups(&mut self, n: usize) -> Vec<usize> {
        let mut idx: Vec<usize> = (0..n).collect();
        if n > 0 && self.chance(1, 3) {
            let r = self.r.as_mut().unwrap();
            for _ in 0..1 + r.below(2) {
                let k = r.below(n);
                let at = r.below(idx.len() + 1);
                idx.insert(at, k);
            }
        }
        idx
    }
    pub fn enc(&mut self, t: &Ty, v: &Val) {
        match (t, v) {
            (Ty::U8, Val::U(x)) => self.o.push(*x as u8),
            (Ty::U16, Val::U(x)) => self.o.extend_from_slice(&(*x as u16).to_le_bytes()),
            (Ty::U32, Val::U(x)) => self.o.extend_from_slice(&(*x as u32).to_le_bytes()),
            (Ty::U64, Val::U(x)) | (Ty::Usize, Val::U(x)) => self.o.extend_from_slice(&(*x as u64).to_le_bytes()),
            (Ty::U128, Val::U(x)) => self.o.extend_from_slice(&x.to_le_bytes()),
            (Ty::I8, Val::I(x)) => self.o.push(*x as u8),
            (Ty::I16, Val::I(x)) => self.o.extend_from_slice(&(*x as i16).to_le_bytes()),
            (Ty::I32, Val::I(x)) => self.o.extend_from_slice(&(*x as i32).to_le_bytes()),
            (Ty::I64, Val::I(x)) => self.o.extend_from_slice(&(*x as i64).to_le_bytes()),
            (Ty::I128, Val::I(x)) => self.o.extend_from_slice(&x.to_le_bytes()),
            (Ty::F32, Val::F32(b)) => self.o.extend_from_slice(&b.to_le_bytes()),
            (Ty::F64, Val::F64(b)) => self.o.extend_from_slice(&b.to_le_bytes()),
            (Ty::Bool, Val::Bool(b)) => {
                let mut x = *b as u8;
                if *b && self.chance(1, 2) {
                    x = (1 + self.r.as_mut().unwrap().below(255)) as u8;
                }
                self.o.push(x)
            }
            (Ty::Str, Val::Str(s)) => {
                let at = self.o.len();
                self.site(BSite::Str { at, start: at + 8, len: s.len() });
                self.o.extend_from_slice(&(s.len() as u64).to_le_bytes());
                self.o.extend_from_slice(s.as_bytes());
            }
            (Ty::Unit, _) => {}
            (Ty::Dur, Val::Dur(s, n)) => {
                self.site(BSite::Dur { at: self.o.len() });
                self.o.extend_from_slice(&s.to_le_bytes());
                self.o.extend_from_slice(&n.to_le_bytes());
            }
            (Ty::Time, Val::Time(x)) => match x {
                None => self.none_tag(),
                Some((s, n)) => {
                    self.site(BSite::Time { at: self.o.len() });
                    self.o.push(1);
                    self.o.extend_from_slice(&s.to_le_bytes());
                    self.o.extend_from_slice(&n.to_le_bytes());
                }
            },
            (Ty::Opt(_), Val::Opt(None)) => self.none_tag(),
            (Ty::Opt(t), Val::Opt(Some(x))) => {
                self.o.push(1);
                self.enc(t, x);
            }
            (Ty::Boxed(t), x) => self.enc(t, x),
            (Ty::Vec(t), Val::Seq(xs)) | (Ty::List(t), Val::Seq(xs)) => {
                self.len(xs.len(), &[t]);
                for x in xs {
                    self.enc(t, x);
                }
            }
            (Ty::HSet(t), Val::Seq(xs)) | (Ty::BSet(t), Val::Seq(xs)) => {
                let idx = self.dups(xs.len());
                self.len(idx.len(), &[t]);
                for i in idx {
                    self.enc(t, &xs[i]);
                }
            }
            (Ty::HMap(k, t), Val::Map(xs)) | (Ty::BMap(k, t), Val::Map(xs)) => {
                let idx = self.dups(xs.len());
                self.len(idx.len(), &[k, t]);
                for (p, i) in idx.iter().enumerate() {
                    self.enc(k, &xs[*i].0);
                    // an earlier or later entry of the same key holds another value
                    let j = if self.r.is_some() && idx.iter().filter(|x| *x == i).count() > 1 { (i + p) % xs.len() } else { *i };
                    self.enc(t, &xs[j].1);
                }
            }
            (Ty::Arr(t, _), Val::Seq(xs)) => xs.iter().for_each(|x| self.enc(t, x)),
            (Ty::Tup(ts), Val::Seq(xs)) => ts.iter().zip(xs).for_each(|(t, x)| self.enc(t, x)),
            (Ty::Named(n, f), v) => {
                let d = def(n, *f);
                match (&d.body, v) {
                    (Body::Struct(_, fs), Val::Struct(xs)) => self.fields(fs, xs),
                    (Body::Enum(vs), Val::Enum(i, xs)) => {
                        self.site(BSite::Disc { at: self.o.len(), n: vs.len() });
                        self.o.extend_from_slice(&(*i as u16).to_le_bytes());
                        self.fields(&vs[*i].fields, xs);
                    }
                    (Body::Proxy(p, _), v) => self.enc(&p.ty, &(p.to)(v)),
                    _ => bad(v),
                }
            }
            (_, v) => bad(v),
        }
    }
    fn fields(&mut self, fs: &[Field], xs: &[Val]) {
        for (f, x) in fs.iter().zip(xs) {
            if f.skip {
                continue;
            }
            match &f.proxy {
                Some(p) => self.enc(&p.ty, &(p.to)(x)),
                None => self.enc(&f.ty, x),
            }
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum BinFail {
    /// bytes are missing from this offset on
    Short { at: usize },
    Utf8 { start: usize, end: usize },
    Disc { at: usize, idx: u16 },
    /// nanoseconds or a time out of range, in the bytes start..end
    Range { start: usize, end: usize },
    /// the reference itself gave up (too much work)
    TooMuch,
}

pub struct Dec<'a> {
    pub d: &'a [u8],
    pub o: usize,
    pub steps: usize,
}
impl<'a> Dec<'a> {
    pub fn new(d: &'a [u8], o: usize) -> Self {
        Dec { d, o, steps: 2_000_000 }
    }
    fn take(&mut self, n: usize) -> Result<&'a [u8], BinFail> {
        if self.o > self.d.len() || n > self.d.len() - self.o {
            return Err(BinFail::Short { at: self.o });
        }
        let r = &self.d[self.o..self.o + n];
        self.o += n;
        Ok(r)
    }
    fn le(&mut self, n: usize) -> Result<u128, BinFail> {
        let b = self.take(n)?;
        let mut x = 0u128;
        for i in (0..n).rev() {
            x = x << 8 | b[i] as u128;
        }
        Ok(x)
    }
    fn les(&mut self, n: usize) -> Result<i128, BinFail> {
        let x = self.le(n)?;
        let sh = 128 - 8 * n as u32;
        Ok(((x << sh) as i128) >> sh)
    }
    fn dur(&mut self) -> Result<(u64, u32), BinFail> {
        let start = self.o;
        let s = self.le(8)? as u64;
        let n = self.le(4)? as u32;
        let range = BinFail::Range { start, end: self.o };
        if n > 1_000_000_000 {
            return Err(range);
        }
        if n == 1_000_000_000 {
            return s.checked_add(1).map(|s| (s, 0)).ok_or(range);
        }
        Ok((s, n))
    }
    pub fn dec(&mut self, t: &Ty) -> Result<Val, BinFail> {
        if self.steps == 0 {
            return Err(BinFail::TooMuch);
        }
        self.steps -= 1;
        Ok(match t {
            Ty::U8 => Val::U(self.le(1)?),
            Ty::U16 => Val::U(self.le(2)?),
            Ty::U32 => Val::U(self.le(4)?),
            Ty::U64 | Ty::Usize => Val::U(self.le(8)?),
            Ty::U128 => Val::U(self.le(16)?),
            Ty::I8 => Val::I(self.les(1)?),
            Ty::I16 => Val::I(self.les(2)?),
            Ty::I32 => Val::I(self.les(4)?),
            Ty::I64 => Val::I(self.les(8)?),
            Ty::I128 => Val::I(self.les(16)?),
            Ty::F32 => Val::F32(self.le(4)? as u32),
            Ty::F64 => Val::F64(self.le(8)? as u64),
            Ty::Bool => Val::Bool(self.le(1)? != 0),
            Ty::Str => {
                let n = self.le(8)? as usize;
                let at = self.o;
                let b = self.take(n)?;
                match std::str::from_utf8(b) {
                    Ok(s) => Val::Str(s.to_owned()),
                    Err(_) => return Err(BinFail::Utf8 { start: at, end: self.o }),
                }
            }
            Ty::Unit => Val::Unit,
            Ty::Dur => {
                let (s, n) = self.dur()?;
                Val::Dur(s, n)
            }
            Ty::Time => {
                let start = self.o;
                if self.le(1)? == 1 {
                    let (s, n) = self.dur()?;
                    let t = std::time::UNIX_EPOCH.checked_add(std::time::Duration::new(s, n));
                    if t.is_none() {
                        return Err(BinFail::Range { start, end: self.o });
                    }
                    Val::Time(Some((s, n)))
                } else {
                    Val::Time(Some((0, 0)))
                }
            }
            Ty::Opt(t) => {
                if self.le(1)? == 1 {
                    Val::Opt(Some(Box::new(self.dec(t)?)))
                } else {
                    Val::Opt(None)
                }
            }
            Ty::Boxed(t) => self.dec(t)?,
            Ty::Vec(t) | Ty::List(t) | Ty::HSet(t) | Ty::BSet(t) => {
                let n = self.le(8)? as usize;
                let mut v = vec![];
                for _ in 0..n {
                    v.push(self.dec(t)?);
                }
                Val::Seq(v)
            }
            Ty::HMap(k, t) | Ty::BMap(k, t) => {
                let n = self.le(8)? as usize;
                let mut m: Vec<(Val, Val)> = vec![];
                for _ in 0..n {
                    let a = self.dec(k)?;
                    let b = self.dec(t)?;
                    m.push((a, b));
                }
                Val::Map(m)
            }
            Ty::Arr(t, n) => {
                let mut v = vec![];
                for _ in 0..*n {
                    v.push(self.dec(t)?);
                }
                Val::Seq(v)
            }
            Ty::Tup(ts) => {
                let mut v = vec![];
                for t in ts {
                    v.push(self.dec(t)?);
                }
                Val::Seq(v)
            }
            Ty::Named(n, f) => {
                let d = def(n, *f);
                match &d.body {
                    Body::Struct(_, fs) => Val::Struct(self.fields(fs)?),
                    Body::Enum(vs) => {
                        let at = self.o;
                        let i = self.le(2)? as usize;
                        if i >= vs.len() {
                            return Err(BinFail::Disc { at, idx: i as u16 });
                        }
                        Val::Enum(i, self.fields(&vs[i].fields)?)
                    }
                    Body::Proxy(p, _) => (p.from)(&self.dec(&p.ty)?),
                }
            }
        })
    }
    fn fields(&mut self, fs: &[Field]) -> Result<Vec<Val>, BinFail> {
        let mut v = vec![];
        for f in fs {
            v.push(if f.skip {
                ty_default(&f.ty)
            } else if let Some(p) = &f.proxy {
                (p.from)(&self.dec(&p.ty)?)
            } else {
                self.dec(&f.ty)?
            });
        }
        Ok(v)
    }
}
/// Collapse repeated set members and map keys (the last map value wins) and sort: how decoded values compare.
pub fn collapse(t: &Ty, v: &Val) -> Val {
    match (t, v) {
        (Ty::Opt(t), Val::Opt(Some(x))) => Val::Opt(Some(Box::new(collapse(t, x)))),
        (Ty::Boxed(t), x) => collapse(t, x),
        (Ty::Vec(t), Val::Seq(xs)) | (Ty::List(t), Val::Seq(xs)) | (Ty::Arr(t, _), Val::Seq(xs)) => {
            Val::Seq(xs.iter().map(|x| collapse(t, x)).collect())
        }
        (Ty::HSet(t), Val::Seq(xs)) | (Ty::BSet(t), Val::Seq(xs)) => {
            let mut v: Vec<Val> = xs.iter().map(|x| collapse(t, x)).collect();
            v.sort();
            v.dedup();
            Val::Seq(v)
        }
        (Ty::HMap(k, t), Val::Map(xs)) | (Ty::BMap(k, t), Val::Map(xs)) => {
            let m: std::collections::BTreeMap<Val, Val> =
                xs.iter().map(|(a, b)| (collapse(k, a), collapse(t, b))).collect();
            Val::Map(m.into_iter().collect())
        }
        (Ty::Tup(ts), Val::Seq(xs)) => Val::Seq(ts.iter().zip(xs).map(|(t, x)| collapse(t, x)).collect()),
        (Ty::Named(n, f), v) => {
            let d = def(n, *f);
            collapse_def(&d, v)
        }
        (_, v) => v.clone(),
    }
}
fn collapse_def(d: &Def, v: &Val) -> Val {
    match (&d.body, v) {
        (Body::Struct(_, fs), Val::Struct(xs)) => Val::Struct(fs.iter().zip(xs).map(|(f, x)| collapse(&f.ty, x)).collect()),
        (Body::Enum(vs), Val::Enum(i, xs)) => {
            Val::Enum(*i, vs[*i].fields.iter().zip(xs).map(|(f, x)| collapse(&f.ty, x)).collect())
        }
        (Body::Proxy(_, inner), v) => collapse_def(inner, v),
        _ => v.clone(),
    }
}
