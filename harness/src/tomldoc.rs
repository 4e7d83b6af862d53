//! TOML documents made from data: the data is what they denote. And ways to spoil them.
use crate::rng::Rng;
use std::collections::BTreeMap;
use std::fmt::Write as _;

#[derive(Clone, Debug)]
pub enum TV {
    Str(String),
    Bool(bool),
    Num(f64),
    Date(String),
    Arr(Vec<BTreeMap<String, TV>>),
    List(Vec<TV>),
}
pub type Table = BTreeMap<String, TV>;
impl PartialEq for TV {
    fn eq(&self, o: &TV) -> bool {
        match (self, o) {
            (TV::Str(a), TV::Str(b)) | (TV::Date(a), TV::Date(b)) => a == b,
            (TV::Bool(a), TV::Bool(b)) => a == b,
            (TV::Num(a), TV::Num(b)) => a.to_bits() == b.to_bits() || a.is_nan() && b.is_nan(),
            (TV::Arr(a), TV::Arr(b)) => a == b,
            (TV::List(a), TV::List(b)) => a == b,
            _ => false,
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum P {
    Key,
    QuotedKey,
    Eq,
    Open,
    Close,
    Comma,
    Num,
    Word,
    Str,
    Long,
    /// blanks, comments, line ends
    Gap,
}
#[derive(Clone, Debug)]
pub struct Piece {
    pub k: P,
    pub s: String,
    pub item: usize,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Item {
    Pair,
    Header,
    ArrayHeader,
}
pub struct Doc {
    pub pieces: Vec<Piece>,
    pub items: Vec<Item>,
    pub expect: Table,
    /// names of plain values, whole
    pub plain: Vec<String>,
    pub counts: Vec<(&'static str, u64)>,
}
impl Doc {
    pub fn text(&self) -> String {
        text(&self.pieces)
    }
    fn count(&mut self, k: &'static str) {
        if let Some(c) = self.counts.iter_mut().find(|c| c.0 == k) {
            c.1 += 1;
        } else {
            self.counts.push((k, 1));
        }
    }
    fn push(&mut self, k: P, s: impl Into<String>) {
        let item = self.items.len().max(1) - 1;
        self.pieces.push(Piece { k, s: s.into(), item });
    }
}
pub fn text(p: &[Piece]) -> String {
    p.iter().map(|p| p.s.as_str()).collect()
}

const WORDS: &[&str] = &[
    "a", "b", "c", "key", "name", "x-y", "under_score", "_", "_a", "A", "Z9", "true", "false", "inf", "nan", "nano", "infinity", "truex", "falsey", "i", "n", "in", "na", "é", "日本", "ß", "²x", "k1", "1a", "12b_c", "1_0a", "2-fast", "2024-01-01", "3d", "e5",
    "server", "T", "null", "none", "7.x", "10.0.1", "1.2-a", "007", "1_000", "1.50", "0", "3.14", "-", "--", "---", "-a", "-n", "-na", "-i", "-in", "-inf", "-nan", "-nano", "-inf.x", "-inf.5", "-nan-1", "-1", "-1.5", "-5x", "-_1", "--flag", "a-", "1-", "_1", "T1", "00", "0_0", "truefalse", "inf.nan", "true.false",
    "2024-01-01T00", "9223372036854775807", "1979-05-27T07",
];
fn bare(r: &mut Rng) -> String {
    match r.below(12) {
        0 => format!("{}.{}", word(r), word(r)),
        1 => format!("{}.{}.{}", word(r), word(r), word(r)),
        2 => format!("{}", r.below(100)),
        3 => {
            let n = r.range(1, 12);
            let abc: Vec<char> = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_-0123456789".chars().collect();
            let mut s = String::new();
            s.push(abc[r.below(53)]);
            for _ in 1..n {
                s.push(*r.pick(&abc));
            }
            s
        }
        _ => word(r),
    }
}
/// A name that can be written bare.
fn is_bare(s: &str) -> bool {
    !s.is_empty() && (WORDS.contains(&s) || s.split('.').all(|x| WORDS.contains(&x) || !x.is_empty() && x.chars().all(|c| c.is_ascii_alphanumeric() || c == '_')))
}
fn word(r: &mut Rng) -> String {
    r.pick(WORDS).to_string()
}
fn nasty(r: &mut Rng) -> char {
    match r.below(9) {
        0 => *r.pick(&['"', '\\', '#', '=', '[', ']', ',', '.', '\'', ' ']),
        1 => *r.pick(&['\n', '\t', '\r', '\u{8}', '\u{c}']),
        2 => *r.pick(&['é', 'ß', '日', '😀', '\u{10ffff}', '\u{fffd}', '\u{7f}', '\u{80}', '\u{ffff}', '\u{10000}', '\u{d7ff}', '\u{e000}']),
        3 => char::from_u32(r.below(0x110000) as u32).filter(|c| *c != '\0').unwrap_or('q'),
        4 => *r.pick(&['u', 'U', 'n', 't', 'b', 'f', 'r', 'x']),
        _ => (b'a' + r.below(26) as u8) as char,
    }
}
/// Write a character by an escape.
fn escaped(r: &mut Rng, c: char, o: &mut String) {
    let short = match c {
        '\u{8}' => Some('b'),
        '\t' => Some('t'),
        '\n' => Some('n'),
        '\u{c}' => Some('f'),
        '\r' => Some('r'),
        '"' => Some('"'),
        '\\' => Some('\\'),
        _ => None,
    };
    match short {
        Some(s) if r.chance(2, 3) => {
            o.push('\\');
            o.push(s);
        }
        _ => {
            let n = c as u32;
            let up = r.bool();
            let _ = match (n < 0x10000 && r.chance(2, 3), up) {
                (true, true) => write!(o, "\\u{n:04X}"),
                (true, false) => write!(o, "\\u{n:04x}"),
                (false, true) => write!(o, "\\U{n:08X}"),
                (false, false) => write!(o, "\\U{n:08x}"),
            };
        }
    }
}
fn basic(r: &mut Rng, s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        if c == '"' || c == '\\' || (c < ' ' && c != '\t') || c == '\u{7f}' || r.chance(1, 12) {
            escaped(r, c, &mut o);
        } else {
            o.push(c);
        }
    }
    o.push('"');
    o
}
fn multi(r: &mut Rng, s: &str) -> String {
    let mut o = String::from("\"\"\"");
    let mut trim = false;
    if r.bool() || s.starts_with('\n') {
        o.push_str(r.pick::<&str>(&["\n", "\n", "\r\n"]));
    }
    let mut run = 0;
    let cs: Vec<char> = s.chars().collect();
    for &c in &cs {
        if r.chance(1, 14) {
            o.push_str(r.pick::<&str>(&["\\\n", "\\\n  ", "\\\n\n\t ", "\\\r\n "]));
            run = 0;
            trim = true;
        }
        let blank = matches!(c, ' ' | '\t' | '\n' | '\r');
        let raw = match c {
            // up to two quotes may touch the closing ones
            '"' => run < 2 && !trim,
            '\\' => false,
            '\n' => !trim,
            '\t' | ' ' => !trim,
            c if c < ' ' || c == '\u{7f}' => false,
            _ => !r.chance(1, 14),
        };
        if raw {
            o.push(c);
            run = if c == '"' { run + 1 } else { 0 };
        } else {
            escaped(r, c, &mut o);
            run = 0;
        }
        if !blank || !raw {
            trim = false;
        }
    }
    o.push_str("\"\"\"");
    o
}
fn string(r: &mut Rng) -> String {
    let n = *r.pick(&[0, 0, 1, 1, 2, 3, 5, 9, 20, 60]);
    let n = if r.chance(1, 60) { r.range(61, 2000) } else { n };
    let n = if r.chance(1, 4000) { *r.pick(&[4095, 4096, 4097, 65_535, 65_536, 70_000]) } else { n };
    match r.below(20) {
        // runs of the same few characters
        0 => {
            let few = [nasty(r), *r.pick(&['"', '\\', '\n', ' ', '#', '\'', 'u'])];
            (0..n).map(|_| *r.pick(&few)).collect()
        }
        1 => r.pick(WORDS).to_string(),
        _ => (0..n).map(|_| nasty(r)).collect(),
    }
}
fn underscored(r: &mut Rng, d: &str) -> String {
    if !r.chance(1, 3) {
        return d.to_string();
    }
    let mut o = String::new();
    let many = r.chance(1, 3);
    for (i, c) in d.chars().enumerate() {
        if i > 0 && (many || r.chance(1, 3)) {
            o.push('_');
        }
        o.push(c);
    }
    o
}
fn sign(r: &mut Rng) -> &'static str {
    r.pick::<&str>(&["", "", "-", "+"])
}

struct Maker<'a> {
    r: &'a mut Rng,
    d: Doc,
    style: usize,
    /// some arrays nest deep
    deep: bool,
}
impl<'a> Maker<'a> {
    fn comment(&mut self) -> String {
        let n = match self.r.below(400) {
            0 => *self.r.pick(&[255, 256, 257, 1000, 4097, 70_000]),
            1..=20 => self.r.range(8, 100),
            _ => self.r.below(8),
        };
        let mut s = String::from("#");
        for _ in 0..n {
            let c = nasty(self.r);
            if c != '\n' {
                s.push(c);
            }
        }
        self.d.count("comments");
        s
    }
    /// blanks inside a line; `need`: at least one
    fn sp(&mut self, need: bool) {
        let s: &str = match self.style {
            0 => {
                if need {
                    " "
                } else {
                    ""
                }
            }
            _ => self.r.pick(if need { &[" ", "  ", "\t", " \t "] } else { &["", " ", "  ", "\t"] }),
        };
        if !s.is_empty() {
            self.d.push(P::Gap, s);
        }
    }
    /// line end, perhaps comments and blank lines
    fn nl(&mut self) {
        let mut s = String::new();
        if self.style > 0 && self.r.chance(1, 3) {
            s.push_str(self.r.pick::<&str>(&["", " ", "\t"]));
            s.push_str(&self.comment());
        } else if self.style > 0 {
            s.push_str(self.r.pick::<&str>(&["", "", " ", "\t "]));
        }
        let end = if self.style == 2 && self.r.bool() { "\r\n" } else { "\n" };
        s.push_str(end);
        if self.r.chance(1, 500) {
            // a long gap
            let n = *self.r.pick(&[254, 255, 256, 257, 1023, 1025, 4097, 66_000]);
            s.push_str(&self.r.pick::<&str>(&[" ", "\t", "\n", "\r\n", "#\n", " \n"]).repeat(n));
            s.push_str(end);
            self.d.count("long gaps");
        }
        while self.style > 0 && self.r.chance(1, 4) {
            s.push_str(self.r.pick::<&str>(&["", " ", "\t"]));
            if self.r.bool() {
                s.push_str(&self.comment());
            }
            s.push_str(end);
        }
        if self.style > 0 {
            s.push_str(self.r.pick::<&str>(&["", "", "", "  ", "\t"]));
        }
        self.d.push(P::Gap, s);
    }
    /// blanks, line ends and comments inside an array
    fn inner(&mut self) {
        if self.style == 0 {
            return;
        }
        match self.r.below(6) {
            0..=2 => {}
            3 | 4 => self.sp(false),
            _ => self.nl(),
        }
    }
    fn num(&mut self) -> (String, f64) {
        let r = &mut *self.r;
        match r.below(5) {
            0 | 1 => {
                let s = sign(r);
                let n: u64 = match r.below(7) {
                    0 => 0,
                    1 => i64::MAX as u64,
                    2 => i64::MAX as u64 - r.below(3) as u64,
                    3 => r.u64() >> 1,
                    4 => 1u64 << r.below(63),
                    5 => (1u64 << 53) + 1,
                    _ => r.below(1000) as u64,
                };
                if s == "-" && r.chance(1, 10) {
                    return ("-9223372036854775808".into(), i64::MIN as f64);
                }
                let v = if s == "-" { (-(n as i64)) as f64 } else { n as f64 };
                let d = underscored(r, &n.to_string());
                self.d.count("integers");
                (format!("{s}{d}"), v)
            }
            2 | 3 => {
                let s = sign(r);
                let a = match r.below(4) {
                    0 => "0".to_string(),
                    1 => r.below(10_000_000).to_string(),
                    2 => format!("{}", r.u128()),
                    _ => format!("{}", r.u64()),
                };
                let n = *r.pick(&[1, 1, 2, 3, 6, 17, 40]);
                let b: String = (0..n).map(|_| (b'0' + r.below(10) as u8) as char).collect();
                let v: f64 = format!("{}{a}.{b}", if s == "-" { "-" } else { "" }).parse().unwrap();
                let (a, b) = (underscored(r, &a), underscored(r, &b));
                self.d.count("fractions");
                (format!("{s}{a}.{b}"), v)
            }
            _ => {
                self.d.count("inf and nan");
                let s = sign(self.r);
                if self.r.bool() {
                    (format!("{s}inf"), if s == "-" { f64::NEG_INFINITY } else { f64::INFINITY })
                } else {
                    (format!("{s}nan"), f64::NAN)
                }
            }
        }
    }
    fn value(&mut self, depth: usize) -> TV {
        let deep = depth > 1 && depth < 40 && self.deep;
        match self.r.below(if deep { 30 } else if depth < 4 { 9 } else { 6 }) {
            0 | 1 => {
                let (s, v) = self.num();
                self.d.push(P::Num, s);
                TV::Num(v)
            }
            2 => {
                let b = self.r.bool();
                self.d.push(P::Word, if b { "true" } else { "false" });
                TV::Bool(b)
            }
            3 => {
                let r = &mut *self.r;
                let mut s = format!("{:04}-{:02}-{:02}", r.below(10000), r.range(1, 12), r.range(1, 31));
                if r.bool() {
                    s = format!("{s}T{:02}:{:02}:{:02}", r.below(24), r.below(60), r.below(60));
                }
                self.d.push(P::Word, s.clone());
                self.d.count("dates");
                TV::Date(s)
            }
            4 => {
                let s = string(self.r);
                let t = basic(self.r, &s);
                self.d.push(P::Str, t);
                self.d.count("strings");
                TV::Str(s)
            }
            5 => {
                let s = string(self.r);
                let t = multi(self.r, &s);
                self.d.push(P::Long, t);
                self.d.count("multi-line strings");
                TV::Str(s)
            }
            _ => {
                let n = match () {
                    _ if deep => self.r.range(0, 2),
                    _ if depth > 1 || !self.r.chance(1, 30) => *self.r.pick(&[0, 1, 2, 3, 5]),
                    _ => *self.r.pick(&[9, 16, 17, 40, 300]),
                };
                self.d.push(P::Open, "[");
                self.inner();
                let mut v = vec![];
                for i in 0..n {
                    v.push(self.value(depth + 1));
                    self.inner();
                    if i + 1 < n || self.r.chance(1, 4) {
                        self.d.push(P::Comma, ",");
                        self.inner();
                    }
                }
                self.d.push(P::Close, "]");
                self.d.count("arrays");
                TV::List(v)
            }
        }
    }
    fn key(&mut self) -> String {
        if self.r.chance(1, 6) {
            let s = string(self.r);
            let t = basic(self.r, &s);
            self.d.push(P::QuotedKey, t);
            self.d.count("quoted keys");
            s
        } else {
            let s = bare(self.r);
            self.d.push(P::Key, s.clone());
            if s.contains('.') {
                self.d.count("dotted keys");
            }
            s
        }
    }
}

/// A document, the data it denotes, and how it is put together.
pub fn make(r: &mut Rng, items: usize) -> Doc {
    let style = r.below(3);
    let deep = r.chance(1, 10);
    // mostly elements of one array of tables
    let rows = r.chance(1, 10);
    let mut m = Maker { deep, r, d: Doc { pieces: vec![], items: vec![], expect: Table::new(), plain: vec![], counts: vec![] }, style };
    // where keys go: the prefix, and the array element they belong to
    let mut prefix = String::new();
    let mut array: Option<String> = None;
    let mut arrays: Vec<String> = vec![];
    if style > 0 && m.r.chance(1, 3) {
        m.nl();
    }
    for i in 0..items {
        if i > 0 {
            m.nl();
        }
        match m.r.below(if rows { 3 } else { 9 }) {
            0 if !rows || m.r.chance(1, 4) => {
                // a table, perhaps inside the current array element
                m.d.items.push(Item::Header);
                m.d.push(P::Open, "[");
                m.sp(false);
                // only a bare name can be written so
                let inside = array.as_ref().is_some_and(|a| is_bare(a)) && m.r.bool();
                let name = if inside {
                    let s = format!("{}.{}", array.as_ref().unwrap(), word(m.r));
                    m.d.push(P::Key, s.clone());
                    m.d.count("tables in array elements");
                    s
                } else {
                    m.key()
                };
                m.sp(false);
                m.d.push(P::Close, "]");
                let nested = array.as_ref().is_some_and(|a| name.strip_prefix(a.as_str()).is_some_and(|x| x.starts_with('.')));
                if !nested {
                    array = None;
                }
                prefix = name;
                m.d.count("tables");
            }
            1 | 2 => {
                // an array of tables, new or continued
                let again = !arrays.is_empty() && (rows || m.r.chance(2, 3));
                let name = if again {
                    m.r.pick(&arrays).clone()
                } else if m.r.chance(1, 5) {
                    string(m.r)
                } else {
                    bare(m.r)
                };
                let free = matches!(m.d.expect.get(&name), None | Some(TV::Arr(_)));
                if !free {
                    m.d.items.push(Item::Pair);
                    pair(&mut m, &prefix, &array);
                    continue;
                }
                m.d.items.push(Item::ArrayHeader);
                m.d.push(P::Open, "[[");
                m.sp(false);
                if !is_bare(&name) || m.r.chance(1, 8) {
                    let t = basic(m.r, &name);
                    m.d.push(P::QuotedKey, t);
                    m.d.count("quoted names of arrays of tables");
                } else {
                    m.d.push(P::Key, name.clone());
                }
                m.sp(false);
                m.d.push(P::Close, "]]");
                match m.d.expect.entry(name.clone()).or_insert_with(|| TV::Arr(vec![])) {
                    TV::Arr(v) => v.push(Table::new()),
                    _ => unreachable!(),
                }
                if !arrays.contains(&name) {
                    arrays.push(name.clone());
                }
                array = Some(name);
                prefix.clear();
                m.d.count("array elements");
            }
            _ => {
                m.d.items.push(Item::Pair);
                pair(&mut m, &prefix, &array);
            }
        }
    }
    if m.r.bool() {
        m.nl();
    } else if style > 0 && m.r.chance(1, 3) {
        m.sp(false);
        let c = m.comment();
        m.d.push(P::Gap, c);
    }
    let plain = m.d.expect.iter().filter(|e| !matches!(e.1, TV::Arr(_))).map(|e| e.0.clone()).collect();
    m.d.plain = plain;
    m.d
}
fn pair(m: &mut Maker, prefix: &str, array: &Option<String>) {
    let k = m.key();
    m.sp(false);
    m.d.push(P::Eq, "=");
    m.sp(false);
    let v = m.value(0);
    let k = if prefix.is_empty() { k } else { format!("{prefix}.{k}") };
    let t = match array {
        Some(a) => match m.d.expect.get_mut(a) {
            Some(TV::Arr(v)) => v.last_mut().unwrap(),
            _ => unreachable!(),
        },
        None => &mut m.d.expect,
    };
    if t.insert(k, v).is_some() {
        m.d.count("keys assigned again");
    }
}

/// A spoiled document: what was done, the text, and the first and last character (counted) of the damage.
pub struct Spoiled {
    pub name: &'static str,
    pub text: String,
    pub from: usize,
    pub to: usize,
}
/// Where the pieces stop being a document at the earliest and at the latest (their number: at the end); None: they may be one.
/// Line ends mean nothing here, and commas between array elements are optional: what this refuses is no document in any reading.
fn refused(p: &[Piece]) -> Option<(usize, usize)> {
    let mut t: Vec<(P, usize)> = vec![];
    for (i, x) in p.iter().enumerate() {
        match x.k {
            P::Gap => {}
            P::Open | P::Close => t.extend(x.s.chars().filter(|c| "[]".contains(*c)).map(|_| (x.k, i))),
            // a name that may be read as a value
            P::Key if x.s.chars().all(|c| c.is_ascii_digit() || "-_.:T+".contains(c)) || x.s.contains("inf") || x.s.contains("nan") || x.s == "true" || x.s == "false" => t.push((P::Num, i)),
            k => t.push((k, i)),
        }
    }
    let name = |k: P| matches!(k, P::Key | P::QuotedKey | P::Num | P::Word | P::Str | P::Long);
    let mut i = 0;
    let get = |i: usize| t.get(i).map(|x| x.0);
    fn fail(t: &[(P, usize)], n: usize, i: usize, maybe: usize) -> Option<(usize, usize)> {
        let at = t.get(i).map_or(n, |x| x.1);
        Some((at.min(maybe), at))
    }
    let mut maybe = usize::MAX;
    while i < t.len() {
        if get(i) == Some(P::Open) {
            let n = if get(i + 1) == Some(P::Open) { 2 } else { 1 };
            i += n;
            if !get(i).is_some_and(name) {
                return fail(&t, p.len(), i, maybe);
            }
            for _ in 0..n {
                i += 1;
                if get(i) != Some(P::Close) {
                    return fail(&t, p.len(), i, maybe);
                }
            }
            i += 1;
            continue;
        }
        if !name(t[i].0) {
            return fail(&t, p.len(), i, maybe);
        }
        i += 1;
        if get(i) != Some(P::Eq) {
            return fail(&t, p.len(), i, maybe);
        }
        i += 1;
        let mut depth = 0;
        loop {
            match get(i) {
                Some(P::Open) => depth += 1,
                Some(P::Close) if depth > 0 => depth -= 1,
                Some(P::Comma) if depth > 0 => {}
                Some(k) if name(k) && k != P::Key => {
                    if p[t[i].1].k == P::Key {
                        maybe = maybe.min(t[i].1);
                    }
                }
                _ => return fail(&t, p.len(), i, maybe),
            }
            i += 1;
            if depth == 0 {
                break;
            }
        }
    }
    None
}
/// Spoil the document in one place; None: this way does not fit it.
pub fn spoil(r: &mut Rng, d: &Doc) -> Option<Spoiled> {
    let mut p = d.pieces.clone();
    let at = |r: &mut Rng, f: &dyn Fn(&Piece) -> bool| -> Option<usize> {
        let v: Vec<usize> = (0..d.pieces.len()).filter(|i| f(&d.pieces[*i])).collect();
        if v.is_empty() {
            None
        } else {
            Some(*r.pick(&v))
        }
    };
    let chars = |p: &[Piece]| -> usize { p.iter().map(|p| p.s.chars().count()).sum() };
    let next_token = |p: &[Piece], i: usize| -> usize {
        let mut j = i;
        while j < p.len() && p[j].k == P::Gap {
            j += 1;
        }
        j
    };
    // damage that is noticed at the token at or after piece i
    let done = |name: &'static str, p: &[Piece], i: usize| -> Option<Spoiled> {
        let j = next_token(p, i);
        let from = chars(&p[..j]);
        let to = if j < p.len() { chars(&p[..=j]) } else { from };
        Some(Spoiled { name, text: text(p), from, to })
    };
    // pieces of the value of the item that `eq` belongs to
    let value_of = |p: &[Piece], eq: usize| -> (usize, usize) {
        let s = next_token(p, eq + 1);
        let mut depth = 0usize;
        let mut e = s;
        loop {
            match p[e].k {
                P::Open => depth += 1,
                P::Close => depth -= 1,
                _ => {}
            }
            e += 1;
            if depth == 0 {
                return (s, e);
            }
        }
    };
    let bad_words: &[&str] = &[
        "abc", "yes", "True", "TRUE", "'lit'", "''", "{a=1}", "{}", "0x1F", "0o7", "0b1", "1e5", "1.5e3", "-", "+", "_1", "nano", "infinite", "-infx", "truefalse", "12:30:00", "1.2.3", "a.b", "=", "@", "1979-05-27T07:32:00Z", "12ab", "é",
    ];
    match r.below(20) {
        14..=19 => {
            // one token taken out, put in, doubled or replaced, or two exchanged
            // each bracket of a double one by itself
            if r.bool() {
                p = p
                    .into_iter()
                    .flat_map(|x| match &*x.s {
                        "[[" | "]]" => {
                            let half = Piece { k: x.k, s: x.s[1..].into(), item: x.item };
                            vec![half.clone(), half]
                        }
                        _ => vec![x],
                    })
                    .collect();
            }
            let all: Vec<usize> = (0..p.len()).filter(|i| p[*i].k != P::Gap).collect();
            if all.is_empty() {
                return None;
            }
            let i = *r.pick(&all);
            let any: &[(P, &str)] = &[
                (P::Eq, "="), (P::Eq, "="), (P::Open, "["), (P::Open, "[["), (P::Close, "]"), (P::Close, "]]"), (P::Comma, ","), (P::Comma, ","), (P::Key, "name"), (P::Key, "a.b"), (P::Key, "x-y"),
                (P::Num, "1"), (P::Num, "-2.5"), (P::Word, "true"), (P::Word, "1979-05-27"), (P::Num, "inf"), (P::Str, "\"s\""), (P::Long, "\"\"\"t\"\"\""), (P::Str, "\"\""),
            ];
            let made = |r: &mut Rng| {
                let (k, s) = *r.pick(any);
                Piece { k, s: s.into(), item: 0 }
            };
            let gap = |r: &mut Rng| Piece { k: P::Gap, s: (*r.pick::<&str>(&[" ", "\n", "\t", "\r\n", "\n#x\n"])).into(), item: 0 };
            // a comment at the end of a gap must not hide what follows
            let end = |r: &mut Rng, p: &[Piece]| if p.last().is_some_and(|q| q.k == P::Gap && q.s.rfind('#') > q.s.rfind('\n')) { Piece { k: P::Gap, s: "\n".into(), item: 0 } } else { gap(r) };
            let mut q: Vec<Piece> = vec![];
            let how = r.below(5);
            let other = *r.pick(&all);
            let new = made(r);
            let same_kind = (new.k == p[i].k && how == 3) || (how == 4 && p[i].k == p[other].k);
            if same_kind {
                return None;
            }
            for (j, x) in p.iter().enumerate() {
                let put: Vec<Piece> = if j == i {
                    match how {
                        0 => vec![],
                        1 => vec![new.clone(), x.clone()],
                        2 => vec![x.clone(), x.clone()],
                        3 => vec![new.clone()],
                        _ => vec![p[other].clone()],
                    }
                } else if j == other && how == 4 {
                    vec![p[i].clone()]
                } else {
                    q.push(x.clone());
                    continue;
                };
                for y in put {
                    let g = end(r, &q);
                    q.push(g);
                    q.push(y);
                }
                let g = end(r, &q);
                q.push(g);
            }
            let (first, bad) = refused(&q)?;
            let to = if bad < q.len() { chars(&q[..=bad]) } else { chars(&q) };
            // a name that has moved may be refused where it is now
            let from = match how {
                4 => chars(&p[..i.min(other)]).min(to),
                _ if first < q.len() => chars(&q[..first]),
                _ => to,
            };
            return Some(Spoiled { name: ["token left out", "token put in", "token doubled", "token replaced", "tokens exchanged"][how], text: text(&q), from, to });
        }
        0 => {
            let i = at(r, &|p| p.k == P::Eq)?;
            p.remove(i);
            p.insert(i, Piece { k: P::Gap, s: " ".into(), item: 0 });
            done("no equals sign", &p, i)
        }
        1 => {
            let i = at(r, &|p| p.k == P::Eq)?;
            let (s, e) = value_of(&p, i);
            let n = next_token(&p, e);
            if n < p.len() {
                // what follows must not be a value: a bare name after the blanks, or a header that holds one
                let k = if p[n].k == P::Open { next_token(&p, n + 1) } else { n };
                if p[k].k != P::Key || p[k].s.chars().all(|c| c.is_ascii_digit() || "-_.:T".contains(c)) || ["true", "false", "inf", "nan", "-inf", "-nan"].contains(&p[k].s.as_str()) {
                    return None;
                }
                p.drain(s..e);
                let mut sp = done("no value", &p, s)?;
                if p[next_token(&p, s)].k == P::Open {
                    let k = next_token(&p, s);
                    let k = next_token(&p, k + 1);
                    sp.to = chars(&p[..=k]);
                }
                return Some(sp);
            }
            p.drain(s..e);
            done("no value", &p, s)
        }
        2 => {
            // cut inside a string, an array or a header, or before a value
            let i = at(r, &|p| matches!(p.k, P::Str | P::Long | P::QuotedKey | P::Key | P::Eq | P::Open))?;
            let n = p[i].s.chars().count();
            let keep = match p[i].k {
                P::Long => {
                    let x = r.range(3, n - 1);
                    *r.pick(&[1, 3, n - 1, x])
                }
                P::Str | P::QuotedKey => r.range(1, n - 1),
                P::Key => r.range(1, n),
                _ => n,
            };
            let mut cut: String = p[i].s.chars().take(keep).collect();
            // quotes of the content may stand before the closing ones
            while p[i].k == P::Long && cut.len() > 5 && cut.ends_with("\"\"\"") {
                cut.pop();
            }
            // a whole number is a value only where a value stands
            p.truncate(i + 1);
            let from = chars(&p[..i]);
            p[i].s = cut;
            let t = text(&p);
            let to = t.chars().count();
            Some(Spoiled { name: "cut short", text: t, from, to })
        }
        3 => {
            // cut inside an array
            let i = at(r, &|p| p.k == P::Open && p.s == "[" && d.items[p.item] == Item::Pair)?;
            let mut depth = 0;
            let mut e = i;
            loop {
                match p[e].k {
                    P::Open => depth += 1,
                    P::Close => depth -= 1,
                    _ => {}
                }
                if depth == 0 {
                    break;
                }
                e += 1;
            }
            let stop = r.range(i + 1, e);
            p.truncate(stop);
            let t = text(&p);
            let n = t.chars().count();
            Some(Spoiled { name: "array cut short", text: t, from: n, to: n })
        }
        4 => {
            let i = at(r, &|p| p.k == P::Close)?;
            let header = d.items[p[i].item] != Item::Pair;
            if header {
                let s = &mut p[i].s;
                s.pop();
                let left = !s.is_empty();
                let at = if left { i + 1 } else { i };
                if !left {
                    p.remove(i);
                }
                // a name that runs on into the next
                done("header not closed", &p, at)
            } else {
                p.remove(i);
                let t = text(&p);
                let n = t.chars().count();
                let from = chars(&p[..i]);
                Some(Spoiled { name: "array not closed", text: t, from, to: n })
            }
        }
        5 => {
            let i = at(r, &|p| p.k == P::Open)?;
            let pair = d.items[p[i].item] == Item::Pair;
            if pair {
                // the first element stands alone, the rest cannot
                let from = chars(&p[..i]);
                p.remove(i);
                let to = text(&p).chars().count();
                return Some(Spoiled { name: "array not opened", text: text(&p), from, to });
            }
            let from = chars(&p[..i]);
            p[i].s.pop();
            let to = text(&p).chars().count();
            Some(Spoiled { name: "header not opened", text: text(&p), from, to })
        }
        6 => {
            let i = at(r, &|p| matches!(p.k, P::Str | P::Long | P::QuotedKey))?;
            let bad = *r.pick(&["\\u12", "\\u", "\\uD800", "\\udfff", "\\uD83D\\uDE00", "\\U00110000", "\\UFFFFFFFF", "\\U0000D800", "\\uzzzz", "\\u+123", "\\U1234567", "\\u 123", "\\U0011FFFF"]);
            let q = if p[i].k == P::Long { 3 } else { 1 };
            let cs: Vec<char> = p[i].s.chars().collect();
            // not in the middle of another escape: at the start or the end
            let pos = if r.bool() { q } else { cs.len() - q };
            let mut s: String = cs[..pos].iter().collect();
            let lead = s.chars().count();
            s.push_str(bad);
            // no digits that would complete it
            s.push('g');
            s.extend(&cs[pos..]);
            p[i].s = s;
            let from = chars(&p[..i]) + lead;
            Some(Spoiled { name: "bad escape", text: text(&p), from, to: from + bad.len() + 2 })
        }
        7 | 8 => {
            // a value that is none
            let i = at(r, &|p| matches!(p.k, P::Num | P::Word | P::Str | P::Long))?;
            let w = *r.pick(bad_words);
            p[i].s = w.into();
            let from = chars(&p[..i]);
            // followed by something that cannot go on with it
            let to = from + w.chars().count() + 1;
            let n = next_token(&p, i + 1);
            let to = if n < p.len() { chars(&p[..=n]).max(to) } else { chars(&p).max(to) };
            Some(Spoiled { name: "no value but a word", text: text(&p), from, to })
        }
        9 => {
            let i = at(r, &|p| matches!(p.k, P::Num))?;
            let s = *r.pick(&["9223372036854775808", "-9223372036854775809", "18446744073709551616", "18446744073709551615", "99999999999999999999999999", "-99999999999999999999", "+9223372036854775808", "9_223_372_036_854_775_808", "340282366920938463463374607431768211456"]);
            p[i].s = s.into();
            let from = chars(&p[..i]);
            Some(Spoiled { name: "integer too large", text: text(&p), from, to: from + s.len() })
        }
        10 => {
            // an array of tables under the name of a plain value
            let name = d.plain.iter().find(|k| !k.is_empty() && k.split('.').all(|x| x.chars().next().is_some_and(|c| c.is_ascii_alphabetic()) && x.chars().all(|c| c.is_ascii_alphanumeric())))?;
            let mut t = text(&p);
            t.push('\n');
            let from = t.chars().count();
            t.push_str(&format!("[[{name}]]"));
            let to = t.chars().count();
            if r.bool() {
                t.push_str("\nx = 1\n");
            }
            Some(Spoiled { name: "name of a value reused", text: t, from, to })
        }
        11 => {
            // a character that means nothing, between tokens
            let i = at(r, &|p| p.k != P::Gap)?;
            let c = *r.pick(&["@", "$", "!", ":", ";", "'", "{", "}", "(", "%", "/", "\0", "\u{1}", "\u{d7}"]);
            let from = chars(&p[..i]);
            p.insert(i, Piece { k: P::Word, s: format!(" {c} "), item: 0 });
            Some(Spoiled { name: "stray character", text: text(&p), from, to: from + 2 })
        }
        12 => {
            // a token where a line starts
            let firsts: Vec<usize> = (0..p.len()).filter(|i| p[*i].k != P::Gap && (*i == 0 || d.pieces[..*i].iter().rev().find(|q| q.k != P::Gap).is_none_or(|q| q.item != p[*i].item))).collect();
            if firsts.is_empty() {
                return None;
            }
            let i = *r.pick(&firsts);
            let c = *r.pick(&["=", "]", ",", "]]", "= 1"]);
            let from = chars(&p[..i]);
            p.insert(i, Piece { k: P::Word, s: format!("{c}\n"), item: 0 });
            Some(Spoiled { name: "stray token", text: text(&p), from, to: from + 1 })
        }
        _ => {
            // a string that is not closed, with nothing after it that could close it
            let i = at(r, &|p| matches!(p.k, P::Str | P::Long | P::QuotedKey))?;
            if p[i + 1..].iter().any(|q| q.s.contains('"')) {
                return None;
            }
            let from = chars(&p[..i]);
            let n = if p[i].k == P::Long { r.range(1, 3) } else { 1 };
            if p[i].k == P::Long {
                while p[i].s.len() > 6 && p[i].s[3..].ends_with("\"\"\"\"") {
                    p[i].s.pop();
                }
            }
            for _ in 0..n {
                p[i].s.pop();
            }
            if p[i].k == P::Long && p[i].s.len() < 4 && p[i].s == "\"\"" {
                return None;
            }
            // a backslash before the missing quote goes with the next character
            let t = text(&p);
            let to = t.chars().count();
            Some(Spoiled { name: "string not closed", text: t, from, to })
        }
    }
}
