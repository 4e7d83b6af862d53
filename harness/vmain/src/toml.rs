//! C14, C15, C18 (TOML part).
use crate::common::*;
use crate::text::linecols;
use nanoserde::{Toml, TomlParser};
use std::collections::BTreeMap;
use vh::mon::*;
use vh::rng::*;
use vh::tomldoc::*;

pub struct TomlFail {
    pub line: usize,
    pub col: usize,
    pub shown: String,
}
fn conv(t: &Toml) -> TV {
    match t {
        Toml::Str(s) => TV::Str(s.clone()),
        Toml::Bool(b) => TV::Bool(*b),
        Toml::Num(n) => TV::Num(*n),
        Toml::Date(s) => TV::Date(s.clone()),
        Toml::Array(a) => TV::Arr(a.iter().map(conv_table).collect()),
        Toml::SimpleArray(a) => TV::List(a.iter().map(conv).collect()),
    }
}
/// The same through the accessors.
fn accessed(t: &Toml) -> TV {
    match t {
        Toml::Str(_) => TV::Str(t.str().to_string()),
        Toml::Bool(_) => TV::Bool(t.boolean()),
        Toml::Num(_) => TV::Num(t.num()),
        Toml::Date(_) => TV::Date(t.date()),
        Toml::Array(a) => {
            assert_eq!(t.arr().len(), a.len());
            TV::Arr((0..a.len()).map(|i| t[i].iter().map(|(k, v)| (k.clone(), accessed(v))).collect()).collect())
        }
        Toml::SimpleArray(_) => TV::List(t.simple_arr().iter().map(accessed).collect()),
    }
}
/// What is wrong with the accessors of this value: each gives the contents of its own kind and panics on the others.
fn accessors(t: &Toml) -> Option<String> {
    let want = conv(t);
    let got: [(&str, Result<TV, String>); 7] = [
        ("num", guard(|| TV::Num(t.num()))),
        ("str", guard(|| TV::Str(t.str().to_string()))),
        ("boolean", guard(|| TV::Bool(t.boolean()))),
        ("date", guard(|| TV::Date(t.date()))),
        ("arr", guard(|| TV::Arr(t.arr().iter().map(conv_table).collect()))),
        ("simple_arr", guard(|| TV::List(t.simple_arr().iter().map(conv).collect()))),
        ("index", guard(|| TV::Arr(vec![conv_table(&t[0])]))),
    ];
    for (n, g) in got {
        let own = match t {
            Toml::Num(_) => n == "num",
            Toml::Str(_) => n == "str",
            Toml::Bool(_) => n == "boolean",
            Toml::Date(_) => n == "date",
            Toml::Array(a) => n == "arr" || n == "index" && !a.is_empty(),
            Toml::SimpleArray(_) => n == "simple_arr",
        };
        let first = match &want {
            TV::Arr(a) if n == "index" => TV::Arr(a.iter().take(1).cloned().collect()),
            v => v.clone(),
        };
        match g {
            Ok(v) if own && v == first => {}
            Err(_) if !own => {}
            g => return Some(format!("{n}() on {t:?} gives {g:?}")),
        }
    }
    match t {
        Toml::SimpleArray(a) => a.iter().find_map(accessors),
        Toml::Array(a) => a.iter().flat_map(|t| t.values()).find_map(accessors),
        _ => None,
    }
}
fn conv_table(t: &BTreeMap<String, Toml>) -> Table {
    t.iter().map(|(k, v)| (k.clone(), conv(v))).collect()
}
/// (as it is, through the accessors)
pub fn parse(s: &str) -> Result<(Table, Table), TomlFail> {
    TomlParser::parse(s).map(|t| (conv_table(&t), t.iter().map(|(k, v)| (k.clone(), accessed(v))).collect())).map_err(|e| TomlFail { line: e.line, col: e.col, shown: e.to_string() })
}
fn op<T>(c: &mut Ctx, what: &str, input: &str, f: impl FnOnce() -> T) -> Option<T> {
    current(what, input.as_bytes());
    let r = guard(f);
    idle();
    match r {
        Ok(x) => Some(x),
        Err(m) => {
            c.violation("panic", format!("{what} panicked: {m}\ninput: {input:?}"));
            None
        }
    }
}
fn cases(name: &str, n: usize, f: impl Fn(&mut Ctx, &mut Rng) + Sync) {
    let seed = run().seed;
    parallel(64, |c, i| {
        let mut r = Rng::stream(seed, &format!("{}/{name}", run().prop), i as u64, 0);
        for _ in 0..(n / 64).max(1) {
            if c.stop() || run().left() < 0.0 {
                break;
            }
            f(c, &mut r);
        }
    });
}
fn size(r: &mut Rng) -> usize {
    if r.chance(1, 3000) {
        return *r.pick(&[100, 300, 1100, 3000]);
    }
    *r.pick(&[0, 1, 1, 2, 2, 3, 4, 6, 9, 15, 30])
}

pub fn c14() {
    cases("documents", per(400_000, 12_000_000), |c, r| {
        let n = size(r);
        let d = make(r, n);
        let text = d.text();
        c.eval(hash_str(&text), n > 0);
        for (k, n) in &d.counts {
            c.add(k, *n);
        }
        c.sample(&format!("{n}"), || text.clone());
        let Some(got) = op(c, "TomlParser::parse", &text, || parse(&text)) else { return };
        match got {
            Ok((a, b)) => {
                if a != d.expect {
                    let diff: Vec<String> = a
                        .iter()
                        .filter(|(k, v)| d.expect.get(*k) != Some(v))
                        .map(|(k, v)| format!("{k:?} is {v:?}, not {:?}", d.expect.get(k)))
                        .chain(d.expect.keys().filter(|k| !a.contains_key(*k)).map(|k| format!("{k:?} is missing")))
                        .take(3)
                        .collect();
                    c.violation("data", format!("document {text:?}: {diff:?}"));
                } else if b != d.expect {
                    c.violation("accessors", format!("document {text:?}: the accessors give {b:?}"));
                }
            }
            Err(e) => c.violation("rejected", format!("document {text:?}, which denotes {:?}, is rejected: {}", d.expect, e.shown)),
        }
    });
    cases("accessors", per(2_000, 60_000), |c, r| {
        let n = size(r);
        let d = make(r, n);
        let text = d.text();
        let Some(Ok(t)) = op(c, "TomlParser::parse", &text, || TomlParser::parse(&text)) else { return };
        c.eval(hash_str(&text) ^ 1, n > 0);
        for v in t.values() {
            c.count("values asked for as every kind");
            if let Some(m) = accessors(v) {
                c.violation("accessors", format!("document {text:?}: {m}"));
                return;
            }
        }
    });
    finish("random TOML documents made from data in random spellings and layouts, the parsed map compared with the data; non-trivial: at least one item; distinct by text", 100_000);
}

pub fn c15() {
    cases("spoiled", per(350_000, 12_000_000), |c, r| {
        let n = size(r).max(1);
        let d = make(r, n);
        let text = d.text();
        let Some(good) = op(c, "TomlParser::parse", &text, || parse(&text).is_ok()) else { return };
        if !good {
            c.count("documents rejected unspoiled: left to C14");
            return;
        }
        for _ in 0..3 {
            let Some(s) = spoil(r, &d) else { continue };
            let Some(got) = op(c, &format!("TomlParser::parse ({})", s.name), &s.text, || parse(&s.text)) else { return };
            c.eval(hash_str(&s.text), true);
            c.count(s.name);
            match got {
                Ok((t, _)) => c.violation(s.name, format!("document {:?} ({} at characters {}..{}) is accepted: {t:?}", s.text, s.name, s.from, s.to)),
                Err(e) => c.sample(s.name, || format!("{}: {:?} -> {}", s.name, s.text, e.shown)),
            }
        }
    });
    finish("random TOML documents spoiled in one place; all must be refused; distinct by text", 100_000);
}

pub fn positions() {
    cases("positions", per(200_000, 4_000_000), |c, r| {
        let n = size(r).max(1);
        let d = make(r, n);
        let Some(s) = spoil(r, &d) else { return };
        let Some(got) = op(c, &format!("TomlParser::parse ({})", s.name), &s.text, || parse(&s.text)) else { return };
        let Err(e) = got else {
            c.count("toml accepted: left to C15");
            return;
        };
        c.eval(hash_str(&s.text), s.text.contains('\n'));
        c.count(&format!("toml {}", s.name));
        let lc = linecols(&s.text);
        let n = lc.len() - 1;
        let (from, to) = ((s.from + 1).min(n), (s.to + 1).min(n));
        if !(from..=to).any(|p| lc[p] == (e.line, e.col)) {
            c.violation("toml position", format!("document {:?} ({} at characters {}..{}): the error says {}, the range is {:?}..={:?} (from 0)", s.text, s.name, s.from, s.to, e.shown, lc[from], lc[to]));
        }
        let want = format!("line:{} col:{}", e.line + 1, e.col + 1);
        if !e.shown.contains(&(e.line + 1).to_string()) || !e.shown.contains(&(e.col + 1).to_string()) {
            c.violation("toml position shown", format!("{:?} does not show {want}", e.shown));
        }
    });
}
