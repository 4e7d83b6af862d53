//! C09: hostile text.
use crate::bin::{big_val, budget};
use crate::common::*;
use crate::docs::*;
use vh::doc::*;
use vh::gen::*;
use vh::model::*;
use vh::mon::*;
use vh::ops::*;
use vh::rng::*;

fn run_text(c: &mut Ctx, t: &TypeOps, f: Fmt, s: &str, what: &str) {
    let x = text_of(t, f);
    let free = is_recursive(&t.ty);
    let lim = if free { i64::MAX / 8 } else { budget(&t.ty, s.len()) };
    let Some((got, peak, sum)) = op(c, t, what, s.as_bytes(), || with_budgets(lim, lim.saturating_mul(4), || (x.de)(s))) else { return };
    c.eval(key(t, s.as_bytes()), !s.is_empty());
    c.add("characters", s.len() as u64);
    match got {
        Ok(_) => c.count(if f == Fmt::Json { "json accepted" } else { "ron accepted" }),
        Err(e) => {
            c.count(if f == Fmt::Json { "json rejected" } else { "ron rejected" });
            let lines = s.bytes().filter(|b| *b == b'\n').count();
            if e.line > lines || e.col > s.len() {
                c.violation("position outside", format!("type {}: {}: the error is at line {} column {} (from 0), outside the input", t.name, show_bytes(s.as_bytes()), e.line, e.col));
            }
            c.sample(t.name, || format!("{}: {:?} -> {}", t.name, clip(s, 200), clip(&e.shown, 200)));
        }
    }
    if s.len() > 1000 && !free {
        let k = peak * 100 / lim;
        if k > 50 || sum * 25 / lim > 50 {
            c.count("memory above half the budget");
        }
    }
}
fn rep(s: &str, n: usize) -> String {
    let mut o = String::with_capacity(s.len() * n);
    for _ in 0..n {
        o.push_str(s);
    }
    o
}
/// About `n` characters of one construct, with its name.
fn run_of(r: &mut Rng, n: usize, f: Fmt) -> (String, &'static str) {
    let json = f == Fmt::Json;
    match r.below(26) {
        0 => (rep(r.pick(&[" ", "\n", "\t", "\r\n"]), n), "blanks"),
        1 => (rep("//x\n", n / 4), "line comments"),
        2 => (rep("/**/", n / 4), "block comments"),
        3 => (format!("/*{}*/", rep(r.pick(&["*", "/", "/*", "* ", "\n"]), n)), "one block comment"),
        4 => (format!("/*{}", rep(r.pick(&["*", "/", "a"]), n)), "an unterminated comment"),
        5 => (format!("//{}\n", rep(r.pick(&["/", "a", "*"]), n)), "one line comment"),
        6 => (rep(r.pick(&["1", "9", "0"]), n), "digits"),
        7 => (format!("1.{}", rep(r.pick(&["0", "3"]), n)), "fraction digits"),
        8 => (format!("1e{}", rep(r.pick(&["0", "9"]), n)), "exponent digits"),
        9 => (format!("0.{}1", rep("0", n)), "zeroes"),
        10 => (rep(r.pick(&["-", "+", ".", "e"]), n), "signs"),
        11 => (format!("\"{}\"", rep(r.pick(&["a", "é", "\\n", "\\\\", "\\u0041", "\\ud83d\\ude00", "\\\""]), n / 4)), "one string"),
        12 => (format!("\"{}", rep(r.pick(&["a", "\\n", "\\\""]), n)), "an unterminated string"),
        13 => (rep("\"\"", n / 2), "strings"),
        14 => (rep(r.pick(&["a", "true", "null", "None", "_", "é"]), n / 4), "a word"),
        15 => (rep(r.pick(&[",", ":", ";", "="]), n), "separators"),
        16 => (rep(r.pick(&["[", "(", "{", "[(", "[{", "({"]), n / 2), "opening brackets"),
        17 => (rep(r.pick(&["]", ")", "}"]), n), "closing brackets"),
        18 => (rep(r.pick(&["{\"a\":", "{\"\":", "{a:", "(a:", "A(", "[0,"]), n / 5), "nested members"),
        19 => (rep("\0", n), "NULs"),
        20 => (format!("[{}]", rep(r.pick(&["1,", "null,", "\"\",", "[],", "{},", "true,"]), n / 5)), "one array"),
        21 => (format!("[{}", rep(r.pick(&["1,", "1 ", "\"a\","]), n / 5)), "an unterminated array"),
        22 if json => (format!("{}{}", rep("[", n / 2), rep("]", n / 2)), "nested arrays"),
        23 if json => (format!("{}1{}", rep("{\"a\":", n / 7), rep("}", n / 7)), "nested objects"),
        24 if json => (format!("{{{}\"z\":1}}", rep("\"z\":1,", n / 6)), "one object"),
        _ => (rep(r.pick(&["\\", "\\u", "'", "#", "@", "\u{1}", "\u{2028}"]), n), "odd characters"),
    }
}
/// A long member that the type does not know, behind the opening bracket of some object.
fn unknown_member(r: &mut Rng, n: usize) -> (String, &'static str) {
    let name = "zzq9";
    let nest = |open: &str, close: &str, k: usize, whole: bool| {
        let mut s = rep(open, k);
        if whole {
            s.push('1');
            s.push_str(&rep(close, k));
        }
        s
    };
    let whole = !r.chance(1, 4);
    let v = match r.below(9) {
        0 => (nest("[", "]", n / 2, whole), "unknown nested arrays"),
        1 => (nest("{\"a\":", "}", n / 6, whole), "unknown nested objects"),
        2 => (nest("[{\"a\":", "}]", n / 8, whole), "unknown nested both"),
        3 => (format!("[{}1]", rep("1,", n / 2)), "unknown long array"),
        4 => (format!("{{{}\"b\":2}}", rep("\"a\":1,", n / 6)), "unknown long object"),
        5 => (format!("\"{}\"", rep("a", n)), "unknown string"),
        6 => (rep("1", n), "unknown number"),
        7 => (format!("[{}]", rep("/**/", n / 4)), "unknown comments"),
        _ => (format!("{{{}}}", rep("[],", n / 3)), "unknown nonsense"),
    };
    if r.chance(1, 6) {
        // many unknown members instead of a long one
        return (rep(&format!("\"{name}\":{},", r.pick(&["1", "[]", "{}", "\"x\"", "null", "[[1,2],{\"a\":[3]}]"])), n / 12), "many unknown members");
    }
    (format!("\"{name}\":{},", v.0), v.1)
}
fn long(c: &mut Ctx, t: &TypeOps, f: Fmt, r: &mut Rng, n: usize) {
    let rec = is_recursive(&t.ty);
    let v = gen(r, &t.ty, SMALL);
    let d = build(r, &t.ty, &v, f, Opts { omit: 20, extras: false, spell: false, sites: true });
    let fields: Vec<usize> = d
        .sites
        .iter()
        .filter_map(|s| match s {
            Site::Fields { open, .. } => Some(*open),
            _ => None,
        })
        .collect();
    let mut toks: Vec<String> = d.toks.iter().map(|t| t.s.clone()).collect();
    let name;
    if f == Fmt::Json && !fields.is_empty() && r.bool() {
        let (s, k) = unknown_member(r, n);
        name = k;
        let at = *r.pick(&fields);
        if toks.get(at + 1).map(|s| s == "}").unwrap_or(false) {
            // nothing follows: no comma either
            toks.insert(at + 1, s.trim_end_matches(',').to_string());
        } else {
            toks.insert(at + 1, s);
        }
    } else if r.chance(1, 4) {
        let Some(v) = big_val(r, &t.ty, n / 8) else { return };
        let Some((_, mut s)) = op(c, t, "serialize (large)", &[], || (text_of(t, f).ser)(&v)) else { return };
        if r.bool() {
            s = mutate(r, &s, 2);
        }
        c.count("long: large value");
        run_text(c, t, f, &s, "deserialize (large value)");
        return;
    } else {
        let (s, k) = run_of(r, n, f);
        name = k;
        if rec && (k.contains("bracket") || k.starts_with("nested")) {
            return;
        }
        // in place of a token of its kind, or anywhere
        let kind = match k {
            "digits" | "fraction digits" | "exponent digits" | "zeroes" => Some(TK::Num),
            "one string" | "an unterminated string" => Some(TK::Str),
            "a word" => Some(TK::Word),
            _ => None,
        };
        let fit: Vec<usize> = (0..d.toks.len()).filter(|i| kind == Some(d.toks[*i].k)).collect();
        if !fit.is_empty() {
            let i = *r.pick(&fit);
            toks[i] = s;
        } else {
            let at = r.below(toks.len() + 1);
            if r.bool() && at < toks.len() {
                toks[at] = s;
            } else {
                toks.insert(at, s);
            }
        }
    }
    c.count(&format!("long: {name}"));
    let s = toks.join(" ");
    run_text(c, t, f, &s, &format!("deserialize (long: {name})"));
}
fn toml_budget(s: &str) -> i64 {
    // each key repeats the name of its table
    let head = s.lines().map(|l| l.trim_start()).filter(|l| l.starts_with('[')).map(|l| l.len()).max().unwrap_or(0) as i64;
    512 * 1024 + (s.len() as i64 + 64) * (600 + 4 * head.min(200_000))
}
fn run_toml(c: &mut Ctx, s: &str, what: &str) {
    current(what, s.as_bytes());
    let lim = toml_budget(s);
    let r = guard(|| with_budgets(lim, lim.saturating_mul(6), || nanoserde::TomlParser::parse(s)));
    idle();
    c.eval(hash_str(s), !s.is_empty());
    c.add("characters", s.len() as u64);
    match r {
        Err(m) => c.violation("panic", format!("{what} panicked: {m}\ninput: {}", show_bytes(s.as_bytes()))),
        Ok((Ok(_), ..)) => c.count("toml accepted"),
        Ok((Err(e), ..)) => {
            c.count("toml rejected");
            let lines = s.bytes().filter(|b| *b == b'\n').count();
            if e.line > lines || e.col > s.len() {
                c.violation("position outside", format!("TOML {}: {e}: outside the input", show_bytes(s.as_bytes())));
            }
            c.sample("toml", || format!("{:?} -> {e}", clip(s, 200)));
        }
    }
}
/// Nesting of arrays in a TOML text, at most.
fn toml_depth(s: &str) -> usize {
    let (mut d, mut m) = (0i64, 0i64);
    for b in s.bytes() {
        match b {
            b'[' => d += 1,
            b']' => d = (d - 1).max(0),
            _ => {}
        }
        m = m.max(d);
    }
    m as usize
}
/// A few kinds of lines, each many times: in turn, in blocks or at random.
fn toml_mix(r: &mut Rng, n: usize) -> String {
    let kinds: Vec<usize> = (0..2 + r.below(3)).map(|_| r.below(14)).collect();
    let how = r.below(3);
    let mut s = String::new();
    let lines = n / 10;
    for i in 0..lines {
        let k = match how {
            0 => kinds[i % kinds.len()],
            1 => kinds[i * kinds.len() / lines.max(1)],
            _ => *r.pick(&kinds),
        };
        s += &match k {
            0 => format!("k{i}={i}\n"),
            1 => format!("a.b{i}=1\n"),
            2 => format!("\"q {i}\"=\"x\"\n"),
            3 => "same=1\n".to_string(),
            4 => format!("[t{i}]\n"),
            5 => "[t]\n".to_string(),
            6 => "[[e]]\n".to_string(),
            7 => format!("[[e{i}]]\n"),
            8 => "[e.s]\n".to_string(),
            9 => format!("[e.s{i}]\n"),
            10 => "# comment\n".to_string(),
            11 => "v=[1,[2],\n 3]\n".to_string(),
            12 => "s=\"\"\"\nx\"\"\"\n".to_string(),
            _ => "\n".to_string(),
        };
    }
    s
}
fn toml_run(r: &mut Rng, n: usize) -> (String, &'static str) {
    match r.below(30) {
        0 => (rep(r.pick(&[" ", "\n", "\t", "\r\n"]), n), "blanks"),
        1 => (rep("#x\n", n / 3), "comments"),
        2 => (format!("#{}", rep("#", n)), "one comment"),
        3 => (format!("a = {}", rep(r.pick(&["1", "9", "0"]), n)), "digits"),
        4 => (format!("a = 1.{}", rep("3", n)), "fraction digits"),
        5 => (format!("a = {}", rep(r.pick(&["-", "+", "_", "1_", "1-", "1:", "-T"]), n / 2)), "signs"),
        6 => (format!("a = \"{}\"", rep(r.pick(&["a", "é", "\\n", "\\\\", "\\u0041", "\\U0001F600"]), n / 6)), "one string"),
        7 => (format!("a = \"{}", rep(r.pick(&["a", "\\n", "\\\""]), n)), "an unterminated string"),
        8 => (format!("a = \"\"\"{}\"\"\"", rep(r.pick(&["a", "\n", "\"\"a", "\\\n", "\" "]), n / 3)), "one multi-line string"),
        9 => (format!("a = \"\"\"{}", rep(r.pick(&["a", "\n", "\"\"\\", "\\\n  "]), n / 3)), "an unterminated multi-line string"),
        10 => (rep("\"", n), "quotes"),
        11 => (format!("{} = 1", rep(r.pick(&["a", "a.", "1", "1.", "-", "_", "é", "true"]), n / 4)), "one key"),
        12 => (format!("a = [{}]", rep(r.pick(&["1,", "\"\",", "[],", "true,\n", "1 ", ","]), n / 6)), "one array"),
        13 => (format!("a = [{}", rep(r.pick(&["1,", "\"a\",", "\n"]), n / 4)), "an unterminated array"),
        14 => {
            let k = (n / 2).min(1000);
            (format!("a = {}{}", rep("[", k), if r.bool() { rep("]", k) } else { String::new() }), "nested arrays")
        }
        15 => ((0..n / 8).map(|i| format!("k{i} = {i}\n")).collect(), "many keys"),
        16 => (rep("a = 1\n", n / 6), "one key again and again"),
        17 => ((0..n / 12).map(|i| format!("[t{i}]\na=1\n")).collect(), "many tables"),
        18 => (rep("[[t]]\na=1\n", n / 10), "many array elements"),
        19 => ((0..n / 16).map(|i| format!("[[t{i}]]\n[t{i}.s]\na=1\n")).collect(), "many arrays"),
        20 => (rep(r.pick(&["=", "]", ",", "\0", ".", "a "]), n), "separators"),
        21 => (format!("[{}]\na=1", rep(r.pick(&["a", "a."]), n / 2)), "one table name"),
        22 => (rep(r.pick(&["\\", "'", "@", "\u{1}", "{", "\u{d7}"]), n), "odd characters"),
        23 => (format!("[[{}]]\na=1\nb=2", rep("a", n)), "one array name"),
        _ => (toml_mix(r, n), "several kinds of lines"),
    }
}
pub fn c09() {
    let seed = run().seed;
    let toml = |c: &mut Ctx, s: &str, what: &str| {
        if toml_depth(s) > 1000 {
            c.count("toml: nested too deep, left out");
            return;
        }
        run_toml(c, s, what)
    };
    parallel(128, |c, i| {
        let mut r = Rng::stream(seed, "C09/toml", i as u64, 0);
        for _ in 0..per(1600, 60_000) {
            if c.stop() || run().left() < 0.0 {
                break;
            }
            let s = if r.chance(1, 5) {
                let n = *r.pick(&[0, 1, 2, 3, 5, 8, 20, 60]);
                soup(&mut r, n)
            } else {
                let n = *r.pick(&[0, 1, 2, 3, 5, 9]);
                let d = vh::tomldoc::make(&mut r, n);
                let mut s = d.text();
                if r.bool() {
                    if let Some(x) = vh::tomldoc::spoil(&mut r, &d) {
                        s = x.text;
                    }
                }
                let k = *r.pick(&[0, 1, 1, 2, 3, 5, 9]);
                mutate(&mut r, &s, k)
            };
            toml(c, &s, "TomlParser::parse (mutated)");
        }
        for j in 0..per(8, 120) {
            if c.stop() || run().left() < 0.0 {
                break;
            }
            let n = if j % 4 == 0 { 1 << 20 } else { *r.pick(&[1 << 10, 1 << 12, 1 << 14, 1 << 16]) };
            let (mut s, name) = toml_run(&mut r, n);
            if r.chance(1, 4) {
                let d = vh::tomldoc::make(&mut r, 4);
                s = format!("{}\n{s}", d.text());
            }
            if r.chance(1, 4) {
                s = mutate(&mut r, &s, 2);
            }
            c.count(&format!("toml long: {name}"));
            toml(c, &s, &format!("TomlParser::parse (long: {name})"));
        }
    });
    // short hostile documents
    for f in [Fmt::Json, Fmt::Ron] {
        let ts = types_with(f);
        let name = if f == Fmt::Json { "json" } else { "ron" };
        for_types(&ts, 4, per(2400, 100_000), &format!("{name} mutated"), |c, t, r, _| {
            let v = if r.chance(1, 8) { gen(r, &t.ty, TEXT) } else { gen(r, &t.ty, SMALL) };
            let spell = r.bool();
            let d = build(r, &t.ty, &v, f, Opts { omit: 30, extras: true, spell, sites: true });
            let mut toks = d.toks.clone();
            if r.bool() && !d.sites.is_empty() {
                let s = r.pick(&d.sites).clone();
                if let Some(e) = spoil(r, &d, &s) {
                    toks = apply(&toks, &e);
                }
            }
            let style = r.below(3) as u8;
            let (text, _) = render(r, &toks, Layout { style, plain_from: usize::MAX, lines: true });
            let k = *r.pick(&[0, 1, 1, 2, 3, 5, 9]);
            let s = mutate(r, &text, k);
            if is_recursive(&t.ty) && s.len() > 3000 {
                return;
            }
            run_text(c, t, f, &s, "deserialize (mutated)");
        });
        for_types(&ts, 2, per(500, 20_000), &format!("{name} soup"), |c, t, r, _| {
            let n = *r.pick(&[0, 1, 2, 3, 5, 8, 20, 60]);
            let s = soup(r, n);
            run_text(c, t, f, &s, "deserialize (soup)");
        });
        for_types(&ts, 2, per(24, 400), &format!("{name} long"), |c, t, r, i| {
            let big = if run().thorough() { i % 8 == 0 } else { i % 12 == 0 };
            let n = if big { 1 << 20 } else { *r.pick(&[1 << 10, 1 << 12, 1 << 14, 1 << 16]) };
            long(c, t, f, r, n);
        });
    }
    finish("mutated and spoiled documents, token soup, and runs of up to a million characters of one construct, for every type; monitors: panics, arithmetic overflow, stack, memory held and asked for, CPU time, error position; non-trivial: not empty; distinct by type and text", 100_000);
}
