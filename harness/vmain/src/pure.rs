//! C20: purity and composition. C21: two declarations of one type.
use crate::common::*;
use crate::docs::*;
use std::collections::BTreeMap;
use vh::gen::*;
use vh::model::*;
use vh::mon::*;
use vh::ops::*;
use vh::rng::*;
use vh::tomldoc;

fn composed<S: PartialEq + std::fmt::Debug>(c: &mut Ctx, t: &TypeOps, f: Fmt, x: &Composed<S>, expect_around: S) {
    if canon(&t.ty, &x.before) != canon(&t.ty, &x.after) {
        c.violation("value changed", format!("{f:?}, type {}: serializing {} left {}", t.name, show(&x.before), show(&x.after)));
    }
    if x.first != x.again {
        c.violation("not repeatable", format!("{f:?}, type {}: {} serializes to {:?}, then to {:?}", t.name, show(&x.before), x.first, x.again));
    }
    if let Some(o) = &x.thread {
        c.count("serialized from another thread");
        if *o != x.first {
            c.violation("differs by thread", format!("{f:?}, type {}: {} serializes to {:?}, from another thread to {:?}", t.name, show(&x.before), x.first, o));
        }
    }
    if x.around != expect_around {
        c.violation("does not append", format!("{f:?}, type {}: {} serializes to {:?}; text, the value twice and text through one state give {:?}", t.name, show(&x.before), x.first, x.around));
    }
}
/// What the buffer holds already: anything at all.
fn before(r: &mut Rng, ts: &[TypeOps]) -> Vec<u8> {
    let n = r.below(20);
    let mut pre: Vec<u8> = match r.below(8) {
        0 | 1 => {
            let s: String = (0..n).map(|_| *r.pick(&['{', '"', ' ', ',', '\n', '\t', 'é', '0', '\\', '(', '}', ')', 'x'])).collect();
            s.into_bytes()
        }
        2 => (0..n).map(|_| 32 + r.below(95) as u8).collect(),
        3 => (0..n).map(|_| r.u64() as u8).collect(),
        // something that the formats could take for part of a token
        4 | 5 => {
            let s: String = (0..1 + r.below(3))
                .map(|_| *r.pick(&["1e", "-", "+", "0.", ".", "1", "1E+", "0x", "tru", "nul", "None", "Some(", "Some", "\"", "\"\\", "\\u", "\\", "'", "\\uD83D", "[", "{", "(", "{\"a\":", "a:", ":", ",", "//", "/*", "*/", "/", "_", "a", "inf", "NaN", "=", "#", "[[", " ", "\n", "\0", "\u{FEFF}"]))
                .collect();
            s.into_bytes()
        }
        // the beginning of other output
        _ => {
            let t = r.pick(ts).clone();
            let f = *r.pick(&formats(&t));
            let v = gen(r, &t.ty, SMALL);
            let mut x = guard(|| ser(&t, f, &v)).unwrap_or_default();
            if r.bool() {
                x.truncate(r.below(x.len() + 1));
            }
            x
        }
    };
    if pre.len() < 64 && r.chance(1, 60) {
        pre = pre.repeat(*r.pick(&[50, 1000, 4000]));
    }
    if r.chance(1, 100) {
        pre.resize(*r.pick(&[127, 128, 255, 256, 4095, 4096, 65535, 65536, 65537]), b'x');
    }
    pre
}
fn compose(ts: &[TypeOps]) {
    for_types(ts, 4, per(1500, 60_000), "compose", |c, t, r, _| {
        let f = *r.pick(&formats(t));
        let v = pick_val(r, &t.ty, if f == Fmt::Bin { ANY } else { TEXT });
        let pre = before(r, ts);
        let thread = r.chance(1, 16);
        c.eval(hash_str(&format!("{}{f:?}{:?}", t.name, v)), nontrivial(&v));
        c.count(match f {
            Fmt::Bin => "bin objects",
            Fmt::Json => "json objects",
            Fmt::Ron => "ron objects",
        });
        if f == Fmt::Bin {
            let b = t.bin.unwrap();
            let Some(x) = op(c, t, &format!("serialize_bin {}", show(&v)), &[], || (b.compose)(&v, &pre, thread)) else { return };
            let mut want = pre.clone();
            want.extend_from_slice(&x.first);
            want.extend_from_slice(&x.first);
            want.extend_from_slice(&pre);
            composed(c, t, f, &x, want);
        } else {
            let b = text_of(t, f);
            let pre = String::from_utf8_lossy(&pre);
            let Some(x) = op(c, t, &format!("serialize {f:?} {}", show(&v)), &[], || (b.compose)(&v, &pre, thread)) else { return };
            let want = format!("{pre}{}{}{pre}", x.first, x.first);
            composed(c, t, f, &x, want);
            c.sample(t.name, || format!("{f:?} {}: {:?}", t.name, clip(&x.around, 300)));
        }
    });
}
fn streams(ts: &[TypeOps]) {
    for_types(ts, 4, per(1200, 50_000), "stream", |c, t, r, _| {
        let f = *r.pick(&formats(t));
        let n = 1 + r.below(5);
        if f == Fmt::Bin {
            let b = t.bin.unwrap();
            let mut buf: Vec<u8> = (0..r.below(9)).map(|_| r.u64() as u8).collect();
            let mut o = buf.len();
            let mut parts = vec![];
            for _ in 0..n {
                let v = gen(r, &t.ty, SMALL_ANY);
                let Some((_, x)) = op(c, t, "serialize_bin", &[], || (b.ser)(&v)) else { return };
                buf.extend_from_slice(&x);
                parts.push(x);
            }
            buf.extend((0..r.below(5)).map(|_| r.u64() as u8));
            c.eval(key(t, &buf), n > 1);
            for (i, p) in parts.iter().enumerate() {
                let Some(one) = op(c, t, "deserialize_bin", p, || (b.de)(p)) else { return };
                let start = o;
                let Some(got) = op(c, t, "de_bin", &buf, || (b.de_at)(&mut o, &buf)) else { return };
                if got.as_ref().ok().map(|x| canon(&t.ty, x)) != one.as_ref().ok().map(|x| canon(&t.ty, x)) || got.is_err() || o != start + p.len() {
                    c.violation("stream", format!("bin, type {}: value {i} at {start} of {} reads as {got:?} and ends at {o}; alone ({} bytes) as {one:?}", t.name, show_bytes(&buf), p.len()));
                    return;
                }
            }
            c.add("values read from a binary stream", n as u64);
            return;
        }
        // values of several types, the last one of this
        let mixed = r.bool();
        let n = if r.chance(1, 40) { 10 + r.below(60) } else { n };
        let mut text = String::new();
        let mut parts = vec![];
        for i in 0..n {
            let t = if !mixed || i == n - 1 { t } else { let u = r.pick(ts); if formats(u).contains(&f) { u } else { t } };
            let mut p = text_doc(r, t, f, false);
            let end_line = p.rfind("//").is_some();
            if i > 0 || r.bool() {
                text.push_str(r.pick(&[" ", "\n", "\n\n", "\t", " /* next */ ", " //\n"]));
            }
            if end_line {
                p.push('\n');
            }
            text.push_str(&p);
            parts.push((t, p));
        }
        // and what is read where nothing is left
        let past = if r.bool() { t } else { let u = r.pick(ts); if formats(u).contains(&f) { u } else { t } };
        parts.push((past, String::new()));
        let mut alone = vec![];
        for (t, p) in &parts {
            let Some(one) = op(c, t, "deserialize", p.as_bytes(), || (text_of(t, f).de)(p)) else { return };
            alone.push(one);
        }
        if alone[..n].iter().any(|x| x.is_err()) {
            c.count("rejected alone: left to other checks");
            return;
        }
        c.eval(key(t, text.as_bytes()), n > 1);
        c.add("values read from a text stream", n as u64);
        if mixed {
            c.count("text streams of several types");
        }
        let got = if mixed || r.bool() {
            let mut ch = text.chars();
            let (mut st, e) = if f == Fmt::Json { vh::ops::json::state(&mut ch) } else { vh::ops::ron::state(&mut ch) };
            let mut got = vec![];
            match e {
                Some(e) => got.push(Err(e)),
                None => {
                    for (t, _) in &parts {
                        let Some(x) = op(c, t, "a value from a state read before", text.as_bytes(), || (text_of(t, f).de_state)(&mut *st, &mut ch)) else { return };
                        let stop = x.is_err();
                        got.push(x);
                        if stop {
                            break;
                        }
                    }
                }
            }
            got
        } else {
            parts.truncate(n);
            let Some(got) = op(c, t, "several values from one state", text.as_bytes(), || (text_of(t, f).de_stream)(&text, n)) else { return };
            got
        };
        let same = got.len() == parts.len()
            && got.iter().zip(&alone).zip(&parts).all(|((a, b), (t, _))| match (a, b) {
                (Ok(a), Ok(b)) => canon(&t.ty, a) == canon(&t.ty, b),
                (Err(_), Err(_)) => true,
                _ => false,
            });
        c.sample(t.name, || format!("{f:?} {}: {:?}", t.name, clip(&text, 300)));
        if !same {
            let names: Vec<&str> = parts.iter().map(|x| x.0.name).collect();
            c.violation("stream", format!("{f:?}: {text:?} read as {names:?} from one state gives {got:?}; the values alone are {alone:?}"));
        }
    });
}

/// One call and what it gave the first time.
enum Job {
    Text(usize, Fmt, String, Result<Val, TErr>),
    Bin(usize, Vec<u8>, Result<Val, BErr>),
    Ser(usize, Fmt, Val, Vec<u8>),
    Toml(String, Result<tomldoc::Table, (usize, usize, String)>),
}
fn toml_of(s: &str) -> Result<tomldoc::Table, (usize, usize, String)> {
    crate::toml::parse(s).map(|x| x.0).map_err(|e| (e.line, e.col, e.shown))
}
fn ser(t: &TypeOps, f: Fmt, v: &Val) -> Vec<u8> {
    match f {
        Fmt::Bin => (t.bin.unwrap().ser)(v).1,
        f => (text_of(t, f).ser)(v).1.into_bytes(),
    }
}
fn history(ts: &[TypeOps]) {
    let rounds = per(6, 200);
    for round in 0..rounds {
        if run().left() < 0.0 {
            break;
        }
        let mut rr = Rng::stream(run().seed, "C20/jobs", round as u64, 0);
        let r = &mut rr;
        let mut jobs = vec![];
        let mut c = Ctx::new(0);
        let n = per(6000, 20_000);
        enter_thread();
        for _ in 0..n {
            let i = r.below(ts.len());
            let t = &ts[i];
            let f = *r.pick(&formats(t));
            let job = match (r.below(10), f) {
                (0, _) => {
                    let k = r.below(8);
                    let mut s = tomldoc::make(r, k).text();
                    if r.bool() {
                        s = mutate(r, &s, 2);
                    }
                    current("toml", s.as_bytes());
                    let x = guard(|| toml_of(&s));
                    idle();
                    match x {
                        Ok(x) => Job::Toml(s, x),
                        Err(_) => continue,
                    }
                }
                (1..=3, f) if !has_hash(&t.ty) => {
                    let v = gen(r, &t.ty, SMALL);
                    let Some(x) = op(&mut c, t, &format!("serialize {f:?} {}", show(&v)), &[], || ser(t, f, &v)) else { continue };
                    Job::Ser(i, f, v, x)
                }
                (_, Fmt::Bin) => {
                    let b = bin_doc(r, t);
                    let Some(x) = op(&mut c, t, "deserialize_bin", &b, || (t.bin.unwrap().de)(&b)) else { continue };
                    Job::Bin(i, b, x.map(|v| canon(&t.ty, &v)))
                }
                (_, f) => {
                    let bad = r.bool();
                    let s = text_doc(r, t, f, bad);
                    let Some(x) = op(&mut c, t, &format!("deserialize {f:?}"), s.as_bytes(), || (text_of(t, f).de)(&s)) else { continue };
                    Job::Text(i, f, s, x.map(|v| canon(&t.ty, &v)))
                }
            };
            jobs.push(job);
        }
        leave_thread();
        merge(c);
        let (jobs, ts) = (&jobs, &ts);
        parallel(32, |c, shard| {
            let mut r = Rng::stream(run().seed, "C20/order", round as u64, shard as u64);
            let mut order: Vec<usize> = (0..jobs.len()).collect();
            r.shuffle(&mut order);
            order.truncate(jobs.len() / 4);
            let mut last = String::new();
            for j in order {
                if c.stop() {
                    break;
                }
                match &jobs[j] {
                    Job::Text(i, f, s, want) => {
                        let t = &ts[*i];
                        let Some(got) = op(c, t, &format!("deserialize {f:?}"), s.as_bytes(), || (text_of(t, *f).de)(s)) else { return };
                        let got = got.map(|v| canon(&t.ty, &v));
                        c.eval(key(t, s.as_bytes()), true);
                        c.count(if want.is_ok() { "parses repeated" } else { "failed parses repeated" });
                        if got != *want {
                            c.violation("history", format!("{f:?}, type {}: {s:?} read as {want:?} at first, and as {got:?} later, next to other threads, after {last}", t.name));
                            return;
                        }
                        last = format!("{} {s:?}", t.name);
                    }
                    Job::Bin(i, b, want) => {
                        let t = &ts[*i];
                        let Some(got) = op(c, t, "deserialize_bin", b, || (t.bin.unwrap().de)(b)) else { return };
                        let got = got.map(|v| canon(&t.ty, &v));
                        c.eval(key(t, b), true);
                        c.count("binary reads repeated");
                        if got != *want {
                            c.violation("history", format!("bin, type {}: {} read as {want:?} at first, and as {got:?} later, after {last}", t.name, show_bytes(b)));
                            return;
                        }
                        last = format!("{} {}", t.name, show_bytes(b));
                    }
                    Job::Ser(i, f, v, want) => {
                        let t = &ts[*i];
                        let Some(got) = op(c, t, &format!("serialize {f:?} {}", show(v)), &[], || ser(t, *f, v)) else { return };
                        c.eval(key(t, &got) ^ 3, true);
                        c.count("serializations repeated");
                        if got != *want {
                            c.violation("history", format!("{f:?}, type {}: {} serialized to {} at first, and to {} later, after {last}", t.name, show(v), show_bytes(want), show_bytes(&got)));
                            return;
                        }
                        last = format!("{} {}", t.name, show(v));
                    }
                    Job::Toml(s, want) => {
                        current("toml", s.as_bytes());
                        let got = guard(|| toml_of(s));
                        idle();
                        c.eval(hash_str(s), true);
                        c.count("TOML parses repeated");
                        if got.as_ref().ok() != Some(want) {
                            c.violation("history", format!("TOML {s:?} read as {want:?} at first, and as {got:?} later, after {last}"));
                            return;
                        }
                        last = format!("TOML {s:?}");
                    }
                }
            }
        });
    }
}
pub fn c20() {
    let ts = all_types();
    compose(&ts);
    streams(&ts);
    history(&ts);
    finish(
        "objects written repeatedly, from a second thread, and around other text through one state; values read one after another from one parser state against the same values alone; calls (half of them on damaged input) repeated in random orders by eight threads at once against their first results; non-trivial: the value is not all zeroes, or the stream has several values",
        200_000,
    );
}

// ---------------------------------------------------------------- C21

#[cfg(feature = "fancy")]
pub fn c21() {
    let plain = vgen::types();
    let fancy: BTreeMap<&'static str, TypeOps> = vfancy::types().into_iter().map(|t| (t.name, t)).collect();
    let pairs: Vec<TypeOps> = plain.into_iter().filter(|t| fancy.contains_key(t.name)).collect();
    if pairs.len() < 20 {
        eprintln!("HARNESS ERROR: the two crates share {} types", pairs.len());
        std::process::exit(3);
    }
    for_types(&pairs, 4, per(2500, 100_000), "pairs", |c, t, r, _| {
        let u = &fancy[t.name];
        let f = *r.pick(&formats(t));
        // writing
        let v = pick_val(r, &t.ty, if f == Fmt::Bin { ANY } else { TEXT });
        let Some(a) = op(c, t, &format!("serialize {f:?} {}", show(&v)), &[], || ser(t, f, &v)) else { return };
        let Some(b) = op(c, u, &format!("serialize {f:?} {} (other declaration)", show(&v)), &[], || ser(u, f, &v)) else { return };
        c.eval(key(t, &a) ^ f as u64, nontrivial(&v));
        c.count("values written");
        if !has_hash(&t.ty) && a != b {
            c.violation("output", format!("{f:?}, type {}: {} serializes to {} as declared plainly and to {} as declared otherwise", t.name, show(&v), show_bytes(&a), show_bytes(&b)));
            return;
        }
        // borrowed, and with the writing derives only
        if !writers(c, u, f, &v, &a) {
            return;
        }
        // reading: each other's output, and other documents, good and bad
        let mut docs = vec![b];
        if f == Fmt::Bin {
            docs.push(bin_doc(r, t));
        } else {
            docs.push(text_doc(r, t, f, false).into_bytes());
            docs.push(text_doc(r, t, f, true).into_bytes());
        }
        for d in docs {
            c.eval(key(t, &d) ^ f as u64, true);
            c.count("documents read");
            let (x, y) = if f == Fmt::Bin {
                let Some(x) = op(c, t, "deserialize_bin", &d, || (t.bin.unwrap().de)(&d)) else { return };
                let Some(y) = op(c, u, "deserialize_bin (other declaration)", &d, || (u.bin.unwrap().de)(&d)) else { return };
                (x.map(|v| canon(&t.ty, &v)).map_err(|e| format!("{e:?}")), y.map(|v| canon(&t.ty, &v)).map_err(|e| format!("{e:?}")))
            } else {
                let s = std::str::from_utf8(&d).unwrap();
                let Some(x) = op(c, t, &format!("deserialize {f:?}"), &d, || (text_of(t, f).de)(s)) else { return };
                let Some(y) = op(c, u, &format!("deserialize {f:?} (other declaration)"), &d, || (text_of(u, f).de)(s)) else { return };
                // the message may name the Rust type
                (x.map(|v| canon(&t.ty, &v)).map_err(|e| format!("{}:{}", e.line, e.col)), y.map(|v| canon(&t.ty, &v)).map_err(|e| format!("{}:{}", e.line, e.col)))
            };
            c.count(if x.is_ok() { "documents accepted" } else { "documents rejected" });
            for w in &u.readers {
                let s = std::str::from_utf8(&d).unwrap_or("");
                let text = |y: Result<Val, TErr>| y.map(|v| canon(&t.ty, &v)).map_err(|e| format!("{}:{}", e.line, e.col));
                let z = match f {
                    Fmt::Bin => op(c, u, "deserialize_bin (reading derives only)", &d, || w.bin.map(|w| w(&d).map(|v| canon(&t.ty, &v)).map_err(|e| format!("{e:?}")))),
                    Fmt::Json => op(c, u, "deserialize_json (reading derives only)", &d, || w.json.map(|w| text(w(s)))),
                    Fmt::Ron => op(c, u, "deserialize_ron (reading derives only)", &d, || w.ron.map(|w| text(w(s)))),
                };
                let Some(Some(z)) = z else { return };
                c.count("documents read with the reading derives only");
                if z != x {
                    c.violation("input", format!("{f:?}, type {}: {} reads as {x:?} as declared plainly and as {z:?} as declared with the reading derives only", t.name, show_bytes(&d)));
                    return;
                }
            }
            c.sample(t.name, || format!("{f:?} {}: {}", t.name, show_bytes(&d)));
            if x != y {
                c.violation("input", format!("{f:?}, type {}: {} reads as {x:?} as declared plainly and as {y:?} as declared otherwise", t.name, show_bytes(&d)));
                return;
            }
        }
    });
    finish(
        "types declared twice: plainly, and with generics, aliases, paths, foreign and split attributes, discriminants, visibilities and trailing commas; both must compile, write the same and read the same (values, and the places of errors) from good and damaged documents; distinct by type, format and document",
        50_000,
    );
}
#[cfg(not(feature = "fancy"))]
pub fn c21() {
    eprintln!("HARNESS ERROR: built without the second declarations");
    std::process::exit(3);
}
