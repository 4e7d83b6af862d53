//! C19: what happens to the same inputs, written down, in whatever configuration this is built.
//! `vtrace OUT`: one line per case. `vtrace show TYPE FORMAT CASE`: that case in full.
#![allow(dead_code, unused_imports)]
#[path = "../../vmain/src/common.rs"]
mod common;
#[path = "../../vmain/src/docs.rs"]
mod docs;
use common::*;
use docs::*;
use std::sync::Mutex;
use vh::gen::*;
use vh::model::*;
use vh::mon::*;
use vh::ops::*;
use vh::rng::*;

#[global_allocator]
static A: Counting = Counting;

/// Bytes whose order is not given by the value.
fn shuffled(t: &Ty, b: &[u8]) -> Vec<u8> {
    let mut b = b.to_vec();
    if has_hash(t) {
        b.sort();
    }
    b
}
fn seen<T>(what: &str, o: &mut Vec<String>, input: &[u8], f: impl FnOnce() -> T, show: impl FnOnce(T) -> String) {
    current(what, input);
    let r = guard(f);
    idle();
    o.push(match r {
        Ok(x) => format!("{what} {} -> {}", show_bytes(input), show(x)),
        // where it panics is not what is compared
        Err(m) => format!("{what} {} -> panic: {}", show_bytes(input), m.split(" at ").next().unwrap_or("")),
    });
}
/// Everything seen in one case.
fn case(t: &TypeOps, f: Fmt, i: usize) -> Vec<String> {
    let mut rr = Rng::stream(run().seed, &format!("C19/{}/{f:?}", t.name), i as u64, 0);
    let r = &mut rr;
    let mut o = vec![];
    let big = r.chance(1, 12);
    let v = gen(r, &t.ty, match (f, big) { (Fmt::Bin, true) => ANY, (Fmt::Bin, _) => SMALL_ANY, (_, true) => TEXT, _ => SMALL });
    let mut written = None;
    seen(
        &format!("serialize {}", show(&v)),
        &mut o,
        &[],
        || match f {
            Fmt::Bin => (t.bin.unwrap().ser)(&v),
            _ => {
                let x = (text_of(t, f).ser)(&v);
                (x.0, x.1.into_bytes())
            }
        },
        |x| {
            let s = show_bytes(&shuffled(&t.ty, &x.1));
            written = Some(x.1);
            s
        },
    );
    let mut docs: Vec<Vec<u8>> = vec![];
    if !has_hash(&t.ty) {
        docs.extend(written);
    }
    match f {
        Fmt::Bin => docs.extend((0..3).map(|_| bin_doc(r, t))),
        _ => {
            docs.push(text_doc(r, t, f, false).into_bytes());
            for _ in 0..2 {
                docs.push(text_doc(r, t, f, true).into_bytes());
            }
            docs.push(number(r).into_bytes());
            let n = r.below(12);
            docs.push(soup(r, n).into_bytes());
        }
    }
    for d in docs {
        match f {
            Fmt::Bin => seen("deserialize", &mut o, &d, || (t.bin.unwrap().de)(&d), |x| format!("{:?}", x.map(|v| canon(&t.ty, &v)))),
            _ => {
                let s = std::str::from_utf8(&d).unwrap();
                seen("deserialize", &mut o, &d, || (text_of(t, f).de)(s), |x| format!("{:?}", x.map(|v| canon(&t.ty, &v))))
            }
        }
    }
    o
}
/// A number of some kind, for types that take one.
fn number(r: &mut Rng) -> String {
    let digits = |r: &mut Rng, n: usize| (0..n).map(|_| (b'0' + r.below(10) as u8) as char).collect::<String>();
    let mut s = String::new();
    if r.chance(1, 3) {
        s.push('-');
    }
    let n = 1 + r.below(24);
    s += &digits(r, n);
    if r.bool() {
        let n = 1 + r.below(22);
        s += ".";
        s += &digits(r, n);
    }
    if r.bool() {
        s += *r.pick(&["e", "E", "e+", "e-", "E-"]);
        let n = 1 + r.below(3);
        s += &digits(r, n);
    }
    s
}
#[cfg(feature = "toml")]
fn toml_case(i: usize) -> Vec<String> {
    use nanoserde::TomlParser;
    let mut rr = Rng::stream(run().seed, "C19/toml", i as u64, 0);
    let r = &mut rr;
    let n = r.below(9);
    let mut s = vh::tomldoc::make(r, n).text();
    match r.below(4) {
        0 | 1 => {}
        2 => {
            let n = 1 + r.below(3);
            s = mutate(r, &s, n)
        }
        _ => s = format!("a = {}\nb = [{}, {}]", number(r), number(r), number(r)),
    }
    let mut o = vec![];
    seen(
        "TomlParser::parse",
        &mut o,
        s.as_bytes(),
        || TomlParser::parse(&s),
        |x| match x {
            Ok(t) => format!("{t:?}"),
            Err(e) => format!("{}:{} {:?} {e}", e.line, e.col, e.msg),
        },
    );
    o
}
fn formats_here(t: &TypeOps) -> Vec<Fmt> {
    formats(t)
}
fn main() {
    let args: Vec<String> = std::env::args().collect();
    let env = |k: &str, d: &str| std::env::var(k).unwrap_or_else(|_| d.to_string());
    let secs: f64 = env("VH_SECS", "60").parse().unwrap();
    set_run(Run {
        prop: "C19".into(),
        tier: env("VERIF_TIER", "quick"),
        seed: env("VERIF_SEED", "1").parse().unwrap_or(1),
        verif: env("VH_VERIF", "/verif"),
        threads: env("VH_THREADS", "8").parse().unwrap(),
        start: std::time::Instant::now(),
        secs,
        only: None,
    });
    install_panic_hook();
    if let Ok(s) = std::env::var("VH_SLOTS") {
        open_slots(&s);
    }
    let ts = all_types();
    if args[1] == "show" {
        let i: usize = args[4].parse().unwrap();
        #[cfg(feature = "toml")]
        if args[2] == "TOML" {
            println!("{}", toml_case(i).join("\n"));
            return;
        }
        let t = ts.iter().find(|t| t.name == args[2]).expect("harness: the type");
        let f = formats(t).into_iter().find(|f| format!("{f:?}") == args[3]).expect("harness: the format");
        println!("{}", case(t, f, i).join("\n"));
        return;
    }
    let n = if run().thorough() { 8000 } else { 1000 };
    let out: Mutex<Vec<String>> = Mutex::new(vec![]);
    parallel(ts.len(), |c, i| {
        let t = &ts[i];
        let mut ls = vec![];
        for f in formats_here(t) {
            for k in 0..n {
                let o = case(t, f, k);
                ls.push(format!("{}\t{f:?}\t{k}\t{:016x}\t{}\t{}", t.name, hash_bytes(o.join("\n").as_bytes()), o.len(), o.iter().filter(|x| x.contains("-> Ok")).count()));
            }
        }
        c.count("types");
        out.lock().unwrap().extend(ls);
    });
    #[cfg(feature = "toml")]
    parallel(16, |_, s| {
        let ls: Vec<String> = (0..n * 8)
            .map(|k| {
                let k = s * n * 8 + k;
                let o = toml_case(k);
                format!("TOML\tToml\t{k}\t{:016x}\t{}\t{}", hash_bytes(o.join("\n").as_bytes()), o.len(), o.iter().filter(|x| x.contains("-> {")).count())
            })
            .collect();
        out.lock().unwrap().extend(ls);
    });
    let mut v = out.into_inner().unwrap();
    v.sort();
    v.push(String::new());
    std::fs::write(&args[1], v.join("\n")).unwrap();
}
