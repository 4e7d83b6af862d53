//! C17, the ordinary types: what a decode or an encode leaves behind. Also run under AddressSanitizer and Miri.
use crate::common::*;
use crate::docs::*;
use vh::gen::*;
use vh::model::*;
use vh::mon::*;
use vh::ops::*;
use vh::tomldoc;

/// Bytes held after `f` that were not before, if that happens every time.
fn leak<T>(mut f: impl FnMut() -> T) -> i64 {
    let mut least = i64::MAX;
    for _ in 0..3 {
        let b = live_bytes();
        drop(f());
        least = least.min(live_bytes() - b);
        if least <= 0 {
            return 0;
        }
    }
    least
}
/// None: it panicked, which is for other checks.
fn tried<T>(c: &mut Ctx, t: &TypeOps, what: &str, input: &[u8], f: impl FnOnce() -> T) -> Option<T> {
    current(&format!("{} {what}", t.name), input);
    let r = guard(f).ok();
    idle();
    if r.is_none() {
        c.count("panics: left to other checks");
    }
    r
}
/// `shard` of `of`: of the types, when several processes share the work.
pub fn run_mode(mode: &str, shard: usize, of: usize) -> ! {
    let miri = cfg!(miri);
    // built-in types only under Miri: what it interprets it also has to read in
    let ts: Vec<TypeOps> = all_types().into_iter().enumerate().filter(|(i, _)| i % of == shard).map(|x| x.1).collect();
    let n = match (mode, run().thorough()) {
        ("miri", false) => 2,
        ("miri", true) => 12,
        ("asan", false) => 1000,
        ("asan", true) => 30_000,
        (_, false) => 2000,
        (_, true) => 60_000,
    };
    let go = |c: &mut Ctx, t: &TypeOps, i: usize| {
        let mut r = vh::rng::Rng::stream(run().seed, &format!("C17/{mode}/{}", t.name), i as u64, 0);
        let r = &mut r;
        for f in formats(t) {
            let big = !miri && r.chance(1, 8);
            let v = gen(r, &t.ty, match (f, big) { (Fmt::Bin, true) => ANY, (Fmt::Bin, _) => SMALL_ANY, (_, true) => TEXT, _ => SMALL });
            let what = format!("serialize {f:?} {}", show(&v));
            let Some(held) = tried(c, t, &what, &[], || {
                leak(|| match f {
                    Fmt::Bin => (t.bin.unwrap().ser)(&v).1,
                    _ => (text_of(t, f).ser)(&v).1.into_bytes(),
                })
            }) else {
                return;
            };
            c.eval(hash_str2(t, f, 0, show(&v).as_bytes()), nontrivial(&v));
            c.count("encodes");
            if held != 0 {
                c.violation("leak", format!("type {}: {what}: {held} bytes are still held when the output is gone", t.name));
                return;
            }
            let mut docs = vec![];
            if f == Fmt::Bin {
                docs.push((t.bin.unwrap().ser)(&v).1);
                docs.push(bin_doc(r, t));
                if !miri {
                    docs.push(bin_doc(r, t));
                }
            } else {
                docs.push((text_of(t, f).ser)(&v).1.into_bytes());
                docs.push(text_doc(r, t, f, true).into_bytes());
                if !miri {
                    docs.push(text_doc(r, t, f, false).into_bytes());
                    docs.push(text_doc(r, t, f, true).into_bytes());
                }
            }
            for d in docs {
                // exactly as long as it is: the next byte is nobody's
                let d = d.into_boxed_slice();
                let mut ok = false;
                let Some(held) = tried(c, t, &format!("deserialize {f:?}"), &d, || {
                    leak(|| match f {
                        Fmt::Bin => {
                            let x = (t.bin.unwrap().de)(&d);
                            ok = x.is_ok();
                            x.map(|_| ()).map_err(|e| e.shown)
                        }
                        _ => {
                            let x = (text_of(t, f).de)(std::str::from_utf8(&d).unwrap());
                            ok = x.is_ok();
                            x.map(|_| ()).map_err(|e| e.shown)
                        }
                    })
                }) else {
                    continue;
                };
                c.eval(hash_str2(t, f, 1, &d), true);
                c.count(if ok { "decodes that end well" } else { "decodes that end in an error" });
                c.sample(&format!("{}{ok}", t.name), || format!("{f:?} {}: {} -> ok: {ok}, bytes left: {held}", t.name, show_bytes(&d)));
                if held != 0 {
                    c.violation("leak", format!("type {}: decoding {} leaves {held} bytes held", t.name, show_bytes(&d)));
                    return;
                }
            }
        }
    };
    if miri {
        parallel(1, |c, _| {
            for i in 0..n {
                for t in &ts {
                    if run().left() < 0.0 || c.stop() {
                        return;
                    }
                    go(c, t, i);
                    if i == 0 {
                        c.count("types");
                    }
                }
            }
        });
    } else {
        for_types(&ts, 4, n, mode, |c, t, _, i| go(c, t, i));
    }
    if shard == 0 {
        toml(mode, if miri { n * 4 } else { n * 10 });
    }
    report(&format!("ordinary types, {mode}"));
}
fn hash_str2(t: &TypeOps, f: Fmt, k: u64, d: &[u8]) -> u64 {
    key(t, d) ^ (f as u64) << 3 ^ k << 7
}
#[cfg(feature = "toml")]
fn toml(mode: &str, n: usize) {
    use nanoserde::TomlParser;
    parallel(8, |c, i| {
        let mut r = vh::rng::Rng::stream(run().seed, &format!("C17/{mode}/toml"), i as u64, 0);
        for _ in 0..(n / 8).max(1) {
            if run().left() < 0.0 {
                return;
            }
            let mut d = tomldoc::make(&mut r, if cfg!(miri) { 3 } else { 8 }).text();
            if r.bool() {
                d = mutate(&mut r, &d, 2);
            }
            let d = d.into_boxed_str();
            current("TomlParser::parse", d.as_bytes());
            let mut ok = false;
            let held = guard(|| {
                leak(|| {
                    let x = TomlParser::parse(&d);
                    ok = x.is_ok();
                    x.map_err(|e| e.to_string())
                })
            });
            idle();
            c.eval(vh::rng::hash_bytes(d.as_bytes()), true);
            c.count("TOML documents");
            match held {
                Err(_) => c.count("panics: left to other checks"),
                Ok(0) => {}
                Ok(b) => c.violation("leak", format!("parsing TOML {} leaves {b} bytes held", show_bytes(d.as_bytes()))),
            }
        }
    });
}
