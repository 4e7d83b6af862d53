//! C05 to C08, C11 to C13, C18 (text part), C22: JSON and RON.
use crate::bin::{big_val, BIG};
use crate::common::*;
use vh::doc::*;
use vh::gen::*;
use vh::model::*;
use vh::mon::*;
use vh::ops::*;
use vh::rng::*;
use vh::{jdoc, rdoc};

fn fmt_name(f: Fmt) -> &'static str {
    match f {
        Fmt::Json => "json",
        Fmt::Ron => "ron",
        Fmt::Bin => "bin",
    }
}
fn deep(r: &mut Rng, t: &Ty) -> Val {
    let mut g = Gen { r, o: SMALL, budget: 120 };
    g.val(t, 60)
}
/// Values for a text format: mostly small, some large, some deep.
fn text_val(r: &mut Rng, t: &TypeOps, rec: bool) -> Val {
    if rec && r.chance(1, 4) {
        deep(r, &t.ty)
    } else {
        pick_val(r, &t.ty, TEXT)
    }
}

// ---------------------------------------------------------------- C05, C22

fn output(f: Fmt, rule: &str) {
    let check = |c: &mut Ctx, t: &TypeOps, v: &Val| {
        let x = text_of(t, f);
        let Some((after, text)) = op(c, t, &format!("serialize {}", show(v)), &[], || (x.ser)(v)) else { return };
        c.eval(key(t, text.as_bytes()), nontrivial(v));
        c.add("characters", text.len() as u64);
        c.sample(t.name, || format!("{}: {text}", t.name));
        let bad = match f {
            Fmt::Json => match jdoc::parse(&text) {
                Err(m) => Some(format!("not RFC 8259 JSON: {m}")),
                Ok(j) => jdoc::denotes(&t.ty, &after, &j, "").err().map(|m| format!("does not denote the value: {m}")),
            },
            _ => rdoc::denotes(&t.ty, &after, &text).err(),
        };
        if let Some(m) = bad {
            c.violation("output", format!("type {}: {} serializes to text that is {m}\ntext: {text:?}", t.name, show(&after)));
            return;
        }
        writers(c, t, f, v, text.as_bytes());
    };
    let ts = types_with(f);
    for_types(&ts, 4, per(2000, 80_000), "output", |c, t, r, _| {
        let v = text_val(r, t, is_recursive(&t.ty));
        check(c, t, &v);
    });
    for_types(&grown(f), 1, per(2, 14), "large", |c, t, r, i| {
        if let Some(v) = big_val(r, &t.ty, BIG[BIG.len() - 1 - (i * 5) % BIG.len()]) {
            c.count("large values");
            check(c, t, &v);
        }
    });
    for_types(&strings(f), 4, per(12, 400), "long strings", |c, t, r, i| {
        let v = big_val(r, &t.ty, BIG[i % BIG.len()]).unwrap();
        c.count("long strings");
        check(c, t, &v);
    });
    // every character, alone and between others
    for_types(&builtin_with(f).into_iter().filter(|t| t.name == "String").collect::<Vec<_>>(), 1, 1, "characters", |c, t, _, _| {
        let mut code = 0u32;
        while code < 0x110000 {
            if code < 0x3000 || code % 7 == 0 || (0xd700..0xe100).contains(&code) || code & 0xffff >= 0xfff0 {
                if let Some(ch) = char::from_u32(code) {
                    check(c, t, &Val::Str(format!("{ch}")));
                    if code < 0x300 {
                        check(c, t, &Val::Str(format!("a{ch}{ch}0\"{ch}\\{ch}")));
                    }
                }
            }
            code += 1;
        }
    });
    finish(rule, 50_000);
}
pub fn c05() {
    output(Fmt::Json, "random, boundary, large and deeply nested values; the text is read by a strict RFC 8259 parser and the data compared with the value; non-trivial: the value is not all zeroes")
}
pub fn c22() {
    output(Fmt::Ron, "random, boundary, large and deeply nested values; the text is read by a strict reader led by the type and compared with the value; non-trivial: the value is not all zeroes")
}

// ---------------------------------------------------------------- C06, C11

fn roundtrip(f: Fmt) {
    let check = |c: &mut Ctx, t: &TypeOps, v: &Val, r: &mut Rng| {
        let x = text_of(t, f);
        let Some((_, text)) = op(c, t, &format!("serialize {}", show(v)), &[], || (x.ser)(v)) else { return };
        c.eval(key(t, text.as_bytes()), nontrivial(v));
        c.add("characters", text.len() as u64);
        c.sample(t.name, || format!("{}: {text}", t.name));
        let Some(got) = op(c, t, "deserialize", text.as_bytes(), || (x.de)(&text)) else { return };
        let want = canon(&t.ty, &norm(&t.ty, v, f));
        if nullish(&t.ty, v, f) {
            c.count("null-like values");
        }
        match &got {
            Ok(g) if canon(&t.ty, g) == want => {}
            g => {
                c.violation("round trip", format!("type {}: {} serializes to {text:?}, which reads back as {g:?}, expected {}", t.name, show(v), show(&want)));
                return;
            }
        }
        // what was read is written and read again
        if r.chance(1, 4) {
            let g = got.unwrap();
            let Some((_, text2)) = op(c, t, &format!("serialize {}", show(&g)), &[], || (x.ser)(&g)) else { return };
            let Some(got2) = op(c, t, "deserialize", text2.as_bytes(), || (x.de)(&text2)) else { return };
            let want2 = canon(&t.ty, &norm(&t.ty, &g, f));
            if !matches!(&got2, Ok(h) if canon(&t.ty, h) == want2) {
                c.violation("second round trip", format!("type {}: {} was read from {text:?}; written again as {text2:?} it reads back as {got2:?}", t.name, show(&g)));
            }
        }
    };
    let ts = types_with(f);
    for_types(&ts, 4, per(2000, 80_000), "roundtrip", |c, t, r, _| {
        let v = text_val(r, t, is_recursive(&t.ty));
        check(c, t, &v, r);
    });
    for_types(&grown(f), 1, per(2, 14), "large", |c, t, r, i| {
        if let Some(v) = big_val(r, &t.ty, BIG[BIG.len() - 1 - (i * 5) % BIG.len()]) {
            c.count("large values");
            check(c, t, &v, r);
        }
    });
    for_types(&strings(f), 4, per(12, 400), "long strings", |c, t, r, i| {
        let v = big_val(r, &t.ty, BIG[i % BIG.len()]).unwrap();
        c.count("long strings");
        check(c, t, &v, r);
    });
    for_types(&builtin_with(f).into_iter().filter(|t| matches!(t.ty, Ty::F32 | Ty::F64)).collect::<Vec<_>>(), 8, per(400_000, 20_000_000), "floats", |c, t, r, _| {
        let v = gen(r, &t.ty, TEXT);
        check(c, t, &v, r);
    });
    for_types(&builtin_with(f).into_iter().filter(|t| t.name == "String").collect::<Vec<_>>(), 1, 1, "characters", |c, t, r, _| {
        let mut code = 0u32;
        while code < 0x110000 {
            if code < 0x3000 || code % 7 == 0 || (0xd700..0xe100).contains(&code) || code & 0xffff >= 0xfff0 {
                if let Some(ch) = char::from_u32(code) {
                    check(c, t, &Val::Str(format!("{ch}")), r);
                    if code < 0x300 {
                        check(c, t, &Val::Str(format!("a{ch}{ch}0\"{ch}\\{ch}")), r);
                    }
                }
            }
            code += 1;
        }
    });
    finish("random, boundary, large and deeply nested values, written and read back (a quarter of them twice); non-trivial: the value is not all zeroes; distinct by type and text", 100_000);
}
pub fn c06() {
    roundtrip(Fmt::Json)
}
pub fn c11() {
    roundtrip(Fmt::Ron)
}

// ---------------------------------------------------------------- C07, C12

/// Values that are big in one dimension.
fn large(f: Fmt, name: &str, max: usize, check: &(dyn Fn(&mut Ctx, &TypeOps, &mut Rng, Val) + Sync)) {
    let sizes: Vec<usize> = BIG.iter().rev().copied().filter(|n| *n <= max).collect();
    for_types(&grown(f), 1, per(2, 14), name, |c, t, r, i| {
        if let Some(v) = big_val(r, &t.ty, sizes[i * 5 % sizes.len()]) {
            c.count("large values");
            check(c, t, r, v);
        }
    });
}
fn spellings(f: Fmt) {
    let ts = types_with(f);
    let check = |c: &mut Ctx, t: &TypeOps, r: &mut Rng, v: Val| {
        let omit = *r.pick(&[0, 30, 100]);
        let d = build(r, &t.ty, &v, f, Opts { omit, extras: true, spell: true, sites: false });
        let style = r.below(3) as u8;
        let lines = r.bool();
        let (text, _) = render(r, &d.toks, Layout { style, plain_from: usize::MAX, lines });
        c.eval(key(t, text.as_bytes()), d.toks.len() > 1 || style > 0);
        c.sample(t.name, || format!("{}: {text:?}", t.name));
        for (k, n) in [
            ("members left out", d.tags.omitted),
            ("unknown members", d.tags.unknown),
            ("repeated members", d.tags.dups),
            ("characters escaped that need not be", d.tags.escapes),
            ("trailing commas", d.tags.trailing),
            ("floats respelled", d.tags.respelled),
            ("objects reordered", d.tags.reordered),
        ] {
            c.add(k, n as u64);
        }
        let x = text_of(t, f);
        let Some(got) = op(c, t, "deserialize", text.as_bytes(), || (x.de)(&text)) else { return };
        let want = canon(&t.ty, &d.expect);
        if !matches!(&got, Ok(g) if canon(&t.ty, g) == want) {
            c.violation("spelling", format!("type {}: {text:?} denotes {} but reads as {got:?}", t.name, show(&want)));
        }
    };
    for_types(&ts, 4, per(3000, 120_000), "spelling", |c, t, r, _| {
        let rec = is_recursive(&t.ty);
        let v = if rec && r.chance(1, 6) { deep(r, &t.ty) } else { pick_val(r, &t.ty, TEXT) };
        check(c, t, r, v);
    });
    large(f, "large", usize::MAX, &check);
    for_types(&strings(f), 4, per(30, 600), "long strings", |c, t, r, i| {
        let v = big_val(r, &t.ty, BIG[i % BIG.len()]).unwrap();
        c.count("long strings");
        check(c, t, r, v);
    });
    finish("documents of random values in random spellings: blanks, comments, escapes, number forms, member order, repeated and (JSON) unknown members, trailing commas, absent members; non-trivial: more than one token, or blanks; distinct by type and text", 100_000);
}
pub fn c07() {
    spellings(Fmt::Json)
}
pub fn c12() {
    spellings(Fmt::Ron)
}

// ---------------------------------------------------------------- C08, C13

fn rejections(f: Fmt) {
    let ts = types_with(f);
    let check = |c: &mut Ctx, t: &TypeOps, r: &mut Rng, v: Val| {
        let x = text_of(t, f);
        let spell = r.bool();
        let d = build(r, &t.ty, &v, f, Opts { omit: 20, extras: true, spell, sites: true });
        let style = r.below(3) as u8;
        // first the document as it is: the spoiled ones mean nothing otherwise
        let (text, spans) = render(r, &d.toks, Layout { style, plain_from: usize::MAX, lines: false });
        let Some(good) = op(c, t, "deserialize", text.as_bytes(), || (x.de)(&text)) else { return };
        if good.is_err() {
            c.count("documents rejected unspoiled: left to other checks");
            return;
        }
        // cut short
        let last = spans.last().unwrap().0;
        let idx: Vec<usize> = text.char_indices().map(|x| x.0).collect();
        let cuts: Vec<usize> = if last < 40 { (0..=last).collect() } else { (0..24).map(|_| r.below(last + 1)).collect() };
        for n in cuts {
            // part of a variant's name can be the name of another
            if d.toks[0].k == TK::Word && n > spans[0].0 && n <= spans[0].1 {
                continue;
            }
            let s = &text[..idx.get(n).copied().unwrap_or(text.len())];
            let Some(got) = op(c, t, "deserialize (cut short)", s.as_bytes(), || (x.de)(s)) else { return };
            c.eval(key(t, s.as_bytes()), true);
            c.count("cut short");
            if let Ok(g) = got {
                c.violation("cut short", format!("type {}: {s:?}, cut from {text:?}, reads as {}", t.name, show(&g)));
                return;
            }
        }
        for _ in 0..6 {
            if d.sites.is_empty() {
                break;
            }
            let s = r.pick(&d.sites).clone();
            let Some(e) = spoil(r, &d, &s) else { continue };
            let toks = apply(&d.toks, &e);
            let plain = if e.plain { e.start } else { usize::MAX };
            let (text, _) = render(r, &toks, Layout { style, plain_from: plain, lines: false });
            let Some(got) = op(c, t, &format!("deserialize ({})", e.name), text.as_bytes(), || (x.de)(&text)) else { return };
            c.eval(key(t, text.as_bytes()), true);
            c.count(e.name);
            match got {
                Ok(g) => {
                    c.violation(e.name, format!("type {}: {text:?} ({}) reads as {}", t.name, e.name, show(&g)));
                }
                Err(err) => c.sample(e.name, || format!("{}: {}: {text:?} -> {}", t.name, e.name, err.shown)),
            }
        }
    };
    for_types(&ts, 4, per(1200, 60_000), "reject", |c, t, r, _| {
        let v = gen(r, &t.ty, SMALL);
        check(c, t, r, v);
    });
    large(f, "large", 1024, &check);
    finish("documents that read well, then cut at a character before the last token, or spoiled in one place; distinct by type and text", 100_000);
}
pub fn c08() {
    rejections(Fmt::Json)
}
pub fn c13() {
    rejections(Fmt::Ron)
}

// ---------------------------------------------------------------- C18, text

/// Line and column (both from 0) after reading `n` characters.
pub fn linecols(text: &str) -> Vec<(usize, usize)> {
    let mut v = vec![(0, 0)];
    let (mut l, mut c) = (0, 0);
    for ch in text.chars() {
        if ch == '\n' {
            l += 1;
            c = 0;
        } else {
            c += 1;
        }
        v.push((l, c));
    }
    v
}
pub fn positions(f: Fmt) {
    let ts = types_with(f);
    let name = if f == Fmt::Json { "json positions" } else { "ron positions" };
    let check = |c: &mut Ctx, t: &TypeOps, r: &mut Rng, v: Val| {
        let x = text_of(t, f);
        let spell = r.bool();
        let d = build(r, &t.ty, &v, f, Opts { omit: 20, extras: true, spell, sites: true });
        for _ in 0..4 {
            if d.sites.is_empty() {
                break;
            }
            let s = r.pick(&d.sites).clone();
            let Some(e) = spoil(r, &d, &s) else { continue };
            let Some((bad, look)) = e.bad else { continue };
            let toks = apply(&d.toks, &e);
            let plain = if e.plain { e.start } else { usize::MAX };
            let style = r.below(3) as u8;
            let (text, spans) = render(r, &toks, Layout { style, plain_from: plain, lines: true });
            let Some(got) = op(c, t, &format!("deserialize ({})", e.name), text.as_bytes(), || (x.de)(&text)) else { return };
            c.eval(key(t, text.as_bytes()), text.contains('\n'));
            c.count(e.name);
            let Err(err) = got else {
                c.count("accepted: left to other checks");
                continue;
            };
            let lc = linecols(&text);
            let n = lc.len() - 1;
            let from = spans.get(bad).map(|s| s.0).unwrap_or(n) + 1;
            let to = spans.get(bad + look).map(|s| s.1).unwrap_or(n) + 1;
            let ok = (from.min(n)..=to.min(n)).any(|p| lc[p] == (err.line, err.col));
            c.sample(e.name, || format!("{}: {}: {text:?} -> {}", t.name, e.name, err.shown));
            if !ok {
                c.violation(
                    "position",
                    format!(
                        "type {}: {text:?} ({}): damaged at characters {:?}: the error says line {} column {} ({}), the range is {:?}..={:?}",
                        t.name,
                        e.name,
                        spans.get(bad),
                        err.line,
                        err.col,
                        err.shown,
                        lc[from.min(n)],
                        lc[to.min(n)]
                    ),
                );
            }
            // the message shows the position from 1
            let l1 = (err.line + 1).to_string();
            let c1 = (err.col + 1).to_string();
            if !err.shown.contains(&l1) || !err.shown.contains(&c1) {
                c.violation("position shown", format!("{} shows {:?} for line {} column {}", fmt_name(f), err.shown, err.line, err.col));
            }
        }
    };
    for_types(&ts, 4, per(800, 40_000), name, |c, t, r, _| {
        let v = gen(r, &t.ty, SMALL);
        check(c, t, r, v);
    });
    large(f, if f == Fmt::Json { "json large" } else { "ron large" }, 1024, &check);
}
