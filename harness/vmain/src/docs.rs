//! Documents of types, good and spoiled.
use vh::doc::*;
use vh::gen::*;
use vh::model::*;
use vh::ops::*;
use vh::rng::*;

const SOUP: &[&str] = &[
    "{", "}", "[", "]", "(", ")", ",", ":", ";", "=", "\"", "\\", "/", "//", "/*", "*/", "*", "#", "\n", "\r", "\t", " ", "\0", "-", "+", ".", "e", "E", "0", "1", "9", "00", "-0", "1e", "1.", ".5", "1e999", "-1e-999", "1e+", "null", "true", "false", "None", "Some(",
    "nul", "tru", "inf", "nan", "-inf", "NaN", "\"\"", "\"a\"", "\"\\u", "\"\\uD800", "\"\\ud83d\\ude00\"", "\\u0000", "'", "'a'", "''", "\u{feff}", "\u{0}", "\u{1}", "\u{7f}", "\u{85}", "\u{a0}", "\u{2028}", "\u{fffe}", "\u{10ffff}", "é", "日", "😀", "18446744073709551615",
    "18446744073709551616", "-9223372036854775808", "-9223372036854775809", "99999999999999999999999999999999999999999999", "secs", "nanos", "\"secs\"", "\"nanos\"", "a", "_", "-x", "a.b", "[[", "]]", "\"\"\"", "2024-01-01", "1979-05-27T07:32:00Z", "0x1F", "1_000", "true,", "()", "{}", "[]", "(,)", "[,]", "{,}",
];
pub fn soup(r: &mut Rng, n: usize) -> String {
    let mut s = String::new();
    for _ in 0..n {
        match r.below(12) {
            0 => s.push(gen_char(r)),
            1 => s.push((b' ' + r.below(95) as u8) as char),
            _ => s.push_str(r.pick(SOUP)),
        }
        if r.chance(1, 6) {
            s.push(' ');
        }
    }
    s
}
/// Change the text at a few characters.
pub fn mutate(r: &mut Rng, s: &str, times: usize) -> String {
    let mut v: Vec<char> = s.chars().collect();
    for _ in 0..times {
        let n = v.len();
        match r.below(9) {
            0 if n > 0 => {
                v.remove(r.below(n));
            }
            1 if n > 0 => {
                let a = r.below(n);
                let b = (a + r.below(12)).min(n);
                v.drain(a..b);
            }
            2 if n > 0 => {
                let a = r.below(n);
                let b = (a + 1 + r.below(20)).min(n);
                let part: Vec<char> = v[a..b].to_vec();
                let at = r.below(n + 1);
                v.splice(at..at, part);
            }
            3 if n > 1 => {
                let (a, b) = (r.below(n), r.below(n));
                v.swap(a, b);
            }
            4 if n > 0 => {
                v.truncate(r.below(n));
            }
            5 if n > 0 => {
                let at = r.below(n);
                v[at] = gen_char(r);
            }
            _ => {
                let at = r.below(n + 1);
                let part: Vec<char> = r.pick(SOUP).chars().collect();
                v.splice(at..at, part);
            }
        }
    }
    v.into_iter().collect()
}
/// A collection in the type has elements that may take no bytes: the work is not bounded by the input then.
pub fn unbounded(t: &Ty) -> bool {
    any_ty(t, &mut |t, _| match t {
        Ty::Vec(a) | Ty::List(a) | Ty::HSet(a) | Ty::BSet(a) => min_bin(a, &mut vec![]) == 0,
        Ty::HMap(a, b) | Ty::BMap(a, b) => min_bin(a, &mut vec![]) + min_bin(b, &mut vec![]) == 0,
        _ => false,
    })
}
pub fn formats(t: &TypeOps) -> Vec<Fmt> {
    let mut v = vec![];
    if t.bin.is_some() {
        v.push(Fmt::Bin);
    }
    if t.json.is_some() {
        v.push(Fmt::Json);
    }
    if t.ron.is_some() {
        v.push(Fmt::Ron);
    }
    v
}
/// A document of the type, sometimes spoiled.
pub fn text_doc(r: &mut Rng, t: &TypeOps, f: Fmt, spoiled: bool) -> String {
    let v = gen(r, &t.ty, SMALL);
    let omit = *r.pick(&[0, 30, 100]);
    let d = build(r, &t.ty, &v, f, Opts { omit, extras: true, spell: true, sites: spoiled });
    let style = r.below(3) as u8;
    if spoiled && r.bool() && !d.sites.is_empty() {
        let s = r.pick(&d.sites).clone();
        if let Some(e) = spoil(r, &d, &s) {
            let toks = apply(&d.toks, &e);
            return render(r, &toks, Layout { style, plain_from: if e.plain { e.start } else { usize::MAX }, lines: true }).0;
        }
    }
    let text = render(r, &d.toks, Layout { style, plain_from: usize::MAX, lines: true }).0;
    if spoiled {
        let n = 1 + r.below(3);
        mutate(r, &text, n)
    } else {
        text
    }
}
pub fn bin_doc(r: &mut Rng, t: &TypeOps) -> Vec<u8> {
    let v = gen(r, &t.ty, SMALL_ANY);
    let mut b = vec![];
    vh::refbin::enc(&t.ty, &v, &mut b);
    for _ in 0..r.below(4) {
        if b.is_empty() {
            break;
        }
        let n = b.len();
        // damaged lengths of collections of nothing would take forever
        let k = if unbounded(&t.ty) { 0 } else { r.below(4) };
        match k {
            0 => b.truncate(r.below(n)),
            1 => b[r.below(n)] = *r.pick(&[0, 1, 2, 0xff, 0x80]),
            2 => b[r.below(n)] = r.u64() as u8,
            _ => b.push(r.u64() as u8),
        }
    }
    b
}
