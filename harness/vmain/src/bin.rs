//! C01 to C04: the binary format.
use crate::common::*;
use crate::docs::*;
use vh::gen::*;
use vh::model::*;
use vh::mon::*;
use vh::ops::*;
use vh::refbin::*;
use vh::rng::*;

fn fits(t: &TypeOps, v: &Val, got: &Result<Val, BErr>) -> Result<(), String> {
    let want = canon(&t.ty, &norm_bin(&t.ty, v));
    match got {
        Ok(x) if canon(&t.ty, x) == want => Ok(()),
        Ok(x) => Err(format!("decoded to {}", show(&canon(&t.ty, x)))),
        Err(e) => Err(format!("decoding failed: {e:?}")),
    }
}
fn roundtrip(c: &mut Ctx, t: &TypeOps, r: &mut Rng, v: &Val) -> Option<Vec<u8>> {
    let b = t.bin.unwrap();
    let (_, bytes) = op(c, t, &format!("serialize_bin {}", show(v)), &[], || (b.ser)(v))?;
    c.eval(key(t, &bytes), nontrivial(v));
    let got = op(c, t, "deserialize_bin", &bytes, || (b.de)(&bytes))?;
    if let Err(m) = fits(t, v, &got) {
        c.violation("round trip", format!("type {}: value {} encoded to {} but {m}", t.name, show(v), show_bytes(&bytes)));
        return None;
    }
    // inside a larger buffer
    let pre = r.below(9);
    let post = r.below(9);
    let mut buf: Vec<u8> = (0..pre).map(|_| r.u64() as u8).collect();
    buf.extend_from_slice(&bytes);
    buf.extend((0..post).map(|_| if r.bool() { 0xff } else { r.u64() as u8 }));
    let mut o = pre;
    let got = op(c, t, &format!("de_bin at {pre}"), &buf, || (b.de_at)(&mut o, &buf))?;
    if let Err(m) = fits(t, v, &got) {
        c.violation("round trip inside a buffer", format!("type {}: value {} at offset {pre} of {}: {m}", t.name, show(v), show_bytes(&buf)));
        return None;
    }
    if o != pre + bytes.len() {
        c.violation(
            "offset",
            format!("type {}: value {} took {} bytes, decoding consumed {}: {}", t.name, show(v), bytes.len(), o as i64 - pre as i64, show_bytes(&buf)),
        );
    }
    c.add("bytes", bytes.len() as u64);
    Some(bytes)
}
/// Sizes around the limits of narrower length types.
pub const BIG: &[usize] = &[127, 128, 255, 256, 257, 1023, 1024, 4096, 32767, 32768, 65535, 65536, 65537, 100_003];
/// A big value of a type that has one dimension to grow in.
pub fn big_val(r: &mut Rng, t: &Ty, n: usize) -> Option<Val> {
    Some(match t {
        // wide characters across the limits
        Ty::Str if r.bool() => {
            let every = *r.pick(&[3, 16, 300]);
            let mut s = String::new();
            while s.len() < n {
                let at = s.len();
                if [0x3f, 0xff, 0xfff].iter().any(|m| (at & m) >= m - 2) && r.chance(2, 3) {
                    s.push(*r.pick(&['é', '€', '😀', '\u{7ff}', '\u{ffff}', '\u{10ffff}', '\u{2028}', '\u{85}']));
                } else if r.chance(1, every) {
                    s.push(gen_char(r));
                } else {
                    s.push((b'a' + (at % 26) as u8) as char);
                }
            }
            if r.bool() {
                s.push(gen_char(r));
            }
            Val::Str(s)
        }
        Ty::Str => Val::Str((0..n).map(|i| if i % 97 == 5 { gen_char(r) } else { (b'a' + (i % 26) as u8) as char }).collect()),
        Ty::Vec(e) | Ty::List(e) => Val::Seq((0..n).map(|_| gen_small(r, e)).collect()),
        Ty::HSet(e) | Ty::BSet(e) => {
            if !matches!(**e, Ty::Str | Ty::U32 | Ty::U64 | Ty::U16) {
                return None;
            }
            let m = if matches!(**e, Ty::U16) { n.min(65536) } else { n };
            Val::Seq((0..m).map(|i| if matches!(**e, Ty::Str) { Val::Str(format!("k{i}")) } else { Val::U(i as u128) }).collect())
        }
        Ty::HMap(k, e) | Ty::BMap(k, e) => {
            if !matches!(**k, Ty::Str | Ty::U32 | Ty::U64) {
                return None;
            }
            Val::Map((0..n).map(|i| (if matches!(**k, Ty::Str) { Val::Str(format!("k{i}")) } else { Val::U(i as u128) }, gen_small(r, e))).collect())
        }
        _ => return None,
    })
}
pub fn c01() {
    let ts = types_with(Fmt::Bin);
    for_types(&ts, 4, per(1200, 40_000), "roundtrip", |c, t, r, _| {
        let v = pick_val(r, &t.ty, ANY);
        c.sample(t.name, || format!("{} = {}", t.name, show(&v)));
        roundtrip(c, t, r, &v);
    });
    for_types(&grown(Fmt::Bin), 1, per(3, 14), "large", |c, t, r, i| {
        let n = if run().thorough() { BIG[i % BIG.len()] } else { [65535, 65536 + r.below(3), *r.pick(BIG)][i % 3] };
        if let Some(v) = big_val(r, &t.ty, n) {
            roundtrip(c, t, r, &v);
            c.count("large values");
        }
    });
    for_types(&strings(Fmt::Bin), 4, per(12, 400), "long strings", |c, t, r, i| {
        let v = big_val(r, &t.ty, BIG[i % BIG.len()]).unwrap();
        roundtrip(c, t, r, &v);
        c.count("long strings");
    });
    // values of several types one after another in one buffer
    parallel(per(400, 8000), |c, i| {
        let mut r = Rng::stream(run().seed, "C01/stream", i as u64, 0);
        for _ in 0..5 {
            let n = 2 + r.below(7);
            let mut buf = vec![];
            let mut plan = vec![];
            for _ in 0..n {
                let t = r.pick(&ts);
                let v = gen(&mut r, &t.ty, SMALL_ANY);
                if op(c, t, &format!("ser_bin {}", show(&v)), &[], || (t.bin.unwrap().ser_into)(&v, &mut buf)).is_none() {
                    return;
                }
                plan.push((t, v, buf.len()));
            }
            c.eval(hash_bytes(&buf), true);
            c.count("streams");
            let mut o = 0;
            for (t, v, end) in &plan {
                let Some(got) = op(c, t, &format!("de_bin at {o} of a stream"), &buf, || (t.bin.unwrap().de_at)(&mut o, &buf)) else { return };
                if let Err(m) = fits(t, v, &got) {
                    c.violation("stream", format!("{} = {} in a stream: {m}\n{}", t.name, show(v), show_bytes(&buf)));
                    return;
                }
                if o != *end {
                    c.violation("stream", format!("{} = {} in a stream: the offset is {o} afterwards, not {end}\n{}", t.name, show(v), show_bytes(&buf)));
                    return;
                }
            }
        }
    });
    finish("random and boundary values of every type; non-trivial: the value is not all zeroes; distinct by type and encoding", 20_000);
}

pub fn c02() {
    let ts = types_with(Fmt::Bin);
    let check = |c: &mut Ctx, t: &TypeOps, r: &mut Rng, v: Val| {
        let b = t.bin.unwrap();
        let Some((after, bytes)) = op(c, t, &format!("serialize_bin {}", show(&v)), &[], || (b.ser)(&v)) else { return };
        let mut want = vec![];
        enc(&t.ty, &after, &mut want);
        c.eval(key(t, &want), nontrivial(&v));
        c.sample(t.name, || format!("{} = {} -> {}", t.name, show(&v), show_bytes(&want)));
        if bytes != want {
            c.violation("layout", format!("type {}: value {} encoded to {}, the layout is {}", t.name, show(&after), show_bytes(&bytes), show_bytes(&want)));
            return;
        }
        if !writers(c, t, Fmt::Bin, &v, &bytes) {
            return;
        }
        // other encodings of the layout
        let mut e = Enc { o: vec![], r: Some(&mut *r), sites: vec![], want_sites: false, odd: 0 };
        e.enc(&t.ty, &v);
        let odd = e.odd;
        let mut buf = e.o;
        let end = buf.len();
        if r.bool() {
            let n = r.below(20);
            buf.extend((0..n).map(|_| r.u64() as u8));
        }
        let mut d = Dec::new(&buf, 0);
        let want = match d.dec(&t.ty) {
            Ok(x) if d.o == end => collapse(&t.ty, &x),
            x => panic!("harness: reference decoder: {x:?} {} {end}", d.o),
        };
        let mut o = 0;
        let Some(got) = op(c, t, "de_bin", &buf, || (b.de_at)(&mut o, &buf)) else { return };
        c.eval(key(t, &buf), odd > 0);
        c.add("unusual encodings", odd as u64);
        match got {
            Ok(x) if canon(&t.ty, &x) == want && o == end => {}
            x => c.violation("decoding", format!("type {}: {} denotes {} in {end} bytes; decoded to {} in {o}", t.name, show_bytes(&buf), show(&want), clip(&format!("{x:?}"), 2000))),
        }
    };
    for_types(&ts, 4, per(2500, 60_000), "layout", |c, t, r, _| {
        let v = pick_val(r, &t.ty, ANY);
        check(c, t, r, v);
    });
    for_types(&grown(Fmt::Bin), 1, per(1, 14), "large", |c, t, r, i| {
        let n = if run().thorough() { BIG[i % BIG.len()] } else { [65536, 255 + r.below(3), *r.pick(BIG)][i % 3] };
        if let Some(v) = big_val(r, &t.ty, n) {
            c.count("large values");
            check(c, t, r, v);
        }
    });
    finish("each value is encoded by the code and by the reference layout writer; then decoded from another of its encodings (any non-zero bool, any None tag, repeated keys, bytes after); non-trivial: not all zeroes", 20_000);
}

/// Upper bound for the memory one element of the type takes, here and in the model.
pub fn weight(t: &Ty, path: &mut Vec<&'static str>) -> i64 {
    40 + match t {
        Ty::Opt(a) | Ty::Boxed(a) | Ty::Vec(a) | Ty::List(a) | Ty::HSet(a) | Ty::BSet(a) => 200 + weight(a, path),
        Ty::HMap(a, b) | Ty::BMap(a, b) => 400 + weight(a, path) + weight(b, path),
        Ty::Arr(a, n) => 40 + weight(a, path) * (*n as i64).max(1),
        Ty::Tup(ts) => 40 + ts.iter().map(|t| weight(t, path)).sum::<i64>(),
        Ty::Named(n, f) => {
            if path.contains(n) {
                return 200;
            }
            path.push(n);
            let d = def(n, *f);
            fn w(d: &Def, path: &mut Vec<&'static str>) -> i64 {
                match &d.body {
                    Body::Struct(_, fs) => fs.iter().map(|f| weight(&f.ty, path)).sum(),
                    Body::Enum(vs) => vs.iter().flat_map(|v| v.fields.iter()).map(|f| weight(&f.ty, path)).sum(),
                    Body::Proxy(p, inner) => weight(&p.ty, path) + w(inner, path),
                }
            }
            let x = w(&d, path);
            path.pop();
            40 + x
        }
        _ => 40,
    }
}
pub fn budget(t: &Ty, len: usize) -> i64 {
    256 * 1024 + (len as i64 + 64) * 8 * (weight(t, &mut vec![]) + 64)
}
/// These bytes ask for more elements without bytes than anyone waits for.
fn endless(t: &Ty, x: &[u8]) -> bool {
    unbounded(t) && {
        let mut d = Dec::new(x, 0);
        d.steps = 20_000;
        matches!(d.dec(t), Err(BinFail::TooMuch))
    }
}
const LENS: &[u64] = &[
    u64::MAX, u64::MAX - 1, u64::MAX - 7, u64::MAX - 8, u64::MAX - 15, 1 << 63, (1 << 63) - 1, i64::MAX as u64 - 8, 1 << 62, 1 << 61, 1 << 60, 1 << 48, 1 << 40, 1 << 33, 1 << 32,
    (1 << 32) - 1, (1 << 32) + 1, (1 << 31), 1 << 30, 1 << 28, 1 << 24, 1 << 20, 1 << 16, 65535, 4096, 256, 255, 64, 17, 9, 8, 2, 1,
];
fn hostile(r: &mut Rng, t: &TypeOps) -> Vec<u8> {
    if r.chance(1, 8) {
        let n = r.below(80);
        let fill = r.below(4);
        return (0..n).map(|_| match fill { 0 => 0xff, 1 => 0, 2 => r.below(4) as u8, _ => r.u64() as u8 }).collect();
    }
    let o = if r.chance(1, 6) { ANY } else { SMALL_ANY };
    let v = gen(r, &t.ty, o);
    let mut e = Enc { o: vec![], r: Some(&mut *r), sites: vec![], want_sites: true, odd: 0 };
    e.enc(&t.ty, &v);
    let (mut b, sites) = (e.o, e.sites);
    for _ in 0..1 + r.below(3) {
        match r.below(9) {
            0..=2 if !sites.is_empty() => {
                let at = match *r.pick(&sites) {
                    BSite::Str { at, .. } | BSite::Len { at, .. } | BSite::Dur { at } | BSite::Disc { at, .. } => at,
                    BSite::Time { at } => at + 1,
                };
                let x = *r.pick(LENS);
                let x = match r.below(4) {
                    // near the end of the buffer, in sum with the offset
                    0 => x.wrapping_sub(at as u64),
                    1 => (b.len() as u64).wrapping_add(r.below(20) as u64).wrapping_sub(8),
                    _ => x,
                };
                for (i, y) in x.to_le_bytes().iter().enumerate() {
                    if at + i < b.len() {
                        b[at + i] = *y;
                    }
                }
            }
            3 if !b.is_empty() => {
                let i = r.below(b.len());
                b[i] ^= 1 << r.below(8);
            }
            4 if !b.is_empty() => {
                let i = r.below(b.len());
                b[i] = *r.pick(&[0, 1, 2, 3, 0x7f, 0x80, 0xbf, 0xc0, 0xed, 0xf4, 0xfe, 0xff]);
            }
            5 => {
                let n = r.below(b.len() + 1);
                b.truncate(n);
            }
            6 if !b.is_empty() => {
                let i = r.below(b.len());
                let n = 1 + r.below(8).min(b.len() - i - 1);
                b.drain(i..i + n);
            }
            7 => {
                let i = r.below(b.len() + 1);
                let n = 1 + r.below(8);
                for _ in 0..n {
                    let x = if r.bool() { 0 } else { r.u64() as u8 };
                    b.insert(i, x);
                }
            }
            _ => {
                let i = r.below(b.len() + 1);
                let tail = b[i..].to_vec();
                b.extend(tail);
            }
        }
    }
    b
}
/// The bytes at the very end of a page that nothing follows: reading on is a crash.
pub struct Guarded {
    p: *mut u8,
    cap: usize,
}
extern "C" {
    fn mmap(a: *mut u8, l: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn mprotect(a: *mut u8, l: usize, prot: i32) -> i32;
    fn munmap(a: *mut u8, l: usize) -> i32;
}
impl Guarded {
    pub fn new(pages: usize) -> Guarded {
        unsafe {
            let p = mmap(std::ptr::null_mut(), (pages + 2) * 4096, 3, 0x22, -1, 0);
            assert!(p as isize != -1, "harness: mmap");
            assert!(mprotect(p, 4096, 0) == 0 && mprotect(p.add((pages + 1) * 4096), 4096, 0) == 0, "harness: mprotect");
            Guarded { p: p.add(4096), cap: pages * 4096 }
        }
    }
    /// A copy of the bytes; `front`: with nothing readable before, else with nothing readable after.
    pub fn put(&mut self, b: &[u8], front: bool) -> &[u8] {
        assert!(b.len() <= self.cap);
        unsafe {
            let at = if front { self.p } else { self.p.add(self.cap - b.len()) };
            std::ptr::copy_nonoverlapping(b.as_ptr(), at, b.len());
            std::slice::from_raw_parts(at, b.len())
        }
    }
}
impl Drop for Guarded {
    fn drop(&mut self) {
        unsafe {
            munmap(self.p.sub(4096), self.cap + 8192);
        }
    }
}
pub fn c03() {
    let ts = types_with(Fmt::Bin);
    let split = 4;
    let seed = run().seed;
    parallel(ts.len() * split, |c, i| {
        let t = &ts[i % ts.len()];
        let b = t.bin.unwrap();
        let free = unbounded(&t.ty) || is_recursive(&t.ty);
        let mut r = Rng::stream(seed, &format!("C03/{}", t.name), (i / ts.len()) as u64, 0);
        let mut g = Guarded::new(16);
        for _ in 0..per(3000, 100_000) / split {
            if c.stop() || run().left() < 0.0 {
                break;
            }
            let buf = hostile(&mut r, t);
            if buf.len() > 60_000 {
                continue;
            }
            if unbounded(&t.ty) {
                // elements without bytes: a length prefix is a repeat count; keep to those that end
                let mut d = Dec::new(&buf, 0);
                d.steps = 20_000;
                if let Err(BinFail::TooMuch) = d.dec(&t.ty) {
                    c.count("left out: repeat counts of elements without bytes");
                    continue;
                }
            }
            let mut o = if r.chance(1, 3) { r.below(buf.len() + 1) } else { 0 };
            if free {
                o = 0;
            }
            let o0 = o;
            let mut d = Dec::new(&buf, o0);
            let want = d.dec(&t.ty);
            let buf = g.put(&buf, r.chance(1, 4));
            let lim = if free { i64::MAX / 4 } else { budget(&t.ty, buf.len()) };
            let Some((got, peak)) = op(c, t, &format!("de_bin of hostile bytes at {o0}"), buf, || with_budget(lim, || (b.de_at)(&mut o, buf))) else { continue };
            c.eval(key(t, buf) ^ o0 as u64, want.is_err() || nontrivial(want.as_ref().unwrap()));
            if got.is_ok() {
                c.count("decoded");
                if o > buf.len() {
                    c.violation("offset", format!("type {}: decoding {} from {o0} ends at {o}, past the end", t.name, show_bytes(buf)));
                }
            } else {
                c.count("rejected");
            }
            match (&want, &got) {
                (Err(BinFail::TooMuch), _) => {}
                (Ok(w), Ok(x)) if collapse(&t.ty, w) == canon(&t.ty, x) && o == d.o => {}
                (Err(_), Err(e)) => {
                    if e.o > buf.len() {
                        c.violation("error offset", format!("type {}: decoding {} from {o0}: {e:?}: the offset is outside", t.name, show_bytes(buf)));
                    }
                    c.sample(t.name, || format!("{} from {o0}: {} -> {}", t.name, show_bytes(buf), e.shown));
                }
                (w, x) => c.violation("disagreement", format!("type {}: decoding {} from {o0} gives {x:?} ending at {o}, the layout says {w:?} ending at {}", t.name, show_bytes(buf), d.o)),
            }
            if !free {
                let k = (peak * 100 / lim) as u64;
                if k >= 50 {
                    c.count("memory above half the budget");
                }
            }
        }
    });
    finish("valid encodings with lengths, tags and bytes overwritten, cut, inserted and repeated, and random bytes, from any offset, in buffers that end (or start) at an unreadable page; non-trivial: rejected, or decoded to something not all zeroes", 50_000);
}

const BAD_UTF8: &[&[u8]] = &[
    &[0xff], &[0xfe], &[0x80], &[0xbf], &[0xc0, 0x80], &[0xc1, 0xbf], &[0xe0, 0x80, 0x80], &[0xe0, 0x9f, 0xbf], &[0xed, 0xa0, 0x80], &[0xed, 0xbf, 0xbf], &[0xf0, 0x80, 0x80, 0x80],
    &[0xf0, 0x8f, 0xbf, 0xbf], &[0xf4, 0x90, 0x80, 0x80], &[0xf5, 0x80, 0x80, 0x80], &[0xc3], &[0xe2, 0x82], &[0xf0, 0x9f, 0x98], &[0xe2, 0x28, 0xa1], &[0xc3, 0x28], &[0xf8, 0x88, 0x80, 0x80, 0x80],
];
fn holds_str(t: &Ty) -> bool {
    match t {
        Ty::Str => true,
        Ty::Opt(a) | Ty::Boxed(a) | Ty::Vec(a) | Ty::List(a) | Ty::Arr(a, _) => holds_str(a),
        Ty::HMap(_, b) | Ty::BMap(_, b) => holds_str(b),
        Ty::Tup(ts) => ts.iter().any(holds_str),
        Ty::Named(..) => true,
        _ => false,
    }
}
/// Make some strings of the value long (not those of keys and set elements).
fn lengthen(r: &mut Rng, v: &mut Val, left: &mut usize) {
    if *left == 0 {
        return;
    }
    match v {
        Val::Str(s) if r.chance(2, 3) => {
            let n = match r.below(4) {
                0 => 16 + r.below(50),
                1 => 120 + r.below(20),
                2 => 250 + r.below(20),
                _ => 300 + r.below(1500),
            };
            *s = (0..n).map(|i| if i % 5 == 1 { gen_char(r) } else { (b'a' + (i % 26) as u8) as char }).collect();
            *left -= 1;
        }
        Val::Opt(Some(x)) => lengthen(r, x, left),
        Val::Seq(xs) | Val::Struct(xs) | Val::Enum(_, xs) => {
            for x in xs {
                lengthen(r, x, left);
            }
        }
        Val::Map(xs) => {
            for x in xs {
                lengthen(r, &mut x.1, left);
            }
        }
        _ => {}
    }
}
pub fn c04() {
    let ts = types_with(Fmt::Bin);
    let reject = |c: &mut Ctx, t: &TypeOps, r: &mut Rng, v: Val| {
        let b = t.bin.unwrap();
        let Some((after, bytes)) = op(c, t, &format!("serialize_bin {}", show(&v)), &[], || (b.ser)(&v)) else { return };
        // every prefix, or a sample of them
        let cuts: Vec<usize> = match bytes.len() {
            n @ 0..=300 => (0..n).collect(),
            n @ 301..=5000 => (0..200).map(|_| r.below(n)).collect(),
            n => (0..9).map(|i| if i < 3 { n - 1 - i } else { r.below(n) }).collect(),
        };
        let pad = if r.chance(1, 4) { 1 + r.below(9) } else { 0 };
        for n in cuts {
            let mut p = vec![1u8; pad];
            p.extend_from_slice(&bytes[..n]);
            let mut o = pad;
            let Some(got) = op(c, t, "de_bin of a prefix", &p, || (b.de_at)(&mut o, &p)) else { return };
            c.eval(key(t, &p), true);
            c.count("prefixes");
            match got {
                Ok(x) => {
                    c.violation("prefix", format!("type {}: {n} of the {} bytes of {} decode to {}", t.name, bytes.len(), show(&v), show(&x)));
                    return;
                }
                Err(e) if e.o > p.len() => {
                    c.violation("error offset", format!("type {}: {}: {e:?}: the offset is outside", t.name, show_bytes(&p)));
                    return;
                }
                Err(_) => {}
            }
        }
        // spoiled in one place
        let mut e = Enc { o: vec![], r: None, sites: vec![], want_sites: true, odd: 0 };
        e.enc(&t.ty, &after);
        if e.o != bytes {
            c.count("layout differs: spoiling left out");
            return;
        }
        let sites: Vec<BSite> = if e.sites.len() <= 1000 { e.sites } else { (0..12).map(|i| e.sites[if i == 0 { 0 } else { r.below(e.sites.len()) }]).collect() };
        for s in &sites {
            for _ in 0..4 {
                let mut x = bytes.clone();
                let kind;
                match *s {
                    BSite::Str { at, start, len } => {
                        let u = r.pick(BAD_UTF8);
                        match r.below(4) {
                            0 => {
                                kind = "string length past the end";
                                let left = (x.len() - start) as u64;
                                let n = match r.below(3) {
                                    0 => left + 1 + r.below(3) as u64,
                                    _ => (*r.pick(LENS)).max(left + 1),
                                };
                                x[at..at + 8].copy_from_slice(&n.to_le_bytes());
                            }
                            1 => {
                                kind = "invalid UTF-8 inserted";
                                let mut p = start + r.below(len + 1);
                                let whole = std::str::from_utf8(&bytes[start..start + len]).unwrap();
                                while !whole.is_char_boundary(p - start) {
                                    p += 1;
                                }
                                // what follows must not complete it
                                let mut u = u.to_vec();
                                if p < start + len || r.bool() {
                                    u.push(b'z');
                                }
                                let n = (len + u.len()) as u64;
                                x.splice(p..p, u);
                                x[at..at + 8].copy_from_slice(&n.to_le_bytes());
                            }
                            2 => {
                                // cut a character in two
                                kind = "character cut";
                                let whole = std::str::from_utf8(&bytes[start..start + len]).unwrap();
                                let inner: Vec<usize> = (0..len).filter(|i| !whole.is_char_boundary(*i)).collect();
                                if inner.is_empty() {
                                    continue;
                                }
                                let p = *r.pick(&inner);
                                x.drain(start + p..start + len);
                                x[at..at + 8].copy_from_slice(&(p as u64).to_le_bytes());
                            }
                            _ => {
                                kind = "invalid UTF-8";
                                if len == 0 {
                                    continue;
                                }
                                let p = start + r.below(len);
                                x[p] = *r.pick(&[0xff, 0xfe, 0xf8, 0xc0, 0xc1]);
                            }
                        }
                    }
                    BSite::Disc { at, n } => {
                        kind = "variant that does not exist";
                        let i = match r.below(5) {
                            0 => n,
                            1 => n + 1,
                            2 => 0xffff,
                            3 => 0x100 * (1 + r.below(200)) + r.below(n),
                            _ => n + r.below(65536 - n),
                        };
                        if i < n || i > 0xffff {
                            continue;
                        }
                        x[at..at + 2].copy_from_slice(&(i as u16).to_le_bytes());
                    }
                    BSite::Dur { at } => {
                        kind = "nanoseconds out of range";
                        let n = match r.below(4) {
                            0 => 1_000_000_001,
                            1 => u32::MAX,
                            2 => 1_000_000_000 + 1 + r.below(1000) as u32,
                            _ => 1_000_000_001 + r.below((u32::MAX - 1_000_000_001) as usize) as u32,
                        };
                        x[at + 8..at + 12].copy_from_slice(&n.to_le_bytes());
                    }
                    BSite::Time { at } => {
                        if r.bool() {
                            kind = "time the platform cannot represent";
                            let s = *r.pick(&[u64::MAX, 1 << 63, (1 << 63) + 1, u64::MAX - 1, i64::MAX as u64 + 1]);
                            x[at + 1..at + 9].copy_from_slice(&s.to_le_bytes());
                        } else {
                            kind = "nanoseconds of a time out of range";
                            let n = *r.pick(&[1_000_000_001, u32::MAX, 2_000_000_000, 1 << 31]);
                            x[at + 9..at + 13].copy_from_slice(&n.to_le_bytes());
                        }
                    }
                    BSite::Len { at, min } => {
                        if min == 0 {
                            continue;
                        }
                        kind = "length past the end";
                        let left = ((x.len() - at - 8) / min) as u64;
                        let n = match r.below(3) {
                            0 => left + 1,
                            1 => left + 1 + r.below(5) as u64,
                            _ => (*r.pick(LENS)).max(left + 1),
                        };
                        x[at..at + 8].copy_from_slice(&n.to_le_bytes());
                    }
                }
                if endless(&t.ty, &x) {
                    continue;
                }
                let Some(got) = op(c, t, &format!("deserialize_bin: {kind}"), &x, || (b.de)(&x)) else { return };
                c.eval(key(t, &x), true);
                c.count(kind);
                c.sample(kind, || format!("{}: {kind}: {} -> {:?}", t.name, show_bytes(&x), got.as_ref().err().map(|e| &e.shown)));
                match got {
                    Ok(y) => {
                        c.violation(kind, format!("type {}: {} ({kind}) decodes to {}", t.name, show_bytes(&x), show(&y)));
                        return;
                    }
                    Err(e) if e.o > x.len() => {
                        c.violation("error offset", format!("type {}: {} ({kind}): {e:?}: the offset is outside", t.name, show_bytes(&x)));
                        return;
                    }
                    Err(_) => {}
                }
            }
        }
    };
    for_types(&ts, 4, per(450, 24_000), "reject", |c, t, r, _| {
        let v = gen(r, &t.ty, SMALL_ANY);
        reject(c, t, r, v);
    });
    for_types(&grown(Fmt::Bin), 4, per(24, 200), "large", |c, t, r, i| {
        let n = match r.below(4) {
            0 => *r.pick(BIG),
            1 => 250 + r.below(12),
            2 => 60 + r.below(10),
            _ => 30 + r.below(2000),
        };
        let n = if run().thorough() || i % 6 == 0 || t.name == "String" { n } else { n.min(5000) };
        if let Some(v) = big_val(r, &t.ty, n) {
            c.count("large values");
            reject(c, t, r, v);
        }
    });
    // long strings, anywhere
    let with: Vec<TypeOps> = ts.iter().filter(|t| holds_str(&t.ty)).cloned().collect();
    for_types(&with, 4, per(60, 2000), "long strings", |c, t, r, _| {
        let mut v = gen(r, &t.ty, SMALL_ANY);
        let mut left = 1 + r.below(3);
        lengthen(r, &mut v, &mut left);
        reject(c, t, r, v);
    });
    finish("every prefix of encodings, and encodings spoiled in one string, variant index, duration, time or length; each is distinct by type and bytes", 50_000);
}

// ---------------------------------------------------------------- C18, binary

/// The error of a decoder against where the reference finds the bytes wrong.
fn place(e: &BErr, w: &BinFail, len: usize) -> Result<(), String> {
    match (w, &e.kind) {
        (BinFail::Short { at }, BKind::Length(_, a)) => {
            if e.o != *at {
                return Err(format!("bytes are missing from offset {at} on, the error says {}", e.o));
            }
            if *a != len {
                return Err(format!("the input has {len} bytes, the error says {a}"));
            }
        }
        (BinFail::Utf8 { start, end }, BKind::Length(..) | BKind::Other | BKind::Range) => {
            if !(*start..=*end).contains(&e.o) {
                return Err(format!("the text is at {start}..{end}, the error says {}", e.o));
            }
        }
        (BinFail::Disc { at, idx }, BKind::Disc(i)) => {
            if e.o != *at {
                return Err(format!("the variant index is at {at}, the error says {}", e.o));
            }
            if *i != *idx as isize {
                return Err(format!("the variant index is {idx}, the error says {i}"));
            }
            if !e.shown.contains(&idx.to_string()) {
                return Err(format!("the message does not show the index {idx}"));
            }
        }
        (BinFail::Range { start, end }, BKind::Range | BKind::Length(..) | BKind::Other) => {
            if !(*start..=*end).contains(&e.o) {
                return Err(format!("the value is at {start}..{end}, the error says {}", e.o));
            }
        }
        _ => return Err(format!("the bytes fail by {w:?}")),
    }
    if !e.shown.contains(&e.o.to_string()) {
        return Err(format!("the message does not show the offset {}", e.o));
    }
    Ok(())
}
fn bin_positions() {
    let ts = types_with(Fmt::Bin);
    for_types(&ts, 4, per(800, 30_000), "binary positions", |c, t, r, _| {
        let b = t.bin.unwrap();
        let buf = if r.chance(1, 3) {
            let v = gen(r, &t.ty, SMALL_ANY);
            let mut o = vec![7; r.below(3)];
            enc(&t.ty, &v, &mut o);
            let n = r.below(o.len() + 1);
            o.truncate(n);
            o
        } else {
            hostile(r, t)
        };
        if buf.len() > 60_000 {
            return;
        }
        let mut o = if r.chance(1, 3) && !is_recursive(&t.ty) { r.below(buf.len() + 1) } else { 0 };
        let o0 = o;
        let mut d = Dec::new(&buf, o);
        d.steps = 50_000;
        let Err(w) = d.dec(&t.ty) else {
            c.count("binary: decodes");
            return;
        };
        if let BinFail::TooMuch = w {
            return;
        }
        let Some(got) = op(c, t, &format!("de_bin at {o0}"), &buf, || (b.de_at)(&mut o, &buf)) else { return };
        c.eval(key(t, &buf) ^ o0 as u64, true);
        c.count(match w {
            BinFail::Short { .. } => "binary bytes missing",
            BinFail::Utf8 { .. } => "binary invalid UTF-8",
            BinFail::Disc { .. } => "binary unknown variant",
            _ => "binary out of range",
        });
        match got {
            Ok(_) => c.count("binary accepted: left to other checks"),
            Err(e) => {
                if let Err(m) = place(&e, &w, buf.len()) {
                    c.violation("binary position", format!("type {}: {} decoded from {o0}: {e:?}: {m}", t.name, show_bytes(&buf)));
                }
            }
        }
    });
}
pub fn c18() {
    bin_positions();
    crate::text::positions(Fmt::Json);
    crate::text::positions(Fmt::Ron);
    crate::toml::positions();
    finish("encodings spoiled or cut, JSON, RON and TOML documents damaged at one token in random layouts: where the error points against where the damage is; non-trivial: binary, or a text of several lines", 100_000);
}
