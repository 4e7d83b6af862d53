//! C16: attributes.
use crate::common::*;
use vh::doc::*;
use vh::gen::*;
use vh::model::*;
use vh::mon::*;
use vh::ops::*;
use vh::rng::*;
use vh::{jdoc, rdoc};

fn field_attrs(f: &Field) -> bool {
    f.rename.is_some() || f.skip || !matches!(f.default, Dflt::None) || f.none_as_null || f.proxy.is_some() || f.is_opt()
}
fn body_attrs(d: &Def) -> bool {
    d.transparent
        || d.container_default
        || d.none_as_null
        || match &d.body {
            Body::Struct(_, fs) => fs.iter().any(field_attrs),
            Body::Enum(vs) => vs.iter().any(|v| v.rename.is_some() || v.fields.iter().any(field_attrs)),
            Body::Proxy(..) => true,
        }
}
pub fn has_attrs(t: &Ty) -> bool {
    any_ty(t, &mut |_, d| d.is_some_and(body_attrs))
}
/// Absent options everywhere, in a third of the values.
fn thin(r: &mut Rng, t: &Ty, v: &Val) -> Val {
    match (t, v) {
        (Ty::Opt(e), Val::Opt(Some(x))) => {
            if r.bool() {
                Val::Opt(None)
            } else {
                Val::Opt(Some(Box::new(thin(r, e, x))))
            }
        }
        (Ty::Boxed(e), x) => thin(r, e, x),
        (Ty::Vec(e) | Ty::List(e) | Ty::Arr(e, _), Val::Seq(xs)) => Val::Seq(xs.iter().map(|x| thin(r, e, x)).collect()),
        (Ty::Named(n, f), v) => match (&def(n, *f).body, v) {
            (Body::Struct(_, fs), Val::Struct(xs)) => Val::Struct(fs.iter().zip(xs).map(|(f, x)| thin(r, &f.ty, x)).collect()),
            (Body::Enum(vs), Val::Enum(i, xs)) => Val::Enum(*i, vs[*i].fields.iter().zip(xs).map(|(f, x)| thin(r, &f.ty, x)).collect()),
            _ => v.clone(),
        },
        _ => v.clone(),
    }
}
/// Fields at their declared default, sometimes: a writer that leaves those out would be wrong.
fn at_default(r: &mut Rng, t: &Ty, v: &Val) -> Val {
    let Ty::Named(n, f) = t else { return v.clone() };
    let d = def(n, *f);
    let mut fields = |fs: &[Field], xs: &[Val]| -> Vec<Val> { fs.iter().zip(xs).map(|(f, x)| if r.chance(1, 3) { f.text_default() } else { x.clone() }).collect() };
    match (&d.body, v) {
        (Body::Struct(Shape::Named, fs), Val::Struct(xs)) => Val::Struct(fields(fs, xs)),
        (Body::Enum(vs), Val::Enum(i, xs)) if vs[*i].shape == Shape::Named => Val::Enum(*i, fields(&vs[*i].fields, xs)),
        _ => v.clone(),
    }
}
pub fn c16() {
    let ws: Vec<TypeOps> = all_types().into_iter().filter(|t| !t.writers.is_empty()).collect();
    for_types(&ws, 4, per(300, 20_000), "only written", |c, t, r, _| {
        let v = gen(r, &t.ty, SMALL);
        for f in [Fmt::Bin, Fmt::Json, Fmt::Ron] {
            if !crate::docs::formats(t).contains(&f) {
                continue;
            }
            let owned = match f {
                Fmt::Bin => op(c, t, "serialize_bin", &[], || (t.bin.unwrap().ser)(&v).1),
                _ => op(c, t, "serialize", &[], || (text_of(t, f).ser)(&v).1.into_bytes()),
            };
            let Some(owned) = owned else { return };
            if !writers(c, t, f, &v, &owned) {
                return;
            }
        }
    });
    #[cfg(all(feature = "binary", feature = "gen"))]
    parallel(4, |c, i| {
        let mut r = Rng::stream(run().seed, "tuples", i as u64, 0);
        for _ in 0..per(1_000, 50_000) {
            tuples::run(c, &mut r);
        }
    });
    let mut ts: Vec<TypeOps> = all_types().into_iter().filter(|t| has_attrs(&t.ty)).collect();
    ts.retain(|t| t.bin.is_some() || t.json.is_some() || t.ron.is_some());
    for_types(&ts, 4, per(4500, 250_000), "attributes", |c, t, r, _| {
        let mut v = gen(r, &t.ty, SMALL);
        if r.chance(1, 3) {
            v = thin(r, &t.ty, &v);
        }
        if r.chance(1, 3) {
            v = at_default(r, &t.ty, &v);
        }
        for f in [Fmt::Bin, Fmt::Json, Fmt::Ron] {
            if f == Fmt::Bin {
                let Some(b) = &t.bin else { continue };
                let Some((after, bytes)) = op(c, t, &format!("serialize_bin {}", show(&v)), &[], || (b.ser)(&v)) else { return };
                c.eval(key(t, &bytes) ^ 1, nontrivial(&v));
                c.count("binary outputs");
                let mut want = vec![];
                vh::refbin::enc(&t.ty, &after, &mut want);
                if bytes.len() != want.len() || !has_hash(&t.ty) && bytes != want {
                    c.violation("binary output", format!("type {}: {} encodes to {}, the layout is {}", t.name, show(&after), show_bytes(&bytes), show_bytes(&want)));
                    return;
                }
                let Some(got) = op(c, t, "deserialize_bin", &bytes, || (b.de)(&bytes)) else { return };
                let want = canon(&t.ty, &norm_bin(&t.ty, &v));
                if !matches!(&got, Ok(g) if canon(&t.ty, g) == want) {
                    c.violation("binary round trip", format!("type {}: {} encodes to {}, which decodes to {got:?}, expected {}", t.name, show(&v), show_bytes(&bytes), show(&want)));
                    return;
                }
                continue;
            }
            if (if f == Fmt::Json { t.json } else { t.ron }).is_none() {
                continue;
            }
            let x = text_of(t, f);
            // what is written
            let Some((after, text)) = op(c, t, &format!("serialize {f:?} {}", show(&v)), &[], || (x.ser)(&v)) else { return };
            c.eval(key(t, text.as_bytes()) ^ 2, nontrivial(&v));
            c.count(if f == Fmt::Json { "JSON outputs" } else { "RON outputs" });
            let bad = match f {
                Fmt::Json => jdoc::parse(&text).and_then(|j| jdoc::denotes(&t.ty, &after, &j, "")).err(),
                _ => rdoc::denotes(&t.ty, &after, &text).err(),
            };
            if let Some(m) = bad {
                c.violation("output", format!("{f:?}, type {}: {} is written {text:?}: {m}", t.name, show(&after)));
                return;
            }
            // what is read: all, some or none of the members that may be absent
            let omit = *r.pick(&[0, 0, 20, 50, 80, 100]);
            let spell = r.bool();
            let d = build(r, &t.ty, &v, f, Opts { omit, extras: spell, spell, sites: true });
            let style = r.below(2) as u8;
            let (text, _) = render(r, &d.toks, Layout { style, plain_from: usize::MAX, lines: false });
            c.eval(key(t, text.as_bytes()) ^ 3, true);
            c.add("members left out", d.tags.omitted as u64);
            c.add("unknown members", d.tags.unknown as u64);
            c.count(if d.tags.omitted > 0 { "documents with absent members" } else { "documents with every member" });
            let Some(got) = op(c, t, &format!("deserialize {f:?}"), text.as_bytes(), || (x.de)(&text)) else { return };
            let want = canon(&t.ty, &d.expect);
            c.sample(t.name, || format!("{f:?} {}: {text:?} -> {}", t.name, clip(&format!("{got:?}"), 300)));
            if !matches!(&got, Ok(g) if canon(&t.ty, g) == want) {
                c.violation("input", format!("{f:?}, type {}: {text:?} means {} but reads as {got:?}", t.name, show(&want)));
                return;
            }
            // required members are required, and the Rust names of renamed things mean nothing
            let sites: Vec<&Site> = d.sites.iter().filter(|s| matches!(s, Site::Required { .. } | Site::Variant { .. } | Site::Fields { .. })).collect();
            if sites.is_empty() {
                continue;
            }
            for _ in 0..2 {
                let s = (*r.pick(&sites)).clone();
                let Some(e) = spoil(r, &d, &s) else { continue };
                let toks = apply(&d.toks, &e);
                let (text, _) = render(r, &toks, Layout { style, plain_from: if e.plain { e.start } else { usize::MAX }, lines: false });
                let Some(got) = op(c, t, &format!("deserialize {f:?} ({})", e.name), text.as_bytes(), || (x.de)(&text)) else { return };
                c.eval(key(t, text.as_bytes()) ^ 4, true);
                c.count(e.name);
                if let Ok(g) = got {
                    c.violation(e.name, format!("{f:?}, type {}: {text:?} ({}) reads as {}", t.name, e.name, show(&g)));
                    return;
                }
            }
        }
    });
    finish(
        "types with attributes (alone and combined, on struct and variant fields, variants and containers): output read by strict readers that know the attributes; documents with all, some and no optional members, unknown members under the Rust names of renamed and skipped fields, and required members taken out; distinct by type and document",
        100_000,
    );
}

/// Tuple structs that are only written as binary may skip fields: the others follow one another.
#[cfg(all(feature = "binary", feature = "gen"))]
mod tuples {
    use super::*;
    use nanoserde::SerBin;
    #[derive(SerBin)]
    struct A(#[nserde(skip)] u8, u32, Vec<u16>);
    #[derive(SerBin)]
    struct B(String, #[nserde(skip)] fn() -> u8, Option<u8>, #[nserde(skip)] &'static str, i64);
    #[derive(SerBin)]
    struct C<T: SerBin>(T, #[nserde(skip)] Vec<T>);
    #[derive(SerBin)]
    struct D(#[nserde(skip)] u64, #[nserde(skip)] u64, [u8; 3], #[nserde(skip)] u64);
    #[derive(SerBin)]
    struct E(#[nserde(skip)] bool);
    #[derive(SerBin)]
    struct P(u8);
    impl From<&u32> for P {
        fn from(x: &u32) -> P {
            P(*x as u8)
        }
    }
    #[derive(SerBin)]
    struct F(#[nserde(skip)] u16, #[nserde(proxy = "P")] u32, u8, #[nserde(skip)] u16, #[nserde(proxy = "P")] u32);
    fn show_num(r: &mut Rng) -> u64 {
        if r.bool() { r.below(300) as u64 } else { r.u64() }
    }
    pub fn run(c: &mut Ctx, r: &mut Rng) {
        let (n, m, k) = (show_num(r), show_num(r), show_num(r));
        let s: String = (0..r.below(6)).map(|i| char::from(b'a' + (k as u8).wrapping_add(i as u8) % 26)).collect();
        let v: Vec<u16> = (0..r.below(5)).map(|_| r.u64() as u16).collect();
        let o = if r.bool() { Some(k as u8) } else { None };
        macro_rules! test {
            ($x:expr; $($f:tt)*) => {{
                let x = $x;
                let got = guard(|| x.serialize_bin());
                #[allow(unused_mut)]
                let mut want: Vec<u8> = vec![];
                $(x.$f.ser_bin(&mut want);)*
                c.eval(k ^ n.rotate_left(20) ^ m.rotate_left(40) ^ stringify!($x).len() as u64, want.iter().any(|b| *b != 0));
                c.count("tuple structs with skipped fields");
                if got.as_ref() != Ok(&want) {
                    c.violation("skipped fields of a tuple", format!("{} with n={n} m={m} k={k} s={s:?} v={v:?} o={o:?} encodes to {got:?}, the fields kept to {want:?}", stringify!($x)));
                }
            }};
        }
        test!(A(n as u8, m as u32, v.clone()); 1 2);
        test!(B(s.clone(), || 1, o, "x", k as i64); 0 2 4);
        test!(C(n, vec![m, k]); 0);
        test!(C(s.clone(), vec![]); 0);
        test!(D(n, m, [k as u8, n as u8, 3], k); 2);
        test!(E(true););
        let x = F(n as u16, m as u32, k as u8, n as u16, k as u32);
        let got = guard(|| x.serialize_bin());
        let want = vec![m as u8, k as u8, k as u8];
        if got.as_ref() != Ok(&want) {
            c.violation("skipped fields of a tuple", format!("F({}, {}, {}, {}, {}) with the second and last through a one-byte proxy encodes to {got:?}", x.0, x.1, x.2, x.3, x.4));
        }
    }
}
