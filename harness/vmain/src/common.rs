use vh::gen::*;
use vh::model::*;
use vh::mon::*;
use vh::ops::*;
use vh::rng::*;

pub fn all_types() -> Vec<TypeOps> {
    #[allow(unused_mut)]
    let mut v: Vec<TypeOps> = vec![];
    // first: samples are taken from the first
    #[cfg(feature = "gen")]
    v.extend(vgen::types());
    v.extend(vh::builtin::types());
    if let Some(o) = &run().only {
        v.retain(|t| t.name == o);
    }
    v
}
pub fn types_with(f: Fmt) -> Vec<TypeOps> {
    all_types()
        .into_iter()
        .filter(|t| match f {
            Fmt::Bin => t.bin.is_some(),
            Fmt::Json => t.json.is_some(),
            Fmt::Ron => t.ron.is_some(),
        })
        .collect()
}
pub fn text_of(t: &TypeOps, f: Fmt) -> TextOps {
    match f {
        Fmt::Json => t.json.unwrap(),
        Fmt::Ron => t.ron.unwrap(),
        Fmt::Bin => unreachable!(),
    }
}
/// Run one operation of the code under test; None: it panicked, which is recorded.
pub fn op<T>(c: &mut Ctx, t: &TypeOps, what: &str, input: &[u8], f: impl FnOnce() -> T) -> Option<T> {
    current(&format!("{} {what}", t.name), input);
    let r = guard(f);
    idle();
    match r {
        Ok(x) => Some(x),
        Err(m) => {
            c.violation("panic", format!("type {}: {what} panicked: {m}\ninput: {}", t.name, show_bytes(input)));
            None
        }
    }
}
/// Cases for every type: `per` of them, in `split` shards each.
pub fn for_types(ts: &[TypeOps], split: usize, per: usize, name: &str, f: impl Fn(&mut Ctx, &TypeOps, &mut Rng, usize) + Sync) {
    let n = ts.len();
    if n == 0 {
        return;
    }
    let seed = run().seed;
    parallel(n * split, |c, i| {
        let t = &ts[i % n];
        let k = i / n;
        let mut r = Rng::stream(seed, &format!("{}/{name}/{}", run().prop, t.name), k as u64, 0);
        let m = per / split;
        for j in 0..m.max(1) {
            if c.stop() || run().left() < 0.0 {
                break;
            }
            f(c, t, &mut r, k * m + j);
        }
        c.count(&format!("types.{name}"));
    });
}
/// A value, more often small.
pub fn pick_val(r: &mut Rng, t: &Ty, any: GenOpts) -> Val {
    let o = if r.chance(1, 5) { any } else { GenOpts { big: false, ..any } };
    gen(r, t, o)
}
pub fn key(t: &TypeOps, b: &[u8]) -> u64 {
    hash_bytes(b) ^ hash_str(t.name)
}
/// The value has something in it.
pub fn nontrivial(v: &Val) -> bool {
    match v {
        Val::U(0) | Val::I(0) | Val::F32(0) | Val::F64(0) | Val::Bool(false) | Val::Unit | Val::Opt(None) => false,
        Val::Str(s) => !s.is_empty(),
        Val::Seq(x) | Val::Struct(x) => x.iter().any(nontrivial),
        Val::Map(x) => !x.is_empty(),
        Val::Dur(a, b) => *a != 0 || *b != 0,
        _ => true,
    }
}
/// How often at each tier.
pub fn per(quick: usize, thorough: usize) -> usize {
    if run().thorough() {
        thorough
    } else {
        quick * 4
    }
}

/// Slices and borrowed fields write what owned ones do.
pub fn writers(c: &mut Ctx, t: &TypeOps, f: Fmt, v: &Val, owned: &[u8]) -> bool {
    if has_hash(&t.ty) {
        return true;
    }
    for w in &t.writers {
        let out = match f {
            Fmt::Bin => w.bin.map(|w| op(c, t, "serialize Bin (borrowed)", &[], || w(v))),
            Fmt::Json => w.json.map(|w| op(c, t, "serialize Json (borrowed)", &[], || w(v).into_bytes())),
            Fmt::Ron => w.ron.map(|w| op(c, t, "serialize Ron (borrowed)", &[], || w(v).into_bytes())),
        };
        let b = match out {
            None => continue,
            Some(None) => return false,
            Some(Some(b)) => b,
        };
        c.eval(key(t, &b) ^ f as u64 ^ 8, nontrivial(v));
        c.count("values written from borrowed data");
        if owned != b {
            c.violation("borrowed output", format!("{f:?}, type {}: {} serializes to {} when owned and to {} when borrowed", t.name, show(v), show_bytes(owned), show_bytes(&b)));
            return false;
        }
    }
    true
}

pub fn builtin_with(f: Fmt) -> Vec<TypeOps> {
    vh::builtin::types().into_iter().filter(|t| crate::docs::formats(t).contains(&f)).collect()
}
/// Types with one dimension to grow in.
pub fn grown(f: Fmt) -> Vec<TypeOps> {
    builtin_with(f).into_iter().filter(|t| matches!(t.ty, Ty::Str | Ty::Vec(_) | Ty::List(_) | Ty::HSet(_) | Ty::BSet(_) | Ty::HMap(..) | Ty::BMap(..))).collect()
}
pub fn strings(f: Fmt) -> Vec<TypeOps> {
    builtin_with(f).into_iter().filter(|t| matches!(t.ty, Ty::Str)).collect()
}
