//! The abstract model the checks reason with: types (`Ty`), declarations (`Def`) and values (`Val`),
//! independent of nanoserde. `Model` connects a Rust type to it.
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashMap, LinkedList};
use std::sync::Arc;
use std::time::Duration;

#[derive(Clone)]
pub enum Ty {
    U8,
    U16,
    U32,
    U64,
    U128,
    Usize,
    I8,
    I16,
    I32,
    I64,
    I128,
    F32,
    F64,
    Bool,
    Str,
    Unit,
    Dur,
    Time,
    Opt(Arc<Ty>),
    Boxed(Arc<Ty>),
    Vec(Arc<Ty>),
    List(Arc<Ty>),
    HSet(Arc<Ty>),
    BSet(Arc<Ty>),
    HMap(Arc<Ty>, Arc<Ty>),
    BMap(Arc<Ty>, Arc<Ty>),
    Arr(Arc<Ty>, usize),
    Tup(Vec<Ty>),
    Named(&'static str, fn() -> Def),
}

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum Val {
    U(u128),
    I(i128),
    F32(u32),
    F64(u64),
    Bool(bool),
    Str(String),
    Unit,
    Dur(u64, u32),
    /// None: before the epoch.
    Time(Option<(u64, u32)>),
    Opt(Option<Box<Val>>),
    Seq(Vec<Val>),
    Map(Vec<(Val, Val)>),
    Struct(Vec<Val>),
    Enum(usize, Vec<Val>),
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Shape {
    Unit,
    Tuple,
    Named,
}

#[derive(Clone)]
pub enum Dflt {
    None,
    /// `default` without a value: the type's Default
    Plain,
    /// `default = ".."`
    Value(Val),
    /// `default_with = ".."`
    With(Val),
}

#[derive(Clone)]
pub struct Proxy {
    pub ty: Ty,
    pub to: fn(&Val) -> Val,
    pub from: fn(&Val) -> Val,
}

#[derive(Clone)]
pub struct Field {
    pub name: &'static str,
    pub rename: Option<&'static str>,
    pub ty: Ty,
    pub skip: bool,
    pub default: Dflt,
    pub none_as_null: bool,
    pub proxy: Option<Proxy>,
}
impl Field {
    pub fn new(name: &'static str, ty: Ty) -> Field {
        Field { name, rename: None, ty, skip: false, default: Dflt::None, none_as_null: false, proxy: None }
    }
    pub fn ext(&self) -> &'static str {
        self.rename.unwrap_or(self.name)
    }
    pub fn rename(mut self, r: &'static str) -> Self {
        self.rename = Some(r);
        self
    }
    pub fn skip(mut self) -> Self {
        self.skip = true;
        self
    }
    pub fn dflt(mut self, d: Dflt) -> Self {
        self.default = d;
        self
    }
    pub fn null(mut self) -> Self {
        self.none_as_null = true;
        self
    }
    pub fn proxy(mut self, p: Proxy) -> Self {
        self.proxy = Some(p);
        self
    }
    pub fn is_opt(&self) -> bool {
        matches!(self.ty, Ty::Opt(_))
    }
    /// The value skip restores, and `default` gives, in the text formats.
    pub fn text_default(&self) -> Val {
        match &self.default {
            Dflt::None | Dflt::Plain => ty_default(&self.ty),
            Dflt::Value(v) | Dflt::With(v) => v.clone(),
        }
    }
}

#[derive(Clone)]
pub struct Variant {
    pub name: &'static str,
    pub rename: Option<&'static str>,
    pub shape: Shape,
    pub fields: Vec<Field>,
}
impl Variant {
    pub fn ext(&self) -> &'static str {
        self.rename.unwrap_or(self.name)
    }
}

#[derive(Clone)]
pub enum Body {
    Struct(Shape, Vec<Field>),
    Enum(Vec<Variant>),
    /// container proxy: serialized as the proxy type
    Proxy(Proxy, Arc<Def>),
}

#[derive(Clone)]
pub struct Def {
    pub name: &'static str,
    pub transparent: bool,
    /// container attribute `default`
    pub container_default: bool,
    /// container attribute `default_with` only (JSON honours it like `default`)
    pub none_as_null: bool,
    pub body: Body,
}
impl Def {
    pub fn st(name: &'static str, shape: Shape, fields: Vec<Field>) -> Def {
        Def { name, transparent: false, container_default: false, none_as_null: false, body: Body::Struct(shape, fields) }
    }
    pub fn en(name: &'static str, variants: Vec<Variant>) -> Def {
        Def { name, transparent: false, container_default: false, none_as_null: false, body: Body::Enum(variants) }
    }
    pub fn transparent(mut self) -> Self {
        self.transparent = true;
        self
    }
    pub fn cdefault(mut self) -> Self {
        self.container_default = true;
        self
    }
    pub fn cnull(mut self) -> Self {
        self.none_as_null = true;
        self
    }
}

thread_local! {
    static DEFS: RefCell<HashMap<&'static str, Arc<Def>>> = RefCell::new(HashMap::new());
}
/// The declaration of a named type (cached per thread).
pub fn def(name: &'static str, f: fn() -> Def) -> Arc<Def> {
    if let Some(d) = DEFS.with(|m| m.borrow().get(name).cloned()) {
        return d;
    }
    let d = Arc::new(f());
    DEFS.with(|m| m.borrow_mut().insert(name, d.clone()));
    d
}

/// The `Default` of a type.
pub fn ty_default(t: &Ty) -> Val {
    match t {
        Ty::U8 | Ty::U16 | Ty::U32 | Ty::U64 | Ty::U128 | Ty::Usize => Val::U(0),
        Ty::I8 | Ty::I16 | Ty::I32 | Ty::I64 | Ty::I128 => Val::I(0),
        Ty::F32 => Val::F32(0),
        Ty::F64 => Val::F64(0),
        Ty::Bool => Val::Bool(false),
        Ty::Str => Val::Str(String::new()),
        Ty::Unit => Val::Unit,
        Ty::Dur => Val::Dur(0, 0),
        Ty::Time => Val::Time(Some((0, 0))),
        Ty::Opt(_) => Val::Opt(None),
        Ty::Boxed(t) => ty_default(t),
        Ty::Vec(_) | Ty::List(_) | Ty::HSet(_) | Ty::BSet(_) => Val::Seq(vec![]),
        Ty::HMap(..) | Ty::BMap(..) => Val::Map(vec![]),
        Ty::Arr(t, n) => Val::Seq((0..*n).map(|_| ty_default(t)).collect()),
        Ty::Tup(ts) => Val::Seq(ts.iter().map(ty_default).collect()),
        Ty::Named(n, f) => def_default(&def(n, *f)),
    }
}
fn def_default(d: &Def) -> Val {
    match &d.body {
        Body::Struct(_, fs) => Val::Struct(fs.iter().map(|f| ty_default(&f.ty)).collect()),
        Body::Enum(vs) => Val::Enum(0, vs[0].fields.iter().map(|f| ty_default(&f.ty)).collect()),
        Body::Proxy(_, inner) => def_default(inner),
    }
}

/// Hash collections compare as sets: sort their content.
pub fn canon(t: &Ty, v: &Val) -> Val {
    match (t, v) {
        (Ty::Opt(t), Val::Opt(Some(x))) => Val::Opt(Some(Box::new(canon(t, x)))),
        (Ty::Boxed(t), x) => canon(t, x),
        (Ty::Vec(t), Val::Seq(xs)) | (Ty::List(t), Val::Seq(xs)) | (Ty::Arr(t, _), Val::Seq(xs)) => {
            Val::Seq(xs.iter().map(|x| canon(t, x)).collect())
        }
        (Ty::HSet(t), Val::Seq(xs)) | (Ty::BSet(t), Val::Seq(xs)) => {
            let mut v: Vec<Val> = xs.iter().map(|x| canon(t, x)).collect();
            v.sort();
            Val::Seq(v)
        }
        (Ty::HMap(k, t), Val::Map(xs)) | (Ty::BMap(k, t), Val::Map(xs)) => {
            let mut v: Vec<(Val, Val)> = xs.iter().map(|(a, b)| (canon(k, a), canon(t, b))).collect();
            v.sort();
            Val::Map(v)
        }
        (Ty::Tup(ts), Val::Seq(xs)) => Val::Seq(ts.iter().zip(xs).map(|(t, x)| canon(t, x)).collect()),
        (Ty::Named(n, f), v) => canon_def(&def(n, *f), v),
        (_, v) => v.clone(),
    }
}
fn canon_def(d: &Def, v: &Val) -> Val {
    match (&d.body, v) {
        (Body::Struct(_, fs), Val::Struct(xs)) => Val::Struct(fs.iter().zip(xs).map(|(f, x)| canon(&f.ty, x)).collect()),
        (Body::Enum(vs), Val::Enum(i, xs)) => {
            Val::Enum(*i, vs[*i].fields.iter().zip(xs).map(|(f, x)| canon(&f.ty, x)).collect())
        }
        (Body::Proxy(_, inner), v) => canon_def(inner, v),
        _ => v.clone(),
    }
}

/// Any part of the type satisfies `p` (recursive types are entered once).
pub fn any_ty(t: &Ty, p: &mut dyn FnMut(&Ty, Option<&Def>) -> bool) -> bool {
    fn go(t: &Ty, p: &mut dyn FnMut(&Ty, Option<&Def>) -> bool, seen: &mut BTreeSet<&'static str>) -> bool {
        let d = if let Ty::Named(n, f) = t { Some(def(n, *f)) } else { None };
        if p(t, d.as_deref()) {
            return true;
        }
        match t {
            Ty::Opt(a) | Ty::Boxed(a) | Ty::Vec(a) | Ty::List(a) | Ty::HSet(a) | Ty::BSet(a) | Ty::Arr(a, _) => {
                go(a, p, seen)
            }
            Ty::HMap(a, b) | Ty::BMap(a, b) => go(a, p, seen) || go(b, p, seen),
            Ty::Tup(ts) => ts.iter().any(|t| go(t, p, seen)),
            Ty::Named(n, _) => {
                if !seen.insert(n) {
                    return false;
                }
                fn body(d: &Def, p: &mut dyn FnMut(&Ty, Option<&Def>) -> bool, seen: &mut BTreeSet<&'static str>) -> bool {
                    match &d.body {
                        Body::Struct(_, fs) => fs.iter().any(|f| {
                            go(&f.ty, p, seen) || f.proxy.as_ref().is_some_and(|x| go(&x.ty, p, seen))
                        }),
                        Body::Enum(vs) => vs.iter().any(|v| v.fields.iter().any(|f| go(&f.ty, p, seen))),
                        Body::Proxy(x, inner) => go(&x.ty, p, seen) || body(inner, p, seen),
                    }
                }
                body(&d.unwrap(), p, seen)
            }
            _ => false,
        }
    }
    go(t, p, &mut BTreeSet::new())
}

/// The type holds hash collections: the order they are written in differs from object to object.
pub fn has_hash(t: &Ty) -> bool {
    any_ty(t, &mut |t, _| matches!(t, Ty::HSet(_) | Ty::HMap(..)))
}
/// The type can contain itself.
pub fn is_recursive(t: &Ty) -> bool {
    fn go(t: &Ty, path: &mut Vec<&'static str>) -> bool {
        match t {
            Ty::Opt(a) | Ty::Boxed(a) | Ty::Vec(a) | Ty::List(a) | Ty::HSet(a) | Ty::BSet(a) | Ty::Arr(a, _) => go(a, path),
            Ty::HMap(a, b) | Ty::BMap(a, b) => go(a, path) || go(b, path),
            Ty::Tup(ts) => ts.iter().any(|t| go(t, path)),
            Ty::Named(n, f) => {
                if path.contains(n) {
                    return true;
                }
                path.push(n);
                let d = def(n, *f);
                let r = match &d.body {
                    Body::Struct(_, fs) => fs.iter().any(|f| go(&f.ty, path)),
                    Body::Enum(vs) => vs.iter().any(|v| v.fields.iter().any(|f| go(&f.ty, path))),
                    Body::Proxy(p, _) => go(&p.ty, path),
                };
                path.pop();
                r
            }
            _ => false,
        }
    }
    go(t, &mut vec![])
}

/// Fewest bytes a value of the type takes in the binary format.
pub fn min_bin(t: &Ty, path: &mut Vec<&'static str>) -> usize {
    match t {
        Ty::U8 | Ty::I8 | Ty::Bool => 1,
        Ty::U16 | Ty::I16 => 2,
        Ty::U32 | Ty::I32 | Ty::F32 => 4,
        Ty::U64 | Ty::I64 | Ty::F64 | Ty::Usize | Ty::Str => 8,
        Ty::U128 | Ty::I128 => 16,
        Ty::Unit => 0,
        Ty::Dur => 12,
        Ty::Time => 1,
        Ty::Opt(_) => 1,
        Ty::Boxed(a) => min_bin(a, path),
        Ty::Vec(_) | Ty::List(_) | Ty::HSet(_) | Ty::BSet(_) | Ty::HMap(..) | Ty::BMap(..) => 8,
        Ty::Arr(a, n) => min_bin(a, path) * n,
        Ty::Tup(ts) => ts.iter().map(|t| min_bin(t, path)).sum(),
        Ty::Named(n, f) => {
            if path.contains(n) {
                return 1 << 40;
            }
            path.push(n);
            let d = def(n, *f);
            let fmin = |fs: &Vec<Field>, path: &mut Vec<&'static str>| -> usize {
                fs.iter()
                    .filter(|f| !f.skip)
                    .map(|f| min_bin(f.proxy.as_ref().map(|p| &p.ty).unwrap_or(&f.ty), path))
                    .sum()
            };
            let r = match &d.body {
                Body::Struct(_, fs) => fmin(fs, path),
                Body::Enum(vs) => 2 + vs.iter().map(|v| fmin(&v.fields, path)).min().unwrap_or(0),
                Body::Proxy(p, _) => min_bin(&p.ty, path),
            };
            path.pop();
            r
        }
    }
}

pub trait Model: Sized {
    fn ty() -> Ty;
    fn from_val(v: &Val) -> Self;
    fn to_val(&self) -> Val;
}

#[track_caller]
pub fn bad(v: &Val) -> ! {
    panic!("harness: value does not fit its type: {v:?}")
}

macro_rules! ints {
    ($($t:ident $ty:ident $v:ident $w:ident),*) => {$(
        impl Model for $t {
            fn ty() -> Ty { Ty::$ty }
            fn from_val(v: &Val) -> Self { if let Val::$v(x) = v { *x as $t } else { bad(v) } }
            fn to_val(&self) -> Val { Val::$v(*self as $w) }
        }
    )*};
}
ints!(u8 U8 U u128, u16 U16 U u128, u32 U32 U u128, u64 U64 U u128, u128 U128 U u128, usize Usize U u128,
      i8 I8 I i128, i16 I16 I i128, i32 I32 I i128, i64 I64 I i128, i128 I128 I i128);
impl Model for f32 {
    fn ty() -> Ty {
        Ty::F32
    }
    fn from_val(v: &Val) -> Self {
        if let Val::F32(x) = v {
            f32::from_bits(*x)
        } else {
            bad(v)
        }
    }
    fn to_val(&self) -> Val {
        Val::F32(self.to_bits())
    }
}
impl Model for f64 {
    fn ty() -> Ty {
        Ty::F64
    }
    fn from_val(v: &Val) -> Self {
        if let Val::F64(x) = v {
            f64::from_bits(*x)
        } else {
            bad(v)
        }
    }
    fn to_val(&self) -> Val {
        Val::F64(self.to_bits())
    }
}
impl Model for bool {
    fn ty() -> Ty {
        Ty::Bool
    }
    fn from_val(v: &Val) -> Self {
        if let Val::Bool(x) = v {
            *x
        } else {
            bad(v)
        }
    }
    fn to_val(&self) -> Val {
        Val::Bool(*self)
    }
}
impl Model for String {
    fn ty() -> Ty {
        Ty::Str
    }
    fn from_val(v: &Val) -> Self {
        if let Val::Str(x) = v {
            x.clone()
        } else {
            bad(v)
        }
    }
    fn to_val(&self) -> Val {
        // A String with invalid UTF-8 must never exist: look at the bytes, not at the type.
        match std::str::from_utf8(self.as_bytes()) {
            Ok(s) => Val::Str(s.to_owned()),
            Err(_) => Val::Str(format!("<INVALID UTF-8 {:02x?}>", self.as_bytes())),
        }
    }
}
impl Model for () {
    fn ty() -> Ty {
        Ty::Unit
    }
    fn from_val(_: &Val) -> Self {}
    fn to_val(&self) -> Val {
        Val::Unit
    }
}
impl Model for Duration {
    fn ty() -> Ty {
        Ty::Dur
    }
    fn from_val(v: &Val) -> Self {
        if let Val::Dur(s, n) = v {
            Duration::new(*s, *n)
        } else {
            bad(v)
        }
    }
    fn to_val(&self) -> Val {
        Val::Dur(self.as_secs(), self.subsec_nanos())
    }
}
impl Model for std::time::SystemTime {
    fn ty() -> Ty {
        Ty::Time
    }
    fn from_val(v: &Val) -> Self {
        match v {
            Val::Time(Some((s, n))) => std::time::UNIX_EPOCH + Duration::new(*s, *n),
            Val::Time(None) => std::time::UNIX_EPOCH - Duration::new(1, 500_000_000),
            v => bad(v),
        }
    }
    fn to_val(&self) -> Val {
        Val::Time(self.duration_since(std::time::UNIX_EPOCH).ok().map(|d| (d.as_secs(), d.subsec_nanos())))
    }
}
impl<T: Model> Model for Option<T> {
    fn ty() -> Ty {
        Ty::Opt(Arc::new(T::ty()))
    }
    fn from_val(v: &Val) -> Self {
        if let Val::Opt(x) = v {
            x.as_ref().map(|x| T::from_val(x))
        } else {
            bad(v)
        }
    }
    fn to_val(&self) -> Val {
        Val::Opt(self.as_ref().map(|x| Box::new(x.to_val())))
    }
}
impl<T: Model> Model for Box<T> {
    fn ty() -> Ty {
        Ty::Boxed(Arc::new(T::ty()))
    }
    fn from_val(v: &Val) -> Self {
        Box::new(T::from_val(v))
    }
    fn to_val(&self) -> Val {
        (**self).to_val()
    }
}
macro_rules! seqs {
    ($($t:ty, $ty:ident, [$($b:tt)*];)*) => {$(
        impl<T: Model $($b)*> Model for $t {
            fn ty() -> Ty { Ty::$ty(Arc::new(T::ty())) }
            fn from_val(v: &Val) -> Self { if let Val::Seq(x) = v { x.iter().map(|x| T::from_val(x)).collect() } else { bad(v) } }
            fn to_val(&self) -> Val { Val::Seq(self.iter().map(|x| x.to_val()).collect()) }
        }
    )*};
}
seqs! {
    Vec<T>, Vec, [];
    LinkedList<T>, List, [];
    BTreeSet<T>, BSet, [+ Ord];
    std::collections::HashSet<T>, HSet, [+ std::hash::Hash + Eq];
}
macro_rules! maps {
    ($($t:ty, $ty:ident, [$($b:tt)*];)*) => {$(
        impl<K: Model $($b)*, V: Model> Model for $t {
            fn ty() -> Ty { Ty::$ty(Arc::new(K::ty()), Arc::new(V::ty())) }
            fn from_val(v: &Val) -> Self { if let Val::Map(x) = v { x.iter().map(|(k, x)| (K::from_val(k), V::from_val(x))).collect() } else { bad(v) } }
            fn to_val(&self) -> Val { Val::Map(self.iter().map(|(k, x)| (k.to_val(), x.to_val())).collect()) }
        }
    )*};
}
maps! {
    BTreeMap<K, V>, BMap, [+ Ord];
}
impl<K: Model + std::hash::Hash + Eq, V: Model, S: std::hash::BuildHasher + Default> Model for HashMap<K, V, S> {
    fn ty() -> Ty {
        Ty::HMap(Arc::new(K::ty()), Arc::new(V::ty()))
    }
    fn from_val(v: &Val) -> Self {
        if let Val::Map(x) = v {
            x.iter().map(|(k, x)| (K::from_val(k), V::from_val(x))).collect()
        } else {
            bad(v)
        }
    }
    fn to_val(&self) -> Val {
        Val::Map(self.iter().map(|(k, x)| (k.to_val(), x.to_val())).collect())
    }
}
impl<T: Model, const N: usize> Model for [T; N] {
    fn ty() -> Ty {
        Ty::Arr(Arc::new(T::ty()), N)
    }
    fn from_val(v: &Val) -> Self {
        if let Val::Seq(x) = v {
            assert_eq!(x.len(), N);
            std::array::from_fn(|i| T::from_val(&x[i]))
        } else {
            bad(v)
        }
    }
    fn to_val(&self) -> Val {
        Val::Seq(self.iter().map(|x| x.to_val()).collect())
    }
}
macro_rules! tups {
    ($($n:literal: $($t:ident $i:tt),*;)*) => {$(
        impl<$($t: Model),*> Model for ($($t,)*) {
            fn ty() -> Ty { Ty::Tup(vec![$($t::ty()),*]) }
            fn from_val(v: &Val) -> Self { if let Val::Seq(x) = v { assert_eq!(x.len(), $n); ($($t::from_val(&x[$i]),)*) } else { bad(v) } }
            fn to_val(&self) -> Val { Val::Seq(vec![$(self.$i.to_val()),*]) }
        }
    )*};
}
tups! {
    2: A 0, B 1;
    3: A 0, B 1, C 2;
    4: A 0, B 1, C 2, D 3;
}

/// A short printable form for replays and samples.
pub fn show(v: &Val) -> String {
    let s = format!("{v:?}");
    clip(&s, 600)
}
pub fn clip(s: &str, n: usize) -> String {
    if s.len() <= n {
        return s.to_owned();
    }
    let mut i = n;
    while !s.is_char_boundary(i) {
        i -= 1;
    }
    format!("{}...({} bytes)", &s[..i], s.len())
}
