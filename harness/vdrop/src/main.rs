//! C17: elements that account for themselves.
//!
//! Every element value enters a ledger when a decoder creates it and leaves it when it is dropped. After each decode the
//! ledger says whether anything was lost, dropped twice, or dropped without having been created.
use nanoserde::*;
use std::cell::RefCell;
use std::collections::*;
use std::str::Chars;
use vh::mon::*;
use vh::rng::*;

#[global_allocator]
static A: Counting = Counting;

// ---------------------------------------------------------------- the ledger

#[derive(Clone, Copy, PartialEq, Debug)]
enum Fail {
    Never,
    Error,
    Panic,
}
struct Ledger {
    /// by id: 0 never created, 1 alive, 2 dropped
    state: Vec<u8>,
    next: usize,
    alive: usize,
    zst: i64,
    created: usize,
    fail_at: usize,
    fail: Fail,
    failed: bool,
    bad: Option<String>,
}
thread_local! {
    static L: RefCell<Ledger> = RefCell::new(Ledger { state: vec![0; 1 << 16], next: 1, alive: 0, zst: 0, created: 0, fail_at: 0, fail: Fail::Never, failed: false, bad: None });
}
fn reset(fail_at: usize, fail: Fail) {
    L.with(|l| {
        let mut l = l.borrow_mut();
        let n = l.next;
        l.state[..n].fill(0);
        l.next = 1;
        l.alive = 0;
        l.zst = 0;
        l.created = 0;
        l.fail_at = fail_at;
        l.fail = fail;
        l.failed = false;
        l.bad = None;
    })
}
/// A decoder is about to create an element. Err: it has been told to fail here.
fn born() -> Result<u32, ()> {
    let fail = L.with(|l| {
        let mut l = l.borrow_mut();
        l.created += 1;
        if l.created == l.fail_at {
            l.failed = true;
            l.fail
        } else {
            Fail::Never
        }
    });
    match fail {
        Fail::Error => return Err(()),
        Fail::Panic => panic!("injected"),
        Fail::Never => {}
    }
    L.with(|l| {
        let mut l = l.borrow_mut();
        let id = l.next;
        l.next += 1;
        l.state[id] = 1;
        l.alive += 1;
        Ok(id as u32)
    })
}
fn died(id: u32) {
    L.with(|l| {
        let mut l = l.borrow_mut();
        match l.state.get(id as usize).copied() {
            Some(1) => {
                l.state[id as usize] = 2;
                l.alive -= 1;
            }
            s => {
                let m = match s {
                    Some(2) => format!("element {id} was dropped twice"),
                    _ => format!("something that is no element (id {id}) was dropped"),
                };
                l.bad.get_or_insert(m);
            }
        }
    })
}
fn is_alive(id: u32) -> bool {
    L.with(|l| l.borrow().state.get(id as usize) == Some(&1))
}

// ---------------------------------------------------------------- elements

trait Elem: Sized + SerBin + DeBin + SerJson + DeJson + SerRon + DeRon + 'static {
    const NAME: &'static str;
    fn make(n: u8) -> Result<Self, ()>;
    /// the content, after looking at it: None if it is not what was created
    fn look(&self) -> Option<u8>;
}
const MAGIC: u32 = 0x5afe_c0de;

#[derive(Debug)]
struct Plain {
    magic: u32,
    id: u32,
    n: u8,
}
impl Drop for Plain {
    fn drop(&mut self) {
        died(if self.magic == MAGIC { self.id } else { u32::MAX });
        self.magic = 0xdead;
    }
}
impl Elem for Plain {
    const NAME: &'static str = "Plain";
    fn make(n: u8) -> Result<Self, ()> {
        Ok(Plain { id: born()?, magic: MAGIC, n })
    }
    fn look(&self) -> Option<u8> {
        (self.magic == MAGIC && is_alive(self.id)).then_some(self.n)
    }
}
impl PartialEq for Plain {
    fn eq(&self, o: &Self) -> bool {
        self.n == o.n
    }
}
impl Eq for Plain {}
impl PartialOrd for Plain {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Plain {
    fn cmp(&self, o: &Self) -> std::cmp::Ordering {
        self.n.cmp(&o.n)
    }
}
impl std::hash::Hash for Plain {
    fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
        self.n.hash(h)
    }
}

/// Owns memory.
struct Heap {
    id: Box<u32>,
    text: String,
}
impl Drop for Heap {
    fn drop(&mut self) {
        died(*self.id);
        *self.id = u32::MAX;
    }
}
impl Elem for Heap {
    const NAME: &'static str = "Heap";
    fn make(n: u8) -> Result<Self, ()> {
        Ok(Heap { id: Box::new(born()?), text: format!("{n}") })
    }
    fn look(&self) -> Option<u8> {
        if !is_alive(*self.id) {
            return None;
        }
        self.text.parse().ok()
    }
}

/// Takes no space.
struct Nothing;
impl Drop for Nothing {
    fn drop(&mut self) {
        L.with(|l| {
            let mut l = l.borrow_mut();
            l.zst -= 1;
            l.alive = l.alive.wrapping_sub(1);
            if l.zst < 0 {
                l.bad.get_or_insert("more elements without size were dropped than created".into());
            }
        })
    }
}
impl Elem for Nothing {
    const NAME: &'static str = "Nothing";
    fn make(_: u8) -> Result<Self, ()> {
        born()?;
        L.with(|l| l.borrow_mut().zst += 1);
        Ok(Nothing)
    }
    fn look(&self) -> Option<u8> {
        Some(0)
    }
}

#[repr(align(64))]
struct Aligned {
    id: u32,
    n: u8,
}
impl Aligned {
    fn placed(&self) -> bool {
        self as *const _ as usize % 64 == 0
    }
}
impl Drop for Aligned {
    fn drop(&mut self) {
        if !self.placed() {
            L.with(|l| l.borrow_mut().bad.get_or_insert("an element lies at an address it may not have".into()).len());
        }
        died(self.id);
        self.id = u32::MAX;
    }
}
impl Elem for Aligned {
    const NAME: &'static str = "Aligned";
    fn make(n: u8) -> Result<Self, ()> {
        Ok(Aligned { id: born()?, n })
    }
    fn look(&self) -> Option<u8> {
        (self.placed() && is_alive(self.id)).then_some(self.n)
    }
}

struct Large {
    id: u32,
    fill: [u8; 501],
}
impl Drop for Large {
    fn drop(&mut self) {
        died(if self.fill[0] == self.fill[500] { self.id } else { u32::MAX });
        self.id = u32::MAX;
    }
}
impl Elem for Large {
    const NAME: &'static str = "Large";
    fn make(n: u8) -> Result<Self, ()> {
        Ok(Large { id: born()?, fill: [n; 501] })
    }
    fn look(&self) -> Option<u8> {
        (is_alive(self.id) && self.fill.iter().all(|b| *b == self.fill[0])).then_some(self.fill[0])
    }
}
macro_rules! codecs {
    ($($t:ident)*) => { $(
        impl SerBin for $t {
            fn ser_bin(&self, o: &mut Vec<u8>) {
                self.look().expect("harness: a broken element is written").ser_bin(o)
            }
        }
        impl DeBin for $t {
            fn de_bin(o: &mut usize, d: &[u8]) -> Result<Self, DeBinErr> {
                let at = *o;
                let n = u8::de_bin(o, d)?;
                $t::make(n).map_err(|_| DeBinErr::new(at, 1, d.len()))
            }
        }
        impl SerJson for $t {
            fn ser_json(&self, d: usize, s: &mut SerJsonState) {
                self.look().expect("harness: a broken element is written").ser_json(d, s)
            }
        }
        impl DeJson for $t {
            fn de_json(s: &mut DeJsonState, i: &mut Chars) -> Result<Self, DeJsonErr> {
                let n = u8::de_json(s, i)?;
                $t::make(n).map_err(|_| s.err_parse("element"))
            }
        }
        impl SerRon for $t {
            fn ser_ron(&self, d: usize, s: &mut SerRonState) {
                self.look().expect("harness: a broken element is written").ser_ron(d, s)
            }
        }
        impl DeRon for $t {
            fn de_ron(s: &mut DeRonState, i: &mut Chars) -> Result<Self, DeRonErr> {
                let n = u8::de_ron(s, i)?;
                $t::make(n).map_err(|_| s.err_parse("element"))
            }
        }
    )* };
}
codecs!(Plain Heap Nothing Aligned Large);

// ---------------------------------------------------------------- containers

type Mk<'a, E> = &'a mut dyn FnMut() -> E;
/// Something that holds elements `E`.
trait Cont<E>: Sized {
    /// `n`: the size of what can have any size
    fn build(mk: Mk<E>, n: usize) -> Self;
    fn walk(&self, f: &mut dyn FnMut(&E));
}
macro_rules! elem_conts {
    ($($t:ident)*) => { $(
        impl Cont<$t> for $t {
            fn build(mk: Mk<$t>, _: usize) -> Self { mk() }
            fn walk(&self, f: &mut dyn FnMut(&$t)) { f(self) }
        }
    )* };
}
elem_conts!(Plain Heap Nothing Aligned Large);
impl<E, C: Cont<E>, const N: usize> Cont<E> for [C; N] {
    fn build(mk: Mk<E>, n: usize) -> Self {
        std::array::from_fn(|_| C::build(mk, n))
    }
    fn walk(&self, f: &mut dyn FnMut(&E)) {
        self.iter().for_each(|c| c.walk(f))
    }
}
macro_rules! lists {
    ($($t:ident)*) => { $(
        impl<E, C: Cont<E>> Cont<E> for $t<C> {
            fn build(mk: Mk<E>, n: usize) -> Self { (0..n).map(|_| C::build(mk, n)).collect() }
            fn walk(&self, f: &mut dyn FnMut(&E)) { self.iter().for_each(|c| c.walk(f)) }
        }
    )* };
}
lists!(Vec LinkedList);
impl<E, C: Cont<E>> Cont<E> for Option<C> {
    fn build(mk: Mk<E>, n: usize) -> Self {
        (n > 0).then(|| C::build(mk, n))
    }
    fn walk(&self, f: &mut dyn FnMut(&E)) {
        self.iter().for_each(|c| c.walk(f))
    }
}
impl<E, C: Cont<E>> Cont<E> for Box<C> {
    fn build(mk: Mk<E>, n: usize) -> Self {
        Box::new(C::build(mk, n))
    }
    fn walk(&self, f: &mut dyn FnMut(&E)) {
        (**self).walk(f)
    }
}
macro_rules! maps {
    ($($t:ident)*) => { $(
        impl<E, C: Cont<E>> Cont<E> for $t<String, C> {
            fn build(mk: Mk<E>, n: usize) -> Self { (0..n).map(|i| (format!("k{i}"), C::build(mk, n))).collect() }
            fn walk(&self, f: &mut dyn FnMut(&E)) { self.values().for_each(|c| c.walk(f)) }
        }
    )* };
}
maps!(HashMap BTreeMap);
macro_rules! sets {
    ($($t:ident)*) => { $(
        impl Cont<Plain> for $t<Plain> {
            fn build(mk: Mk<Plain>, n: usize) -> Self { (0..n).map(|_| mk()).collect() }
            fn walk(&self, f: &mut dyn FnMut(&Plain)) { self.iter().for_each(|c| f(c)) }
        }
    )* };
}
sets!(HashSet BTreeSet);
macro_rules! keyed {
    ($($t:ident)*) => { $(
        impl Cont<Plain> for $t<Plain, Plain> {
            fn build(mk: Mk<Plain>, n: usize) -> Self { (0..n).map(|_| (mk(), mk())).collect() }
            fn walk(&self, f: &mut dyn FnMut(&Plain)) { self.iter().for_each(|(a, b)| { f(a); f(b) }) }
        }
    )* };
}
keyed!(HashMap BTreeMap);
macro_rules! tuples {
    ($(($($t:ident $i:tt)*))*) => { $(
        impl<E, $($t: Cont<E>),*> Cont<E> for ($($t,)*) {
            fn build(mk: Mk<E>, n: usize) -> Self { ($($t::build(mk, n),)*) }
            fn walk(&self, f: &mut dyn FnMut(&E)) { $(self.$i.walk(f);)* }
        }
    )* };
}
tuples!((A 0 B 1) (A 0 B 1 C 2) (A 0 B 1 C 2 D 3));
macro_rules! derived {
    ($($m:ident $t:ident)*) => { $(
        mod $m {
            use super::*;
            type E = super::$t;
            #[derive(SerBin, DeBin, SerJson, DeJson, SerRon, DeRon)]
            pub struct Fields {
                pub a: E,
                pub b: [E; 2],
                pub c: Option<E>,
                pub d: Vec<E>,
                #[nserde(rename = "z")]
                pub e: (E, E),
                pub f: Option<Box<E>>,
            }
            impl Cont<E> for Fields {
                fn build(mk: Mk<E>, n: usize) -> Self {
                    Fields { a: mk(), b: Cont::build(mk, n), c: Cont::build(mk, n % 2), d: Cont::build(mk, n), e: Cont::build(mk, n), f: Cont::build(mk, n / 2 % 2) }
                }
                fn walk(&self, f: &mut dyn FnMut(&E)) {
                    f(&self.a);
                    self.b.walk(f);
                    self.c.walk(f);
                    self.d.walk(f);
                    self.e.walk(f);
                    self.f.walk(f);
                }
            }
            #[derive(SerBin, DeBin, SerJson, DeJson, SerRon, DeRon)]
            pub struct Tuple(pub E, pub [E; 3], pub Vec<E>);
            impl Cont<E> for Tuple {
                fn build(mk: Mk<E>, n: usize) -> Self {
                    Tuple(mk(), Cont::build(mk, n), Cont::build(mk, n))
                }
                fn walk(&self, f: &mut dyn FnMut(&E)) {
                    f(&self.0);
                    self.1.walk(f);
                    self.2.walk(f);
                }
            }
            #[derive(SerBin, DeBin, SerJson, DeJson, SerRon, DeRon)]
            #[nserde(transparent)]
            pub struct Through(pub [E; 4]);
            impl Cont<E> for Through {
                fn build(mk: Mk<E>, n: usize) -> Self {
                    Through(Cont::build(mk, n))
                }
                fn walk(&self, f: &mut dyn FnMut(&E)) {
                    self.0.walk(f);
                }
            }
            #[derive(SerBin, DeBin, SerJson, DeJson, SerRon, DeRon)]
            pub enum Which {
                None,
                One(E),
                Three(E, [E; 2], Vec<E>),
                Named { x: E, y: [E; 3], z: Option<E> },
            }
            impl Cont<E> for Which {
                fn build(mk: Mk<E>, n: usize) -> Self {
                    match n % 4 {
                        0 => Which::None,
                        1 => Which::One(mk()),
                        2 => Which::Three(mk(), Cont::build(mk, n), Cont::build(mk, n)),
                        _ => Which::Named { x: mk(), y: Cont::build(mk, n), z: Cont::build(mk, n / 4 % 2) },
                    }
                }
                fn walk(&self, f: &mut dyn FnMut(&E)) {
                    match self {
                        Which::None => {}
                        Which::One(a) => f(a),
                        Which::Three(a, b, c) => {
                            f(a);
                            b.walk(f);
                            c.walk(f);
                        }
                        Which::Named { x, y, z } => {
                            f(x);
                            y.walk(f);
                            z.walk(f);
                        }
                    }
                }
            }
        }
    )* };
}
derived!(d_plain Plain d_heap Heap d_nothing Nothing d_aligned Aligned d_large Large);

// ---------------------------------------------------------------- one run

/// A type of container with its three decoders, behind functions.
struct Case {
    name: String,
    /// size 0..: document in format 0, 1, 2 and the contents in order
    doc: fn(usize, usize, u8) -> Option<(Vec<u8>, Vec<u8>)>,
    /// decode, look, drop
    run: fn(usize, &[u8]) -> Seen,
    set: bool,
    fixed: bool,
}
#[derive(Debug)]
enum Seen {
    /// the contents, whether the ledger held as many as were reached
    Value(Vec<u8>, Option<String>),
    Error(String),
    Panic(String),
}
const FMT: [&str; 3] = ["bin", "json", "ron"];

fn document<E: Elem, C: Cont<E>>(ser: impl Fn(&C) -> Vec<u8>, n: usize, salt: u8) -> (Vec<u8>, Vec<u8>) {
    reset(0, Fail::Never);
    let mut k = salt;
    let mut mk = || {
        k = k.wrapping_add(1);
        E::make(k).unwrap()
    };
    let c = C::build(&mut mk, n);
    let mut want = vec![];
    c.walk(&mut |e| want.push(e.look().unwrap()));
    (ser(&c), want)
}
fn decode<E: Elem, C: Cont<E>, X: std::fmt::Display>(f: impl FnOnce() -> Result<C, X>) -> Seen {
    match guard(f) {
        Err(m) => Seen::Panic(m),
        Ok(Err(e)) => Seen::Error(e.to_string()),
        Ok(Ok(c)) => {
            let mut got = vec![];
            let mut bad = None;
            c.walk(&mut |e| match e.look() {
                Some(n) => got.push(n),
                None => bad = Some(format!("the element at {} of the result is none that was created, or was dropped already", got.len())),
            });
            let alive = L.with(|l| l.borrow().alive);
            if bad.is_none() && alive != got.len() {
                bad = Some(format!("{alive} elements are alive, {} are in the result", got.len()));
            }
            drop(c);
            Seen::Value(got, bad)
        }
    }
}
fn as_str(b: &[u8]) -> Option<&str> {
    std::str::from_utf8(b).ok()
}
macro_rules! case {
    ($v:ident, $e:ty, $c:ty; all) => {
        case!(@ $v, $e, $c, |f, n, salt| Some(match f {
            0 => document::<$e, $c>(|c| c.serialize_bin(), n, salt),
            1 => document::<$e, $c>(|c| c.serialize_json().into_bytes(), n, salt),
            _ => document::<$e, $c>(|c| c.serialize_ron().into_bytes(), n, salt),
        }), |f, d| match f {
            0 => decode::<$e, $c, _>(|| DeBin::deserialize_bin(d)),
            1 => decode::<$e, $c, _>(|| DeJson::deserialize_json(as_str(d).unwrap())),
            _ => decode::<$e, $c, _>(|| DeRon::deserialize_ron(as_str(d).unwrap())),
        })
    };
    ($v:ident, $e:ty, $c:ty; nojson) => {
        case!(@ $v, $e, $c, |f, n, salt| match f {
            0 => Some(document::<$e, $c>(|c| c.serialize_bin(), n, salt)),
            1 => None,
            _ => Some(document::<$e, $c>(|c| c.serialize_ron().into_bytes(), n, salt)),
        }, |f, d| match f {
            0 => decode::<$e, $c, _>(|| DeBin::deserialize_bin(d)),
            _ => decode::<$e, $c, _>(|| DeRon::deserialize_ron(as_str(d).unwrap())),
        })
    };
    (@ $v:ident, $e:ty, $c:ty, $doc:expr, $run:expr) => {{
        let name = format!("{} of {}", stringify!($c).replace(' ', ""), <$e as Elem>::NAME);
        let set = name.contains("Set<") || name.contains("Map<Plain");
        let fixed = !["Vec", "List", "Map", "Set", "Option", "Fields", "Tuple", "Which"].iter().any(|x| name.contains(x));
        $v.push(Case { name, doc: $doc, run: $run, set, fixed });
    }};
}
/// Arrays of every length.
macro_rules! arrays {
    ($v:ident, $e:ty; $($n:literal)*) => { $( case!($v, $e, [$e; $n]; all); )* };
}
fn cases(small: bool) -> Vec<Case> {
    let mut v: Vec<Case> = vec![];
    macro_rules! of {
        ($e:ident $m:ident) => {
            arrays!(v, $e; 0 1 2 3 5);
            case!(v, $e, [[$e; 2]; 3]; all);
            case!(v, $e, [Vec<$e>; 2]; all);
            case!(v, $e, Vec<[$e; 3]>; all);
            case!(v, $e, $m::Fields; all);
            case!(v, $e, $m::Which; all);
            if !small {
                arrays!(v, $e; 4 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31 32 33 48 64 65 100 128 257);
                case!(v, $e, [[$e; 0]; 3]; all);
                case!(v, $e, [[$e; 3]; 0]; all);
                case!(v, $e, [[[$e; 2]; 1]; 4]; all);
                case!(v, $e, [Option<$e>; 3]; all);
                case!(v, $e, [Box<$e>; 3]; all);
                case!(v, $e, [($e, $e); 3]; all);
                case!(v, $e, Vec<$e>; all);
                case!(v, $e, Vec<Vec<$e>>; all);
                case!(v, $e, LinkedList<$e>; all);
                case!(v, $e, Option<[$e; 2]>; all);
                case!(v, $e, Box<[$e; 2]>; all);
                case!(v, $e, Option<Box<$e>>; all);
                case!(v, $e, ($e, $e); all);
                case!(v, $e, ($e, [$e; 2], Vec<$e>); all);
                case!(v, $e, ($e, Vec<$e>, [$e; 3], Option<$e>); all);
                case!(v, $e, HashMap<String, $e>; all);
                case!(v, $e, BTreeMap<String, [$e; 2]>; all);
                case!(v, $e, [HashMap<String, $e>; 2]; all);
                case!(v, $e, BTreeMap<String, Vec<$e>>; all);
                case!(v, $e, $m::Tuple; all);
                case!(v, $e, $m::Through; all);
                case!(v, $e, [$m::Which; 3]; all);
                case!(v, $e, [$m::Fields; 2]; all);
                case!(v, $e, Vec<$m::Fields>; all);
                case!(v, $e, HashMap<String, $m::Which>; all);
            }
        };
    }
    of!(Plain d_plain);
    of!(Heap d_heap);
    of!(Nothing d_nothing);
    of!(Aligned d_aligned);
    of!(Large d_large);
    if !small {
        case!(v, Plain, HashSet<Plain>; all);
        case!(v, Plain, BTreeSet<Plain>; all);
        case!(v, Plain, Vec<BTreeSet<Plain>>; all);
        case!(v, Plain, HashMap<Plain, Plain>; nojson);
        case!(v, Plain, BTreeMap<Plain, Plain>; nojson);
        case!(v, Plain, [BTreeMap<Plain, Plain>; 2]; nojson);
    }
    v
}

/// One decode and everything the ledger says about it.
fn observe(c: &mut Ctx, k: &Case, f: usize, doc: &[u8], fail_at: usize, fail: Fail, want: Option<&[u8]>) -> bool {
    let what = format!("{} {} decode{}", k.name, FMT[f], if fail == Fail::Never { String::new() } else { format!(", element {fail_at} fails with {fail:?}") });
    current(&what, doc);
    reset(fail_at, fail);
    let live = live_bytes();
    let seen = (k.run)(f, doc);
    let own = match &seen {
        Seen::Value(v, b) => v.capacity() + b.as_ref().map_or(0, |b| b.capacity()),
        Seen::Error(m) | Seen::Panic(m) => m.capacity(),
    };
    let bytes = live_bytes() - live - own as i64;
    let (mut bad, created, alive, failed) = L.with(|l| {
        let mut l = l.borrow_mut();
        (l.bad.take(), l.created, l.alive, l.failed)
    });
    idle();
    c.eval(hash_bytes(doc) ^ hash_str(&k.name) ^ (fail_at as u64) << 8 ^ fail as u64 ^ (f as u64) << 40, created > 0);
    c.add("elements created", created as u64);
    c.count(match (&seen, failed) {
        (Seen::Value(..), _) => "decoded",
        (Seen::Error(_), true) => "stopped by an element's error",
        (Seen::Error(_), false) => "stopped by a damaged document",
        (Seen::Panic(_), _) => "unwound by an element's panic",
    });
    let injected = failed && fail == Fail::Panic;
    let mut panicked = injected;
    match &seen {
        // that it panics is for other checks; nothing may be dropped twice all the same
        Seen::Panic(m) if !(injected && m.starts_with("injected")) => {
            panicked = true;
            c.count("panics of the decoder: left to other checks");
        }
        Seen::Value(got, b) => {
            if bad.is_none() {
                bad = b.clone();
            }
            if let (None, Some(w)) = (&bad, want) {
                let mut g = got.clone();
                let mut w = w.to_vec();
                if k.set || k.name.contains("HashMap") {
                    g.sort();
                    w.sort();
                }
                if g != w {
                    c.count("other elements than written: left to other checks");
                }
            }
        }
        _ => {}
    }
    if bad.is_none() && !panicked && alive != 0 {
        bad = Some(format!("{alive} of {created} elements were never dropped"));
    }
    if bad.is_none() && alive > created {
        bad = Some("more elements were dropped than created".into());
    }
    let s = format!("{seen:?}");
    if bad.is_none() && !panicked && bytes != 0 {
        bad = Some(format!("{bytes} bytes of memory are still held afterwards"));
    }
    c.sample(&format!("{}{}", k.name.split(' ').last().unwrap(), fail as u8), || format!("{what}: {} -> {s}; created {created}", show_bytes(doc)));
    if let Some(m) = bad {
        c.violation("ledger", format!("{what}: {m}\ndocument: {}\nresult: {s}", show_bytes(doc)));
        return false;
    }
    true
}
fn edits(r: &mut Rng, f: usize, doc: &[u8]) -> Vec<u8> {
    let mut d = doc.to_vec();
    if f == 0 {
        if d.is_empty() {
            return vec![r.u64() as u8];
        }
        for _ in 0..1 + r.below(2) {
            let n = d.len();
            match r.below(4) {
                0 => d.truncate(r.below(n + 1)),
                1 if n > 0 => d[r.below(n)] = *r.pick(&[0, 1, 2, 3, 0xff]),
                2 => d.insert(r.below(n + 1), *r.pick(&[0, 1, 2])),
                _ if n > 0 => {
                    d.remove(r.below(n));
                }
                _ => {}
            }
        }
        return d;
    }
    let mut v: Vec<char> = String::from_utf8(d).unwrap().chars().collect();
    for _ in 0..1 + r.below(2) {
        let n = v.len();
        match r.below(7) {
            0 => v.truncate(r.below(n + 1)),
            1 if n > 0 => {
                let i = r.below(n);
                v[i] = *r.pick(&['[', ']', '{', '}', '(', ')', ',', ':', '"', '7', 'x', '-', '.', ' ']);
            }
            2 => v.insert(r.below(n + 1), *r.pick(&['[', ']', '{', '}', '(', ')', ',', ':', '"', '7', 'x', '-', '.'])),
            3 if n > 0 => {
                v.remove(r.below(n));
            }
            4 if n > 0 => {
                // an element more
                if let Some(i) = v.iter().position(|c| *c == ',') {
                    v.splice(i..i, ",3".chars());
                }
            }
            _ if n > 2 => {
                // everything inside twice
                let (a, b) = (v[0], v[n - 1]);
                if matches!((a, b), ('{', '}') | ('(', ')') | ('[', ']')) {
                    let inner = v[1..n - 1].to_vec();
                    if inner.last() != Some(&',') {
                        v.insert(n - 1, ',');
                    }
                    let at = v.len() - 1;
                    v.splice(at..at, inner);
                }
            }
            _ => {}
        }
    }
    v.into_iter().collect::<String>().into_bytes()
}
/// The same with the keys of maps made equal.
fn same_keys(doc: &[u8]) -> Vec<u8> {
    let mut d = doc.to_vec();
    for i in 1..d.len() {
        if d[i - 1] == b'k' && d[i].is_ascii_digit() {
            d[i] = b'0';
        }
    }
    d
}
fn exercise(c: &mut Ctx, k: &Case, r: &mut Rng, f: usize, n: usize, damaged: usize, fails: usize) -> bool {
    let salt = r.u64() as u8;
    let Ok(Some((doc, want))) = guard(|| (k.doc)(f, n, salt)) else { return true };
    if !observe(c, k, f, &doc, 0, Fail::Never, if k.set { None } else { Some(&want) }) {
        return false;
    }
    // every place an element can fail
    let total = L.with(|l| l.borrow().created);
    let places: Vec<usize> = if total <= fails { (1..=total).collect() } else { (0..fails).map(|i| if i < 2 { 1 + i } else if i < 4 { total - i + 2 } else { 1 + r.below(total) }).collect() };
    for p in places {
        for fail in [Fail::Error, Fail::Panic] {
            if !observe(c, k, f, &doc, p, fail, None) {
                return false;
            }
        }
    }
    let dup = same_keys(&doc);
    if dup != doc && !observe(c, k, f, &dup, 0, Fail::Never, None) {
        return false;
    }
    for i in 0..damaged {
        let d = if i % 3 == 0 {
            let at = r.below(doc.len() + 1);
            match std::str::from_utf8(&doc[..at]) {
                Err(_) if f > 0 => continue,
                _ => doc[..at].to_vec(),
            }
        } else {
            edits(r, f, if i % 5 == 0 { &dup } else { &doc })
        };
        let fail = if r.chance(1, 3) { *r.pick(&[Fail::Error, Fail::Panic]) } else { Fail::Never };
        let at = if fail == Fail::Never { 0 } else { 1 + r.below(total + 2) };
        if !observe(c, k, f, &d, at, fail, None) {
            return false;
        }
    }
    true
}
fn main() {
    let mut args = std::env::args().skip(1);
    let mode = args.next().unwrap_or("plain".into());
    if mode == "build" {
        return;
    }
    let seed = args.next().and_then(|s| s.parse().ok()).unwrap_or(1);
    let tier = args.next().unwrap_or("quick".into());
    let verif = args.next().unwrap_or("/verif".into());
    let secs = args.next().and_then(|s| s.parse().ok()).unwrap_or(60.0);
    let slots = args.next().filter(|s| s != "-");
    let shard: usize = args.next().and_then(|s| s.parse().ok()).unwrap_or(0);
    let of: usize = args.next().and_then(|s| s.parse().ok()).unwrap_or(1);
    let miri = mode == "miri";
    let thorough = tier == "thorough";
    set_run(Run { prop: "C17".into(), tier, seed, verif, threads: if miri { 1 } else { 8 }, start: std::time::Instant::now(), secs, only: None });
    install_panic_hook();
    if let Some(s) = slots {
        open_slots(&s);
        watchdog();
    }
    let ks: Vec<Case> = cases(miri).into_iter().enumerate().filter(|(i, _)| i % of == shard).map(|x| x.1).collect();
    let (rounds, damaged, fails) = match (mode.as_str(), thorough) {
        ("miri", false) => (2, 2, 2),
        ("miri", true) => (12, 6, 8),
        ("asan", false) => (30, 12, 10),
        ("asan", true) => (1200, 40, 40),
        (_, false) => (40, 24, 40),
        (_, true) => (2000, 60, 80),
    };
    let ks = &ks;
    parallel(ks.len(), |c, i| {
        let k = &ks[i];
        // let lazily made things be made
        reset(0, Fail::Never);
        let _ = (k.run)(0, &[]);
        for round in 0..rounds {
            for f in 0..3 {
                let mut r = Rng::stream(seed, &format!("C17/{mode}/{}", k.name), round as u64, f as u64);
                if run().left() < 0.0 {
                    return;
                }
                let n = if k.fixed { 0 } else { *r.pick(if miri { &[1, 2, 3, 7] } else { &[0, 1, 2, 3, 5, 6, 7, 9] }) };
                if !exercise(c, k, &mut r, f, n, damaged, fails) {
                    return;
                }
            }
        }
        c.count("container types");
    });
    report(&format!("elements, {mode}"));
}
