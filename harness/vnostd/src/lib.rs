//! C19: what is there without std, used from a crate without std. It only has to compile.
#![no_std]
#![allow(dead_code)]
extern crate alloc;
use alloc::boxed::Box;
use alloc::collections::{BTreeMap, BTreeSet, LinkedList};
use alloc::string::String;
use alloc::vec::Vec;
use core::time::Duration;
use nanoserde::*;

fn error<E: core::error::Error + core::fmt::Debug + core::fmt::Display + Clone>() {}
pub fn errors() {
    error::<DeBinErr>();
    error::<DeJsonErr>();
    error::<DeRonErr>();
    error::<TomlErr>();
}
fn all<T: SerBin + DeBin + SerJson + DeJson + SerRon + DeRon>() {}
fn binary<T: SerBin + DeBin>() {}
macro_rules! of {
    ($($t:ty),* $(,)?) => { $( all::<$t>(); )* };
}
pub fn types() {
    of!(u8, u16, u32, u64, usize, i8, i16, i32, i64, f32, f64, bool, String, Option<u8>, Vec<u8>, [u8; 0], [u8; 40], Box<u8>, LinkedList<u8>, BTreeSet<u8>, BTreeMap<String, u8>, Duration, (u8, u8), (u8, u8, u8, u8));
    of!(Fields<u8>, Which, Tuple, Through, Defaults, Renamed);
    binary::<u128>();
    binary::<i128>();
}
pub fn toml(s: &str) -> Option<f64> {
    let t: BTreeMap<String, Toml> = TomlParser::parse(s).ok()?;
    t.get("a").map(|x| x.num())
}
#[derive(SerBin, DeBin, SerJson, DeJson, SerRon, DeRon)]
pub struct Fields<T: Default>
where
    T: Clone,
{
    a: u8,
    b: Option<String>,
    c: Vec<Vec<T>>,
    d: [u8; 3],
    e: (u8, f32),
    f: Box<Which>,
    g: BTreeMap<String, i64>,
    h: BTreeSet<String>,
    i: LinkedList<u16>,
    j: Duration,
    #[nserde(default = "5")]
    k: u8,
    #[nserde(rename = "zz")]
    l: Tuple,
    #[nserde(skip)]
    m: u8,
    #[nserde(default_with = "five")]
    n: u32,
    #[nserde(serialize_none_as_null)]
    o: Option<u8>,
    #[nserde(default = "text")]
    p: String,
    #[nserde(default)]
    q: Option<String>,
}
fn five() -> u32 {
    5
}
#[derive(SerBin, DeBin, SerJson, DeJson, SerRon, DeRon)]
pub enum Which {
    X,
    Y(u8, String),
    Z {
        a: u8,
        #[nserde(default)]
        b: Option<u8>,
    },
}
#[derive(SerBin, DeBin, SerJson, DeJson, SerRon, DeRon)]
pub struct Tuple(u8, Vec<u8>);
#[derive(SerBin, DeBin, SerJson, DeJson)]
pub struct Unit;
#[derive(SerBin, DeBin, SerJson, DeJson, SerRon, DeRon)]
#[nserde(transparent)]
pub struct Through(Tuple);
#[derive(Clone)]
pub struct Raw(u8);
#[derive(SerBin, DeBin, SerJson, DeJson)]
pub struct Proxy {
    a: u8,
}
impl From<&Raw> for Proxy {
    fn from(p: &Raw) -> Proxy {
        Proxy { a: p.0 }
    }
}
impl From<&Proxy> for Raw {
    fn from(p: &Proxy) -> Raw {
        Raw(p.a)
    }
}
#[derive(SerBin, DeBin, SerJson, DeJson)]
#[nserde(proxy = "Proxy")]
pub struct Proxied {
    a: u8,
}
impl From<&Proxied> for Proxy {
    fn from(p: &Proxied) -> Proxy {
        Proxy { a: p.a }
    }
}
impl From<&Proxy> for Proxied {
    fn from(p: &Proxy) -> Proxied {
        Proxied { a: p.a }
    }
}
#[derive(SerBin, DeBin, SerJson, DeJson)]
pub struct Holds {
    #[nserde(proxy = "Proxy")]
    p: Raw,
}
#[derive(SerBin, DeBin, SerJson, DeJson, SerRon, DeRon)]
#[nserde(default)]
pub struct Defaults {
    a: u8,
    #[nserde(skip)]
    b: Option<String>,
    c: Option<u8>,
}
impl Default for Defaults {
    fn default() -> Self {
        Defaults { a: 1, b: None, c: None }
    }
}
#[derive(SerBin, DeBin, SerJson, DeJson, SerRon, DeRon)]
pub enum Renamed {
    #[nserde(rename = "one")]
    A,
    #[nserde(rename = "two")]
    B(u8),
    #[nserde(rename = "three")]
    C { #[nserde(rename = "x")] y: u8 },
}
