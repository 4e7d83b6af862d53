//! The types nanoserde supports out of the box.
use crate::ops::TypeOps;
use crate::{ty, writer};
use std::collections::*;
use std::time::Duration;
#[cfg(feature = "std")]
use std::time::SystemTime;

fn slice<T, A: AsRef<[T]>>(x: &A) -> &[T] {
    x.as_ref()
}
pub fn types() -> Vec<TypeOps> {
    let mut v = vec![];
    ty!(v, "u8", u8; bin json ron);
    ty!(v, "u16", u16; bin json ron);
    ty!(v, "u32", u32; bin json ron);
    ty!(v, "u64", u64; bin json ron);
    ty!(v, "usize", usize; bin json ron);
    ty!(v, "i8", i8; bin json ron);
    ty!(v, "i16", i16; bin json ron);
    ty!(v, "i32", i32; bin json ron);
    ty!(v, "i64", i64; bin json ron);
    ty!(v, "u128", u128; bin);
    ty!(v, "i128", i128; bin);
    ty!(v, "f32", f32; bin json ron);
    ty!(v, "f64", f64; bin json ron);
    ty!(v, "bool", bool; bin json ron);
    ty!(v, "String", String; bin json ron);
    ty!(v, "()", (); bin json ron);
    ty!(v, "Duration", Duration; bin json ron);
    ty!(v, "Option<u8>", Option<u8>; bin json ron);
    ty!(v, "Option<String>", Option<String>; bin json ron);
    ty!(v, "Option<Option<i16>>", Option<Option<i16>>; bin json ron);
    ty!(v, "Option<()>", Option<()>; bin json ron);
    ty!(v, "Option<Duration>", Option<Duration>; bin json ron);
    ty!(v, "Option<Box<Option<bool>>>", Option<Box<Option<bool>>>; bin json ron);
    ty!(v, "Box<i64>", Box<i64>; bin json ron);
    ty!(v, "Box<Vec<String>>", Box<Vec<String>>; bin json ron);
    ty!(v, "Vec<u8>", Vec<u8>; bin json ron);
    ty!(v, "Vec<i64>", Vec<i64>; bin json ron);
    ty!(v, "Vec<u64>", Vec<u64>; bin json ron);
    ty!(v, "Vec<f32>", Vec<f32>; bin json ron);
    ty!(v, "Vec<f64>", Vec<f64>; bin json ron);
    ty!(v, "Vec<bool>", Vec<bool>; bin json ron);
    ty!(v, "Vec<String>", Vec<String>; bin json ron);
    ty!(v, "Vec<Option<String>>", Vec<Option<String>>; bin json ron);
    ty!(v, "Vec<Vec<u16>>", Vec<Vec<u16>>; bin json ron);
    ty!(v, "Vec<Vec<Vec<bool>>>", Vec<Vec<Vec<bool>>>; bin json ron);
    ty!(v, "Vec<()>", Vec<()>; json ron);
    ty!(v, "Vec<(u8, String)>", Vec<(u8, String)>; bin json ron);
    ty!(v, "Vec<[u16; 2]>", Vec<[u16; 2]>; bin json ron);
    ty!(v, "Vec<Duration>", Vec<Duration>; bin json ron);
    ty!(v, "Vec<u128>", Vec<u128>; bin);
    ty!(v, "LinkedList<i32>", LinkedList<i32>; bin json ron);
    ty!(v, "LinkedList<String>", LinkedList<String>; bin json ron);
    ty!(v, "BTreeSet<u32>", BTreeSet<u32>; bin json ron);
    ty!(v, "BTreeSet<String>", BTreeSet<String>; bin json ron);
    ty!(v, "BTreeSet<(i8, bool)>", BTreeSet<(i8, bool)>; bin json ron);
    ty!(v, "BTreeMap<String, i32>", BTreeMap<String, i32>; bin json ron);
    ty!(v, "BTreeMap<String, Vec<f64>>", BTreeMap<String, Vec<f64>>; bin json ron);
    ty!(v, "BTreeMap<String, BTreeMap<String, u8>>", BTreeMap<String, BTreeMap<String, u8>>; bin json ron);
    ty!(v, "BTreeMap<u64, String>", BTreeMap<u64, String>; bin ron);
    ty!(v, "BTreeMap<i8, Option<u8>>", BTreeMap<i8, Option<u8>>; bin ron);
    ty!(v, "BTreeMap<(u8, u8), bool>", BTreeMap<(u8, u8), bool>; bin ron);
    ty!(v, "BTreeMap<bool, ()>", BTreeMap<bool, ()>; bin ron);
    ty!(v, "[u8; 0]", [u8; 0]; bin json ron);
    ty!(v, "[u8; 1]", [u8; 1]; bin json ron);
    ty!(v, "[i32; 3]", [i32; 3]; bin json ron);
    ty!(v, "[u8; 32]", [u8; 32]; bin json ron);
    ty!(v, "[u16; 33]", [u16; 33]; bin json ron);
    ty!(v, "[String; 2]", [String; 2]; bin json ron);
    ty!(v, "[[u8; 2]; 3]", [[u8; 2]; 3]; bin json ron);
    ty!(v, "[Vec<String>; 2]", [Vec<String>; 2]; bin json ron);
    ty!(v, "[Option<u8>; 4]", [Option<u8>; 4]; bin json ron);
    ty!(v, "[(); 3]", [(); 3]; bin json ron);
    ty!(v, "(u8, String)", (u8, String); bin json ron);
    ty!(v, "[u8; 256]", [u8; 256]; bin json ron);
    ty!(v, "[bool; 257]", [bool; 257]; bin json ron);
    ty!(v, "[Option<String>; 65]", [Option<String>; 65]; bin json ron);
    ty!(v, "[u8; 300]", [u8; 300]; bin json ron);
    ty!(v, "[i8; 1030]", [i8; 1030]; bin json ron);
    ty!(v, "[f32; 129]", [f32; 129]; bin json ron);
    ty!(v, "[(u8, bool); 70]", [(u8, bool); 70]; bin json ron);
    ty!(v, "Vec<Vec<Vec<Vec<BTreeMap<String, Vec<BTreeMap<String, bool>>>>>>>", Vec<Vec<Vec<Vec<BTreeMap<String, Vec<BTreeMap<String, bool>>>>>>>; bin json ron);
    ty!(v, "(((((((u8, bool), i8), f64), String), Option<u8>), [u8; 2]), Vec<(bool, ((), String))>)", (((((((u8, bool), i8), f64), String), Option<u8>), [u8; 2]), Vec<(bool, ((), String))>); bin json ron);
    ty!(v, "BTreeMap<u8, BTreeMap<bool, BTreeMap<i8, BTreeMap<String, BTreeMap<(u8, u8), BTreeMap<u8, f32>>>>>>", BTreeMap<u8, BTreeMap<bool, BTreeMap<i8, BTreeMap<String, BTreeMap<(u8, u8), BTreeMap<u8, f32>>>>>>; bin ron);
    ty!(v, "Vec<i8>", Vec<i8>; bin json ron);
    ty!(v, "Vec<usize>", Vec<usize>; bin json ron);
    ty!(v, "Vec<Box<i16>>", Vec<Box<i16>>; bin json ron);
    ty!(v, "LinkedList<Option<u8>>", LinkedList<Option<u8>>; bin json ron);
    ty!(v, "BTreeSet<Vec<u8>>", BTreeSet<Vec<u8>>; bin json ron);
    ty!(v, "BTreeMap<String, Option<String>>", BTreeMap<String, Option<String>>; bin json ron);
    ty!(v, "BTreeMap<String, ()>", BTreeMap<String, ()>; bin json ron);
    ty!(v, "Box<[f32; 5]>", Box<[f32; 5]>; bin json ron);
    ty!(v, "((), (u8, (bool, (i64, String))))", ((), (u8, (bool, (i64, String)))); bin json ron);
    ty!(v, "(bool, f32, i64)", (bool, f32, i64); bin json ron);
    ty!(v, "(u8, i8, Option<u8>, String)", (u8, i8, Option<u8>, String); bin json ron);
    ty!(v, "((u8, u8), (String, [i16; 2]))", ((u8, u8), (String, [i16; 2])); bin json ron);
    ty!(v, "(Vec<u8>, BTreeMap<String, (u8, bool)>)", (Vec<u8>, BTreeMap<String, (u8, bool)>); bin json ron);
    ty!(v, "Option<Vec<Option<[String; 2]>>>", Option<Vec<Option<[String; 2]>>>; bin json ron);
    #[cfg(feature = "std")]
    {
        ty!(v, "SystemTime", SystemTime; bin json ron);
        ty!(v, "Vec<SystemTime>", Vec<SystemTime>; bin json ron);
        ty!(v, "Option<SystemTime>", Option<SystemTime>; bin json ron);
        ty!(v, "HashSet<u16>", HashSet<u16>; bin json ron);
        ty!(v, "HashSet<String>", HashSet<String>; bin json ron);
        ty!(v, "HashMap<String, u8>", HashMap<String, u8>; bin json ron);
        ty!(v, "HashMap<String, Vec<String>>", HashMap<String, Vec<String>>; bin json ron);
        ty!(v, "HashMap<String, HashMap<String, Option<i32>>>", HashMap<String, HashMap<String, Option<i32>>>; bin json ron);
        ty!(v, "HashMap<u32, String>", HashMap<u32, String>; bin ron);
        ty!(v, "HashMap<(u8, String), f64>", HashMap<(u8, String), f64>; bin ron);
        type Hasher = std::hash::BuildHasherDefault<std::collections::hash_map::DefaultHasher>;
        ty!(v, "HashMap<String, i16, Hasher>", HashMap<String, i16, Hasher>; json);
        ty!(v, "HashMap<String, HashMap<String, Option<u8>>, Hasher>", HashMap<String, HashMap<String, Option<u8>>, Hasher>; json);
        ty!(v, "Vec<HashMap<String, HashSet<i8>>>", Vec<HashMap<String, HashSet<i8>>>; bin json ron);
    }
    // slices are only written: like arrays, in JSON like vectors, too
    writer!(v, "Vec<u8>", Vec<u8>, slice::<u8, _>; json);
    writer!(v, "Vec<i64>", Vec<i64>, slice::<i64, _>; json);
    writer!(v, "Vec<f64>", Vec<f64>, slice::<f64, _>; json);
    writer!(v, "Vec<bool>", Vec<bool>, slice::<bool, _>; json);
    writer!(v, "Vec<String>", Vec<String>, slice::<String, _>; json);
    writer!(v, "Vec<Option<String>>", Vec<Option<String>>, slice::<Option<String>, _>; json);
    writer!(v, "Vec<Vec<u16>>", Vec<Vec<u16>>, slice::<Vec<u16>, _>; json);
    writer!(v, "Vec<(u8, String)>", Vec<(u8, String)>, slice::<(u8, String), _>; json);
    writer!(v, "Vec<[u16; 2]>", Vec<[u16; 2]>, slice::<[u16; 2], _>; json);
    writer!(v, "Vec<Duration>", Vec<Duration>, slice::<Duration, _>; json);
    writer!(v, "[u8; 0]", [u8; 0], slice::<u8, _>; bin json ron);
    writer!(v, "[u8; 1]", [u8; 1], slice::<u8, _>; bin json ron);
    writer!(v, "[i32; 3]", [i32; 3], slice::<i32, _>; bin json ron);
    writer!(v, "[u8; 32]", [u8; 32], slice::<u8, _>; bin json ron);
    writer!(v, "[u16; 33]", [u16; 33], slice::<u16, _>; bin json ron);
    writer!(v, "[String; 2]", [String; 2], slice::<String, _>; bin json ron);
    writer!(v, "[[u8; 2]; 3]", [[u8; 2]; 3], slice::<[u8; 2], _>; bin json ron);
    writer!(v, "[Vec<String>; 2]", [Vec<String>; 2], slice::<Vec<String>, _>; bin json ron);
    writer!(v, "[Option<u8>; 4]", [Option<u8>; 4], slice::<Option<u8>, _>; bin json ron);
    writer!(v, "String", String, String::as_str; json);
    v
}
