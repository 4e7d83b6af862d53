//! The code under test, type by type, behind plain functions.
use crate::model::*;

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct TErr {
    pub line: usize,
    pub col: usize,
    pub msg: String,
    pub shown: String,
}
#[derive(Clone, PartialEq, Eq, Debug)]
pub enum BKind {
    Length(usize, usize),
    Range,
    Disc(isize),
    Other,
}
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct BErr {
    pub o: usize,
    pub kind: BKind,
    pub shown: String,
}

/// One object, written several times.
pub struct Composed<S> {
    pub before: Val,
    pub after: Val,
    pub first: S,
    pub again: S,
    /// from another thread, when asked for
    pub thread: Option<S>,
    /// text, the object twice, and text, through one state or buffer
    pub around: S,
}

#[derive(Clone, Copy)]
pub struct BinOps {
    pub compose: fn(&Val, &[u8], bool) -> Composed<Vec<u8>>,
    /// (the value after encoding, its encoding)
    pub ser: fn(&Val) -> (Val, Vec<u8>),
    pub ser_into: fn(&Val, &mut Vec<u8>),
    pub de: fn(&[u8]) -> Result<Val, BErr>,
    pub de_at: fn(&mut usize, &[u8]) -> Result<Val, BErr>,
}
#[derive(Clone, Copy)]
pub struct TextOps {
    pub compose: fn(&Val, &str, bool) -> Composed<String>,
    pub ser: fn(&Val) -> (Val, String),
    /// through a state that already holds text
    pub ser_into: fn(&[&Val], String) -> String,
    pub de: fn(&str) -> Result<Val, TErr>,
    /// several values from one state
    pub de_stream: fn(&str, usize) -> Vec<Result<Val, TErr>>,
    /// the next value from the state given
    pub de_state: fn(&mut dyn std::any::Any, &mut std::str::Chars) -> Result<Val, TErr>,
}
#[derive(Clone)]
pub struct TypeOps {
    pub name: &'static str,
    pub ty: Ty,
    pub bin: Option<BinOps>,
    pub json: Option<TextOps>,
    pub ron: Option<TextOps>,
    /// other declarations that are only written
    pub writers: Vec<Writer>,
    /// other declarations that are only read
    pub readers: Vec<Reader>,
}
#[derive(Clone, Default)]
pub struct Writer {
    pub bin: Option<fn(&Val) -> Vec<u8>>,
    pub json: Option<fn(&Val) -> String>,
    pub ron: Option<fn(&Val) -> String>,
}
#[derive(Clone, Default)]
pub struct Reader {
    pub bin: Option<fn(&[u8]) -> Result<Val, BErr>>,
    pub json: Option<fn(&str) -> Result<Val, TErr>>,
    pub ron: Option<fn(&str) -> Result<Val, TErr>>,
}

#[cfg(feature = "binary")]
pub mod bin {
    use super::*;
    use nanoserde::{DeBin, DeBinErr, DeBinErrReason, SerBin};
    pub fn err(e: DeBinErr) -> BErr {
        let kind = match &e.msg {
            DeBinErrReason::Length { expected_length, actual_length } => BKind::Length(*expected_length, *actual_length),
            DeBinErrReason::Range(_) => BKind::Range,
            DeBinErrReason::UnknownDiscriminant(i) => BKind::Disc(*i),
            _ => BKind::Other,
        };
        BErr { o: e.o, kind, shown: e.to_string() }
    }
    pub fn ops<T: Model + SerBin + DeBin + Sync>() -> BinOps {
        BinOps {
            compose: |v, pre, thread| {
                let x = T::from_val(v);
                let before = x.to_val();
                let first = x.serialize_bin();
                let again = x.serialize_bin();
                let other = thread.then(|| std::thread::scope(|s| s.spawn(|| x.serialize_bin()).join().unwrap()));
                let mut around = pre.to_vec();
                x.ser_bin(&mut around);
                x.ser_bin(&mut around);
                around.extend_from_slice(pre);
                Composed { before, after: x.to_val(), first, again, thread: other, around }
            },
            ser: |v| {
                let x = T::from_val(v);
                let b = x.serialize_bin();
                (x.to_val(), b)
            },
            ser_into: |v, o| T::from_val(v).ser_bin(o),
            de: |b| T::deserialize_bin(b).map(|x| x.to_val()).map_err(err),
            de_at: |o, b| T::de_bin(o, b).map(|x| x.to_val()).map_err(err),
        }
    }
}
macro_rules! text {
    ($feat:literal, $m:ident, $Ser:ident, $De:ident, $SState:ident, $DState:ident, $Err:ident, $serialize:ident, $ser:ident, $deserialize:ident, $de:ident) => {
        #[cfg(feature = $feat)]
        pub mod $m {
            use super::*;
            use nanoserde::{$De, $DState, $Err, $SState, $Ser};
            #[allow(unused_mut)]
            pub fn err(e: $Err) -> TErr {
                TErr { line: e.line, col: e.col, msg: format!("{:?}", e.msg), shown: e.to_string() }
            }
            /// a state that has read the first token
            pub fn state(ch: &mut std::str::Chars) -> (Box<dyn std::any::Any>, Option<TErr>) {
                let mut st = $DState::default();
                st.next(ch);
                let e = st.next_tok(ch).err().map(err);
                (Box::new(st), e)
            }
            pub fn ops<T: Model + $Ser + $De + Sync>() -> TextOps {
                TextOps {
                    compose: |v, pre, thread| {
                        struct Around<'a, T>(&'a str, &'a T);
                        impl<T: $Ser> $Ser for Around<'_, T> {
                            fn $ser(&self, d: usize, s: &mut $SState) {
                                s.out.push_str(self.0);
                                self.1.$ser(d, s);
                                self.1.$ser(d, s);
                                s.out.push_str(self.0);
                            }
                        }
                        let x = T::from_val(v);
                        let before = x.to_val();
                        let first = x.$serialize();
                        let again = x.$serialize();
                        let other = thread.then(|| std::thread::scope(|s| s.spawn(|| x.$serialize()).join().unwrap()));
                        let around = Around(pre, &x).$serialize();
                        Composed { before, after: x.to_val(), first, again, thread: other, around }
                    },
                    ser: |v| {
                        let x = T::from_val(v);
                        let s = x.$serialize();
                        (x.to_val(), s)
                    },
                    ser_into: |vs, pre| {
                        // a caller's own implementation that writes around ours
                        struct Around<T>(String, Vec<T>);
                        impl<T: $Ser> $Ser for Around<T> {
                            fn $ser(&self, d: usize, s: &mut $SState) {
                                s.out.push_str(&self.0);
                                for x in &self.1 {
                                    x.$ser(d, s);
                                }
                            }
                        }
                        Around(pre, vs.iter().map(|v| T::from_val(v)).collect()).$serialize()
                    },
                    de: |s| T::$deserialize(s).map(|x| x.to_val()).map_err(err),
                    de_state: |st, ch| T::$de(st.downcast_mut::<$DState>().unwrap(), ch).map(|x| x.to_val()).map_err(err),
                    de_stream: |s, n| {
                        let mut st = $DState::default();
                        let mut ch = s.chars();
                        let mut out = vec![];
                        st.next(&mut ch);
                        if let Err(e) = st.next_tok(&mut ch) {
                            return vec![Err(err(e))];
                        }
                        for _ in 0..n {
                            let r = T::$de(&mut st, &mut ch).map(|x| x.to_val()).map_err(err);
                            let stop = r.is_err();
                            out.push(r);
                            if stop {
                                break;
                            }
                        }
                        out
                    },
                }
            }
        }
    };
}
text!("json", json, SerJson, DeJson, SerJsonState, DeJsonState, DeJsonErr, serialize_json, ser_json, deserialize_json, de_json);
text!("ron", ron, SerRon, DeRon, SerRonState, DeRonState, DeRonErr, serialize_ron, ser_ron, deserialize_ron, de_ron);

/// `ty!(vec, "name", Type; bin json ron)`
#[macro_export]
macro_rules! ty {
    ($v:expr, $name:expr, $t:ty; $($f:ident)*) => {{
        #[allow(unused_mut)]
        let mut o = $crate::ops::TypeOps { name: $name, ty: <$t as $crate::model::Model>::ty(), bin: None, json: None, ron: None, writers: vec![], readers: vec![] };
        $( $crate::ty!(@ $f o $t); )*
        $v.push(o);
    }};
    (@ bin $o:ident $t:ty) => {
        #[cfg(feature = "binary")]
        { $o.bin = Some($crate::ops::bin::ops::<$t>()); }
    };
    (@ json $o:ident $t:ty) => {
        #[cfg(feature = "json")]
        { $o.json = Some($crate::ops::json::ops::<$t>()); }
    };
    (@ ron $o:ident $t:ty) => {
        #[cfg(feature = "ron")]
        { $o.ron = Some($crate::ops::ron::ops::<$t>()); }
    };
}

/// `writer!(vec, "name", Type, function; bin json ron)`: the function gives something to write in its place.
#[macro_export]
macro_rules! writer {
    ($v:expr, $name:expr, $t:ty, $w:expr; $($f:ident)*) => {{
        #[allow(unused_mut)]
        let mut o = $crate::ops::Writer::default();
        $( $crate::writer!(@ $f o $t, $w); )*
        $v.iter_mut().find(|t: &&mut $crate::ops::TypeOps| t.name == $name).unwrap().writers.push(o);
    }};
    (@ bin $o:ident $t:ty, $w:expr) => {
        #[cfg(feature = "binary")]
        { $o.bin = Some(|v| { let x = <$t as $crate::model::Model>::from_val(v); let mut o = vec![]; { use nanoserde::SerBin; $w(&x).ser_bin(&mut o); } o }); }
    };
    (@ json $o:ident $t:ty, $w:expr) => {
        #[cfg(feature = "json")]
        { $o.json = Some(|v| { let x = <$t as $crate::model::Model>::from_val(v); { use nanoserde::SerJson; $w(&x).serialize_json() } }); }
    };
    (@ ron $o:ident $t:ty, $w:expr) => {
        #[cfg(feature = "ron")]
        { $o.ron = Some(|v| { let x = <$t as $crate::model::Model>::from_val(v); { use nanoserde::SerRon; $w(&x).serialize_ron() } }); }
    };
}
/// `reader!(vec, "name", Type; bin json ron)`
#[macro_export]
macro_rules! reader {
    ($v:expr, $name:expr, $t:ty; $($f:ident)*) => {{
        #[allow(unused_mut)]
        let mut o = $crate::ops::Reader::default();
        $( $crate::reader!(@ $f o $t); )*
        $v.iter_mut().find(|t: &&mut $crate::ops::TypeOps| t.name == $name).unwrap().readers.push(o);
    }};
    (@ bin $o:ident $t:ty) => {
        #[cfg(feature = "binary")]
        { $o.bin = Some(|b| <$t as nanoserde::DeBin>::deserialize_bin(b).map(|x| $crate::model::Model::to_val(&x)).map_err($crate::ops::bin::err)); }
    };
    (@ json $o:ident $t:ty) => {
        #[cfg(feature = "json")]
        { $o.json = Some(|s| <$t as nanoserde::DeJson>::deserialize_json(s).map(|x| $crate::model::Model::to_val(&x)).map_err($crate::ops::json::err)); }
    };
    (@ ron $o:ident $t:ty) => {
        #[cfg(feature = "ron")]
        { $o.ron = Some(|s| <$t as nanoserde::DeRon>::deserialize_ron(s).map(|x| $crate::model::Model::to_val(&x)).map_err($crate::ops::ron::err)); }
    };
}
