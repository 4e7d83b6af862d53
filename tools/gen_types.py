#!/usr/bin/env python3
"""Writes the declarations the checks run on: a crate `vgen` with plain declarations and a crate `vfancy`
that declares the same types with unusual syntax.  usage: gen_types.py SEED COUNT OUTDIR VERIF"""
import copy
import os
import itertools
import random
import re
import sys

INTS = ["u8", "u16", "u32", "u64", "usize", "i8", "i16", "i32", "i64"]
TY = {"u8": "U8", "u16": "U16", "u32": "U32", "u64": "U64", "usize": "Usize", "i8": "I8", "i16": "I16", "i32": "I32",
      "i64": "I64", "u128": "U128", "i128": "I128", "f32": "F32", "f64": "F64", "bool": "Bool", "String": "Str"}
RANGE = {"u8": (0, 255), "u16": (0, 65535), "u32": (0, 2**32 - 1), "u64": (0, 2**64 - 1), "usize": (0, 2**64 - 1),
         "i8": (-128, 127), "i16": (-2**15, 2**15 - 1), "i32": (-2**31, 2**31 - 1), "i64": (-2**63, 2**63 - 1)}
FIELD_NAMES = ["a", "b", "c", "x", "y", "i", "o", "r", "t", "f", "k", "v", "id", "len", "out", "start", "state", "proxy", "unknown",
               "first_field_was_serialized", "name", "value", "items", "data", "next", "_hidden", "__q", "field_1", "longer_field_name_here",
               "A1", "camelCase", "null", "f0", "f1", "numbuf", "strbuf", "input", "output", "index", "count", "secs", "nanos", "tok", "cur",
               "none", "some", "nullable", "null_", "truely", "true_", "falsehood", "false1", "nan", "inf", "infinity", "NaN", "None_", "Some_", "e", "E5", "u8_", "_9", "r_", "b_"]
VARIANT_NAMES = ["A", "B", "C", "Unit", "Tuple", "Struct", "First", "Second", "Last", "X1", "Y_2", "Leaf", "Node", "Empty", "lower",
                 "Vec", "Str", "Ok", "Err", "Zed", "Other", "Default", "NoneOfThese", "Nothing", "SomeOfThem", "Nullable", "nullish", "None_", "trueish", "falsey",
                 "NaN", "nan", "inf", "infinite", "Infinity", "E1", "e", "Nones", "Some_", "none", "some", "null", "nothing", "nil", "NONE", "N", "S"]
WILD = ["", "with space", "quo\"te", "back\\slash", "uni\u00e9", "\U0001f600", "a.b", "0digit", "$ref", "new\nline", "tab\t", "{}", "{a}", "null",
        "type", "\u65e5\u672c", "'", "/*c*/", "//", "[", ":", ",", "\x7f", "\\u0041", "@type", "self", "fn", "  "]
IDENT_RENAMES = ["renamed", "other", "type_", "Kind", "x9", "_under", "zz", "fieldA", "B2", "r_name", "self_", "mod_name", "Q", "lowercase", "UPPER",
                 "none", "some", "null", "nil", "NONE", "nan", "inf", "Option", "Vec", "String", "u8", "i32", "bool", "f64", "Default", "key", "Ident", "field", "value", "unknown", "d", "s", "out"]
def long_name(r):
    """A name longer than any of the pools."""
    n = r.choice([20, 31, 32, 33, 40, 41, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300])
    return ("long_" + "".join(r.choice("abcdefghij_klmnop0123456789QRSTU") for _ in range(n)))[:n]


STR_DEFAULTS = ["", "x", "hello world", "qu\"ote", "back\\slash", "uni\u00e9\U0001f600", "{}", "{x}", "line\nbreak", "5", "true", "None", "tab\t", "'"]


def rs(s):
    o = '"'
    for c in s:
        if c == '"':
            o += '\\"'
        elif c == '\\':
            o += '\\\\'
        elif c == '\n':
            o += '\\n'
        elif c == '\t':
            o += '\\t'
        elif ord(c) < 32 or ord(c) == 127:
            o += '\\u{%x}' % ord(c)
        else:
            o += c
    return o + '"'


GENERIC = {}  # the types that stand for generic ones, with the arguments


class T:
    def __init__(self, k, args=(), n=0, name=None):
        self.k, self.args, self.n, self.name = k, list(args), n, name

    def rust(self):
        a = [x.rust() for x in self.args]
        if self.k == "prim" or self.k == "named":
            return self.name
        if self.k == "unit":
            return "()"
        if self.k == "dur":
            return "Duration"
        if self.k == "time":
            return "SystemTime"
        if self.k == "arr":
            return f"[{a[0]}; {self.n}]"
        if self.k == "tup":
            return "(" + ", ".join(a) + ")"
        return f"{self.k}<{', '.join(a)}>"

    def model(self):
        a = self.args
        if self.k == "prim":
            return f"Ty::{TY[self.name]}"
        return f"<{self.rust()} as Model>::ty()"

    def fancy(self, r, al):
        """The same type, spelled otherwise."""
        if r.random() < 0.25 and self.k not in ("Option", "named") and self.rust() != "String":
            return al(self)
        a = [x.fancy(r, al) for x in self.args]
        tc = "," if r.random() < 0.3 else ""
        if self.k == "prim":
            if self.name == "String":
                return r.choice(["String", "String", "std::string::String", "::std::string::String"])
            return r.choice([self.name] * 4 + [f"core::primitive::{self.name}", f"({self.name})"])
        if self.k == "named":
            if self.name in GENERIC and r.random() < 0.5:
                return r.choice(["", "crate::"]) + GENERIC[self.name]
            return r.choice([self.name, self.name, f"crate::{self.name}", f"super::{self.name}"])
        if self.k == "unit":
            return "()"
        if self.k == "dur":
            return r.choice(["Duration", "std::time::Duration", "::core::time::Duration"])
        if self.k == "time":
            return r.choice(["SystemTime", "std::time::SystemTime"])
        if self.k == "arr":
            return f"[{a[0]}; {r.choice([str(self.n), str(self.n), 'LEN%d' % self.n, 'crate::LEN%d' % self.n, '%dusize' % self.n, hex(self.n), '%d + 0' % self.n, '0 + %d' % self.n, '(%d)' % self.n, '1 * %d' % self.n, '{ crate::LEN%d }' % self.n])}]"
        if self.k == "tup":
            return "(" + ", ".join(a) + tc + ")"
        paths = {"Option": ["Option", "Option", "std::option::Option", "::core::option::Option", "::std::option::Option"],
                 "Box": ["Box", "std::boxed::Box", "::std::boxed::Box"],
                 "Vec": ["Vec", "Vec", "std::vec::Vec", "::std::vec::Vec"]}
        for c in ("HashMap", "HashSet", "BTreeMap", "BTreeSet", "LinkedList"):
            paths[c] = [c, "std::collections::" + c, "::std::collections::" + c]
        sp = r.choice(["", "", " "])
        return f"{r.choice(paths[self.k])}{r.choice(['', '', '', '::'])}<{sp}{(','+sp).join(a)}{tc}>"

    def no_default(self):
        """The type has no Default."""
        return self.k == "time" or self.k in ("arr", "tup", "Box") and any(x.no_default() for x in self.args)

    def uses_std(self, decls):
        if self.k in ("HashMap", "HashSet", "time"):
            return True
        if self.k == "named" and self.name in decls and decls[self.name].std:
            return True
        return any(x.uses_std(decls) for x in self.args)

    def fmts(self, decls):
        f = {"bin", "json", "ron"}
        if self.k == "prim" and self.name in ("u128", "i128"):
            f = {"bin"}
        if self.k in ("HashMap", "BTreeMap"):
            key = self.args[0]
            if not (key.k == "prim" and key.name == "String" or key.k == "named" and decls[key.name].key_enum):
                f.discard("json")
        if self.k == "named" and self.name in decls:
            f &= decls[self.name].fmts
        for x in self.args:
            f &= x.fmts(decls)
        return f


def kinds(t):
    return {t.k}.union(*[kinds(x) for x in t.args])


def prim(n):
    return T("prim", name=n)


class Field:
    def __init__(self, name, ty):
        self.name, self.ty = name, ty
        self.rename = None
        self.skip = False
        self.default = None  # ("plain",) ("value", text, val_expr) ("with", fn, val_expr)
        self.null = False
        self.proxy = None
        self.order = None  # seed of the order of the attributes


class Variant:
    def __init__(self, name, shape, fields):
        self.name, self.shape, self.fields = name, shape, fields
        self.rename = None


class Decl:
    def __init__(self, name):
        self.name = name
        self.kind = None  # struct / enum
        self.shape = None
        self.fields = []
        self.variants = []
        self.fmts = {"bin", "json", "ron"}
        self.std = False
        self.transparent = False
        self.cdefault = False
        self.cnull = False
        self.key_enum = False
        self.recursive = False
        self.small = False
        self.matrix = False

    def all_fields(self):
        return self.fields + [f for v in self.variants for f in v.fields]


class G:
    def __init__(self, seed, count):
        self.r = random.Random(seed)
        self.decls = {}
        self.order = []
        self.fns = []
        self.nfn = 0
        self.count = count

    # ------------------------------------------------------------------ types
    def leaf(self, want):
        r = self.r
        c = r.random()
        if c < 0.45:
            return prim(r.choice(INTS))
        if c < 0.60:
            return prim("String")
        if c < 0.68:
            return prim("bool")
        if c < 0.80:
            return prim(r.choice(["f32", "f64"]))
        if c < 0.83:
            return T("unit")
        if c < 0.87:
            return T("dur")
        if c < 0.89:
            return T("time")
        if c < 0.91 and want == {"bin"}:
            return prim(r.choice(["u128", "i128"]))
        named = [d for d in self.order if self.decls[d].fmts >= want and not self.decls[d].recursive and not self.decls[d].matrix]
        if named:
            return T("named", name=r.choice(named))
        return prim("u32")

    def key(self, want, json):
        r = self.r
        enums = [d for d in self.order if self.decls[d].key_enum and self.decls[d].fmts >= want]
        if enums and r.random() < 0.3:
            return T("named", name=r.choice(enums))
        if json:
            return prim("String")
        return r.choice([prim("String"), prim("String"), prim(r.choice(INTS)), prim("bool"), T("tup", [prim("u8"), prim("String")])])

    def ty(self, want, depth):
        r = self.r
        if depth <= 0 or r.random() < 0.45:
            return self.leaf(want)
        d = depth - 1
        c = r.choice(["Option", "Option", "Option", "Vec", "Vec", "Vec", "Box", "map", "map", "set", "LinkedList", "arr", "arr", "tup", "tup"])
        if c in ("Option", "Vec", "Box", "LinkedList"):
            return T(c, [self.ty(want, d)])
        if c == "map":
            k = self.key(want, "json" in want)
            return T(r.choice(["HashMap", "BTreeMap"]), [k, self.ty(want, d)])
        if c == "set":
            return T(r.choice(["HashSet", "BTreeSet"]), [self.key(want, False)])
        if c == "arr":
            return T("arr", [self.ty(want, d)], n=r.choice([0, 1, 1, 2, 2, 3, 4, 5]))
        return T("tup", [self.ty(want, d) for _ in range(r.choice([2, 2, 3, 4]))])

    def deep(self, want, r):
        """One type within another, several times over."""
        t = self.leaf(want)
        if t.k == "unit" or t.k == "named" and self.decls[t.name].recursive:
            t = prim("u16")
        for _ in range(r.randint(4, 9)):
            c = r.choice(["Option", "Vec", "Vec", "Box", "LinkedList", "map", "map", "map", "arr", "tup", "tup2", "set"])
            if c == "set" and (t.uses_std(self.decls) or any(x in t.rust() for x in ("f32", "f64", "Duration")) or t.k == "named" or "named" in kinds(t)):
                c = "map"
            if c == "map":
                json = "json" in want
                k = self.key(want, True) if json else self.key(want, False)
                t = T(r.choice(["HashMap", "BTreeMap", "BTreeMap"]), [k, t])
            elif c == "set":
                t = T("BTreeSet", [t])
            elif c == "arr":
                t = T("arr", [t], n=r.choice([1, 2, 3]))
            elif c == "tup":
                t = T("tup", [t, prim(r.choice(["u8", "bool", "String"]))])
            elif c == "tup2":
                t = T("tup", [prim(r.choice(["i32", "f32"])), t, T("Option", [prim("String")])])
            else:
                t = T(c, [t])
        return t

    # ------------------------------------------------------------------ values as Rust expressions of type Val
    def const(self, t):
        """(attribute text, Val expression) of a default value for the type, or None."""
        r = self.r
        if t.k == "prim":
            if t.name in RANGE:
                lo, hi = RANGE[t.name]
                n = r.choice([lo, hi, 1, 7, r.randint(lo, hi)])
                v = ("Val::U(%d)" if t.name[0] == "u" else "Val::I(%d)") % n
                return str(n), v
            if t.name == "bool":
                b = r.choice(["true", "false"])
                return b, f"Val::Bool({b})"
            if t.name in ("f32", "f64"):
                x = r.choice(["1.5", "-0.25", "0.0", "1e10", "-2.0", "3.0e-5"])
                return x, f"Val::{t.name.upper()}(({x}{'_' + t.name}).to_bits())"
            if t.name == "String":
                s = r.choice(STR_DEFAULTS)
                return s, f"Val::Str({rs(s)}.to_string())"
        if t.k == "Option" and t.args[0].k == "prim" and t.args[0].name not in ("u128", "i128"):
            c = self.const(t.args[0])
            return c[0], f"Val::Opt(Some(Box::new({c[1]})))"
        return None

    def const_fn(self, t):
        """A function returning some value of the type: (name, Val expression)."""
        c = self.const(t)
        if c is None:
            if t.k == "Vec" and t.args[0].k == "prim" and self.const(t.args[0]):
                a, b = self.const(t.args[0]), self.const(t.args[0])
                v = f"Val::Seq(vec![{a[1]}, {b[1]}])"
            elif t.k == "Option" and t.args[0].k == "Vec":
                v = "Val::Opt(Some(Box::new(Val::Seq(vec![]))))"
            else:
                return None
        else:
            v = c[1]
        self.nfn += 1
        n = f"dflt_{self.nfn}"
        self.fns.append((n, t, v))
        return n, v

    def attrs(self, d, fs, in_enum, wild, heavy=False):
        """Attributes for named fields."""
        r = self.r
        more = 2.2 if heavy else 1
        taken = set()
        # a permutation of names, sometimes
        if len(fs) >= 2 and r.random() < 0.25:
            i, j = r.sample(range(len(fs)), 2)
            fs[i].rename, fs[j].rename = fs[j].name, fs[i].name
        for f in fs:
            if f.rename is None and r.random() < 0.3:
                f.rename = r.choice(WILD if wild else IDENT_RENAMES) if r.random() < 0.9 else long_name(r)
        for f in fs:  # unique external names
            while (f.rename or f.name) in taken or (f.rename is None and f.name in [g.rename for g in fs if g is not f]):
                f.rename = r.choice(IDENT_RENAMES) + str(r.randint(0, 99))
            taken.add(f.rename or f.name)
        for f in fs:
            c = r.random()
            if c < 0.10 * more:
                if not f.ty.no_default():
                    f.default = ("plain",)
            elif c < 0.22 * more:
                k = self.const(f.ty)
                if k:
                    f.default = ("value", k[0], k[1])
            elif c < 0.32 * more:
                k = self.const_fn(f.ty)
                if k:
                    f.default = ("with", k[0], k[1])
            if r.random() < (0.2 if heavy else 0.15) and not f.ty.no_default() and not (in_enum and "bin" in d.fmts):
                f.skip = True
            if f.ty.k == "Option" and r.random() < 0.3:
                f.null = True

    def names(self, n, in_enum):
        r = self.r
        ns = r.sample(FIELD_NAMES + ["s", "d"], n) if n <= 20 else r.sample(FIELD_NAMES, 20) + [f"w{i}" for i in range(20, n)]
        return [long_name(r) + str(i) if r.random() < 0.07 else x for i, x in enumerate(ns)]

    def named_fields(self, d, want, n, in_enum, depth=2):
        return [Field(nm, self.ty(want, depth)) for nm in self.names(n, in_enum)]

    # ------------------------------------------------------------------ declarations
    def finish(self, d):
        for f in d.all_fields():
            d.fmts &= f.ty.fmts(self.decls) if f.proxy is None else d.fmts
            if f.ty.uses_std(self.decls):
                d.std = True
        self.decls[d.name] = d
        self.order.append(d.name)

    def want(self):
        return self.r.choice([{"bin", "json", "ron"}] * 5 + [{"json"}, {"json"}, {"json", "ron"}, {"bin", "ron"}, {"bin"}])

    def struct(self, name):
        r = self.r
        d = Decl(name)
        d.kind, d.shape = "struct", "Named"
        w = self.want()
        d.fmts = set(w)
        wild = w == {"json"}
        d.fields = self.named_fields(d, w, r.choice([0, 1, 1, 2, 3, 3, 4, 5, 6, 8]), False)
        d.cdefault = r.random() < 0.15 and not any(f.ty.no_default() for f in d.fields)
        self.attrs(d, d.fields, False, wild)
        d.cnull = r.random() < 0.12
        if r.random() < 0.2 and w <= {"bin", "json"}:
            self.proxy_field(d)
        self.finish(d)

    def simple(self):
        """Types that take every attribute."""
        r = self.r
        t = r.choice([prim("String"), prim("String"), prim(r.choice(INTS)), prim(r.choice(INTS)), prim("bool"), prim(r.choice(["f32", "f64"])), T("Vec", [prim(r.choice(INTS))]),
                      T("Vec", [prim("String")]), T("Option", [T("Vec", [prim("u8")])])])
        return T("Option", [t]) if t.k == "prim" and r.random() < 0.5 else t

    def attr_struct(self, name):
        r = self.r
        d = Decl(name)
        d.kind, d.shape = "struct", "Named"
        d.fmts = set(r.choice([{"bin", "json", "ron"}, {"json", "ron"}, {"json"}]))
        d.fields = [Field(nm, self.simple()) for nm in self.names(r.choice([2, 3, 4, 5, 6]), False)]
        d.cdefault = r.random() < 0.3
        d.cnull = r.random() < 0.3
        self.attrs(d, d.fields, False, d.fmts == {"json"}, True)
        if r.random() < 0.3 and "ron" not in d.fmts:
            self.proxy_field(d)
        self.finish(d)

    def attr_enum(self, name):
        r = self.r
        d = Decl(name)
        d.kind = "enum"
        d.fmts = set(r.choice([{"bin", "json", "ron"}, {"json", "ron"}, {"json", "ron"}, {"json"}]))
        ns = r.sample(VARIANT_NAMES, r.choice([2, 3, 4]))
        d.variants = []
        for n in ns:
            v = Variant(n, "Named", [Field(nm, self.simple()) for nm in self.names(r.choice([1, 2, 3, 4, 5]), True)])
            self.attrs(d, v.fields, True, d.fmts == {"json"}, True)
            d.variants.append(v)
        self.variant_renames(d, d.fmts == {"json"})
        d.cnull = r.random() < 0.3
        self.finish(d)

    def proxy_field(self, d):
        r = self.r
        c = r.choice(["RawA", "RawB"])
        f = Field(r.choice(["px", "pq"]), T("named", name=c))
        f.proxy = {"RawA": "PrxA", "RawB": "String"}[c]
        if d.fmts == {"json"} and r.random() < 0.4:
            f.ty = T("Option", [f.ty])
        d.fields.insert(r.randint(0, len(d.fields)), f)

    def tuple_struct(self, name):
        r = self.r
        d = Decl(name)
        d.kind, d.shape = "struct", "Tuple"
        w = self.want()
        d.fmts = set(w)
        n = r.choice([1, 1, 1, 2, 3, 4, 5])
        d.fields = [Field(str(i), self.ty(w, 2)) for i in range(n)]
        if n == 1 and r.random() < 0.5:
            d.transparent = True
        self.finish(d)

    def unit_struct(self, name):
        d = Decl(name)
        d.kind, d.shape = "struct", "Unit"
        d.fmts = {"bin", "json"}
        self.finish(d)

    def variant(self, d, name, w, wild, depth=2):
        r = self.r
        sh = r.choice(["Unit", "Tuple", "Named"])
        if sh == "Unit":
            v = Variant(name, sh, [])
        elif sh == "Tuple":
            v = Variant(name, sh, [Field(str(i), self.ty(w, depth)) for i in range(r.choice([1, 1, 2, 3, 4]))])
        else:
            v = Variant(name, sh, self.named_fields(d, w, r.choice([0, 1, 2, 3, 4]), True, depth))
            self.attrs(d, v.fields, True, wild)
        return v

    def enum(self, name):
        r = self.r
        d = Decl(name)
        d.kind = "enum"
        w = self.want()
        d.fmts = set(w)
        wild = w == {"json"}
        ns = r.sample(VARIANT_NAMES, r.choice([1, 2, 3, 3, 4, 5, 6]))
        ns = ["L" + long_name(r) if r.random() < 0.08 else n for n in ns]
        d.variants = [self.variant(d, n, w, wild) for n in ns]
        self.variant_renames(d, wild)
        d.cnull = r.random() < 0.15
        self.finish(d)

    def variant_renames(self, d, wild):
        r = self.r
        taken = set()
        for v in d.variants:
            if r.random() < 0.25:
                v.rename = r.choice(WILD if wild else IDENT_RENAMES) if r.random() < 0.9 else long_name(r)
        if len(d.variants) >= 2 and r.random() < 0.2:
            a, b = r.sample(d.variants, 2)
            a.rename, b.rename = b.name, a.name
        for v in d.variants:
            while (v.rename or v.name) in taken or (v.rename is None and v.name in [g.rename for g in d.variants if g is not v]):
                v.rename = r.choice(IDENT_RENAMES) + str(r.randint(0, 99))
            taken.add(v.rename or v.name)

    def key_enum(self, name):
        r = self.r
        d = Decl(name)
        d.kind = "enum"
        d.key_enum = True
        d.variants = [Variant(n, "Unit", []) for n in r.sample(VARIANT_NAMES, r.randint(2, 6))]
        self.variant_renames(d, False)
        self.finish(d)

    def words_enum(self, name):
        """Names that say something elsewhere in the formats."""
        r = self.r
        d = Decl(name)
        d.kind = "enum"
        vs = [Variant(n, "Unit", []) for n in ("none", "some", "null", "nan", "inf", "Nul", "NoneX", "SomeX", "unit", "none_", "NONE", "SOME", "NAN", "n", "N", "t", "T")]
        for i, n in enumerate(("nil", "undefined", "Nothing", "trueX", "falseX", "tru", "fals", "nul", "infinity", "NaN", "Null", "True", "_none", "Inf")):
            v = Variant(f"R{i}", "Unit", [])
            v.rename = n
            vs.append(v)
        for i, n in enumerate(("nones", "somes", "NullT")):
            vs.append(Variant(n, "Tuple", [Field("0", self.leaf(d.fmts))]))
        r.shuffle(vs)
        d.variants = vs
        self.finish(d)
        me = T("named", name=name)
        O = lambda t: T("Option", [t])
        h = Decl(name + "Held")
        h.kind, h.shape = "struct", "Named"
        h.fields = [Field("a", O(me)), Field("b", T("Vec", [O(me)])), Field("c", O(O(me))), Field("e", me), Field("g", T("BTreeMap", [prim("String"), O(me)])), Field("h", T("arr", [O(me)], n=2))]
        h.fields[2].null = r.random() < 0.5
        self.finish(h)

    def big_enum(self, name):
        r = self.r
        d = Decl(name)
        d.kind = "enum"
        d.small = True
        n = r.choice([257, 260, 300])
        for i in range(n):
            if i in (3, 254, 255, 256, n - 1):
                d.variants.append(Variant(f"V{i}", "Tuple", [Field("0", prim(r.choice(INTS)))]))
            else:
                d.variants.append(Variant(f"V{i}", "Unit", []))
        self.finish(d)

    def wide_struct(self, name):
        """More fields than two decimal digits or one letter can count."""
        r = self.r
        d = Decl(name)
        d.kind, d.shape = "struct", "Named"
        n = r.choice([11, 16, 17, 27, 33])
        d.fields = [Field(nm, self.leaf(d.fmts) if r.random() < 0.7 else T("Option", [self.leaf(d.fmts)])) for nm in self.names(n, False)]
        self.attrs(d, d.fields, False, False)
        self.finish(d)

    def wide_tuple(self, name):
        r = self.r
        d = Decl(name)
        d.kind, d.shape = "struct", "Tuple"
        d.fields = [Field(str(i), self.leaf(d.fmts)) for i in range(r.choice([10, 11, 12, 13, 20, 26, 27]))]
        self.finish(d)

    def wide_enum(self, name):
        r = self.r
        d = Decl(name)
        d.kind = "enum"
        vs = [Variant("Wt", "Tuple", [Field(str(i), self.leaf(d.fmts)) for i in range(r.choice([10, 11, 12, 20, 27]))]),
              Variant("Wn", "Named", [Field(nm, self.leaf(d.fmts)) for nm in self.names(r.choice([10, 11, 17, 27]), True)]),
              Variant("Wu", "Unit", [])] + [Variant(f"W{i}", "Unit", []) for i in range(r.choice([0, 8, 30]))]
        r.shuffle(vs)
        d.variants = vs
        self.finish(d)

    def matrix(self):
        """Every attribute with every other, on fields of every kind, in structs and in variants."""
        r = self.r
        O = lambda t: T("Option", [t])
        named = [n for n in self.order if self.decls[n].kind == "struct" and self.decls[n].shape == "Named" and not self.decls[n].recursive
                 and self.decls[n].fmts == {"bin", "json", "ron"} and 0 < len(self.decls[n].fields) < 5 and not self.decls[n].std]
        types = [prim(r.choice(INTS)), prim("String"), prim("bool"), prim(r.choice(["f32", "f64"])), T("Vec", [prim(r.choice(INTS))]), T("Vec", [prim("String")]),
                 O(prim(r.choice(INTS))), O(prim("String")), O(prim("bool")), O(prim(r.choice(["f32", "f64"]))), O(T("Vec", [prim("u8")]))]
        if named:
            types += [T("named", name=r.choice(named)), O(T("named", name=r.choice(named)))]
        for place in ("struct", "enum"):
            fs = []
            for t in types:
                for rename in (False, True):
                    for skip in (False, True):
                        for null in ((False, True) if t.k == "Option" else (False,)):
                            for dk in (None, "plain", "value", "with"):
                                f = Field(f"m{len(fs)}", t)
                                if dk == "value":
                                    k = self.const(t)
                                    if k is None:
                                        continue
                                    f.default = ("value", k[0], k[1])
                                elif dk == "with":
                                    k = self.const_fn(t)
                                    if k is None:
                                        continue
                                    f.default = ("with", k[0], k[1])
                                elif dk == "plain":
                                    f.default = ("plain",)
                                f.rename = f"r{len(fs)}" if rename else None
                                f.skip, f.null = skip, null
                                f.order = r.randint(0, 10**9)
                                fs.append(f)
            r.shuffle(fs)
            w = 13 if place == "struct" else 7
            groups = [fs[i:i + w] for i in range(0, len(fs), w)]
            for g in groups:  # names that are the names of types
                used = set()
                for f in sorted(g, key=lambda f: not f.null):
                    n = {"Option": "Option", "Vec": "Vec"}.get(f.ty.k, f.ty.name)
                    if f.rename and not f.skip and n and n not in used:
                        used.add(n)
                        f.rename = n
            if place == "struct":
                for i, g in enumerate(groups):
                    d = Decl(f"M{i}")
                    d.matrix = True
                    d.kind, d.shape, d.fields = "struct", "Named", g
                    d.cdefault, d.cnull = i % 3 == 1, i % 4 in (1, 2)
                    self.finish(d)
            else:
                for i in range(0, len(groups), 3):
                    d = Decl(f"N{i // 3}")
                    d.matrix = True
                    d.kind, d.fmts = "enum", {"json", "ron"}
                    d.variants = [Variant(f"V{j}", "Named", g) for j, g in enumerate(groups[i:i + 3])]
                    if i % 2:
                        d.variants[0].rename = "first"
                    d.cnull = i % 4 == 3
                    self.finish(d)

    def rec_struct(self, name):
        r = self.r
        d = Decl(name)
        d.kind, d.shape, d.recursive = "struct", "Named", True
        me = T("named", name=name)
        w = {"bin", "json", "ron"}
        fs = [Field("val", self.leaf(w)), Field("kids", r.choice([T("Vec", [me]), T("HashMap", [prim("String"), me]), T("LinkedList", [me])])),
              Field("next", T("Option", [T("Box", [me])]))]
        r.shuffle(fs)
        d.fields = fs
        self.decls[name] = d
        self.finish(d)

    def rec_enum(self, name):
        r = self.r
        d = Decl(name)
        d.kind, d.recursive = "enum", True
        me = T("named", name=name)
        w = {"bin", "json", "ron"}
        vs = [Variant("Leaf", r.choice(["Unit"]), []), Variant("One", "Tuple", [Field("0", T("Box", [me]))]),
              Variant("Two", "Tuple", [Field("0", T("Box", [me])), Field("1", self.leaf(w))]),
              Variant("Many", "Named", [Field("a", T("Vec", [me])), Field("b", T("Option", [T("Box", [me])])), Field("c", self.leaf(w))])]
        d.variants = [vs[0]] + r.sample(vs[1:], 3)
        self.decls[name] = d
        self.finish(d)

    def run(self):
        r = self.r
        makers = [self.struct] * 10 + [self.tuple_struct] * 4 + [self.enum] * 7
        plan = [self.wide_struct, self.wide_tuple, self.wide_enum, self.key_enum, self.struct, self.enum, self.tuple_struct, self.unit_struct, self.rec_struct, self.rec_enum, self.big_enum, self.words_enum]
        for i in range(self.count):
            if i == len(plan) + 14:
                self.matrix()
            m = plan[i] if i < len(plan) else self.attr_struct if i % 8 == 7 else self.attr_enum if i % 16 == 12 else r.choice(makers)
            m(f"{ {'attr_struct': 'A', 'attr_enum': 'F', 'struct': 'S', 'tuple_struct': 'P', 'enum': 'E', 'key_enum': 'K', 'unit_struct': 'U', 'rec_struct': 'R', 'rec_enum': 'Q', 'big_enum': 'B', 'words_enum': 'W', 'wide_struct': 'WS', 'wide_tuple': 'WP', 'wide_enum': 'WE'}[m.__name__]}{i}")


DERIVES = {"bin": ["SerBin", "DeBin"], "json": ["SerJson", "DeJson"], "ron": ["SerRon", "DeRon"]}
FEAT = {"bin": "binary", "json": "json", "ron": "ron"}


def nserde_attrs(f, r=None):
    a = []
    if f.rename is not None:
        a.append(f"rename = {rs(f.rename)}")
    if f.skip:
        a.append("skip")
    if f.default:
        if f.default[0] == "plain":
            a.append("default")
        elif f.default[0] == "value":
            a.append(f"default = {rs(f.default[1])}")
        else:
            a.append(f"default_with = \"{f.default[1]}\"")
    if f.null:
        a.append("serialize_none_as_null")
    if f.proxy:
        a.append(f"proxy = \"{f.proxy}\"")
    if f.order is not None:
        random.Random(f.order).shuffle(a)
    return a


def container_attrs(d):
    a = []
    if d.transparent:
        a.append("transparent")
    if d.cdefault:
        a.append("default")
    if d.cnull:
        a.append("serialize_none_as_null")
    return a


FOREIGN = ["#[allow(dead_code)]", "#[allow(unused, clippy::all)]", "#[cfg(all())]", "#[cfg_attr(any(), nserde(skip))]", "#[cfg_attr(all(), allow(unused))]",
           "#[doc(hidden)]", "#[doc = \"text with \\\"quotes\\\" and #[nserde(skip)]\"]", "/// doc comment: #[nserde(rename = \"no\")] {}\n", "/** block\n doc, with: commas */",
           "/// one\n/// two\n", "#[warn(missing_docs)]"]


class Emit:
    """Declarations as text; `fancy` None for the plain crate, a Random for the other."""

    def __init__(self, g, fancy):
        self.g, self.r = g, fancy
        self.turns = {}
        self.aliases = []
        self.out = []
        self.mac = None  # arguments of the macro the declaration stands in, as (fragment, text)
        self.only = None  # "ser" or "de": half of the derives

    def alias(self, t):
        n = f"Alias{len(self.aliases)}"
        self.aliases.append((n, t))
        return f"crate::{n}" if self.r.random() < 0.5 else n

    def t(self, t):
        return t.rust() if self.r is None else self.m("ty", t.fancy(self.r, self.alias))

    def m(self, fragment, text, p=0.5):
        """The text, or a macro variable that stands for it."""
        if self.mac is None or self.r.random() >= p:
            return text
        self.mac.append((fragment, text))
        return f"$x{len(self.mac) - 1}"

    def attr_lines(self, a, salt=""):
        if self.r is None:
            # any order, in one list or several: each in turn for each set of attributes
            a = sorted(a)
            kinds = tuple(x.split(" ")[0] for x in a) + (bool(salt),)
            n = self.turns.setdefault(kinds, self.g.count + sum(map(ord, "".join(kinds[:-1]))))
            self.turns[kinds] += 1
            if len(a) > 1:
                ps = list(itertools.permutations(a))
                a = list(ps[n % len(ps)])
                if n // len(ps) % 2:
                    k = 1 + n % (len(a) - 1) if len(a) > 2 else 1
                    return f"#[nserde({', '.join(a[:k])})] #[nserde({', '.join(a[k:])})] "
            return f"#[nserde({', '.join(a)})] " if a else ""
        r = self.r
        a = a[:]
        r.shuffle(a)
        groups = []
        while a:
            k = r.randint(1, len(a))
            groups.append(a[:k])
            a = a[k:]
        lines = []
        raw = lambda s: re.sub(r'^(\w+ = )"([^"\\\\\n\t]*)"$', lambda k: k[1] + (f'r"{k[2]}"' if "#" in k[2] else f'r#"{k[2]}"#'), s) if r.random() < 0.15 else s
        lit = lambda s: re.sub(r'^(\w+ = )(".*")$', lambda k: k[1] + self.m("literal", k[2]), s)
        groups = [[lit(raw(s)) for s in g] for g in groups]
        for g in groups:
            tc = r.choice(["", "", ","])
            inner = f"nserde({', '.join(g)}{tc})"
            lines.append(f"#[cfg_attr(all(), {inner})]" if r.random() < 0.2 else f"#[{inner}]")
        for _ in range(r.choice([0, 0, 1, 2])):
            lines.insert(r.randint(0, len(lines)), r.choice(FOREIGN))
        return "\n".join(lines) + "\n" if lines else ""

    def vis(self):
        if self.r is None:
            return "pub "
        return self.m("vis", self.r.choice(["pub ", "pub ", "pub(crate) ", "pub(super) ", "pub(in crate) "])) + " "

    def derives(self, d, krate):
        one = ["#[derive(Clone, Debug, PartialEq)]"]
        if d.key_enum:
            one = ["#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]"]
        for f in sorted(d.fmts):
            ds = DERIVES[f][:]
            if self.only:
                ds = ds[:1] if self.only == "ser" else ds[1:]
            if self.r is not None:
                self.r.shuffle(ds)
                if krate or self.r.random() < 0.3:
                    ds = ["::nanoserde::" + x for x in ds]
                if self.r.random() < 0.4:
                    one += [f"#[cfg_attr(feature = \"{FEAT[f]}\", derive({x}))]" for x in ds]
                    continue
            one.append(f"#[cfg_attr(feature = \"{FEAT[f]}\", derive({', '.join(ds)}))]")
        if self.r is not None:
            self.r.shuffle(one)
        return "\n".join(one) + "\n"

    def decl(self, d):
        r = self.r
        o = []
        self.mac = [] if r is not None and not d.recursive and r.random() < 0.3 else None
        k = r or random.Random(d.name + str(len(d.fields)))
        krate = k.random() < (0.3 if r is not None else 0.2)
        ca = container_attrs(d)
        if krate:
            ca.append("crate = \"%s\"" % k.choice(["::nanoserde", "crate::reexport::ns"]))
        head = self.derives(d, krate) + self.attr_lines(ca, d.name)
        tc = (lambda: "," if r is None or r.random() < 0.6 else "")
        # generics: (declaration name, parameters, arguments)
        gens = []
        name = d.name
        sub = {}
        if r is not None and not d.recursive and not d.key_enum and not d.small and d.kind and r.random() < 0.5:
            pool = ["T", "U", "Item", "V2"]
            for f in d.all_fields():
                if f.skip or f.default or f.proxy or d.cdefault or len(gens) >= 3 or f.ty.uses_std(self.g.decls) and False:
                    continue
                if f.ty.k == "arr" and r.random() < 0.5 and not any(p[0] == "const" for p in gens):
                    gens.append(("const", "N", str(f.ty.n), None))
                    sub[f] = lambda f: f"[{self.t(f.ty.args[0])}; N]"
                elif f.ty.k == "Option" and r.random() < 0.4 and f.ty.args[0].k != "named" and pool:
                    p = pool.pop(0)
                    gens.append(("type", p, f.ty.args[0].rust(), f.ty.args[0]))
                    sub[f] = lambda f, p=p: f"Option<{p}>"
                elif f.ty.k == "Vec" and r.random() < 0.4 and pool:
                    p = pool.pop(0)
                    gens.append(("type", p, f.ty.args[0].rust(), f.ty.args[0]))
                    sub[f] = lambda f, p=p: f"Vec<{p}>"
                elif f.ty.k != "Option" and r.random() < 0.4 and pool:
                    p = pool.pop(0)
                    gens.append(("type", p, f.ty.rust(), f.ty))
                    sub[f] = lambda f, p=p: p
        params, ws = "", []
        if gens:
            name = d.name + "G"
            ps = []
            # parameters without defaults must come first; keep the order of the arguments
            order = gens
            can_default = True
            defaults = {}
            for p in reversed(order):
                if can_default and r.random() < 0.3:
                    defaults[p[1]] = p[2]
                else:
                    can_default = False
            for p in order:
                if p[0] == "const":
                    ps.append(f"const {p[1]}: usize" + (f" = {p[2]}" if p[1] in defaults else ""))
                    continue
                P = p[1]
                bs = [None, None, None, "Clone", "std::fmt::Debug + Clone", "PartialEq", "'static", "Clone + 'static", f"PartialEq<{P}>", f"Into<{P}>", f"From<{P}> + Clone", "Sized",
                      "Assoc<X = u8>", "crate::Assoc<X = u8> + Clone", f"std::convert::TryFrom<{P}>", f"std::borrow::Borrow<{P}>", f"Pair<{P}, u8>", "Pair<[u8; 2], (u8, bool)>"]
                b = r.choice(bs)
                if r.random() < 0.5:
                    w = r.choice(bs)
                    if w:
                        ws.append(f"{p[1]}: {w}")
                    if w or r.random() < 0.5:
                        b = b if r.random() < 0.5 else None
                ps.append(p[1] + (f": {b}" if b else "") + (f" = {p[2]}" if p[1] in defaults else ""))
            # parameters that no field mentions
            args = [p[2] for p in gens]
            for i in range(r.choice([0, 0, 0, 1, 1, 2])):
                cty, val, others = r.choice([("bool", "true", ["true", "{ !false }"]), ("char", "'x'", ["'x'", "'\\u{78}'"]), ("i32", "-1", ["-1", "{ 1 - 2 }", "{ -1 }"]), ("u8", "7", ["7", "0x7", "7u8", "{ 3 + 4 }"]),
                                                ("usize", "LEN3", ["LEN3", "3", "{ crate::LEN3 }"]), ("isize", "-9", ["-9"])])
                dflt = f" = {r.choice(others)}" if i == 0 and r.random() < 0.6 else ""
                at = len(ps) if dflt else r.choice([0, len([g for g in gens if g[1] not in defaults])])
                if not dflt and any("=" in x for x in ps[:at]):
                    at = 0
                ps.insert(at, f"const K{i}: {cty}{dflt}")
                args.insert(at, val)
            params = "<" + ", ".join(ps) + r.choice(["", ","]) + ">"
        # bounds on types that are no parameters
        if r is not None and not d.recursive and r.random() < 0.35:
            tys = ["Vec<u8>", "u8", "(u8, bool)", "[u8; 3]", "Self", "::std::string::String", "std::vec::Vec<(u8, bool)>", "<u8 as Assoc>::X"]
            for p in gens:
                if p[0] == "type":
                    tys += [f"Vec<{p[1]}>", f"Option<{p[1]}>", f"({p[1]}, u8)", f"[{p[1]}; 2]", f"::std::vec::Vec<Vec<{p[1]}>>"]
            r.shuffle(tys)
            for x in tys[:r.choice([1, 1, 2, 3])]:
                ws.insert(r.randint(0, len(ws)), f"{x}: " + r.choice(["Sized", "Sized", "", "'static", "Sized + 'static", "Into<%s>" % x] if x != "Self" else ["Sized"]))
        where = (" where " + ", ".join(ws) + r.choice(["", ","])) if ws else ""
        ft = lambda f: sub[f](f) if f in sub else self.t(f.ty)
        if d.kind == "struct":
            if d.shape == "Unit":
                body = ";"
            elif d.shape == "Tuple":
                fs = [(self.attr_lines([]) if r is not None else "") + self.vis() + ft(f) for f in d.fields]
                body = "(" + ", ".join(fs) + (tc() if r is not None else "") + f"){where};"
            else:
                fs = [self.attr_lines(nserde_attrs(f), f.name) + self.vis() + f"{self.m('ident', f.name, 0.3)}: {ft(f)}" for f in d.fields]
                body = where + " {\n" + ",\n".join(fs) + (tc() if fs else "") + "\n}"
            o.append(f"{head}{self.vis()}struct {self.m('ident', name)}{params}{body}")
        else:
            vs = []
            mixed = any(v.shape != "Unit" for v in d.variants)
            disc = r is not None and r.random() < 0.4
            nextd = None
            rep = ""
            if disc:
                rep = r.choice(["#[repr(i16)]\n", "#[repr(i32)]\n"]) if mixed or r.random() < 0.5 else ""
            for v in d.variants:
                at = self.attr_lines([f"rename = {rs(v.rename)}"] if v.rename is not None else [])
                s = at + self.m("ident", v.name, 0.3)
                if v.shape == "Tuple":
                    s += "(" + ", ".join(((self.attr_lines([]) if r is not None else "") + ft(f)) for f in v.fields) + (tc() if r is not None else "") + ")"
                elif v.shape == "Named":
                    fs = [self.attr_lines(nserde_attrs(f), f.name) + f"{f.name}: {ft(f)}" for f in v.fields]
                    s += " { " + ", ".join(fs) + (tc() if fs else "") + " }"
                if disc and r.random() < 0.6:
                    nextd = r.choice([-5, 0, 3]) if nextd is None else nextd + r.choice([1, 2, 7])
                    s += " = " + self.m("expr", r.choice([str(nextd), f"{nextd - 1} + 1", f"({nextd})"] + ([hex(nextd), f"{nextd} << 0"] if nextd >= 0 else [])))
                else:
                    nextd = 0 if nextd is None else nextd + 1
                vs.append(s)
            o.append(f"{head}{rep}{self.vis()}enum {self.m('ident', name)}{params}{where} {{\n" + ",\n".join(vs) + tc() + "\n}")
        if self.mac:
            pat = " ".join(f"[$x{i}:{f}]" for i, (f, _) in enumerate(self.mac))
            o = [f"macro_rules! mk_{d.name} {{ ({pat}) => {{\n{o[0]}\n}} }}\nmk_{d.name}! {{ " + " ".join(f"[{x}]" for _, x in self.mac) + " }"]
        self.mac = None
        if gens:
            o.append(f"pub(crate) type {d.name} = {name}<{', '.join(args)}>;")
            GENERIC[d.name] = f"{name}<{', '.join(args)}>"
        return "\n".join(o), krate, name if gens else None

    # ------------------------------------------------------------------ half of the derives
    def writer(self, d):
        """The declaration again, only written, with borrowed fields: (text, formats)."""
        r = self.r
        fmts = r.sample(sorted(d.fmts), r.randint(1, len(d.fmts)))
        if d.kind == "struct" and d.shape == "Tuple" and "bin" in d.fmts and r.random() < 0.5:
            fmts = ["bin"]
        lts, gens, ws = {"a"}, [], []

        def one(f, x, named):
            """(type, expression) from an expression of type &T."""
            k = f.ty.k
            if f.skip and r.random() < 0.3:
                return "Option<fn(u8) -> bool>", "None"
            if k == "Option" and named or r.random() < 0.25:
                return self.t(f.ty), f"{x}.clone()"
            lt = r.choice(["a", "a", "b"])
            lts.add(lt)
            # a slice is written like an array: in JSON like a Vec, too
            if (k == "arr" or k == "Vec" and fmts == ["json"]) and r.random() < 0.6:
                return f"&'{lt} [{self.t(f.ty.args[0])}]", f"&{x}[..]"
            if k == "prim" and f.ty.name == "String" and fmts == ["json"]:
                return f"&'{lt} str", f"&{x}[..]"
            if k in ("prim", "Vec", "arr", "tup", "unit") and len(gens) < 2 and r.random() < 0.3:
                p = ["T", "Item"][len(gens)]
                gens.append((p, f.ty.rust()))
                return f"&'{lt} {p}", x
            return f"&'{lt} {self.t(f.ty)}", x

        n = d.name + "W"
        ca = container_attrs(d)
        if d.kind == "struct":
            fs = [one(f, f"&x.{f.name}" if False else f"(&x.{f.name})", d.shape == "Named") for f in d.fields]
            if d.shape == "Tuple":
                fs = [("", a, b) for a, b in fs]
                if fmts == ["bin"] and len(fs) > 0 and not d.transparent:
                    # a tuple struct that is only written may skip fields
                    for _ in range(r.choice([0, 1, 1, 2, 3])):
                        a, b = r.choice([("u8", "7"), ("bool", "true"), ("fn(u8) -> bool", "|_| true"), ("&'static str", "\"skipped\""), ("Option<u32>", "Some(1)")])
                        fs.insert(r.randint(0, len(fs)), (self.attr_lines(["skip"]), a, b))
                body = "(" + ", ".join(s + self.vis() + a for s, a, _ in fs) + ")"
                make = f"{n}(" + ", ".join(b for _, _, b in fs) + ")"
                fs = [(a, b) for _, a, b in fs]
            else:
                body = " {\n" + ",\n".join(self.attr_lines(nserde_attrs(f)) + self.vis() + f"{f.name}: {a}" for f, (a, _) in zip(d.fields, fs)) + "\n}"
                make = f"{n} {{ " + ", ".join(f"{f.name}: {b}" for f, (_, b) in zip(d.fields, fs)) + " }"
            used = " ".join(a for a, _ in fs)
        else:
            vs, arms, used = [], [], ""
            for v in d.variants:
                s = self.attr_lines([f"rename = {rs(v.rename)}"] if v.rename is not None else []) + v.name
                pat = [f"f{j}" for j in range(len(v.fields))]
                fs = [one(f, p, v.shape == "Named") for f, p in zip(v.fields, pat)]
                used += " ".join(a for a, _ in fs)
                if v.shape == "Unit":
                    arms.append(f"{d.name}::{v.name} => {n}::{v.name}")
                elif v.shape == "Tuple":
                    s += "(" + ", ".join(a for a, _ in fs) + ")"
                    arms.append(f"{d.name}::{v.name}({', '.join(pat)}) => {n}::{v.name}({', '.join(b for _, b in fs)})")
                else:
                    s += " { " + ", ".join(self.attr_lines(nserde_attrs(f)) + f"{f.name}: {a}" for f, (a, _) in zip(v.fields, fs)) + " }"
                    arms.append(f"{d.name}::{v.name} {{ {', '.join(f.name + ': ' + q for f, q in zip(v.fields, pat))} }} => {n}::{v.name} {{ " + ", ".join(f"{f.name}: {b}" for f, (_, b) in zip(v.fields, fs)) + " }")
                vs.append(s)
            body = " {\n" + ",\n".join(vs) + "\n}"
            make = f"match x {{ {', '.join(arms)} }}"
        if "'a" not in used:
            return None
        lts = [x for x in ("a", "b") if f"'{x} " in used]
        ps = [f"'{x}" for x in lts]
        if len(lts) == 2 and r.random() < 0.5:
            ps[1] += ": 'a"
        for p, _ in gens:
            b = r.choice(["", "", ": 'a", ": Clone", ": PartialEq + Clone + 'static", ": 'a + std::fmt::Debug"])
            if b and r.random() < 0.5:
                ws.append(p + b)
                b = ""
            ps.append(p + b)
        if r.random() < 0.4:
            ws.append("Self: 'a")
        where = " where " + ", ".join(ws) if ws else ""
        head = "".join(f"#[cfg_attr(feature = \"{FEAT[f]}\", derive({DERIVES[f][0]}))]\n" for f in fmts)
        head += self.attr_lines(ca, d.name)
        params = f"<{', '.join(ps)}>"
        if d.kind == "struct" and d.shape == "Tuple":
            text = f"{head}{self.vis()}struct {n}{params}{body}{where};"
        else:
            text = f"{head}{self.vis()}{d.kind} {n}{params}{where}{body}"
        args = ", ".join(["'_"] * len(lts) + [a for _, a in gens])
        text += f"\npub(crate) fn writer_{d.name}(x: &{d.name}) -> {n}<{args}> {{ {make} }}"
        return text, fmts

    # ------------------------------------------------------------------ model
    def field_model(self, f):
        s = f"Field::new({rs(f.name)}, {f.ty.model()})"
        if f.rename is not None:
            s += f".rename({rs(f.rename)})"
        if f.skip:
            s += ".skip()"
        if f.default:
            s += ".dflt(%s)" % {"plain": lambda: "Dflt::Plain", "value": lambda: f"Dflt::Value({f.default[2]})", "with": lambda: f"Dflt::With({f.default[2]})"}[f.default[0]]()
        if f.null:
            s += ".null()"
        if f.proxy:
            s += f".proxy({f.proxy.lower()}_proxy())"
        return s

    def model(self, d, real=None):
        o = []
        n = d.name
        cfg = "#[cfg(feature = \"std\")]\n" if d.std else ""
        c = ""
        if d.transparent:
            c += ".transparent()"
        if d.cdefault:
            c += ".cdefault()"
        if d.cnull:
            c += ".cnull()"
        if d.kind == "struct":
            fs = ", ".join(self.field_model(f) for f in d.fields)
            o.append(f"{cfg}fn def_{n}() -> Def {{ Def::st({rs(n)}, Shape::{d.shape}, vec![{fs}]){c} }}")
            # aliases of generic types cannot be used as constructors of tuple structs: name them
            ctor = real or n
            if d.shape == "Unit":
                mk = f"{ctor}"
            else:
                mk = f"{ctor} {{ " + ", ".join(f"{f.name}: Model::from_val(&x[{i}])" for i, f in enumerate(d.fields)) + " }"
            fv = f"if let Val::Struct(x) = v {{ let _ = x; {mk} }} else {{ vh::model::bad(v) }}"
            tv = "Val::Struct(vec![" + ", ".join(f"self.{f.name}.to_val()" for f in d.fields) + "])"
        else:
            vs = []
            for v in d.variants:
                fs = ", ".join(self.field_model(f) for f in v.fields)
                rn = f"Some({rs(v.rename)})" if v.rename is not None else "None"
                vs.append(f"Variant {{ name: {rs(v.name)}, rename: {rn}, shape: Shape::{v.shape}, fields: vec![{fs}] }}")
            o.append(f"{cfg}fn def_{n}() -> Def {{ Def::en({rs(n)}, vec![{', '.join(vs)}]){c} }}")
            arms, tarms = [], []
            for i, v in enumerate(d.variants):
                if v.shape == "Unit":
                    arms.append(f"{i} => {n}::{v.name}")
                    tarms.append(f"{n}::{v.name} => Val::Enum({i}, vec![])")
                elif v.shape == "Tuple":
                    arms.append(f"{i} => {n}::{v.name}(" + ", ".join(f"Model::from_val(&x[{j}])" for j in range(len(v.fields))) + ")")
                    ns = [f"f{j}" for j in range(len(v.fields))]
                    tarms.append(f"{n}::{v.name}({', '.join(ns)}) => Val::Enum({i}, vec![{', '.join(x + '.to_val()' for x in ns)}])")
                else:
                    arms.append(f"{i} => {n}::{v.name} {{ " + ", ".join(f"{f.name}: Model::from_val(&x[{j}])" for j, f in enumerate(v.fields)) + " }")
                    ns = [f"f{j}" for j in range(len(v.fields))]
                    tarms.append(f"{n}::{v.name} {{ {', '.join(f.name + ': ' + x for f, x in zip(v.fields, ns))} }} => Val::Enum({i}, vec![{', '.join(x + '.to_val()' for x in ns)}])")
            fv = f"if let Val::Enum(k, x) = v {{ let _ = x; match *k {{ {', '.join(arms)}, _ => vh::model::bad(v) }} }} else {{ vh::model::bad(v) }}"
            tv = f"match self {{ {', '.join(tarms)} }}"
        o.append(f"{cfg}impl Model for {n} {{\n fn ty() -> Ty {{ Ty::Named({rs(n)}, def_{n}) }}\n fn from_val(v: &Val) -> Self {{ {fv} }}\n fn to_val(&self) -> Val {{ {tv} }}\n}}")
        o.append(f"{cfg}impl Default for {n} {{ fn default() -> Self {{ Model::from_val(&vh::model::ty_default(&<{n} as Model>::ty())) }} }}")
        return "\n".join(o)


PRELUDE = r'''
#![allow(dead_code, unused, non_camel_case_types, non_snake_case, non_upper_case_globals, clippy::all)]
pub mod prelude {
    pub use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet, LinkedList};
    pub use std::time::{Duration, SystemTime};
    pub use std::sync::Arc;
    #[cfg(any(feature = "binary", feature = "json", feature = "ron"))]
    pub use nanoserde::*;
    pub use vh::model::{Body, Def, Dflt, Field, Model, Proxy, Shape, Ty, Val, Variant};
    pub use vh::ops::TypeOps;
}
use prelude::*;
pub mod reexport { pub use ::nanoserde as ns; }
pub trait Assoc { type X; }
impl<T> Assoc for T { type X = u8; }
pub trait Pair<A, B> {}
impl<T, A, B> Pair<A, B> for T {}
pub const LEN0: usize = 0;
pub const LEN1: usize = 1;
pub const LEN2: usize = 2;
pub const LEN3: usize = 3;
pub const LEN4: usize = 4;
pub const LEN5: usize = 5;

// proxies
#[derive(Clone, Debug, PartialEq)]
pub struct RawA { pub v: u32 }
#[derive(Clone, Debug, PartialEq)]
#[cfg_attr(feature = "binary", derive(SerBin, DeBin))]
#[cfg_attr(feature = "json", derive(SerJson, DeJson))]
pub struct PrxA { pub lo: u16, pub hi: u16 }
impl From<&RawA> for PrxA { fn from(x: &RawA) -> Self { PrxA { lo: x.v as u16, hi: (x.v >> 16) as u16 } } }
impl From<&PrxA> for RawA { fn from(x: &PrxA) -> Self { RawA { v: x.lo as u32 | (x.hi as u32) << 16 } } }
fn def_RawA() -> Def { Def::st("RawA", Shape::Named, vec![Field::new("v", Ty::U32)]) }
fn def_PrxA() -> Def { Def::st("PrxA", Shape::Named, vec![Field::new("lo", Ty::U16), Field::new("hi", Ty::U16)]) }
impl Model for RawA {
    fn ty() -> Ty { Ty::Named("RawA", def_RawA) }
    fn from_val(v: &Val) -> Self { if let Val::Struct(x) = v { RawA { v: Model::from_val(&x[0]) } } else { vh::model::bad(v) } }
    fn to_val(&self) -> Val { Val::Struct(vec![self.v.to_val()]) }
}
impl Default for RawA { fn default() -> Self { RawA { v: 0 } } }
fn prxa_proxy() -> Proxy {
    Proxy {
        ty: Ty::Named("PrxA", def_PrxA),
        to: |v| match v { Val::Struct(x) => match &x[0] { Val::U(n) => Val::Struct(vec![Val::U(*n & 0xffff), Val::U(*n >> 16)]), v => vh::model::bad(v) }, v => vh::model::bad(v) },
        from: |v| match v { Val::Struct(x) => match (&x[0], &x[1]) { (Val::U(a), Val::U(b)) => Val::Struct(vec![Val::U(*a | *b << 16)]), _ => vh::model::bad(v) }, v => vh::model::bad(v) },
    }
}
#[derive(Clone, Debug, PartialEq)]
pub struct RawB(pub String);
impl From<&RawB> for String { fn from(x: &RawB) -> Self { format!("b:{}", x.0) } }
impl From<&String> for RawB { fn from(x: &String) -> Self { RawB(x.strip_prefix("b:").unwrap_or(x).to_string()) } }
fn def_RawB() -> Def { Def::st("RawB", Shape::Tuple, vec![Field::new("0", Ty::Str)]) }
impl Model for RawB {
    fn ty() -> Ty { Ty::Named("RawB", def_RawB) }
    fn from_val(v: &Val) -> Self { if let Val::Struct(x) = v { RawB(Model::from_val(&x[0])) } else { vh::model::bad(v) } }
    fn to_val(&self) -> Val { Val::Struct(vec![self.0.to_val()]) }
}
impl Default for RawB { fn default() -> Self { RawB(String::new()) } }
fn string_proxy() -> Proxy {
    Proxy {
        ty: Ty::Str,
        to: |v| match v { Val::Struct(x) => match &x[0] { Val::Str(s) => Val::Str(format!("b:{s}")), v => vh::model::bad(v) }, v => vh::model::bad(v) },
        from: |v| match v { Val::Str(s) => Val::Struct(vec![Val::Str(s.strip_prefix("b:").unwrap_or(s).to_string())]), v => vh::model::bad(v) },
    }
}
// a container that is its proxy
#[derive(Clone, Debug, PartialEq)]
#[cfg_attr(feature = "binary", derive(SerBin, DeBin))]
#[cfg_attr(feature = "json", derive(SerJson, DeJson))]
#[cfg_attr(any(feature = "binary", feature = "json"), nserde(proxy = "PrxA"))]
pub struct RawC { pub v: u32 }
impl From<&RawC> for PrxA { fn from(x: &RawC) -> Self { PrxA { lo: x.v as u16, hi: (x.v >> 16) as u16 } } }
impl From<&PrxA> for RawC { fn from(x: &PrxA) -> Self { RawC { v: x.lo as u32 | (x.hi as u32) << 16 } } }
fn def_RawC() -> Def {
    let mut d = Def::st("RawC", Shape::Named, vec![Field::new("v", Ty::U32)]);
    d.body = Body::Proxy(prxa_proxy(), Arc::new(d.clone()));
    d
}
impl Model for RawC {
    fn ty() -> Ty { Ty::Named("RawC", def_RawC) }
    fn from_val(v: &Val) -> Self { if let Val::Struct(x) = v { RawC { v: Model::from_val(&x[0]) } } else { vh::model::bad(v) } }
    fn to_val(&self) -> Val { Val::Struct(vec![self.v.to_val()]) }
}
impl Default for RawC { fn default() -> Self { RawC { v: 0 } } }
'''


def write(path, s):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    try:
        if open(path).read() == s:
            return
    except OSError:
        pass
    open(path, "w").write(s)


CARGO = '''[package]
name = "%s"
version = "0.1.0"
edition = "2021"

[workspace]

[features]
std = ["vh/std"]
binary = ["vh/binary"]
json = ["vh/json"]
ron = ["vh/ron"]
toml = ["vh/toml"]

[dependencies]
nanoserde = { path = "/repo", default-features = false }
vh = { path = "%s/harness", default-features = false }
'''


def emit_crate(g, fancy, name, out, verif):
    e = Emit(g, fancy)
    o = [PRELUDE]
    for n, t, v in g.fns:
        std = "#[cfg(feature = \"std\")]\n" if t.uses_std(g.decls) else ""
        o.append(f"{std}pub fn {n}() -> {t.rust()} {{ Model::from_val(&{v}) }}")
    regs = []
    r = random.Random(g.count * 7919 + 13)
    for n in g.order:
        d = g.decls[n]
        if d.matrix and fancy:
            continue
        cfg = "#[cfg(feature = \"std\")]\n" if d.std else ""
        # helper attributes need at least one derive
        gate = " , ".join(f"feature = \"{FEAT[f]}\"" for f in sorted(d.fmts))
        cfg = f"#[cfg(all(any({gate}){', feature = \"std\"' if d.std else ''}))]\n"
        text, krate, real = e.decl(d)
        shadow = "    mod nanoserde {}\n" if krate else ""
        body = text + "\n" + e.model(d, real).replace("#[cfg(feature = \"std\")]\n", "")
        use = "use super::*;" if not krate else "use super::*; use super::prelude::*;"
        o.append(f"{cfg}mod m_{n} {{\n    {use}\n{shadow}{body}\n}}\n{cfg}pub(crate) use m_{n}::*;")
        f = " ".join(sorted(d.fmts))
        regs.append(f"{cfg} vh::ty!(v, {rs(n)}, {n}; {f});")
        if fancy and not d.recursive and not d.small and not any(x.proxy for x in d.all_fields()):
            w = e.writer(d) if fancy.random() < 0.5 else None
            if w:
                g2 = f"#[cfg(all({', '.join('feature = %s' % rs(FEAT[x]) for x in ['bin', 'json', 'ron'] if x in d.fmts)}{', feature = %s' % rs('std') if d.std else ''}))]\n"
                o.append(f"{g2}mod w_{n} {{\n    use super::*;\n{w[0]}\n}}")
                regs.append(f"{g2} vh::writer!(v, {rs(n)}, {n}, w_{n}::writer_{n}; {' '.join(w[1])});")
            if fancy.random() < 0.3:
                d2 = copy.copy(d)
                d2.name = n + "D"
                e.only = "de"
                text, krate, real = e.decl(d2)
                e.only = None
                o.append(f"{cfg}mod d_{n} {{\n    {'use super::*; use super::prelude::*; mod nanoserde {}' if krate else 'use super::*;'}\n{text}\n{e.model(d2, real).replace('#[cfg(feature = %s)]' % rs('std') + chr(10), '')}\n}}")
                regs.append(f"{cfg} vh::reader!(v, {rs(n)}, d_{n}::{d2.name}; {f});")
        if not d.recursive and not d.small:
            c = r.random()
            std2 = f"#[cfg(all(any({gate}), feature = \"std\"))]\n"
            if c < 0.12:
                regs.append(f"{cfg} vh::ty!(v, \"Vec<{n}>\", Vec<{n}>; {f});")
            elif c < 0.2:
                regs.append(f"{cfg} vh::ty!(v, \"Option<{n}>\", Option<{n}>; {f});")
            elif c < 0.27:
                regs.append(f"{std2} vh::ty!(v, \"HashMap<String, {n}>\", HashMap<String, {n}>; {f});")
            elif c < 0.34:
                regs.append(f"{cfg} vh::ty!(v, \"[{n}; 2]\", [{n}; 2]; {f});")
            elif c < 0.4:
                regs.append(f"{cfg} vh::ty!(v, \"({n}, u8)\", ({n}, u8); {f});")
    if fancy is None:
        for i in range(14):
            want = [{"bin", "json", "ron"}, {"bin", "json", "ron"}, {"bin", "ron"}][i % 3]
            t = g.deep(want, r)
            f = sorted(t.fmts(g.decls) & want)
            gate = " , ".join(f"feature = \"{FEAT[x]}\"" for x in f)
            std = ', feature = "std"' if t.uses_std(g.decls) else ""
            regs.append(f"#[cfg(all(any({gate}){std}))]\n vh::ty!(v, \"deep {i}: {t.rust()}\", {t.rust()}; {' '.join(f)});")
    regs.append("#[cfg(any(feature = \"binary\", feature = \"json\"))]\n vh::ty!(v, \"RawC\", RawC; bin json);")
    for n, t in e.aliases:
        std = "#[cfg(feature = \"std\")]\n" if t.uses_std(g.decls) else ""
        deps = []

        def walk(t):
            if t.k == "named":
                deps.append(t.name)
            for x in t.args:
                walk(x)
        walk(t)
        gates = ["any(" + ", ".join(f"feature = \"{FEAT[f]}\"" for f in sorted(g.decls[x].fmts)) + ")" for x in deps if x in g.decls]
        if std:
            gates.append("feature = \"std\"")
        c = f"#[cfg(all({', '.join(gates)}))]\n" if gates else ""
        o.append(f"{c}pub(crate) type {n} = {t.rust()};")
    o.append("pub fn types() -> Vec<TypeOps> {\n    let mut v = vec![];\n" + "\n".join(regs) + "\n    v\n}")
    write(f"{out}/{name}/src/lib.rs", "\n".join(o) + "\n")
    write(f"{out}/{name}/Cargo.toml", CARGO % (name, verif))


def main():
    seed, count, out, verif = int(sys.argv[1]), int(sys.argv[2]), sys.argv[3], sys.argv[4]
    g = G(seed * 1000003 + 17, count)
    g.run()
    emit_crate(g, None, "vgen", out, verif)
    emit_crate(g, random.Random(seed * 77 + 5), "vfancy", out, verif)


if __name__ == "__main__":
    main()
