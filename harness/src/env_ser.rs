//! An arbitrary user serializer, and an arbitrary concrete value driving the serializer it is given.
use crate::err::*;
use crate::rt::{self, Sym};
use serde::ser::*;

#[derive(Clone, Copy)]
pub struct EnvSer;

/// what a successful serializer call finally returns
pub struct Done(pub Sym);
pub fn done() -> Done {
    Done(rt::tok("done", 0))
}
pub struct EnvMapDone;

pub struct EnvCompound {
    key: bool,
}

pub fn hr() -> bool {
    rt::tok::<bool>("human_readable", 0)
}

macro_rules! scalar {
    ($($m:ident $l:literal $t:ty;)*) => {$(
        fn $m(self, v: $t) -> Result<Done, EnvErr> {
            guard();
            rt::ev($l, (v,));
            outcome(done())
        }
    )*};
}

impl Serializer for EnvSer {
    type Ok = Done;
    type Error = EnvErr;
    type SerializeSeq = EnvCompound;
    type SerializeTuple = EnvCompound;
    type SerializeTupleStruct = EnvCompound;
    type SerializeTupleVariant = EnvCompound;
    type SerializeMap = EnvCompound;
    type SerializeStruct = EnvCompound;
    type SerializeStructVariant = EnvCompound;
    scalar! {
        serialize_bool "bool" bool;
        serialize_i8 "i8" i8;
        serialize_i16 "i16" i16;
        serialize_i32 "i32" i32;
        serialize_i64 "i64" i64;
        serialize_i128 "i128" i128;
        serialize_u8 "u8" u8;
        serialize_u16 "u16" u16;
        serialize_u32 "u32" u32;
        serialize_u64 "u64" u64;
        serialize_u128 "u128" u128;
        serialize_f32 "f32" f32;
        serialize_f64 "f64" f64;
        serialize_char "char" char;
        serialize_str "str" &str;
        serialize_bytes "bytes" &[u8];
        serialize_unit_struct "unit_struct" &'static str;
    }
    fn serialize_none(self) -> Result<Done, EnvErr> {
        guard();
        rt::ev("none", ());
        outcome(done())
    }
    fn serialize_unit(self) -> Result<Done, EnvErr> {
        guard();
        rt::ev("unit", ());
        outcome(done())
    }
    fn serialize_some<T: ?Sized + Serialize>(self, v: &T) -> Result<Done, EnvErr> {
        guard();
        rt::ev("some", ());
        v.serialize(EnvSer)
    }
    fn serialize_unit_variant(self, n: &'static str, i: u32, v: &'static str) -> Result<Done, EnvErr> {
        guard();
        rt::ev("unit_variant", (n, i, v));
        outcome(done())
    }
    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, n: &'static str, v: &T) -> Result<Done, EnvErr> {
        guard();
        rt::ev("newtype_struct", (n,));
        v.serialize(EnvSer)
    }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(self, n: &'static str, i: u32, var: &'static str, v: &T) -> Result<Done, EnvErr> {
        guard();
        rt::ev("newtype_variant", (n, i, var));
        v.serialize(EnvSer)
    }
    fn serialize_seq(self, len: Option<usize>) -> Result<EnvCompound, EnvErr> {
        guard();
        rt::ev("seq", (len,));
        open()
    }
    fn serialize_tuple(self, len: usize) -> Result<EnvCompound, EnvErr> {
        guard();
        rt::ev("tuple", (len,));
        open()
    }
    fn serialize_tuple_struct(self, n: &'static str, len: usize) -> Result<EnvCompound, EnvErr> {
        guard();
        rt::ev("tuple_struct", (n, len));
        open()
    }
    fn serialize_tuple_variant(self, n: &'static str, i: u32, v: &'static str, len: usize) -> Result<EnvCompound, EnvErr> {
        guard();
        rt::ev("tuple_variant", (n, i, v, len));
        open()
    }
    fn serialize_map(self, len: Option<usize>) -> Result<EnvCompound, EnvErr> {
        guard();
        rt::ev("map", (len,));
        open()
    }
    fn serialize_struct(self, n: &'static str, len: usize) -> Result<EnvCompound, EnvErr> {
        guard();
        rt::ev("struct", (n, len));
        open()
    }
    fn serialize_struct_variant(self, n: &'static str, i: u32, v: &'static str, len: usize) -> Result<EnvCompound, EnvErr> {
        guard();
        rt::ev("struct_variant", (n, i, v, len));
        open()
    }
    fn is_human_readable(&self) -> bool {
        hr()
    }
}

fn open() -> Result<EnvCompound, EnvErr> {
    outcome(EnvCompound { key: false })
}

impl EnvCompound {
    fn part<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), EnvErr> {
        match v.serialize(EnvSer) {
            Ok(_) => Ok(()),
            Err(e) => Err(e),
        }
    }
    fn close(self) -> Result<Done, EnvErr> {
        guard();
        if self.key {
            rt::ev("PROTOCOL: map ended after a key without value", ());
        }
        rt::ev("end", ());
        outcome(done())
    }
}

macro_rules! elems {
    ($($tr:ident $m:ident)*) => {$(
        impl $tr for EnvCompound {
            type Ok = Done;
            type Error = EnvErr;
            fn $m<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), EnvErr> {
                guard();
                rt::ev("elem", ());
                self.part(v)
            }
            fn end(self) -> Result<Done, EnvErr> {
                self.close()
            }
        }
    )*};
}
elems! {
    SerializeSeq serialize_element
    SerializeTuple serialize_element
    SerializeTupleStruct serialize_field
    SerializeTupleVariant serialize_field
}
macro_rules! fields {
    ($($tr:ident)*) => {$(
        impl $tr for EnvCompound {
            type Ok = Done;
            type Error = EnvErr;
            fn serialize_field<T: ?Sized + Serialize>(&mut self, k: &'static str, v: &T) -> Result<(), EnvErr> {
                guard();
                rt::ev("field", (k,));
                self.part(v)
            }
            fn skip_field(&mut self, k: &'static str) -> Result<(), EnvErr> {
                guard();
                rt::ev("skip_field", (k,));
                outcome(())
            }
            fn end(self) -> Result<Done, EnvErr> {
                self.close()
            }
        }
    )*};
}
fields! { SerializeStruct SerializeStructVariant }
impl SerializeMap for EnvCompound {
    type Ok = Done;
    type Error = EnvErr;
    fn serialize_key<T: ?Sized + Serialize>(&mut self, k: &T) -> Result<(), EnvErr> {
        guard();
        if self.key {
            rt::ev("PROTOCOL: two keys in a row", ());
        }
        self.key = true;
        rt::ev("key", ());
        self.part(k)
    }
    fn serialize_value<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), EnvErr> {
        guard();
        if !self.key {
            rt::ev("PROTOCOL: value without key", ());
        }
        self.key = false;
        rt::ev("value", ());
        self.part(v)
    }
    fn end(self) -> Result<Done, EnvErr> {
        self.close()
    }
}

/// A part of the concrete value.
#[derive(Clone, Copy)]
pub struct EnvElem {
    pub s: Sym,
    pub lvl: usize,
}

pub fn elem(i: usize, lvl: usize) -> EnvElem {
    EnvElem { s: rt::tok(if lvl == 1 { "e" } else { "ee" }, i), lvl }
}

pub fn emit_opaque(s: Sym) -> Result<Done, EnvErr> {
    guard();
    rt::ev("opaque", (s,));
    outcome(done())
}

pub const CAP: &[&str] = &["value.ok", "value.err"];

impl Serialize for EnvElem {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        if rt::type_is::<S, EnvSer>() {
            return rt::cast(emit_opaque(self.s));
        }
        if rt::get("loop") == 1 {
            if self.lvl == 5 {
                return drive_ser(s, 1);
            }
            if self.lvl >= 100 {
                if rt::get("other keys") == 0 {
                    return s.serialize_str(rt::tok("key", self.lvl - 100));
                }
                return s.serialize_i64(rt::tok("key", self.lvl - 100));
            }
            if rt::type_is::<S::Ok, crate::tape::Rec>() {
                return Ok(rt::cast(crate::tape::Rec::Opaque(self.s)));
            }
            return Ok(rt::app("captured", &self.s));
        }
        if rt::type_is::<S::Ok, Done>() || (rt::get("deep") == 1 && self.lvl == 1) {
            return drive_ser(s, 1);
        }
        if rt::get("hr") == 1 {
            rt::ev("hr of a captured part", (s.is_human_readable(),));
        }
        // captured by the code under analysis, to be written later
        if rt::get("watch") == 1 || rt::choose(CAP) == 0 {
            Ok(rt::app("captured", &self.s))
        } else {
            fail_ser()
        }
    }
}

pub const KINDS: &[&str] = &[
    "is:bool", "is:i8", "is:i16", "is:i32", "is:i64", "is:i128", "is:u8", "is:u16", "is:u32", "is:u64", "is:u128", "is:f32", "is:f64", "is:char",
    "is:str", "is:bytes", "is:none", "is:some", "is:unit", "is:unit_struct", "is:unit_variant", "is:newtype_struct", "is:newtype_variant", "is:seq",
    "is:tuple", "is:tuple_struct", "is:tuple_variant", "is:map", "is:struct", "is:struct_variant", "is:error",
];

pub fn next(i: usize) -> usize {
    if rt::get("loop") == 1 {
        i + 1
    } else {
        crate::env_de::next(i)
    }
}
/// one element of a long sequence, wherever it is, is told apart: from here on, it has to be written
fn given(i: usize) -> usize {
    if i == 888 && rt::get("watch") == 1 {
        rt::ev("the watched element is given", ());
    }
    i
}
pub const MORE: &[&str] = &["more", "no more", "fail"];
pub const MORE_MAP: &[&str] = &["more", "no more", "fail", "more-split"];
pub const MORE_FIELD: &[&str] = &["more", "no more", "fail", "skip"];
pub const LEN: &[&str] = &["len:known", "len:unknown"];

pub fn t<T>(label: &'static str, lvl: usize) -> T {
    rt::tok(label, lvl + 1)
}
pub fn len_hint(lvl: usize) -> Option<usize> {
    if rt::choose(LEN) == 0 {
        Some(len(lvl))
    } else if rt::get("loop") == 1 {
        let _ = len(lvl);
        None
    } else {
        rt::set(budget(lvl), 0);
        None
    }
}
fn budget(lvl: usize) -> &'static str {
    if lvl == 0 {
        "budget.0"
    } else {
        "budget.1"
    }
}
const LENS: &[&str] = &["declares 0", "declares 1", "declares 2", "declares 3"];
/// In the `lens` analyses the value declares a known number of parts and writes that many.
pub fn len(lvl: usize) -> usize {
    if rt::get("lens") == 0 {
        return t("len", lvl);
    }
    let n = if lvl == 0 && rt::get("deep") == 1 { 1 } else { rt::choose(LENS) };
    rt::set(budget(lvl), 2 + n);
    n
}
fn more(lvl: usize, l: &'static [&'static str]) -> usize {
    if rt::get("lens") == 1 {
        let b = rt::get(budget(lvl));
        if b == 2 {
            return 1;
        }
        if b > 2 {
            let k = rt::choose(l);
            if k == 1 {
                rt::stop()
            }
            if k == 0 || (k == 3 && l.len() == 4 && rt::same_str(l[3], "more-split")) {
                rt::set(budget(lvl), b - 1);
            }
            return k;
        }
    }
    rt::choose(l)
}
pub fn field_name(i: usize) -> &'static str {
    rt::tok("f", i)
}

/// The concrete value: any sequence of calls that the protocol of `Serializer` allows.
pub fn drive_ser<S: Serializer>(s: S, lvl: usize) -> Result<S::Ok, S::Error> {
    if rt::get("hr") == 1 {
        if rt::type_is::<S::Ok, Done>() {
            rt::ev("hr of the object", (s.is_human_readable(),));
        } else {
            rt::ev("hr of a captured part", (s.is_human_readable(),));
        }
    }
    let k = if (lvl == 0 && rt::get("loop") == 1) || (rt::get("watch") == 1 && lvl == rt::get("deep")) {
        rt::get("kind")
    } else if lvl == 0 && rt::get("deep") == 1 {
        24
    } else {
        rt::choose(KINDS)
    };
    if lvl == 1 && rt::get("loop") == 1 {
        if k == 21 || k == 30 || (rt::get("late") == 1 && crate::tape::needs_tag_first(k)) {
            rt::stop()
        }
        rt::set("kind.1", k);
    }
    match k {
        0 => s.serialize_bool(t("b", lvl)),
        1 => s.serialize_i8(t("n", lvl)),
        2 => s.serialize_i16(t("n", lvl)),
        3 => s.serialize_i32(t("n", lvl)),
        4 => s.serialize_i64(t("n", lvl)),
        5 => s.serialize_i128(t("n", lvl)),
        6 => s.serialize_u8(t("n", lvl)),
        7 => s.serialize_u16(t("n", lvl)),
        8 => s.serialize_u32(t("n", lvl)),
        9 => s.serialize_u64(t("n", lvl)),
        10 => s.serialize_u128(t("n", lvl)),
        11 => s.serialize_f32(t("x", lvl)),
        12 => s.serialize_f64(t("x", lvl)),
        13 => s.serialize_char(t("c", lvl)),
        14 => s.serialize_str(t("s", lvl)),
        15 => s.serialize_bytes(t("bytes", lvl)),
        16 => s.serialize_none(),
        17 => s.serialize_some(&elem(1, lvl + 1)),
        18 => s.serialize_unit(),
        19 => s.serialize_unit_struct(t("name", lvl)),
        20 => s.serialize_unit_variant(t("name", lvl), t("idx", lvl), t("var", lvl)),
        21 => {
            if lvl == 1 && rt::type_is::<S::Ok, Done>() {
                // a newtype in a newtype repeats the outer case
                rt::stop()
            }
            let e = elem(1, lvl + 1);
            let e = if rt::get("loop") == 1 { EnvElem { s: e.s, lvl: 5 } } else { e };
            s.serialize_newtype_struct(t("name", lvl), &e)
        }
        22 => s.serialize_newtype_variant(t("name", lvl), t("idx", lvl), t("var", lvl), &elem(1, lvl + 1)),
        23 => {
            let mut c = s.serialize_seq(len_hint(lvl))?;
            let mut i = 0;
            loop {
                match more(lvl, MORE) {
                    0 => {
                        i = given(next(i));
                        c.serialize_element(&elem(i, lvl + 1))?
                    }
                    1 => return c.end(),
                    _ => return fail_ser(),
                }
            }
        }
        24 => {
            let mut c = s.serialize_tuple(len(lvl))?;
            let mut i = 0;
            loop {
                match more(lvl, MORE) {
                    0 => {
                        if lvl == 0 && rt::get("deep") == 1 && i == 1 {
                            rt::stop()
                        }
                        i = given(next(i));
                        c.serialize_element(&elem(i, lvl + 1))?
                    }
                    1 => return c.end(),
                    _ => return fail_ser(),
                }
            }
        }
        25 => {
            let mut c = s.serialize_tuple_struct(t("name", lvl), len(lvl))?;
            let mut i = 0;
            loop {
                match more(lvl, MORE) {
                    0 => {
                        i = given(next(i));
                        c.serialize_field(&elem(i, lvl + 1))?
                    }
                    1 => return c.end(),
                    _ => return fail_ser(),
                }
            }
        }
        26 => {
            let mut c = s.serialize_tuple_variant(t("name", lvl), t("idx", lvl), t("var", lvl), len(lvl))?;
            let mut i = 0;
            loop {
                match more(lvl, MORE) {
                    0 => {
                        i = given(next(i));
                        c.serialize_field(&elem(i, lvl + 1))?
                    }
                    1 => return c.end(),
                    _ => return fail_ser(),
                }
            }
        }
        27 => {
            let mut c = s.serialize_map(len_hint(lvl))?;
            let mut i = 0;
            loop {
                match more(lvl, MORE_MAP) {
                    0 => {
                        i = given(next(i));
                        c.serialize_entry(&key(i, lvl + 1), &elem(i, lvl + 1))?
                    }
                    1 => return c.end(),
                    2 => return fail_ser(),
                    _ => {
                        i = given(next(i));
                        c.serialize_key(&key(i, lvl + 1))?;
                        c.serialize_value(&elem(i, lvl + 1))?
                    }
                }
            }
        }
        28 => {
            let mut c = s.serialize_struct(t("name", lvl), len(lvl))?;
            let mut i = 0;
            loop {
                match more(lvl, MORE_FIELD) {
                    0 => {
                        i = given(next(i));
                        c.serialize_field(field_name(i), &elem(i, lvl + 1))?
                    }
                    1 => return c.end(),
                    2 => return fail_ser(),
                    _ => {
                        if rt::get("loop") == 0 {
                            i = given(next(i));
                        }
                        c.skip_field(field_name(i))?
                    }
                }
            }
        }
        29 => {
            let mut c = s.serialize_struct_variant(t("name", lvl), t("idx", lvl), t("var", lvl), len(lvl))?;
            let mut i = 0;
            loop {
                match more(lvl, MORE_FIELD) {
                    0 => {
                        i = given(next(i));
                        c.serialize_field(field_name(i), &elem(i, lvl + 1))?
                    }
                    1 => return c.end(),
                    2 => return fail_ser(),
                    _ => {
                        if rt::get("loop") == 0 {
                            i = given(next(i));
                        }
                        c.skip_field(field_name(i))?
                    }
                }
            }
        }
        _ => fail_ser(),
    }
}

pub fn key(i: usize, lvl: usize) -> EnvElem {
    EnvElem { s: rt::tok(if lvl == 1 { "k" } else { "kk" }, i), lvl: if rt::get("loop") == 1 { 100 + i } else { 2 } }
}
