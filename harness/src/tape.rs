//! A format that keeps what is written to it, and gives it back: either only to whoever asks for exactly what was
//! written (as formats that do not describe themselves require), or to anybody (as formats that do).
use crate::env_de::*;
use crate::env_ser::*;
use crate::err::*;
use crate::fixtures;
use crate::rt::{self, Sym};
use alloc::boxed::Box;
use alloc::vec::{self, Vec};
use serde::de::{self, DeserializeSeed, Deserializer, EnumAccess, MapAccess, SeqAccess, VariantAccess, Visitor};
use serde::ser::{self, Serialize, Serializer};

/// What was written. Kinds are numbered like the requests of the reading side.
pub enum Rec {
    Scalar(usize, Sym),
    Nothing(usize),
    One(usize, Box<Rec>),
    Many(usize, Vec<Rec>),
    Fields(Vec<(Rec, Rec)>),
    Map(Vec<(Rec, Rec)>),
    Variant(usize, Sym, Box<Rec>),
    Opaque(Sym),
}
const BOOL: usize = 1;
const STR: usize = 15;
const BYTES: usize = 17;
const NONE: usize = 19;
const UNIT: usize = 20;
const UNIT_STRUCT: usize = 21;
const NEWTYPE: usize = 22;
const SEQ: usize = 23;
const TUPLE: usize = 24;
const TUPLE_STRUCT: usize = 25;

pub struct TapeSer;
pub struct Parts {
    kind: usize,
    var: Option<Sym>,
    declared: Option<usize>,
    n: usize,
    v: Vec<Rec>,
}
pub struct Entries {
    fields: bool,
    var: Option<Sym>,
    declared: Option<usize>,
    n: usize,
    v: Vec<(Rec, Rec)>,
    key: Option<Rec>,
}

macro_rules! scalars {
    ($($m:ident $k:literal $t:ty;)*) => {$(
        fn $m(self, v: $t) -> Result<Rec, EnvErr> {
            Ok(Rec::Scalar($k, rt::cast(v)))
        }
    )*};
}
impl Serializer for TapeSer {
    type Ok = Rec;
    type Error = EnvErr;
    type SerializeSeq = Parts;
    type SerializeTuple = Parts;
    type SerializeTupleStruct = Parts;
    type SerializeTupleVariant = Parts;
    type SerializeMap = Entries;
    type SerializeStruct = Entries;
    type SerializeStructVariant = Entries;
    scalars! {
        serialize_bool 1 bool;
        serialize_i8 2 i8;
        serialize_i16 3 i16;
        serialize_i32 4 i32;
        serialize_i64 5 i64;
        serialize_i128 6 i128;
        serialize_u8 7 u8;
        serialize_u16 8 u16;
        serialize_u32 9 u32;
        serialize_u64 10 u64;
        serialize_u128 11 u128;
        serialize_f32 12 f32;
        serialize_f64 13 f64;
        serialize_char 14 char;
        serialize_str 15 &str;
        serialize_bytes 17 &[u8];
    }
    fn serialize_none(self) -> Result<Rec, EnvErr> {
        Ok(Rec::Nothing(NONE))
    }
    fn serialize_unit(self) -> Result<Rec, EnvErr> {
        Ok(Rec::Nothing(UNIT))
    }
    fn serialize_unit_struct(self, n: &'static str) -> Result<Rec, EnvErr> {
        Ok(Rec::Nothing(UNIT_STRUCT))
    }
    fn serialize_some<T: ?Sized + Serialize>(self, v: &T) -> Result<Rec, EnvErr> {
        Ok(Rec::One(NONE, Box::new(v.serialize(TapeSer)?)))
    }
    fn serialize_unit_variant(self, n: &'static str, i: u32, v: &'static str) -> Result<Rec, EnvErr> {
        Ok(Rec::Variant(0, rt::cast(v), Box::new(Rec::Nothing(UNIT))))
    }
    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, n: &'static str, v: &T) -> Result<Rec, EnvErr> {
        Ok(Rec::One(NEWTYPE, Box::new(v.serialize(TapeSer)?)))
    }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(self, n: &'static str, i: u32, var: &'static str, v: &T) -> Result<Rec, EnvErr> {
        Ok(Rec::Variant(1, rt::cast(var), Box::new(v.serialize(TapeSer)?)))
    }
    fn serialize_seq(self, len: Option<usize>) -> Result<Parts, EnvErr> {
        Ok(parts(SEQ, None, len))
    }
    fn serialize_tuple(self, len: usize) -> Result<Parts, EnvErr> {
        Ok(parts(TUPLE, None, Some(len)))
    }
    fn serialize_tuple_struct(self, n: &'static str, len: usize) -> Result<Parts, EnvErr> {
        Ok(parts(TUPLE_STRUCT, None, Some(len)))
    }
    fn serialize_tuple_variant(self, n: &'static str, i: u32, v: &'static str, len: usize) -> Result<Parts, EnvErr> {
        Ok(parts(TUPLE, Some(rt::cast(v)), Some(len)))
    }
    fn serialize_map(self, len: Option<usize>) -> Result<Entries, EnvErr> {
        Ok(entries(false, None, len))
    }
    fn serialize_struct(self, n: &'static str, len: usize) -> Result<Entries, EnvErr> {
        Ok(entries(true, None, Some(len)))
    }
    fn serialize_struct_variant(self, n: &'static str, i: u32, v: &'static str, len: usize) -> Result<Entries, EnvErr> {
        Ok(entries(true, Some(rt::cast(v)), Some(len)))
    }
    fn is_human_readable(&self) -> bool {
        hr()
    }
}
fn parts(kind: usize, var: Option<Sym>, declared: Option<usize>) -> Parts {
    Parts { kind, var, declared, n: 0, v: Vec::new() }
}
fn entries(fields: bool, var: Option<Sym>, declared: Option<usize>) -> Entries {
    Entries { fields, var, declared, n: 0, v: Vec::new(), key: None }
}
fn check(declared: Option<usize>, n: usize) {
    if let Some(d) = declared {
        if d != n {
            rt::ev("another length was declared than written", ());
        }
    }
}
impl Parts {
    fn close(self) -> Result<Rec, EnvErr> {
        check(self.declared, self.n);
        let r = Rec::Many(self.kind, self.v);
        Ok(match self.var {
            None => r,
            Some(v) => Rec::Variant(2, v, Box::new(r)),
        })
    }
}
macro_rules! elems {
    ($($tr:ident $m:ident)*) => {$(
        impl ser::$tr for Parts {
            type Ok = Rec;
            type Error = EnvErr;
            fn $m<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), EnvErr> {
                let r = v.serialize(TapeSer)?;
                self.n += 1;
                self.v.push(r);
                Ok(())
            }
            fn end(self) -> Result<Rec, EnvErr> {
                self.close()
            }
        }
    )*};
}
elems! {
    SerializeSeq serialize_element
    SerializeTuple serialize_element
    SerializeTupleStruct serialize_field
    SerializeTupleVariant serialize_field
}
impl Entries {
    fn close(self) -> Result<Rec, EnvErr> {
        check(self.declared, self.n);
        let r = if self.fields { Rec::Fields(self.v) } else { Rec::Map(self.v) };
        Ok(match self.var {
            None => r,
            Some(v) => Rec::Variant(3, v, Box::new(r)),
        })
    }
}
macro_rules! fields {
    ($($tr:ident)*) => {$(
        impl ser::$tr for Entries {
            type Ok = Rec;
            type Error = EnvErr;
            fn serialize_field<T: ?Sized + Serialize>(&mut self, k: &'static str, v: &T) -> Result<(), EnvErr> {
                let r = v.serialize(TapeSer)?;
                self.n += 1;
                self.v.push((Rec::Scalar(STR, rt::cast(k)), r));
                Ok(())
            }
            fn end(self) -> Result<Rec, EnvErr> {
                self.close()
            }
        }
    )*};
}
fields! { SerializeStruct SerializeStructVariant }
impl ser::SerializeMap for Entries {
    type Ok = Rec;
    type Error = EnvErr;
    fn serialize_key<T: ?Sized + Serialize>(&mut self, k: &T) -> Result<(), EnvErr> {
        self.key = Some(k.serialize(TapeSer)?);
        Ok(())
    }
    fn serialize_value<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), EnvErr> {
        let r = v.serialize(TapeSer)?;
        match self.key.take() {
            Some(k) => {
                self.n += 1;
                self.v.push((k, r));
            }
            None => rt::ev("PROTOCOL: value without key", ()),
        }
        Ok(())
    }
    fn end(self) -> Result<Rec, EnvErr> {
        self.close()
    }
}

// ------------------------------------------------------------------------------------ reading

pub struct TapeDe {
    pub r: Rec,
    pub top: bool,
}
fn de(r: Rec) -> TapeDe {
    TapeDe { r, top: false }
}
pub fn strict() -> bool {
    rt::get("strict") == 1
}
fn kind(r: &Rec) -> usize {
    match r {
        Rec::Scalar(k, _) | Rec::Nothing(k) | Rec::One(k, _) | Rec::Many(k, _) => *k,
        Rec::Map(_) => 26,
        Rec::Fields(_) => 27,
        Rec::Variant(..) => 28,
        Rec::Opaque(_) => 0,
    }
}
impl TapeDe {
    fn ask<'de, V: Visitor<'de>>(self, want: usize, v: V) -> Result<V::Value, EnvErr> {
        if let Rec::Opaque(s) = self.r {
            if want != 0 && strict() {
                rt::ev("a part of the value is asked for something else than itself", (REQ[want],));
                return Err(EnvErr(rt::tok("err", 0)));
            }
            if rt::type_is::<V, EnvVisitor>() {
                return read_part(s);
            }
            if strict() {
                rt::ev("a part of the value is asked to describe itself", ());
                return Err(EnvErr(rt::tok("err", 0)));
            }
            return Ok(rt::app("captured", &s));
        }
        if strict() && kind(&self.r) == 27 && want == 27 && !rt::type_is::<V, EnvVisitor>() {
            // typetag's own struct: a format may number the fields
            if let Rec::Fields(p) = self.r {
                if rt::nondet(2) == 0 {
                    return v.visit_seq(TapeFields { v: p.into_iter() });
                }
                return v.visit_map(TapeMap { v: p.into_iter(), last: None, value: None });
            }
            return Err(EnvErr(rt::tok("err", 0)));
        }
        if strict() && kind(&self.r) != want && !(kind(&self.r) == 15 && (want == 16 || want == 29)) && !(kind(&self.r) == 17 && want == 18) && !(kind(&self.r) == 25 && want == 24) {
            rt::ev("read otherwise than written", (REQ[want], REQ[kind(&self.r)]));
            return Err(EnvErr(rt::tok("err", 0)));
        }
        if want == 30 {
            return v.visit_unit();
        }
        if !strict() && want != kind(&self.r) {
            // formats that describe themselves may not tell these from plain maps, strings and values
            match self.r {
                Rec::Variant(0, name, _) => return v.visit_str(rt::cast(name)),
                Rec::Variant(_, name, r) => {
                    let mut p = Vec::new();
                    p.push((Rec::Scalar(STR, name), *r));
                    return v.visit_map(TapeMap { v: p.into_iter(), last: None, value: None });
                }
                Rec::One(NEWTYPE, r) if rt::nondet(2) == 0 => return de(*r).ask(want, v),
                r => return de(r).give(v),
            }
        }
        self.give(v)
    }
    pub fn give<'de, V: Visitor<'de>>(self, v: V) -> Result<V::Value, EnvErr> {
        match self.r {
            Rec::Scalar(k, s) => match k {
                1 => v.visit_bool(rt::cast(s)),
                2 => v.visit_i8(rt::cast(s)),
                3 => v.visit_i16(rt::cast(s)),
                4 => v.visit_i32(rt::cast(s)),
                5 => v.visit_i64(rt::cast(s)),
                6 => v.visit_i128(rt::cast(s)),
                7 => v.visit_u8(rt::cast(s)),
                8 => v.visit_u16(rt::cast(s)),
                9 => v.visit_u32(rt::cast(s)),
                10 => v.visit_u64(rt::cast(s)),
                11 => v.visit_u128(rt::cast(s)),
                12 => v.visit_f32(rt::cast(s)),
                13 => v.visit_f64(rt::cast(s)),
                14 => v.visit_char(rt::cast(s)),
                15 => v.visit_str(rt::cast(s)),
                _ => v.visit_bytes(rt::cast(s)),
            },
            Rec::Nothing(NONE) => v.visit_none(),
            Rec::Nothing(_) => v.visit_unit(),
            Rec::One(NONE, r) => v.visit_some(de(*r)),
            Rec::One(_, r) => v.visit_newtype_struct(de(*r)),
            Rec::Many(_, p) => v.visit_seq(TapeSeq { v: p.into_iter() }),
            Rec::Fields(p) | Rec::Map(p) => {
                let mut v2 = p.into_iter();
                let last = if self.top && rt::get("late") == 1 { v2.next() } else { None };
                v.visit_map(TapeMap { v: v2, last, value: None })
            }
            Rec::Variant(shape, name, r) => v.visit_enum(TapeEnum { shape, name, r: *r }),
            Rec::Opaque(s) => {
                rt::ev("a part of the value was taken for the whole", ());
                Err(EnvErr(rt::tok("err", 0)))
            }
        }
    }
}
/// the concrete type reads one of its parts
pub fn read_part<T>(s: Sym) -> Result<T, EnvErr> {
    rt::ev("reads", (s,));
    rt::cast(accept_part())
}
fn accept_part() -> Result<Sym, EnvErr> {
    Ok(obj())
}

macro_rules! ask {
    ($($m:ident($($a:ident: $t:ty),*) $k:literal;)*) => {$(
        fn $m<V: Visitor<'de>>(self, $($a: $t,)* v: V) -> Result<V::Value, EnvErr> {
            self.ask($k, v)
        }
    )*};
}
impl<'de> Deserializer<'de> for TapeDe {
    type Error = EnvErr;
    fn is_human_readable(&self) -> bool {
        hr()
    }
    ask! {
        deserialize_any() 0;
        deserialize_bool() 1;
        deserialize_i8() 2;
        deserialize_i16() 3;
        deserialize_i32() 4;
        deserialize_i64() 5;
        deserialize_i128() 6;
        deserialize_u8() 7;
        deserialize_u16() 8;
        deserialize_u32() 9;
        deserialize_u64() 10;
        deserialize_u128() 11;
        deserialize_f32() 12;
        deserialize_f64() 13;
        deserialize_char() 14;
        deserialize_str() 15;
        deserialize_string() 16;
        deserialize_bytes() 17;
        deserialize_byte_buf() 18;
        deserialize_option() 19;
        deserialize_unit() 20;
        deserialize_unit_struct(n: &'static str) 21;
        deserialize_newtype_struct(n: &'static str) 22;
        deserialize_seq() 23;
        deserialize_tuple(l: usize) 24;
        deserialize_tuple_struct(n: &'static str, l: usize) 25;
        deserialize_map() 26;
        deserialize_struct(n: &'static str, f: &'static [&'static str]) 27;
        deserialize_enum(n: &'static str, f: &'static [&'static str]) 28;
        deserialize_identifier() 29;
        deserialize_ignored_any() 30;
    }
}
struct TapeSeq {
    v: vec::IntoIter<Rec>,
}
impl<'de> SeqAccess<'de> for TapeSeq {
    type Error = EnvErr;
    fn next_element_seed<K: DeserializeSeed<'de>>(&mut self, seed: K) -> Result<Option<K::Value>, EnvErr> {
        match self.v.next() {
            Some(r) => Ok(Some(seed.deserialize(de(r))?)),
            None => Ok(None),
        }
    }
}
struct TapeFields {
    v: vec::IntoIter<(Rec, Rec)>,
}
impl<'de> SeqAccess<'de> for TapeFields {
    type Error = EnvErr;
    fn next_element_seed<K: DeserializeSeed<'de>>(&mut self, seed: K) -> Result<Option<K::Value>, EnvErr> {
        match self.v.next() {
            Some((_, r)) => Ok(Some(seed.deserialize(de(r))?)),
            None => Ok(None),
        }
    }
}
struct TapeMap {
    v: vec::IntoIter<(Rec, Rec)>,
    last: Option<(Rec, Rec)>,
    value: Option<Rec>,
}
impl<'de> MapAccess<'de> for TapeMap {
    type Error = EnvErr;
    fn next_key_seed<K: DeserializeSeed<'de>>(&mut self, seed: K) -> Result<Option<K::Value>, EnvErr> {
        let e = match self.v.next() {
            Some(e) => Some(e),
            None => self.last.take(),
        };
        match e {
            Some((k, v)) => {
                self.value = Some(v);
                Ok(Some(seed.deserialize(de(k))?))
            }
            None => Ok(None),
        }
    }
    fn next_value_seed<K: DeserializeSeed<'de>>(&mut self, seed: K) -> Result<K::Value, EnvErr> {
        match self.value.take() {
            Some(v) => seed.deserialize(de(v)),
            None => {
                rt::ev("PROTOCOL: value requested without a key", ());
                Err(EnvErr(rt::tok("err", 0)))
            }
        }
    }
}
struct TapeEnum {
    shape: usize,
    name: Sym,
    r: Rec,
}
impl<'de> EnumAccess<'de> for TapeEnum {
    type Error = EnvErr;
    type Variant = TapeEnum;
    fn variant_seed<K: DeserializeSeed<'de>>(self, seed: K) -> Result<(K::Value, TapeEnum), EnvErr> {
        let k = seed.deserialize(de(Rec::Scalar(STR, self.name)))?;
        Ok((k, self))
    }
}
impl TapeEnum {
    fn is(&self, shape: usize) -> bool {
        if self.shape != shape {
            rt::ev("a variant is read in another shape than written", ());
        }
        self.shape == shape
    }
}
impl<'de> VariantAccess<'de> for TapeEnum {
    type Error = EnvErr;
    fn unit_variant(self) -> Result<(), EnvErr> {
        self.is(0);
        Ok(())
    }
    fn newtype_variant_seed<K: DeserializeSeed<'de>>(self, seed: K) -> Result<K::Value, EnvErr> {
        self.is(1);
        seed.deserialize(de(self.r))
    }
    fn tuple_variant<V: Visitor<'de>>(self, l: usize, v: V) -> Result<V::Value, EnvErr> {
        self.is(2);
        de(self.r).give(v)
    }
    fn struct_variant<V: Visitor<'de>>(self, f: &'static [&'static str], v: V) -> Result<V::Value, EnvErr> {
        self.is(3);
        de(self.r).give(v)
    }
}

// -------------------------------------------------------------------------------------- roots

/// the request that fits a kind of value
pub fn request(k: usize) -> usize {
    match k {
        0 => 1,
        1 => 2,
        2 => 3,
        3 => 4,
        4 => 5,
        5 => 6,
        6 => 7,
        7 => 8,
        8 => 9,
        9 => 10,
        10 => 11,
        11 => 12,
        12 => 13,
        13 => 14,
        14 => 15,
        15 => 17,
        16 | 17 => 19,
        18 => 20,
        19 => 21,
        21 => 22,
        23 => 23,
        24 => 24,
        25 => 25,
        27 => 26,
        28 => 27,
        _ => 28,
    }
}
/// the kinds whose own late root shows that they cannot be read back; a newtype of one is read as the one
pub fn needs_tag_first(k: usize) -> bool {
    k == 5 || k == 10
}
fn setup(k: usize) {
    rt::set("loop", 1);
    rt::set("lens", 1);
    rt::set("kind", k);
    rt::set("force", request(k));
}
macro_rules! looped {
    ($f:ident $m:ident) => {
        fn $f(k: usize) -> Result<Sym, EnvErr> {
            setup(k);
            let b: Box<dyn fixtures::$m::Tr> = Box::new(fixtures::$m::Val(rt::tok("value", 0)));
            let r = match Serialize::serialize(&*b, TapeSer) {
                Ok(r) => r,
                Err(e) => return Err(e),
            };
            rt::ev("written", ());
            match <Box<dyn fixtures::$m::Tr> as de::Deserialize>::deserialize(TapeDe { r, top: true }) {
                Ok(b) => Ok(rt::cast(b)),
                Err(e) => Err(e),
            }
        }
    };
}
looped!(looped int);
looped!(looped_ext ext);
looped!(looped_adj adj);
fn spec_looped(k: usize) -> Result<Sym, EnvErr> {
    setup(k);
    let r = match drive_ser(TapeSer, 0) {
        Ok(r) => r,
        Err(e) => return Err(e),
    };
    rt::ev("written", ());
    rt::ev("apply", (rt::tok::<Sym>("fn.A", 0),));
    TapeDe { r, top: false }.give(EnvVisitor { lvl: 0 })
}
macro_rules! loops {
    ($($strict:ident $late:ident $spec:ident $ext:ident $adj:ident $adjlate:ident $k:literal $(($key:literal))*;)*) => {$(
        pub fn $strict() -> Result<Sym, EnvErr> {
            $(rt::set($key, 1);)*
            rt::set("strict", 1);
            looped($k)
        }
        pub fn $late() -> Result<Sym, EnvErr> {
            $(rt::set($key, 1);)*
            rt::set("late", 1);
            looped($k)
        }
        pub fn $ext() -> Result<Sym, EnvErr> {
            $(rt::set($key, 1);)*
            rt::set("strict", 1);
            looped_ext($k)
        }
        pub fn $adj() -> Result<Sym, EnvErr> {
            $(rt::set($key, 1);)*
            rt::set("strict", 1);
            looped_adj($k)
        }
        pub fn $adjlate() -> Result<Sym, EnvErr> {
            $(rt::set($key, 1);)*
            rt::set("late", 1);
            looped_adj($k)
        }
        pub fn $spec() -> Result<Sym, EnvErr> {
            $(rt::set($key, 1);)*
            spec_looped($k)
        }
    )*};
}
pub fn root_spec_late_newtype() -> Result<Sym, EnvErr> {
    rt::set("late", 1);
    root_spec_loop_newtype()
}
loops! {
    root_loop_bool root_late_bool root_spec_loop_bool root_loopext_bool root_loopadj_bool root_lateadj_bool 0;
    root_loop_i8 root_late_i8 root_spec_loop_i8 root_loopext_i8 root_loopadj_i8 root_lateadj_i8 1;
    root_loop_i16 root_late_i16 root_spec_loop_i16 root_loopext_i16 root_loopadj_i16 root_lateadj_i16 2;
    root_loop_i32 root_late_i32 root_spec_loop_i32 root_loopext_i32 root_loopadj_i32 root_lateadj_i32 3;
    root_loop_i64 root_late_i64 root_spec_loop_i64 root_loopext_i64 root_loopadj_i64 root_lateadj_i64 4;
    root_loop_i128 root_late_i128 root_spec_loop_i128 root_loopext_i128 root_loopadj_i128 root_lateadj_i128 5;
    root_loop_u8 root_late_u8 root_spec_loop_u8 root_loopext_u8 root_loopadj_u8 root_lateadj_u8 6;
    root_loop_u16 root_late_u16 root_spec_loop_u16 root_loopext_u16 root_loopadj_u16 root_lateadj_u16 7;
    root_loop_u32 root_late_u32 root_spec_loop_u32 root_loopext_u32 root_loopadj_u32 root_lateadj_u32 8;
    root_loop_u64 root_late_u64 root_spec_loop_u64 root_loopext_u64 root_loopadj_u64 root_lateadj_u64 9;
    root_loop_u128 root_late_u128 root_spec_loop_u128 root_loopext_u128 root_loopadj_u128 root_lateadj_u128 10;
    root_loop_f32 root_late_f32 root_spec_loop_f32 root_loopext_f32 root_loopadj_f32 root_lateadj_f32 11;
    root_loop_f64 root_late_f64 root_spec_loop_f64 root_loopext_f64 root_loopadj_f64 root_lateadj_f64 12;
    root_loop_char root_late_char root_spec_loop_char root_loopext_char root_loopadj_char root_lateadj_char 13;
    root_loop_str root_late_str root_spec_loop_str root_loopext_str root_loopadj_str root_lateadj_str 14;
    root_loop_bytes root_late_bytes root_spec_loop_bytes root_loopext_bytes root_loopadj_bytes root_lateadj_bytes 15;
    root_loop_none root_late_none root_spec_loop_none root_loopext_none root_loopadj_none root_lateadj_none 16;
    root_loop_some root_late_some root_spec_loop_some root_loopext_some root_loopadj_some root_lateadj_some 17;
    root_loop_unit root_late_unit root_spec_loop_unit root_loopext_unit root_loopadj_unit root_lateadj_unit 18;
    root_loop_unit_struct root_late_unit_struct root_spec_loop_unit_struct root_loopext_unit_struct root_loopadj_unit_struct root_lateadj_unit_struct 19;
    root_loop_unit_variant root_late_unit_variant root_spec_loop_unit_variant root_loopext_unit_variant root_loopadj_unit_variant root_lateadj_unit_variant 20;
    root_loop_newtype root_late_newtype root_spec_loop_newtype root_loopext_newtype root_loopadj_newtype root_lateadj_newtype 21;
    root_loop_newtype_variant root_late_newtype_variant root_spec_loop_newtype_variant root_loopext_newtype_variant root_loopadj_newtype_variant root_lateadj_newtype_variant 22;
    root_loop_seq root_late_seq root_spec_loop_seq root_loopext_seq root_loopadj_seq root_lateadj_seq 23;
    root_loop_tuple root_late_tuple root_spec_loop_tuple root_loopext_tuple root_loopadj_tuple root_lateadj_tuple 24;
    root_loop_tuple_struct root_late_tuple_struct root_spec_loop_tuple_struct root_loopext_tuple_struct root_loopadj_tuple_struct root_lateadj_tuple_struct 25;
    root_loop_tuple_variant root_late_tuple_variant root_spec_loop_tuple_variant root_loopext_tuple_variant root_loopadj_tuple_variant root_lateadj_tuple_variant 26;
    root_loop_map root_late_map root_spec_loop_map root_loopext_map root_loopadj_map root_lateadj_map 27;
    root_loop_map_keys root_late_map_keys root_spec_loop_map_keys root_loopext_map_keys root_loopadj_map_keys root_lateadj_map_keys 27 ("other keys");
    root_loop_struct root_late_struct root_spec_loop_struct root_loopext_struct root_loopadj_struct root_lateadj_struct 28;
    root_loop_struct_variant root_late_struct_variant root_spec_loop_struct_variant root_loopext_struct_variant root_loopadj_struct_variant root_lateadj_struct_variant 29;
}
