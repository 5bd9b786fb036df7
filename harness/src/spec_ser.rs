//! Reference transducer for writing internally tagged objects.
use crate::env_ser::*;
use crate::err::*;
use crate::rt::{self, Sym};
use alloc::boxed::Box;
use alloc::vec::Vec;
use serde::ser::*;

pub struct SpecInt {
    pub tag: &'static str,
    pub name: &'static str,
}

type R = Result<Done, EnvErr>;

impl SpecInt {
    fn open(&self, len: Option<usize>) -> Result<EnvCompound, EnvErr> {
        let mut m = EnvSer.serialize_map(len)?;
        m.serialize_key(self.tag)?;
        m.serialize_value(self.name)?;
        Ok(m)
    }
    fn bare(self) -> R {
        let m = self.open(Some(1))?;
        SerializeMap::end(m)
    }
    fn under<T: ?Sized + Serialize>(self, key: &'static str, v: &T) -> R {
        let mut m = self.open(Some(2))?;
        m.serialize_key(key)?;
        m.serialize_value(v)?;
        SerializeMap::end(m)
    }
    fn collect(self, key: &'static str, kind: u8, a: Sym) -> Result<Collect, EnvErr> {
        let mut m = self.open(Some(2))?;
        m.serialize_key(key)?;
        Ok(Collect { m: Some(m), key: None, c: SC::List(kind, a, a, a, Vec::new()) })
    }
}

struct Bytes<'a>(&'a [u8]);
impl<'a> Serialize for Bytes<'a> {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_bytes(self.0)
    }
}

fn nil() -> Sym {
    rt::tok("nil", 0)
}
fn sym<T>(x: T) -> Sym {
    rt::cast(x)
}

macro_rules! spec_scalar {
    ($($m:ident $t:ty;)*) => {$(
        fn $m(self, v: $t) -> R {
            self.under("value", &v)
        }
    )*};
}

impl Serializer for SpecInt {
    type Ok = Done;
    type Error = EnvErr;
    type SerializeSeq = Collect;
    type SerializeTuple = Collect;
    type SerializeTupleStruct = Collect;
    type SerializeTupleVariant = Collect;
    type SerializeMap = Stream;
    type SerializeStruct = Stream;
    type SerializeStructVariant = Collect;
    spec_scalar! {
        serialize_bool bool;
        serialize_i8 i8;
        serialize_i16 i16;
        serialize_i32 i32;
        serialize_i64 i64;
        serialize_i128 i128;
        serialize_u8 u8;
        serialize_u16 u16;
        serialize_u32 u32;
        serialize_u64 u64;
        serialize_u128 u128;
        serialize_f32 f32;
        serialize_f64 f64;
        serialize_char char;
    }
    fn serialize_str(self, v: &str) -> R {
        self.under("value", v)
    }
    fn serialize_bytes(self, v: &[u8]) -> R {
        self.under("value", &Bytes(v))
    }
    fn serialize_none(self) -> R {
        self.bare()
    }
    fn serialize_unit(self) -> R {
        self.bare()
    }
    fn serialize_unit_struct(self, _: &'static str) -> R {
        self.bare()
    }
    fn serialize_some<T: ?Sized + Serialize>(self, v: &T) -> R {
        self.under("value", v)
    }
    fn serialize_unit_variant(self, _: &'static str, _: u32, var: &'static str) -> R {
        self.under(var, &())
    }
    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, v: &T) -> R {
        v.serialize(self)
    }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(self, _: &'static str, _: u32, var: &'static str, v: &T) -> R {
        self.under(var, v)
    }
    fn serialize_seq(self, _: Option<usize>) -> Result<Collect, EnvErr> {
        self.collect("value", SEQ, nil())
    }
    fn serialize_tuple(self, _: usize) -> Result<Collect, EnvErr> {
        self.collect("value", TUPLE, nil())
    }
    fn serialize_tuple_struct(self, n: &'static str, _: usize) -> Result<Collect, EnvErr> {
        self.collect("value", TUPLE_STRUCT, sym(n))
    }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, var: &'static str, _: usize) -> Result<Collect, EnvErr> {
        self.collect(var, TUPLE_STRUCT, sym(var))
    }
    fn serialize_map(self, len: Option<usize>) -> Result<Stream, EnvErr> {
        let len = match len {
            Some(n) => Some(n + 1),
            None => None,
        };
        Ok(Stream { m: self.open(len)?, tag: self.tag, name: self.name })
    }
    fn serialize_struct(self, _: &'static str, len: usize) -> Result<Stream, EnvErr> {
        Ok(Stream { m: self.open(Some(len + 1))?, tag: self.tag, name: self.name })
    }
    fn serialize_struct_variant(self, _: &'static str, _: u32, var: &'static str, _: usize) -> Result<Collect, EnvErr> {
        let mut c = self.collect(var, STRUCT, sym(var))?;
        Ok(c)
    }
}

/// entries go straight through
pub struct Stream {
    m: EnvCompound,
    tag: &'static str,
    name: &'static str,
}
impl SerializeMap for Stream {
    type Ok = Done;
    type Error = EnvErr;
    fn serialize_key<T: ?Sized + Serialize>(&mut self, k: &T) -> Result<(), EnvErr> {
        self.m.serialize_key(k)
    }
    fn serialize_value<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), EnvErr> {
        self.m.serialize_value(v)
    }
    fn end(self) -> R {
        SerializeMap::end(self.m)
    }
}
impl SerializeStruct for Stream {
    type Ok = Done;
    type Error = EnvErr;
    fn serialize_field<T: ?Sized + Serialize>(&mut self, k: &'static str, v: &T) -> Result<(), EnvErr> {
        if rt::same_str(k, self.tag) {
            // the same tag again, or nothing
            let same = match v.serialize(SpecCapture) {
                Ok(c) => c.says(self.name),
                Err(_) => false,
            };
            return if same { Ok(()) } else { Err(EnvErr(rt::tok("local:mismatched tag", 0))) };
        }
        self.m.serialize_key(k)?;
        self.m.serialize_value(v)
    }
    fn end(self) -> R {
        SerializeMap::end(self.m)
    }
}

pub const SEQ: u8 = 0;
pub const TUPLE: u8 = 1;
pub const TUPLE_STRUCT: u8 = 2;
pub const TUPLE_VARIANT: u8 = 3;
pub const STRUCT: u8 = 4;
pub const STRUCT_VARIANT: u8 = 5;
pub const MAP: u8 = 6;

/// A value remembered exactly as it was written.
pub enum SC {
    Scalar(u8, Sym),
    Names(u8, Sym, Sym, Sym),
    Inner(u8, Sym, Sym, Sym, Box<SC>),
    List(u8, Sym, Sym, Sym, Vec<(Option<SC>, SC)>),
}

impl SC {
    /// a string (or one character, through options and newtypes) equal to `name`
    fn says(&self, name: &'static str) -> bool {
        match self {
            SC::Scalar(13, c) => rt::cast::<Sym, char>(*c) == 'A' && rt::same_str(name, "A"),
            SC::Scalar(14, s) => rt::same_str(rt::cast::<Sym, &str>(*s), name),
            SC::Inner(1, _, _, _, c) | SC::Inner(2, _, _, _, c) => c.says(name),
            _ => false,
        }
    }
}

impl Serialize for SC {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        match self {
            SC::Scalar(k, x) => match k {
                0 => s.serialize_bool(rt::cast(*x)),
                1 => s.serialize_i8(rt::cast(*x)),
                2 => s.serialize_i16(rt::cast(*x)),
                3 => s.serialize_i32(rt::cast(*x)),
                4 => s.serialize_i64(rt::cast(*x)),
                5 => s.serialize_i128(rt::cast(*x)),
                6 => s.serialize_u8(rt::cast(*x)),
                7 => s.serialize_u16(rt::cast(*x)),
                8 => s.serialize_u32(rt::cast(*x)),
                9 => s.serialize_u64(rt::cast(*x)),
                10 => s.serialize_u128(rt::cast(*x)),
                11 => s.serialize_f32(rt::cast(*x)),
                12 => s.serialize_f64(rt::cast(*x)),
                13 => s.serialize_char(rt::cast(*x)),
                14 => s.serialize_str(rt::cast(*x)),
                15 => s.serialize_bytes(rt::cast(*x)),
                16 => s.serialize_none(),
                _ => s.serialize_unit(),
            },
            SC::Names(0, n, _, _) => s.serialize_unit_struct(rt::cast(*n)),
            SC::Names(_, n, i, v) => s.serialize_unit_variant(rt::cast(*n), rt::cast(*i), rt::cast(*v)),
            SC::Inner(1, _, _, _, c) => s.serialize_some(&**c),
            SC::Inner(2, n, _, _, c) => s.serialize_newtype_struct(rt::cast(*n), &**c),
            SC::Inner(_, n, i, v, c) => s.serialize_newtype_variant(rt::cast(*n), rt::cast(*i), rt::cast(*v), &**c),
            SC::List(k, a, i, v, l) => {
                let n = l.len();
                match *k {
                    SEQ => {
                        let mut c = s.serialize_seq(Some(n))?;
                        for (_, x) in l {
                            c.serialize_element(x)?;
                        }
                        c.end()
                    }
                    TUPLE => {
                        let mut c = s.serialize_tuple(n)?;
                        for (_, x) in l {
                            c.serialize_element(x)?;
                        }
                        c.end()
                    }
                    TUPLE_STRUCT => {
                        let mut c = s.serialize_tuple_struct(rt::cast(*a), n)?;
                        for (_, x) in l {
                            c.serialize_field(x)?;
                        }
                        c.end()
                    }
                    TUPLE_VARIANT => {
                        let mut c = s.serialize_tuple_variant(rt::cast(*a), rt::cast(*i), rt::cast(*v), n)?;
                        for (_, x) in l {
                            c.serialize_field(x)?;
                        }
                        c.end()
                    }
                    STRUCT => {
                        let mut c = s.serialize_struct(rt::cast(*a), n)?;
                        for (k, x) in l {
                            c.serialize_field(fname(k), x)?;
                        }
                        c.end()
                    }
                    STRUCT_VARIANT => {
                        let mut c = s.serialize_struct_variant(rt::cast(*a), rt::cast(*i), rt::cast(*v), n)?;
                        for (k, x) in l {
                            c.serialize_field(fname(k), x)?;
                        }
                        c.end()
                    }
                    _ => {
                        let mut c = s.serialize_map(Some(n))?;
                        for (k, x) in l {
                            match k {
                                Some(k) => c.serialize_key(k)?,
                                None => {}
                            }
                            c.serialize_value(x)?;
                        }
                        c.end()
                    }
                }
            }
        }
    }
}
fn fname(k: &Option<SC>) -> &'static str {
    match k {
        Some(SC::Scalar(_, s)) => rt::cast(*s),
        _ => "?",
    }
}

/// remembers what is written to it; at the top it writes the memory out when it ends
pub struct Collect {
    m: Option<EnvCompound>,
    key: Option<SC>,
    c: SC,
}
impl Collect {
    fn add<T: ?Sized + Serialize>(&mut self, k: Option<SC>, v: &T) -> Result<(), EnvErr> {
        let x = v.serialize(SpecCapture)?;
        if let SC::List(_, _, _, _, l) = &mut self.c {
            l.push((k, x));
        }
        Ok(())
    }
    fn fin<O>(self) -> Result<O, EnvErr> {
        match self.m {
            Some(mut m) => {
                m.serialize_value(&self.c)?;
                rt::cast(SerializeMap::end(m))
            }
            None => Ok(rt::cast(self.c)),
        }
    }
}

macro_rules! collect {
    ($($ty:ident $ok:ident $g:ident;)*) => {$(
        collect!(@el $ty $ok $g SerializeSeq serialize_element);
        collect!(@el $ty $ok $g SerializeTuple serialize_element);
        collect!(@el $ty $ok $g SerializeTupleStruct serialize_field);
        collect!(@el $ty $ok $g SerializeTupleVariant serialize_field);
        collect!(@f $ty $ok $g SerializeStruct);
        collect!(@f $ty $ok $g SerializeStructVariant);
        impl SerializeMap for $ty {
            type Ok = $ok;
            type Error = EnvErr;
            fn serialize_key<T: ?Sized + Serialize>(&mut self, k: &T) -> Result<(), EnvErr> {
                let k = k.serialize(SpecCapture)?;
                $g(self).key = Some(k);
                Ok(())
            }
            fn serialize_value<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), EnvErr> {
                let k = $g(self).key.take();
                $g(self).add(k, v)
            }
            fn end(mut self) -> Result<$ok, EnvErr> {
                rt::cast::<$ty, Collect>(self).fin()
            }
        }
    )*};
    (@el $ty:ident $ok:ident $g:ident $tr:ident $m:ident) => {
        impl $tr for $ty {
            type Ok = $ok;
            type Error = EnvErr;
            fn $m<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), EnvErr> {
                $g(self).add(None, v)
            }
            fn end(self) -> Result<$ok, EnvErr> {
                rt::cast::<$ty, Collect>(self).fin()
            }
        }
    };
    (@f $ty:ident $ok:ident $g:ident $tr:ident) => {
        impl $tr for $ty {
            type Ok = $ok;
            type Error = EnvErr;
            fn serialize_field<T: ?Sized + Serialize>(&mut self, k: &'static str, v: &T) -> Result<(), EnvErr> {
                $g(self).add(Some(SC::Scalar(14, sym(k))), v)
            }
            fn end(self) -> Result<$ok, EnvErr> {
                rt::cast::<$ty, Collect>(self).fin()
            }
        }
    };
}

pub struct Collect2 {
    m: Option<EnvCompound>,
    key: Option<SC>,
    c: SC,
}
fn g1(c: &mut Collect) -> &mut Collect {
    c
}
fn g2(c: &mut Collect2) -> &mut Collect {
    rt::cast(c)
}
collect! {
    Collect Done g1;
    Collect2 SC g2;
}

pub struct SpecCapture;
type C = Result<SC, EnvErr>;
fn list(kind: u8, n: Sym, i: Sym, v: Sym) -> Result<Collect2, EnvErr> {
    Ok(Collect2 { m: None, key: None, c: SC::List(kind, n, i, v, Vec::new()) })
}
macro_rules! cap_scalar {
    ($($m:ident $k:literal $t:ty;)*) => {$(
        fn $m(self, v: $t) -> C {
            Ok(SC::Scalar($k, sym(v)))
        }
    )*};
}
impl Serializer for SpecCapture {
    type Ok = SC;
    type Error = EnvErr;
    type SerializeSeq = Collect2;
    type SerializeTuple = Collect2;
    type SerializeTupleStruct = Collect2;
    type SerializeTupleVariant = Collect2;
    type SerializeMap = Collect2;
    type SerializeStruct = Collect2;
    type SerializeStructVariant = Collect2;
    cap_scalar! {
        serialize_bool 0 bool;
        serialize_i8 1 i8;
        serialize_i16 2 i16;
        serialize_i32 3 i32;
        serialize_i64 4 i64;
        serialize_i128 5 i128;
        serialize_u8 6 u8;
        serialize_u16 7 u16;
        serialize_u32 8 u32;
        serialize_u64 9 u64;
        serialize_u128 10 u128;
        serialize_f32 11 f32;
        serialize_f64 12 f64;
        serialize_char 13 char;
        serialize_str 14 &str;
        serialize_bytes 15 &[u8];
    }
    fn serialize_none(self) -> C {
        Ok(SC::Scalar(16, nil()))
    }
    fn serialize_unit(self) -> C {
        Ok(SC::Scalar(17, nil()))
    }
    fn serialize_unit_struct(self, n: &'static str) -> C {
        Ok(SC::Names(0, sym(n), nil(), nil()))
    }
    fn serialize_some<T: ?Sized + Serialize>(self, v: &T) -> C {
        let c = v.serialize(SpecCapture)?;
        Ok(SC::Inner(1, nil(), nil(), nil(), Box::new(c)))
    }
    fn serialize_unit_variant(self, n: &'static str, i: u32, var: &'static str) -> C {
        Ok(SC::Names(1, sym(n), sym(i), sym(var)))
    }
    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, n: &'static str, v: &T) -> C {
        let c = v.serialize(SpecCapture)?;
        Ok(SC::Inner(2, sym(n), nil(), nil(), Box::new(c)))
    }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(self, n: &'static str, i: u32, var: &'static str, v: &T) -> C {
        let c = v.serialize(SpecCapture)?;
        Ok(SC::Inner(3, sym(n), sym(i), sym(var), Box::new(c)))
    }
    fn serialize_seq(self, _: Option<usize>) -> Result<Collect2, EnvErr> {
        list(SEQ, nil(), nil(), nil())
    }
    fn serialize_tuple(self, _: usize) -> Result<Collect2, EnvErr> {
        list(TUPLE, nil(), nil(), nil())
    }
    fn serialize_tuple_struct(self, n: &'static str, _: usize) -> Result<Collect2, EnvErr> {
        list(TUPLE_STRUCT, sym(n), nil(), nil())
    }
    fn serialize_tuple_variant(self, n: &'static str, i: u32, var: &'static str, _: usize) -> Result<Collect2, EnvErr> {
        list(TUPLE_VARIANT, sym(n), sym(i), sym(var))
    }
    fn serialize_map(self, len: Option<usize>) -> Result<Collect2, EnvErr> {
        list(MAP, nil(), nil(), nil())
    }
    fn serialize_struct(self, n: &'static str, len: usize) -> Result<Collect2, EnvErr> {
        list(STRUCT, sym(n), nil(), nil())
    }
    fn serialize_struct_variant(self, n: &'static str, i: u32, var: &'static str, _: usize) -> Result<Collect2, EnvErr> {
        list(STRUCT_VARIANT, sym(n), sym(i), sym(var))
    }
}
