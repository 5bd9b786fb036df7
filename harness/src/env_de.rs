//! An arbitrary self-describing or compact format being read, and an arbitrary concrete type reading
//! from the deserializer it is given.
use crate::err::*;
use crate::rt::{self, Sym};
use alloc::string::String;
use alloc::vec::Vec;
use core::fmt;
use serde::de::*;

pub const TOP: usize = 0;
pub const KEY: usize = 1;
pub const VALUE: usize = 2;
pub const ELEM: usize = 3;

/// What the concrete type makes of its input.
pub fn obj() -> Sym {
    rt::tok("obj", 0)
}

/// A place in the input.
#[derive(Clone, Copy)]
pub struct EnvDe {
    pub who: Sym,
    pub role: usize,
    pub i: usize,
    pub lvl: usize,
}

pub fn top() -> EnvDe {
    rt::set("many", 3);
    EnvDe { who: rt::tok("top", 0), role: TOP, i: 0, lvl: 0 }
}

const WHOLE: &[&str] = &["is a map", "is a sequence", "is something else", "err"];
const INT_KEYS: &[&str] = &["key is the tag key", "key is another string", "key is not a string", "err"];
const LATE_KEYS: &[&str] = &["key is another string", "key is not a string", "err"];
const ADJ_KEYS: &[&str] = &["key is the tag key", "key is another string", "key is not a string", "err", "key is the content key"];
const VALUE_KEYS: &[&str] = &["key is other", "key is value"];
const STREAM_KEYS: &[&str] = &["key is the tag key", "key is another string", "key is not a string", "err", "key is `value`"];
const TAGS: &[&str] = &["tag is A", "tag is B", "tag is dup", "tag is unknown", "tag is not a string", "err"];
const SHORT_KEYS: &[&str] = &["key is the tag key", "key is another one"];
const SHORT_ENTRY: &[&str] = &["entry", "no more entries"];
const SHORT_TAGS: &[&str] = &["tag is A", "tag is B", "tag is dup", "tag is unknown"];
const SKIPPED: &[&str] = &["skipped", "err"];
const TAKEN: &[&str] = &["reads.ok", "reads.rejects", "err"];

impl EnvDe {
    fn fail<T>(self) -> Result<T, EnvErr> {
        rt::set("failed", 1);
        Err(EnvErr(rt::tok("err", 0)))
    }
    /// read by the concrete type without typetag taking part
    pub fn taken<T>(self) -> Result<T, EnvErr> {
        match rt::choose(TAKEN) {
            0 => Ok(rt::cast(obj())),
            1 => {
                rt::set("failed", 1);
                Err(EnvErr(rt::tok("err.concrete", 0)))
            }
            _ => self.fail(),
        }
    }
    /// not a string (byte strings are left out: serde's own string type accepts some of them)
    fn other<'de, V: Visitor<'de>>(self, v: V) -> Result<V::Value, EnvErr> {
        match rt::nondet(8) {
            0 => v.visit_u64(rt::tok("n", 0)),
            1 => v.visit_bool(rt::tok("b", 0)),
            2 => v.visit_i64(rt::tok("n", 0)),
            3 => v.visit_f64(rt::tok("x", 0)),
            4 => v.visit_unit(),
            5 => v.visit_none(),
            6 => v.visit_some(EnvDe { who: rt::tok("inner", 0), role: ELEM, i: 0, lvl: 9 }),
            _ => v.visit_newtype_struct(EnvDe { who: rt::tok("inner", 0), role: ELEM, i: 0, lvl: 9 }),
        }
    }
    fn string<'de, V: Visitor<'de>>(self, v: V, s: &'static str) -> Result<V::Value, EnvErr> {
        if rt::get("registry") == 1 {
            return v.visit_str(s);
        }
        match rt::nondet(3) {
            0 => v.visit_str(s),
            1 => v.visit_borrowed_str(rt::cast(s)),
            _ => v.visit_string(String::from(s)),
        }
    }
    fn give_key<'de, V: Visitor<'de>>(self, v: V) -> Result<V::Value, EnvErr> {
        let k = match (rt::get("script"), self.i) {
            (1, 1) => 4,
            (1, _) => 0,
            (2, 1) => 0,
            (3, _) => match (rt::get("adjacent"), rt::choose(SHORT_KEYS)) {
                (_, 0) => 0,
                (1, 1) => 4,
                _ => 1,
            },
            (4, 1) => match rt::choose(VALUE_KEYS) {
                0 => 1,
                _ => 5,
            },
            (4, 2) => 0,
            (4, _) | (5, _) => match rt::choose(VALUE_KEYS) {
                0 => 1,
                _ => 5,
            },
            (2, _) => match rt::choose(STREAM_KEYS) {
                4 => 5,
                k => k,
            },
            _ if rt::get("adjacent") == 1 => rt::choose(ADJ_KEYS),
            // one tag key among the third and later entries is enough
            _ if rt::get("late tag") == 1 => rt::choose(LATE_KEYS) + 1,
            _ => rt::choose(INT_KEYS),
        };
        if k == 0 && self.i >= 999 {
            rt::set("late tag", 1);
        }
        match k {
            0 => self.string(v, rt::tok("key=type", 0)),
            1 => self.string(v, rt::tok("otherkey", self.i)),
            2 => self.other(v),
            3 => self.fail(),
            4 => self.string(v, rt::tok("key=data", 0)),
            _ => self.string(v, rt::tok("key=value", 0)),
        }
    }
    fn give_tag<'de, V: Visitor<'de>>(self, v: V) -> Result<V::Value, EnvErr> {
        let k = match rt::get("script") {
            0 => rt::choose(TAGS),
            3 => rt::choose(SHORT_TAGS),
            _ => 0,
        };
        match k {
            0 => self.string(v, rt::tok("tag=A", 0)),
            1 => self.string(v, rt::tok("tag=B", 0)),
            2 => self.string(v, rt::tok("tag=dup", 0)),
            3 => self.string(v, rt::tok("tag.unknown", 0)),
            4 => self.other(v),
            _ => self.fail(),
        }
    }
    fn answer<'de, V: Visitor<'de>>(self, v: V, any: bool, ignored: bool) -> Result<V::Value, EnvErr> {
        if rt::type_is::<V, EnvVisitor>() {
            return self.taken();
        }
        if self.role == TOP {
            let k = match rt::get("script") {
                0 => rt::choose(WHOLE),
                _ => 0,
            };
            return match k {
                0 => v.visit_map(EnvMap { i: 0, pending: false, ended: false, lvl: 0 }),
                1 => v.visit_seq(EnvSeq { i: 0, lvl: 0 }),
                2 => self.other(v),
                _ => self.fail(),
            };
        }
        if ignored {
            return match rt::choose(SKIPPED) {
                0 => v.visit_unit(),
                _ => self.fail(),
            };
        }
        if any {
            let full = rt::get("full");
            if self.lvl < full && (self.lvl == 0 || (self.role == VALUE && self.i == 1)) {
                return self.give_any(v);
            }
            if rt::get("script") == 0 && rt::choose(SKIPPED) == 1 {
                return self.fail();
            }
            return Ok(rt::app("captured", &self.who));
        }
        if self.role == KEY && rt::get("keys are tags") == 0 {
            self.give_key(v)
        } else {
            self.give_tag(v)
        }
    }
    fn give_any<'de, V: Visitor<'de>>(self, v: V) -> Result<V::Value, EnvErr> {
        let l = self.lvl + 1;
        let k = rt::get("kind");
        let k = if k > 0 && self.lvl == 0 { k - 1 } else { rt::choose(KINDS) };
        match k {
            0 => v.visit_bool(rt::tok("b", l)),
            1 => v.visit_i8(rt::tok("n", l)),
            2 => v.visit_i16(rt::tok("n", l)),
            3 => v.visit_i32(rt::tok("n", l)),
            4 => v.visit_i64(rt::tok("n", l)),
            5 => v.visit_i128(rt::tok("n", l)),
            6 => v.visit_u8(rt::tok("n", l)),
            7 => v.visit_u16(rt::tok("n", l)),
            8 => v.visit_u32(rt::tok("n", l)),
            9 => v.visit_u64(rt::tok("n", l)),
            10 => v.visit_u128(rt::tok("n", l)),
            11 => v.visit_f32(rt::tok("x", l)),
            12 => v.visit_f64(rt::tok("x", l)),
            13 => v.visit_char(rt::tok("c", l)),
            14 => v.visit_str(rt::tok("s", l)),
            15 => v.visit_borrowed_str(rt::tok("s.borrowed", l)),
            16 => v.visit_string(rt::tok::<String>("s", l)),
            17 => v.visit_bytes(rt::tok("bytes", l)),
            18 => v.visit_borrowed_bytes(rt::tok("bytes.borrowed", l)),
            19 => v.visit_byte_buf(rt::tok::<Vec<u8>>("bytes", l)),
            20 => v.visit_none(),
            21 => v.visit_some(self.inner()),
            22 => v.visit_unit(),
            23 => v.visit_newtype_struct(self.inner()),
            24 => v.visit_seq(EnvSeq { i: 0, lvl: l }),
            25 => v.visit_map(EnvMap { i: 0, pending: false, ended: false, lvl: l }),
            26 => v.visit_enum(EnvEnum),
            _ => self.fail(),
        }
    }
    fn inner(self) -> EnvDe {
        EnvDe { who: rt::tok("inner", self.lvl + 1), role: ELEM, i: 0, lvl: self.lvl + 1 }
    }
}

pub const KINDS: &[&str] = &[
    "gives:bool", "gives:i8", "gives:i16", "gives:i32", "gives:i64", "gives:i128", "gives:u8", "gives:u16", "gives:u32", "gives:u64", "gives:u128",
    "gives:f32", "gives:f64", "gives:char", "gives:str", "gives:borrowed_str", "gives:string", "gives:bytes", "gives:borrowed_bytes", "gives:byte_buf",
    "gives:none", "gives:some", "gives:unit", "gives:newtype", "gives:seq", "gives:map", "gives:enum", "err",
];

impl<'de> Deserializer<'de> for EnvDe {
    type Error = EnvErr;
    fn is_human_readable(&self) -> bool {
        crate::env_ser::hr()
    }
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, EnvErr> {
        guard();
        rt::ev("ask:any", (self.who,));
        self.answer(v, true, false)
    }
    fn deserialize_bool<V: Visitor<'de>>(self, v: V) -> Result<V::Value, EnvErr> {
        guard();
        rt::ev("ask:bool", (self.who,));
        self.answer(v, false, false)
    }
    fn deserialize_i8<V: Visitor<'de>>(self, v: V) -> Result<V::Value, EnvErr> {
        guard();
        rt::ev("ask:i8", (self.who,));
        self.answer(v, false, false)
    }
    fn deserialize_i16<V: Visitor<'de>>(self, v: V) -> Result<V::Value, EnvErr> {
        guard();
        rt::ev("ask:i16", (self.who,));
        self.answer(v, false, false)
    }
    fn deserialize_i32<V: Visitor<'de>>(self, v: V) -> Result<V::Value, EnvErr> {
        guard();
        rt::ev("ask:i32", (self.who,));
        self.answer(v, false, false)
    }
    fn deserialize_i64<V: Visitor<'de>>(self, v: V) -> Result<V::Value, EnvErr> {
        guard();
        rt::ev("ask:i64", (self.who,));
        self.answer(v, false, false)
    }
    fn deserialize_i128<V: Visitor<'de>>(self, v: V) -> Result<V::Value, EnvErr> {
        guard();
        rt::ev("ask:i128", (self.who,));
        self.answer(v, false, false)
    }
    fn deserialize_u8<V: Visitor<'de>>(self, v: V) -> Result<V::Value, EnvErr> {
        guard();
        rt::ev("ask:u8", (self.who,));
        self.answer(v, false, false)
    }
    fn deserialize_u16<V: Visitor<'de>>(self, v: V) -> Result<V::Value, EnvErr> {
        guard();
        rt::ev("ask:u16", (self.who,));
        self.answer(v, false, false)
    }
    fn deserialize_u32<V: Visitor<'de>>(self, v: V) -> Result<V::Value, EnvErr> {
        guard();
        rt::ev("ask:u32", (self.who,));
        self.answer(v, false, false)
    }
    fn deserialize_u64<V: Visitor<'de>>(self, v: V) -> Result<V::Value, EnvErr> {
        guard();
        rt::ev("ask:u64", (self.who,));
        self.answer(v, false, false)
    }
    fn deserialize_u128<V: Visitor<'de>>(self, v: V) -> Result<V::Value, EnvErr> {
        guard();
        rt::ev("ask:u128", (self.who,));
        self.answer(v, false, false)
    }
    fn deserialize_f32<V: Visitor<'de>>(self, v: V) -> Result<V::Value, EnvErr> {
        guard();
        rt::ev("ask:f32", (self.who,));
        self.answer(v, false, false)
    }
    fn deserialize_f64<V: Visitor<'de>>(self, v: V) -> Result<V::Value, EnvErr> {
        guard();
        rt::ev("ask:f64", (self.who,));
        self.answer(v, false, false)
    }
    fn deserialize_char<V: Visitor<'de>>(self, v: V) -> Result<V::Value, EnvErr> {
        guard();
        rt::ev("ask:char", (self.who,));
        self.answer(v, false, false)
    }
    fn deserialize_str<V: Visitor<'de>>(self, v: V) -> Result<V::Value, EnvErr> {
        guard();
        rt::ev("ask:str", (self.who,));
        self.answer(v, false, false)
    }
    fn deserialize_string<V: Visitor<'de>>(self, v: V) -> Result<V::Value, EnvErr> {
        guard();
        rt::ev("ask:string", (self.who,));
        self.answer(v, false, false)
    }
    fn deserialize_bytes<V: Visitor<'de>>(self, v: V) -> Result<V::Value, EnvErr> {
        guard();
        rt::ev("ask:bytes", (self.who,));
        self.answer(v, false, false)
    }
    fn deserialize_byte_buf<V: Visitor<'de>>(self, v: V) -> Result<V::Value, EnvErr> {
        guard();
        rt::ev("ask:byte_buf", (self.who,));
        self.answer(v, false, false)
    }
    fn deserialize_option<V: Visitor<'de>>(self, v: V) -> Result<V::Value, EnvErr> {
        guard();
        rt::ev("ask:option", (self.who,));
        self.answer(v, false, false)
    }
    fn deserialize_unit<V: Visitor<'de>>(self, v: V) -> Result<V::Value, EnvErr> {
        guard();
        rt::ev("ask:unit", (self.who,));
        self.answer(v, false, false)
    }
    fn deserialize_unit_struct<V: Visitor<'de>>(self, n: &'static str, v: V) -> Result<V::Value, EnvErr> {
        guard();
        rt::ev("ask:unit_struct", (self.who, n));
        self.answer(v, false, false)
    }
    fn deserialize_newtype_struct<V: Visitor<'de>>(self, n: &'static str, v: V) -> Result<V::Value, EnvErr> {
        guard();
        rt::ev("ask:newtype_struct", (self.who, n));
        self.answer(v, false, false)
    }
    fn deserialize_seq<V: Visitor<'de>>(self, v: V) -> Result<V::Value, EnvErr> {
        guard();
        rt::ev("ask:seq", (self.who,));
        self.answer(v, false, false)
    }
    fn deserialize_tuple<V: Visitor<'de>>(self, l: usize, v: V) -> Result<V::Value, EnvErr> {
        guard();
        rt::ev("ask:tuple", (self.who, l));
        self.answer(v, false, false)
    }
    fn deserialize_tuple_struct<V: Visitor<'de>>(self, n: &'static str, l: usize, v: V) -> Result<V::Value, EnvErr> {
        guard();
        rt::ev("ask:tuple_struct", (self.who, n, l));
        self.answer(v, false, false)
    }
    fn deserialize_map<V: Visitor<'de>>(self, v: V) -> Result<V::Value, EnvErr> {
        guard();
        rt::ev("ask:map", (self.who,));
        self.answer(v, false, false)
    }
    fn deserialize_struct<V: Visitor<'de>>(self, n: &'static str, f: &'static [&'static str], v: V) -> Result<V::Value, EnvErr> {
        guard();
        rt::ev("ask:struct", (self.who, n, f));
        self.answer(v, false, false)
    }
    fn deserialize_enum<V: Visitor<'de>>(self, n: &'static str, f: &'static [&'static str], v: V) -> Result<V::Value, EnvErr> {
        guard();
        rt::ev("ask:enum", (self.who, n, f));
        self.answer(v, false, false)
    }
    fn deserialize_identifier<V: Visitor<'de>>(self, v: V) -> Result<V::Value, EnvErr> {
        guard();
        rt::ev("ask:identifier", (self.who,));
        self.answer(v, false, false)
    }
    fn deserialize_ignored_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, EnvErr> {
        guard();
        rt::ev("ask:ignored_any", (self.who,));
        self.answer(v, false, true)
    }
}

const ENTRY: &[&str] = &["entry", "no more entries", "err"];
/// The first one, any number of further ones, of which one is watched, told apart from the others.
pub fn next(i: usize) -> usize {
    match i {
        0 => 1,
        1 | 999 if rt::get("script") == 1 && rt::get("watch") == 0 => 999,
        1 | 999 => match rt::nondet(2) {
            0 => 999,
            _ => 888,
        },
        _ => 1000,
    }
}

pub struct EnvMap {
    pub i: usize,
    pub pending: bool,
    pub ended: bool,
    pub lvl: usize,
}
impl EnvMap {
    pub fn key(&mut self) -> Result<Option<EnvDe>, EnvErr> {
        guard();
        if self.pending {
            rt::ev("PROTOCOL: key requested while a value is pending", ());
        }
        if self.ended {
            return Ok(None);
        }
        rt::ev("next_key", ());
        let k = match (rt::get("script"), self.lvl, self.i) {
            (1, 0, 0) | (1, 0, 1) => 0,
            (1, 0, _) => 1,
            (2, 0, 0) => 0,
            (4, 0, 0) | (4, 0, 1) => 0,
            (4, 0, 2) | (5, 0, 0) | (5, 0, 1) => rt::choose(SHORT_ENTRY),
            (4, 0, _) | (5, 0, _) => 1,
            (3, 0, 0) | (3, 0, 1) => rt::choose(SHORT_ENTRY),
            (3, 0, _) => 1,
            _ => rt::choose(ENTRY),
        };
        match k {
            0 => {
                self.i = next(self.i);
                self.pending = true;
                Ok(Some(EnvDe { who: rt::tok(if self.lvl == 0 { "key" } else if self.lvl == 1 { "kk" } else { "kkk" }, self.i), role: KEY, i: self.i, lvl: self.lvl }))
            }
            1 => {
                self.ended = true;
                Ok(None)
            }
            _ => {
                rt::set("failed", 1);
                Err(EnvErr(rt::tok("err", 0)))
            }
        }
    }
    pub fn value(&mut self) -> EnvDe {
        guard();
        if !self.pending {
            rt::ev("PROTOCOL: value requested without a key", ());
        }
        self.pending = false;
        rt::ev("next_value", ());
        EnvDe { who: rt::tok(if self.lvl == 0 { "val" } else if self.lvl == 1 { "vv" } else { "vvv" }, self.i), role: VALUE, i: self.i, lvl: self.lvl }
    }
}
impl<'de> MapAccess<'de> for EnvMap {
    type Error = EnvErr;
    fn next_key_seed<K: DeserializeSeed<'de>>(&mut self, seed: K) -> Result<Option<K::Value>, EnvErr> {
        match self.key()? {
            Some(d) => Ok(Some(seed.deserialize(d)?)),
            None => Ok(None),
        }
    }
    fn next_value_seed<K: DeserializeSeed<'de>>(&mut self, seed: K) -> Result<K::Value, EnvErr> {
        seed.deserialize(self.value())
    }
    fn size_hint(&self) -> Option<usize> {
        Some(rt::tok("size_hint", 0))
    }
}

const ELEMENT: &[&str] = &["element", "no more elements", "err"];
pub struct EnvSeq {
    pub i: usize,
    pub lvl: usize,
}
impl EnvSeq {
    pub fn elem(&mut self) -> Result<Option<EnvDe>, EnvErr> {
        guard();
        rt::ev("next_element", ());
        match rt::choose(ELEMENT) {
            0 => {
                self.i = next(self.i);
                Ok(Some(EnvDe { who: rt::tok(if self.lvl == 0 { "elem" } else if self.lvl == 1 { "ee" } else { "eee" }, self.i), role: ELEM, i: self.i, lvl: self.lvl }))
            }
            1 => Ok(None),
            _ => {
                rt::set("failed", 1);
                Err(EnvErr(rt::tok("err", 0)))
            }
        }
    }
}
impl<'de> SeqAccess<'de> for EnvSeq {
    type Error = EnvErr;
    fn next_element_seed<K: DeserializeSeed<'de>>(&mut self, seed: K) -> Result<Option<K::Value>, EnvErr> {
        match self.elem()? {
            Some(d) => Ok(Some(seed.deserialize(d)?)),
            None => Ok(None),
        }
    }
    fn size_hint(&self) -> Option<usize> {
        Some(rt::tok("size_hint", 0))
    }
}
pub struct EnvEnum;
impl<'de> EnumAccess<'de> for EnvEnum {
    type Error = EnvErr;
    type Variant = EnvEnum;
    fn variant_seed<K: DeserializeSeed<'de>>(self, seed: K) -> Result<(K::Value, EnvEnum), EnvErr> {
        rt::ev("variant", ());
        Ok((seed.deserialize(EnvDe { who: rt::tok("variant", 0), role: KEY, i: 1, lvl: 9 })?, EnvEnum))
    }
}
impl<'de> VariantAccess<'de> for EnvEnum {
    type Error = EnvErr;
    fn unit_variant(self) -> Result<(), EnvErr> {
        rt::ev("unit_variant", ());
        Ok(())
    }
    fn newtype_variant_seed<K: DeserializeSeed<'de>>(self, seed: K) -> Result<K::Value, EnvErr> {
        rt::ev("newtype_variant", ());
        seed.deserialize(EnvDe { who: rt::tok("variant.value", 0), role: VALUE, i: 1, lvl: 9 })
    }
    fn tuple_variant<V: Visitor<'de>>(self, l: usize, v: V) -> Result<V::Value, EnvErr> {
        rt::ev("tuple_variant", ());
        v.visit_seq(EnvSeq { i: 0, lvl: 9 })
    }
    fn struct_variant<V: Visitor<'de>>(self, f: &'static [&'static str], v: V) -> Result<V::Value, EnvErr> {
        rt::ev("struct_variant", ());
        v.visit_map(EnvMap { i: 0, pending: false, ended: false, lvl: 9 })
    }
}

// ---------------------------------------------------------------------------- the concrete type

#[derive(Clone, Copy)]
pub struct EnvVisitor {
    pub lvl: usize,
}
#[derive(Clone, Copy)]
pub struct EnvSeed {
    pub lvl: usize,
    pub key: bool,
}

const ACCEPTS: &[&str] = &["accepts", "rejects"];
fn accept<E: Error>() -> Result<Sym, E> {
    if rt::get("loop") == 1 || rt::choose(ACCEPTS) == 0 {
        Ok(obj())
    } else {
        reject()
    }
}
fn reject<T, E: Error>() -> Result<T, E> {
    rt::set("failed", 1);
    Err(E::custom(rt::tok::<Sym>("err.concrete", 0)))
}

impl<'de> Visitor<'de> for EnvVisitor {
    type Value = Sym;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        Ok(())
    }
    fn visit_bool<E: Error>(self, v: bool) -> Result<Sym, E> {
        rt::ev("got:bool", (v,));
        accept()
    }
    fn visit_i8<E: Error>(self, v: i8) -> Result<Sym, E> {
        rt::ev("got:i8", (v,));
        accept()
    }
    fn visit_i16<E: Error>(self, v: i16) -> Result<Sym, E> {
        rt::ev("got:i16", (v,));
        accept()
    }
    fn visit_i32<E: Error>(self, v: i32) -> Result<Sym, E> {
        rt::ev("got:i32", (v,));
        accept()
    }
    fn visit_i64<E: Error>(self, v: i64) -> Result<Sym, E> {
        rt::ev("got:i64", (v,));
        accept()
    }
    fn visit_i128<E: Error>(self, v: i128) -> Result<Sym, E> {
        rt::ev("got:i128", (v,));
        accept()
    }
    fn visit_u8<E: Error>(self, v: u8) -> Result<Sym, E> {
        rt::ev("got:u8", (v,));
        accept()
    }
    fn visit_u16<E: Error>(self, v: u16) -> Result<Sym, E> {
        rt::ev("got:u16", (v,));
        accept()
    }
    fn visit_u32<E: Error>(self, v: u32) -> Result<Sym, E> {
        rt::ev("got:u32", (v,));
        accept()
    }
    fn visit_u64<E: Error>(self, v: u64) -> Result<Sym, E> {
        rt::ev("got:u64", (v,));
        accept()
    }
    fn visit_u128<E: Error>(self, v: u128) -> Result<Sym, E> {
        rt::ev("got:u128", (v,));
        accept()
    }
    fn visit_f32<E: Error>(self, v: f32) -> Result<Sym, E> {
        rt::ev("got:f32", (v,));
        accept()
    }
    fn visit_f64<E: Error>(self, v: f64) -> Result<Sym, E> {
        rt::ev("got:f64", (v,));
        accept()
    }
    fn visit_char<E: Error>(self, v: char) -> Result<Sym, E> {
        rt::ev("got:char", (v,));
        accept()
    }
    fn visit_str<E: Error>(self, v: &str) -> Result<Sym, E> {
        rt::ev("got:str", (v,));
        accept()
    }
    fn visit_borrowed_str<E: Error>(self, v: &'de str) -> Result<Sym, E> {
        rt::ev("got:borrowed_str", (v,));
        accept()
    }
    fn visit_string<E: Error>(self, v: String) -> Result<Sym, E> {
        rt::ev("got:string", (v,));
        accept()
    }
    fn visit_bytes<E: Error>(self, v: &[u8]) -> Result<Sym, E> {
        rt::ev("got:bytes", (v,));
        accept()
    }
    fn visit_borrowed_bytes<E: Error>(self, v: &'de [u8]) -> Result<Sym, E> {
        rt::ev("got:borrowed_bytes", (v,));
        accept()
    }
    fn visit_byte_buf<E: Error>(self, v: Vec<u8>) -> Result<Sym, E> {
        rt::ev("got:byte_buf", (v,));
        accept()
    }
    fn visit_none<E: Error>(self) -> Result<Sym, E> {
        rt::ev("got:none", ());
        accept()
    }
    fn visit_unit<E: Error>(self) -> Result<Sym, E> {
        rt::ev("got:unit", ());
        accept()
    }
    fn visit_some<D: Deserializer<'de>>(self, d: D) -> Result<Sym, D::Error> {
        rt::ev("got:some", ());
        EnvSeed { lvl: self.lvl + 1, key: false }.deserialize(d)
    }
    fn visit_newtype_struct<D: Deserializer<'de>>(self, d: D) -> Result<Sym, D::Error> {
        rt::ev("got:newtype_struct", ());
        EnvSeed { lvl: self.lvl + 1, key: false }.deserialize(d)
    }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<Sym, A::Error> {
        rt::ev("got:seq", ());
        loop {
            match wants() {
                0 => {
                    if a.next_element_seed(EnvSeed { lvl: self.lvl + 1, key: false })?.is_none() {
                        rt::ev("at the end", ());
                        return accept();
                    }
                }
                1 => return Ok(obj()),
                _ => return reject(),
            }
        }
    }
    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<Sym, A::Error> {
        rt::ev("got:map", ());
        loop {
            match wants() {
                0 => {
                    if a.next_key_seed(EnvSeed { lvl: self.lvl + 1, key: true })?.is_none() {
                        rt::ev("at the end", ());
                        return accept();
                    }
                    if rt::get("loop") == 0 && rt::choose(WANTS_VALUE) == 1 {
                        return reject();
                    }
                    a.next_value_seed(EnvSeed { lvl: self.lvl + 1, key: false })?;
                }
                1 => return Ok(obj()),
                _ => return reject(),
            }
        }
    }
    fn visit_enum<A: EnumAccess<'de>>(self, a: A) -> Result<Sym, A::Error> {
        rt::ev("got:enum", ());
        let (_, v) = a.variant_seed(EnvSeed { lvl: self.lvl + 1, key: true })?;
        match if rt::get("loop") == 1 { shape(self.lvl) } else { rt::choose(VARIANTS) } {
            0 => {
                v.unit_variant()?;
                Ok(obj())
            }
            1 => v.newtype_variant_seed(EnvSeed { lvl: self.lvl + 1, key: false }),
            2 => v.tuple_variant(rt::tok("vlen", 0), EnvVisitor { lvl: self.lvl + 1 }),
            3 => v.struct_variant(rt::tok("vfields", 0), EnvVisitor { lvl: self.lvl + 1 }),
            _ => reject(),
        }
    }
}
fn wants() -> usize {
    if rt::get("loop") == 1 {
        0
    } else {
        rt::choose(WANTS)
    }
}
fn shape(lvl: usize) -> usize {
    match rt::get(if lvl == 0 { "kind" } else { "kind.1" }) {
        20 => 0,
        22 => 1,
        26 => 2,
        _ => 3,
    }
}
const WANTS: &[&str] = &["wants more", "wants no more", "rejects"];
const WANTS_VALUE: &[&str] = &["wants its value", "rejects"];
const VARIANTS: &[&str] = &["variant is unit", "variant is newtype", "variant is tuple", "variant is struct", "rejects"];

impl<'de> DeserializeSeed<'de> for EnvSeed {
    type Value = Sym;
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<Sym, D::Error> {
        if rt::type_is::<D, EnvDe>() {
            let d: EnvDe = rt::cast(d);
            guard();
            rt::ev("reads", (d.who,));
            return rt::cast(d.taken::<Sym>());
        }
        if rt::type_is::<D, crate::tape::TapeDe>() {
            let d: crate::tape::TapeDe = rt::cast(d);
            if let crate::tape::Rec::Opaque(s) = d.r {
                return rt::cast(crate::tape::read_part::<Sym>(s));
            }
            return rt::cast(drive_de(d, self.lvl, self.key));
        }
        drive_de(d, self.lvl, self.key)
    }
}

pub const REQ: &[&str] = &["wants:any", "wants:bool", "wants:i8", "wants:i16", "wants:i32", "wants:i64", "wants:i128", "wants:u8", "wants:u16", "wants:u32", "wants:u64", "wants:u128", "wants:f32", "wants:f64", "wants:char", "wants:str", "wants:string", "wants:bytes", "wants:byte_buf", "wants:option", "wants:unit", "wants:unit_struct", "wants:newtype_struct", "wants:seq", "wants:tuple", "wants:tuple_struct", "wants:map", "wants:struct", "wants:enum", "wants:identifier", "wants:ignored_any"];

/// The concrete type asks the deserializer for something.
pub fn drive_de<'de, D: Deserializer<'de>>(d: D, lvl: usize, key: bool) -> Result<Sym, D::Error> {
    if rt::get("hr") == 1 {
        if lvl == 0 {
            rt::ev("hr of the object", (d.is_human_readable(),));
        } else if key {
            rt::ev("hr of a key", (d.is_human_readable(),));
        } else {
            rt::ev("hr of a part", (d.is_human_readable(),));
        }
    }
    let r = if rt::get("loop") == 1 {
        if lvl == 0 {
            rt::get("force")
        } else if key && rt::get("other keys") == 0 {
            15
        } else if key && lvl == 1 {
            5
        } else if rt::get("force") == 22 && !key && lvl == 1 {
            crate::tape::request(rt::get("kind.1"))
        } else {
            0
        }
    } else if rt::get("req") == 0 {
        if lvl == 0 {
            26
        } else if key {
            15
        } else {
            0
        }
    } else if lvl == 0 && rt::get("force") > 0 {
        rt::get("force")
    } else if lvl == 0 {
        rt::choose(REQ)
    } else if lvl == 1 && rt::get("script") >= 4 {
        if key {
            15
        } else {
            0
        }
    } else if lvl == 1 {
        rt::choose(REQ)
    } else if lvl == 2 {
        0
    } else {
        rt::stop()
    };
    let v = EnvVisitor { lvl };
    match r {
        0 => d.deserialize_any(v),
        1 => d.deserialize_bool(v),
        2 => d.deserialize_i8(v),
        3 => d.deserialize_i16(v),
        4 => d.deserialize_i32(v),
        5 => d.deserialize_i64(v),
        6 => d.deserialize_i128(v),
        7 => d.deserialize_u8(v),
        8 => d.deserialize_u16(v),
        9 => d.deserialize_u32(v),
        10 => d.deserialize_u64(v),
        11 => d.deserialize_u128(v),
        12 => d.deserialize_f32(v),
        13 => d.deserialize_f64(v),
        14 => d.deserialize_char(v),
        15 => d.deserialize_str(v),
        16 => d.deserialize_string(v),
        17 => d.deserialize_bytes(v),
        18 => d.deserialize_byte_buf(v),
        19 => d.deserialize_option(v),
        20 => d.deserialize_unit(v),
        21 => d.deserialize_unit_struct(rt::tok("name", 0), v),
        22 => d.deserialize_newtype_struct(rt::tok("name", 0), v),
        23 => d.deserialize_seq(v),
        24 => d.deserialize_tuple(rt::tok("len", 0), v),
        25 => d.deserialize_tuple_struct(rt::tok("name", 0), rt::tok("len", 0), v),
        26 => d.deserialize_map(v),
        27 => d.deserialize_struct(rt::tok("name", 0), rt::tok("fields", 0), v),
        28 => d.deserialize_enum(rt::tok("name", 0), rt::tok("fields", 0), v),
        29 => d.deserialize_identifier(v),
        _ => d.deserialize_ignored_any(v),
    }
}

/// a buffered part of the input is asked for something
pub fn hook_captured<'de, V: Visitor<'de>>(c: Sym, method: &'static str, v: V) -> Result<V::Value, EnvErr> {
    if rt::get("loop") == 1 && rt::type_is::<V, EnvVisitor>() {
        return crate::tape::read_part(rt::uncapture(c));
    }
    rt::ev("replay", (rt::uncapture(c), method));
    if rt::type_is::<V, EnvVisitor>() {
        return rt::cast(accept::<EnvErr>());
    }
    if rt::choose(FITS) == 0 {
        Ok(rt::tok("replayed", 0))
    } else {
        Err(EnvErr(rt::tok("local:mismatch", 0)))
    }
}
const FITS: &[&str] = &["fits", "does not fit"];

/// erased_serde hands the deserializer to the registered function.
/// a registered function reads its concrete type
pub fn hook_erased_deserialize<T>(d: &mut dyn erased_serde::Deserializer) -> Result<T, erased_serde::Error> {
    let v = rt::tok::<T>("val", 0);
    rt::ev_type("reads", &v);
    Ok(v)
}

pub fn hook_apply<'de, D: Deserializer<'de>>(d: D, f: Sym) -> Result<Sym, erased_serde::Error> {
    rt::ev("apply", (f,));
    let r = EnvSeed { lvl: 0, key: false }.deserialize(d);
    match r {
        Ok(v) => Ok(v),
        Err(e) => Err(Error::custom(e)),
    }
}

// ---------------------------------------------------------------------------- the registry

/// registrations of the program, in an order of the linker's choosing
/// An iterator over the registrations: how many it has yielded.
pub struct Registrations(usize);
pub fn hook_inventory_next<T: 'static>(it: &mut Registrations) -> Option<&'static T> {
    let n = it.0;
    if n == 0 && rt::get("read before") == 1 {
        rt::ev("the registry is built again", ());
    }
    if rt::get("real registry") == 1 {
        it.0 = rt::plus_one(n);
        return rt::real_reg(n);
    }
    if rt::get("registry") == 1 {
        let k = match n {
            0 => rt::get("slot 0"),
            1 => rt::get("slot 1"),
            2 => rt::get("slot 2"),
            3 => rt::get("slot 3"),
            _ => 3,
        };
        let f = rt::tok::<Sym>("fn", succ(n));
        it.0 = if k == 3 { 4 } else { succ(n) };
        return match k {
            0 => Some(rt::make_reg("B", f)),
            1 => Some(rt::make_reg("A", f)),
            2 => Some(rt::make_reg("dup", f)),
            _ => None,
        };
    }
    it.0 = succ(n);
    match n {
        0 => Some(rt::make_reg("dup", rt::tok::<Sym>("fn.dup", 1))),
        1 => Some(rt::make_reg("B", rt::tok::<Sym>("fn.B", 0))),
        2 => Some(rt::make_reg("A", rt::tok::<Sym>("fn.A", 0))),
        3 => Some(rt::make_reg("dup", rt::tok::<Sym>("fn.dup", 2))),
        _ => None,
    }
}
fn succ(n: usize) -> usize {
    match n {
        0 => 1,
        1 => 2,
        2 => 3,
        3 => 4,
        _ => 5,
    }
}
pub const REGS: &[&str] = &["registers B", "registers A", "registers dup", "no more registrations"];
/// The program registers up to four implementations, each under any of three names.
pub fn any_program() {
    rt::set("registry", 1);
    rt::set("slot 0", 3);
    rt::set("slot 1", 3);
    rt::set("slot 2", 3);
    rt::set("slot 3", 3);
    let k = rt::choose(REGS);
    rt::set("slot 0", k);
    if k == 3 {
        return;
    }
    let k = rt::choose(REGS);
    rt::set("slot 1", k);
    if k == 3 {
        return;
    }
    let k = rt::choose(REGS);
    rt::set("slot 2", k);
    if k == 3 {
        return;
    }
    rt::set("slot 3", rt::choose(REGS));
}
/// number of registrations under the name (0, 1 or 2 for more) and the slot of the first
pub fn registrations(name: usize) -> (usize, usize) {
    let mut c = (0, 0);
    if rt::get("slot 0") == name {
        c = (1, 1);
    }
    if rt::get("slot 1") == name {
        c = if c.0 == 0 { (1, 2) } else { (2, c.1) };
    }
    if rt::get("slot 2") == name {
        c = if c.0 == 0 { (1, 3) } else { (2, c.1) };
    }
    if rt::get("slot 3") == name {
        c = if c.0 == 0 { (1, 4) } else { (2, c.1) };
    }
    c
}

// A cell that is set once. Whoever sets it first may be another thread running the same code.
fn published<C: ?Sized, T: 'static>(c: &C, v: &'static T) -> &'static T {
    rt::cell_put(c, v);
    v
}
fn fill<C: ?Sized, T: 'static>(c: &C, f: impl FnOnce() -> alloc::boxed::Box<T>) -> &'static T {
    match rt::cell_get(c) {
        Some(v) => v,
        None => {
            published(c, alloc::boxed::Box::leak(f()))
        }
    }
}
fn try_fill<C: ?Sized, T: 'static, E>(c: &C, f: impl FnOnce() -> Result<alloc::boxed::Box<T>, E>) -> Result<&'static T, E> {
    match rt::cell_get(c) {
        Some(v) => Ok(v),
        None => {
            match f() {
                Ok(v) => Ok(published(c, alloc::boxed::Box::leak(v))),
                Err(e) => Err(e),
            }
        }
    }
}
fn put<C: ?Sized, T: 'static>(c: &C, v: alloc::boxed::Box<T>) -> Result<(), alloc::boxed::Box<T>> {
    if rt::cell_get::<C, T>(c).is_some() {
        return Err(v);
    }
    let first = rt::nondet(2) == 0;
    let v: &'static mut T = alloc::boxed::Box::leak(v);
    published(c, rt::cast::<_, &'static T>(rt::cast::<&'static mut T, Sym>(v)));
    if first {
        Ok(())
    } else {
        // another thread was faster, with a value built by the same code
        Err(rt::cast(rt::cell_get::<C, T>(c)))
    }
}
pub fn hook_once_box<T: 'static, F: FnOnce() -> alloc::boxed::Box<T>>(c: &Sym, f: F) -> &'static T {
    fill(c, f)
}
pub fn hook_once_cell<T: 'static, F: FnOnce() -> T>(c: &Sym, f: F) -> &'static T {
    fill(c, || alloc::boxed::Box::new(f()))
}
pub fn hook_once_ref<T: 'static, F: FnOnce() -> &'static T>(c: &Sym, f: F) -> &'static T {
    match rt::cell_get(c) {
        Some(v) => v,
        None => {
            published(c, f())
        }
    }
}
pub fn hook_once_box_try<T: 'static, F: FnOnce() -> Result<alloc::boxed::Box<T>, E>, E>(c: &Sym, f: F) -> Result<&'static T, E> {
    try_fill(c, f)
}
pub fn hook_once_get<T: 'static>(c: &Sym) -> Option<&'static T> {
    rt::cell_get(c)
}
pub fn hook_once_box_set<T: 'static>(c: &Sym, v: alloc::boxed::Box<T>) -> Result<(), alloc::boxed::Box<T>> {
    put(c, v)
}
pub fn hook_once_cell_set<T: 'static>(c: &Sym, v: T) -> Result<(), T> {
    match put(c, alloc::boxed::Box::new(v)) {
        Ok(()) => Ok(()),
        Err(b) => Err(*b),
    }
}
