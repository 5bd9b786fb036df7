//! Reference transducers for reading trait objects.
use crate::env_de::*;
use crate::err::*;
use crate::rt::{self, Sym};
use alloc::string::String;
use alloc::vec::Vec;
use core::fmt;
use core::marker::PhantomData;
use serde::__private229::de::{Content, ContentDeserializer, ContentVisitor};
use serde::de::*;

type R = Result<Sym, EnvErr>;

fn reg(name: &'static str, i: usize) -> Sym {
    rt::tok(name, i)
}

/// What the registered names denote. `dup` is registered twice.
fn lookup<E: Error>(tag: &str) -> Result<Sym, E> {
    if rt::get("registry") == 1 {
        return lookup_any(tag);
    }
    if rt::same_str(tag, rt::tok("tag=A", 0)) {
        Ok(reg("fn.A", 0))
    } else if rt::same_str(tag, rt::tok("tag=B", 0)) {
        Ok(reg("fn.B", 0))
    } else if rt::same_str(tag, rt::tok("tag=dup", 0)) {
        Err(E::custom(tag))
    } else {
        Err(E::unknown_variant(tag, &["A", "B", "dup"]))
    }
}

fn lookup_any<E: Error>(tag: &str) -> Result<Sym, E> {
    let (b, a, d) = (registrations(0), registrations(1), registrations(2));
    let c = if rt::same_str(tag, rt::tok("tag=A", 0)) {
        a
    } else if rt::same_str(tag, rt::tok("tag=B", 0)) {
        b
    } else if rt::same_str(tag, rt::tok("tag=dup", 0)) {
        d
    } else {
        (0, 0)
    };
    match c.0 {
        1 => Ok(reg("fn", c.1)),
        2 => Err(E::custom(tag)),
        _ => Err(E::unknown_variant(
            tag,
            match (a.0 > 0, b.0 > 0, d.0 > 0) {
                (false, false, false) => &[],
                (true, false, false) => &["A"],
                (false, true, false) => &["B"],
                (true, true, false) => &["A", "B"],
                (false, false, true) => &["dup"],
                (true, false, true) => &["A", "dup"],
                (false, true, true) => &["B", "dup"],
                (true, true, true) => &["A", "B", "dup"],
            },
        )),
    }
}

/// A tag in the input.
struct Tag;
impl<'de> Visitor<'de> for Tag {
    type Value = Sym;
    fn expecting(&self, _: &mut fmt::Formatter) -> fmt::Result {
        Ok(())
    }
    fn visit_str<E: Error>(self, s: &str) -> Result<Sym, E> {
        lookup(s)
    }
}
impl<'de> DeserializeSeed<'de> for Tag {
    type Value = Sym;
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<Sym, D::Error> {
        d.deserialize_str(self)
    }
}

/// A key in the input: which of the given names, or the number of names for another string.
#[derive(Clone, Copy)]
struct Key {
    tag: &'static str,
    content: Option<&'static str>,
    closed: bool,
}
enum K {
    Tag,
    Content,
    Other(String),
}
impl<'de> Visitor<'de> for Key {
    type Value = K;
    fn expecting(&self, _: &mut fmt::Formatter) -> fmt::Result {
        Ok(())
    }
    fn visit_str<E: Error>(self, s: &str) -> Result<K, E> {
        if rt::same_str(s, self.tag) {
            return Ok(K::Tag);
        }
        if let Some(c) = self.content {
            if rt::same_str(s, c) {
                return Ok(K::Content);
            }
        }
        if self.closed {
            return Err(E::unknown_field(s, &["type", "data"]));
        }
        Ok(K::Other(String::from(s)))
    }
}
impl<'de> DeserializeSeed<'de> for Key {
    type Value = K;
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<K, D::Error> {
        d.deserialize_str(self)
    }
}

/// The registered function reads the object.
struct Apply(Sym);
impl<'de> DeserializeSeed<'de> for Apply {
    type Value = Sym;
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<Sym, D::Error> {
        match hook_apply(d, self.0) {
            Ok(v) => Ok(v),
            Err(e) => Err(Error::custom(e)),
        }
    }
}

/// serde's own buffer
struct Buffer;
impl<'de> DeserializeSeed<'de> for Buffer {
    type Value = Content<'de>;
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<Content<'de>, D::Error> {
        d.deserialize_any(ContentVisitor::new())
    }
}
fn replay(c: Content, f: Sym) -> R {
    Apply(f).deserialize(ContentDeserializer::<EnvErr>::new(c))
}

// ---------------------------------------------------------------- external

pub struct External;
impl<'de> Visitor<'de> for External {
    type Value = Sym;
    fn expecting(&self, _: &mut fmt::Formatter) -> fmt::Result {
        Ok(())
    }
    fn visit_map<A: MapAccess<'de>>(self, mut m: A) -> Result<Sym, A::Error> {
        match m.next_key_seed(Tag)? {
            Some(f) => m.next_value_seed(Apply(f)),
            None => Err(A::Error::custom("Tr")),
        }
    }
}
pub fn root_spec_de_ext() -> R {
    rt::set("keys are tags", 1);
    top().deserialize_map(External)
}

// ---------------------------------------------------------------- internal

pub struct Internal {
    pub default: Option<&'static str>,
}
impl<'de> Visitor<'de> for Internal {
    type Value = Sym;
    fn expecting(&self, _: &mut fmt::Formatter) -> fmt::Result {
        Ok(())
    }
    fn visit_map<A: MapAccess<'de>>(self, mut m: A) -> Result<Sym, A::Error> {
        let key = Key { tag: "type", content: None, closed: false };
        let mut seen = None;
        let mut rest = Vec::new();
        loop {
            if seen.is_none() {
                match m.next_key_seed(key)? {
                    None => break,
                    Some(K::Other(k)) => {
                        let v = m.next_value_seed(Buffer)?;
                        rest.push((Content::String(k), v));
                    }
                    Some(_) => {
                        let f = m.next_value_seed(Tag)?;
                        if rest.is_empty() {
                            return Apply(f).deserialize(Stream { m });
                        }
                        seen = Some(f);
                    }
                }
            } else {
                match m.next_key::<String>()? {
                    None => break,
                    Some(k) => {
                        let v = m.next_value_seed(Buffer)?;
                        rest.push((Content::String(k), v));
                    }
                }
            }
        }
        let f = match (seen, self.default) {
            (Some(f), _) => f,
            (None, Some(d)) => lookup(d)?,
            (None, None) => return Err(A::Error::missing_field("type")),
        };
        // as if the tag had come first
        let rest = rest.into_iter().map(|(k, v)| (ContentDeserializer::<A::Error>::new(k), ContentDeserializer::<A::Error>::new(v)));
        let mut rest = value::MapDeserializer::new(rest);
        let r = Apply(f).deserialize(Stream { m: &mut rest })?;
        rest.end()?;
        Ok(r)
    }
}
pub fn root_spec_de_int() -> R {
    top().deserialize_map(Internal { default: None })
}
pub fn root_spec_de_int_def() -> R {
    top().deserialize_map(Internal { default: Some("B") })
}
pub fn root_spec_de_late() -> R {
    rt::set("script", 4);
    rt::set("req", 1);
    top().deserialize_map(Internal { default: None })
}
pub fn root_spec_de_late_def() -> R {
    rt::set("script", 5);
    rt::set("req", 1);
    top().deserialize_map(Internal { default: Some("B") })
}
pub fn root_spec_de_stream() -> R {
    rt::set("script", 2);
    rt::set("req", 1);
    top().deserialize_map(Internal { default: None })
}

/// The rest of an internally tagged object, seen by the concrete type.
struct Stream<A> {
    m: A,
}

/// a typed request
struct Ask<V> {
    what: usize,
    name: &'static str,
    fields: &'static [&'static str],
    len: usize,
    v: V,
}
impl<'de, V: Visitor<'de>> DeserializeSeed<'de> for Ask<V> {
    type Value = V::Value;
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<V::Value, D::Error> {
        match self.what {
            0 => d.deserialize_any(self.v),
            1 => d.deserialize_bool(self.v),
            2 => d.deserialize_i8(self.v),
            3 => d.deserialize_i16(self.v),
            4 => d.deserialize_i32(self.v),
            5 => d.deserialize_i64(self.v),
            6 => d.deserialize_i128(self.v),
            7 => d.deserialize_u8(self.v),
            8 => d.deserialize_u16(self.v),
            9 => d.deserialize_u32(self.v),
            10 => d.deserialize_u64(self.v),
            11 => d.deserialize_u128(self.v),
            12 => d.deserialize_f32(self.v),
            13 => d.deserialize_f64(self.v),
            14 => d.deserialize_char(self.v),
            15 => d.deserialize_str(self.v),
            16 => d.deserialize_string(self.v),
            17 => d.deserialize_bytes(self.v),
            18 => d.deserialize_byte_buf(self.v),
            19 => d.deserialize_option(self.v),
            20 => d.deserialize_unit(self.v),
            21 => d.deserialize_unit_struct(self.name, self.v),
            22 => d.deserialize_newtype_struct(self.name, self.v),
            23 => d.deserialize_seq(self.v),
            24 => d.deserialize_tuple(self.len, self.v),
            25 => d.deserialize_tuple_struct(self.name, self.len, self.v),
            26 => d.deserialize_map(self.v),
            27 => d.deserialize_struct(self.name, self.fields, self.v),
            28 => d.deserialize_enum(self.name, self.fields, self.v),
            29 => d.deserialize_identifier(self.v),
            _ => d.deserialize_ignored_any(self.v),
        }
    }
}

/// The key under which everything that is not map-like is kept.
struct ValueKey;
impl<'de> Visitor<'de> for ValueKey {
    type Value = ();
    fn expecting(&self, _: &mut fmt::Formatter) -> fmt::Result {
        Ok(())
    }
    fn visit_str<E: Error>(self, s: &str) -> Result<(), E> {
        if rt::same_str(s, "value") {
            Ok(())
        } else {
            Err(E::unknown_field(s, &["value"]))
        }
    }
}
impl<'de> DeserializeSeed<'de> for ValueKey {
    type Value = ();
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<(), D::Error> {
        d.deserialize_str(self)
    }
}

impl<'de, A: MapAccess<'de>> Stream<A> {
    fn value_key(&mut self) -> Result<bool, A::Error> {
        Ok(self.m.next_key_seed(ValueKey)?.is_some())
    }
    fn under<V: Visitor<'de>>(mut self, a: Ask<V>) -> Result<V::Value, A::Error> {
        if self.value_key()? {
            self.m.next_value_seed(a)
        } else {
            Err(A::Error::missing_field("value"))
        }
    }
}

macro_rules! under {
    ($($m:ident $n:literal;)*) => {$(
        fn $m<V: Visitor<'de>>(self, v: V) -> Result<V::Value, A::Error> {
            self.under(Ask { what: $n, name: "", fields: &[], len: 0, v })
        }
    )*};
}
impl<'de, A: MapAccess<'de>> Deserializer<'de> for Stream<A> {
    type Error = A::Error;
    under! {
        deserialize_bool 1; deserialize_i8 2; deserialize_i16 3; deserialize_i32 4; deserialize_i64 5; deserialize_i128 6;
        deserialize_u8 7; deserialize_u16 8; deserialize_u32 9; deserialize_u64 10; deserialize_u128 11;
        deserialize_f32 12; deserialize_f64 13; deserialize_char 14; deserialize_str 15; deserialize_string 16;
        deserialize_bytes 17; deserialize_byte_buf 18; deserialize_seq 23; deserialize_identifier 29;
    }
    fn deserialize_tuple<V: Visitor<'de>>(self, len: usize, v: V) -> Result<V::Value, A::Error> {
        self.under(Ask { what: 24, name: "", fields: &[], len, v })
    }
    fn deserialize_tuple_struct<V: Visitor<'de>>(self, name: &'static str, len: usize, v: V) -> Result<V::Value, A::Error> {
        self.under(Ask { what: 25, name, fields: &[], len, v })
    }
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, A::Error> {
        v.visit_map(Entries(self.m))
    }
    fn deserialize_map<V: Visitor<'de>>(self, v: V) -> Result<V::Value, A::Error> {
        v.visit_map(Entries(self.m))
    }
    fn deserialize_struct<V: Visitor<'de>>(self, _: &'static str, _: &'static [&'static str], v: V) -> Result<V::Value, A::Error> {
        v.visit_map(Entries(self.m))
    }
    fn deserialize_option<V: Visitor<'de>>(mut self, v: V) -> Result<V::Value, A::Error> {
        if self.value_key()? {
            v.visit_some(Value(self.m))
        } else {
            v.visit_none()
        }
    }
    fn deserialize_unit<V: Visitor<'de>>(self, v: V) -> Result<V::Value, A::Error> {
        v.visit_unit()
    }
    fn deserialize_unit_struct<V: Visitor<'de>>(self, _: &'static str, v: V) -> Result<V::Value, A::Error> {
        v.visit_unit()
    }
    fn deserialize_newtype_struct<V: Visitor<'de>>(self, _: &'static str, v: V) -> Result<V::Value, A::Error> {
        v.visit_newtype_struct(self)
    }
    fn deserialize_enum<V: Visitor<'de>>(self, name: &'static str, _: &'static [&'static str], v: V) -> Result<V::Value, A::Error> {
        v.visit_enum(OneEntry(self.m, name))
    }
    fn deserialize_ignored_any<V: Visitor<'de>>(mut self, v: V) -> Result<V::Value, A::Error> {
        if self.value_key()? {
            self.m.next_value::<IgnoredAny>()?;
        }
        v.visit_unit()
    }
}

/// Map entries whose keys are strings where the concrete type asks for field or variant names.
struct Entries<A>(A);
struct StrKey<K>(K);
struct StrDe<D>(D);
impl<'de, A: MapAccess<'de>> MapAccess<'de> for Entries<A> {
    type Error = A::Error;
    fn next_key_seed<K: DeserializeSeed<'de>>(&mut self, k: K) -> Result<Option<K::Value>, A::Error> {
        self.0.next_key_seed(StrKey(k))
    }
    fn next_value_seed<K: DeserializeSeed<'de>>(&mut self, k: K) -> Result<K::Value, A::Error> {
        self.0.next_value_seed(k)
    }
}
impl<'de, K: DeserializeSeed<'de>> DeserializeSeed<'de> for StrKey<K> {
    type Value = K::Value;
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<K::Value, D::Error> {
        self.0.deserialize(StrDe(d))
    }
}
macro_rules! typed_keys {
    ($($m:ident)*) => {$(
        fn $m<V: Visitor<'de>>(self, v: V) -> Result<V::Value, D::Error> {
            self.0.$m(v)
        }
    )*};
}
impl<'de, D: Deserializer<'de>> Deserializer<'de> for StrDe<D> {
    type Error = D::Error;
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, D::Error> {
        self.0.deserialize_str(v)
    }
    typed_keys! {
        deserialize_bool deserialize_i8 deserialize_i16 deserialize_i32 deserialize_i64 deserialize_i128
        deserialize_u8 deserialize_u16 deserialize_u32 deserialize_u64 deserialize_u128
        deserialize_f32 deserialize_f64 deserialize_char deserialize_str deserialize_string
        deserialize_bytes deserialize_byte_buf deserialize_option deserialize_unit deserialize_seq deserialize_map
    }
    fn deserialize_unit_struct<V: Visitor<'de>>(self, name: &'static str, v: V) -> Result<V::Value, D::Error> {
        self.0.deserialize_unit_struct(name, v)
    }
    fn deserialize_newtype_struct<V: Visitor<'de>>(self, name: &'static str, v: V) -> Result<V::Value, D::Error> {
        self.0.deserialize_newtype_struct(name, v)
    }
    fn deserialize_tuple<V: Visitor<'de>>(self, len: usize, v: V) -> Result<V::Value, D::Error> {
        self.0.deserialize_tuple(len, v)
    }
    fn deserialize_tuple_struct<V: Visitor<'de>>(self, name: &'static str, len: usize, v: V) -> Result<V::Value, D::Error> {
        self.0.deserialize_tuple_struct(name, len, v)
    }
    fn deserialize_struct<V: Visitor<'de>>(self, name: &'static str, f: &'static [&'static str], v: V) -> Result<V::Value, D::Error> {
        self.0.deserialize_struct(name, f, v)
    }
    fn deserialize_enum<V: Visitor<'de>>(self, name: &'static str, f: &'static [&'static str], v: V) -> Result<V::Value, D::Error> {
        self.0.deserialize_enum(name, f, v)
    }
    serde::forward_to_deserialize_any! { identifier ignored_any }
}
/// A single entry standing for an enum variant.
struct OneEntry<A>(A, &'static str);
impl<'de, A: MapAccess<'de>> EnumAccess<'de> for OneEntry<A> {
    type Error = A::Error;
    type Variant = Self;
    fn variant_seed<K: DeserializeSeed<'de>>(mut self, k: K) -> Result<(K::Value, Self), A::Error> {
        match self.0.next_key_seed(StrKey(k))? {
            Some(v) => Ok((v, self)),
            None => Err(A::Error::custom(self.1)),
        }
    }
}
impl<'de, A: MapAccess<'de>> VariantAccess<'de> for OneEntry<A> {
    type Error = A::Error;
    fn unit_variant(mut self) -> Result<(), A::Error> {
        self.0.next_value::<()>()
    }
    fn newtype_variant_seed<K: DeserializeSeed<'de>>(mut self, k: K) -> Result<K::Value, A::Error> {
        self.0.next_value_seed(k)
    }
    fn tuple_variant<V: Visitor<'de>>(mut self, len: usize, v: V) -> Result<V::Value, A::Error> {
        self.0.next_value_seed(Ask { what: 24, name: "", fields: &[], len, v })
    }
    fn struct_variant<V: Visitor<'de>>(mut self, fields: &'static [&'static str], v: V) -> Result<V::Value, A::Error> {
        self.0.next_value_seed(Ask { what: 27, name: self.1, fields, len: 0, v })
    }
}

/// The value of the current entry.
struct Value<A>(A);
macro_rules! value {
    ($($m:ident $n:literal;)*) => {$(
        fn $m<V: Visitor<'de>>(mut self, v: V) -> Result<V::Value, A::Error> {
            self.0.next_value_seed(Ask { what: $n, name: "", fields: &[], len: 0, v })
        }
    )*};
}
impl<'de, A: MapAccess<'de>> Deserializer<'de> for Value<A> {
    type Error = A::Error;
    value! {
        deserialize_any 0; deserialize_bool 1; deserialize_i8 2; deserialize_i16 3; deserialize_i32 4; deserialize_i64 5; deserialize_i128 6;
        deserialize_u8 7; deserialize_u16 8; deserialize_u32 9; deserialize_u64 10; deserialize_u128 11;
        deserialize_f32 12; deserialize_f64 13; deserialize_char 14; deserialize_str 15; deserialize_string 16;
        deserialize_bytes 17; deserialize_byte_buf 18; deserialize_option 19; deserialize_unit 20; deserialize_seq 23;
        deserialize_map 26; deserialize_identifier 29; deserialize_ignored_any 30;
    }
    fn deserialize_unit_struct<V: Visitor<'de>>(mut self, name: &'static str, v: V) -> Result<V::Value, A::Error> {
        self.0.next_value_seed(Ask { what: 21, name, fields: &[], len: 0, v })
    }
    fn deserialize_newtype_struct<V: Visitor<'de>>(mut self, name: &'static str, v: V) -> Result<V::Value, A::Error> {
        self.0.next_value_seed(Ask { what: 22, name, fields: &[], len: 0, v })
    }
    fn deserialize_tuple<V: Visitor<'de>>(mut self, len: usize, v: V) -> Result<V::Value, A::Error> {
        self.0.next_value_seed(Ask { what: 24, name: "", fields: &[], len, v })
    }
    fn deserialize_tuple_struct<V: Visitor<'de>>(mut self, name: &'static str, len: usize, v: V) -> Result<V::Value, A::Error> {
        self.0.next_value_seed(Ask { what: 25, name, fields: &[], len, v })
    }
    fn deserialize_struct<V: Visitor<'de>>(mut self, name: &'static str, fields: &'static [&'static str], v: V) -> Result<V::Value, A::Error> {
        self.0.next_value_seed(Ask { what: 27, name, fields, len: 0, v })
    }
    fn deserialize_enum<V: Visitor<'de>>(mut self, name: &'static str, fields: &'static [&'static str], v: V) -> Result<V::Value, A::Error> {
        self.0.next_value_seed(Ask { what: 28, name, fields, len: 0, v })
    }
}

// ---------------------------------------------------------------- adjacent

pub struct Adjacent {
    pub default: Option<&'static str>,
    pub deny: bool,
}
impl Adjacent {
    fn key(&self) -> Key {
        Key { tag: "type", content: Some("data"), closed: self.deny }
    }
    /// the next key that is the tag key or the content key
    fn next<'de, A: MapAccess<'de>>(&self, m: &mut A) -> Result<Option<K>, A::Error> {
        loop {
            match m.next_key_seed(self.key())? {
                Some(K::Other(_)) => {
                    m.next_value::<IgnoredAny>()?;
                }
                k => return Ok(k),
            }
        }
    }
}
impl<'de> Visitor<'de> for Adjacent {
    type Value = Sym;
    fn expecting(&self, _: &mut fmt::Formatter) -> fmt::Result {
        Ok(())
    }
    fn visit_map<A: MapAccess<'de>>(self, mut m: A) -> Result<Sym, A::Error> {
        let mut f = None;
        let mut held = None;
        let mut made = None;
        loop {
            match self.next(&mut m)? {
                Some(K::Tag) => {
                    if f.is_some() {
                        return Err(A::Error::duplicate_field("type"));
                    }
                    let g = m.next_value_seed(Tag)?;
                    f = Some(g);
                    if let Some(c) = held.take() {
                        made = Some(Apply(g).deserialize(ContentDeserializer::<A::Error>::new(c))?);
                    }
                }
                Some(_) => {
                    if held.is_some() || made.is_some() {
                        return Err(A::Error::duplicate_field("data"));
                    }
                    match f {
                        Some(g) => made = Some(m.next_value_seed(Apply(g))?),
                        None => held = Some(m.next_value_seed(Buffer)?),
                    }
                }
                None => break,
            }
        }
        match (made, f, held) {
            (Some(v), _, _) => Ok(v),
            // only the tag: an empty object
            (None, Some(g), _) => Apply(g).deserialize(().into_deserializer()),
            (None, None, Some(c)) => match self.default {
                Some(d) => Apply(lookup(d)?).deserialize(ContentDeserializer::<A::Error>::new(c)),
                None => Err(A::Error::missing_field("type")),
            },
            (None, None, None) => Err(A::Error::missing_field(if self.default.is_some() { "data" } else { "type" })),
        }
    }
    fn visit_seq<A: SeqAccess<'de>>(self, mut s: A) -> Result<Sym, A::Error> {
        match s.next_element_seed(Tag)? {
            None => Err(A::Error::invalid_length(0, &self)),
            Some(f) => match s.next_element_seed(Apply(f))? {
                None => Err(A::Error::invalid_length(1, &self)),
                Some(v) => Ok(v),
            },
        }
    }
}
fn adjacent(default: Option<&'static str>, deny: bool) -> R {
    rt::set("adjacent", 1);
    top().deserialize_struct("Tr", &["type", "data"], Adjacent { default, deny })
}
pub fn root_spec_de_adj() -> R {
    adjacent(None, false)
}
pub fn root_spec_de_adj_def() -> R {
    adjacent(Some("B"), false)
}
pub fn root_spec_de_adj_deny() -> R {
    adjacent(None, true)
}
pub fn root_spec_de_adj_both() -> R {
    adjacent(Some("B"), true)
}
pub fn root_spec_de_buffered() -> R {
    rt::set("script", 1);
    rt::set("req", 1);
    rt::set("full", 1);
    adjacent(None, false)
}
fn long(kind: usize, force: usize) -> R {
    rt::set("script", 1);
    rt::set("req", 1);
    rt::set("full", 1);
    rt::set("kind", kind);
    rt::set("force", force);
    rt::set("watch", 1);
    adjacent(None, false)
}
pub fn root_spec_de_longseq() -> R {
    long(25, 23)
}
pub fn root_spec_de_longmap() -> R {
    long(26, 26)
}
pub fn root_spec_de_enum() -> R {
    rt::set("script", 1);
    rt::set("req", 1);
    rt::set("full", 2);
    rt::set("force", 28);
    adjacent(None, false)
}
pub fn root_spec_de_reg_int() -> R {
    any_program();
    rt::set("script", 3);
    root_spec_de_int()
}
pub fn root_spec_de_reg_adj() -> R {
    any_program();
    rt::set("script", 3);
    root_spec_de_adj()
}
pub fn root_spec_de_reg_int_def() -> R {
    any_program();
    rt::set("script", 3);
    root_spec_de_int_def()
}
pub fn root_spec_de_reg_adj_def() -> R {
    any_program();
    rt::set("script", 3);
    root_spec_de_adj_def()
}
pub fn root_spec_de_reg() -> R {
    any_program();
    rt::set("keys are tags", 1);
    top().deserialize_map(External)
}

