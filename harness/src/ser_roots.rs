//! Writing: roots and their specifications.
use crate::env_ser::*;
use crate::err::*;
use crate::fixtures;
use crate::rt::{self, Sym};
use alloc::vec::Vec;
use serde::ser::*;

fn val<T>() -> T {
    rt::tok("val", 0)
}

macro_rules! ser_root {
    ($($root:ident $m:ident;)*) => {$(
        pub fn $root() -> Result<Done, EnvErr> {
            let v = fixtures::$m::Val(val());
            let o: &dyn fixtures::$m::Tr = &v;
            o.serialize(EnvSer)
        }
    )*};
}
macro_rules! ser_marker_root {
    ($($root:ident $m:ident ($($mk:tt)*);)*) => {$(
        pub fn $root() -> Result<Done, EnvErr> {
            let v = fixtures::$m::Val(val());
            let o: &(dyn fixtures::$m::Tr $($mk)*) = &v;
            o.serialize(EnvSer)
        }
    )*};
}
ser_marker_root! {
    root_mser_ext_s ext (+ Send);
    root_mser_ext_y ext (+ Sync);
    root_mser_ext_b ext (+ Send + Sync);
    root_mser_adj_s adj (+ Send);
    root_mser_adj_y adj (+ Sync);
    root_mser_adj_b adj (+ Send + Sync);
    root_mser_int_s int (+ Send);
    root_mser_int_y int (+ Sync);
    root_mser_int_b int (+ Send + Sync);
    root_mser_ext_b_s ext_b (+ Send);
    root_mser_ext_b_y ext_b (+ Sync);
    root_mser_ext_b_b ext_b (+ Send + Sync);
    root_mser_ext_b_n ext_b ();
    root_mser_ext_s_n ext_s ();
    root_mser_ext_y_n ext_y ();
}
ser_root! {
    root_ser_ext ext;
    root_ser_adj adj;
    root_ser_int int;
}
pub fn root_ser_int_deep() -> Result<Done, EnvErr> {
    rt::set("deep", 1);
    root_ser_int()
}

pub fn root_spec_ser_ext() -> Result<Done, EnvErr> {
    let mut m = EnvSer.serialize_map(Some(1))?;
    m.serialize_key("A")?;
    m.serialize_value(&Concrete)?;
    SerializeMap::end(m)
}
pub fn root_spec_ser_adj() -> Result<Done, EnvErr> {
    let mut m = EnvSer.serialize_struct("Tr", 2)?;
    SerializeStruct::serialize_field(&mut m, "type", "A")?;
    SerializeStruct::serialize_field(&mut m, "data", &Concrete)?;
    SerializeStruct::end(m)
}
struct Concrete;
impl Serialize for Concrete {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        guard();
        rt::ev("concrete", (&fixtures::ext::Val(val()),));
        rt::cast(outcome(done()))
    }
}

fn spec_int() -> Result<Done, EnvErr> {
    if rt::get("collide") == 1 {
        return drive_collide(crate::spec_ser::SpecInt { tag: "type", name: "A" });
    }
    drive_ser(crate::spec_ser::SpecInt { tag: "type", name: "A" }, 0)
}
pub fn root_spec_ser_int() -> Result<Done, EnvErr> {
    spec_int()
}
pub fn root_spec_ser_int_deep() -> Result<Done, EnvErr> {
    rt::set("deep", 1);
    spec_int()
}

macro_rules! mode_root {
    ($($root:ident $of:ident $($m:literal)*;)*) => {$(
        pub fn $root() -> Result<Done, EnvErr> {
            $(rt::set($m, 1);)*
            $of()
        }
    )*};
}
mode_root! {
    root_serlen_ext root_ser_ext "lens";
    root_serlen_adj root_ser_adj "lens";
    root_serlen_int root_ser_int "lens";
    root_serlen_int_deep root_ser_int "lens" "deep";
    root_serhr_ext root_ser_ext "hr";
    root_serhr_adj root_ser_adj "hr";
    root_serhr_int root_ser_int "hr";
    root_serhr_int_deep root_ser_int "hr" "deep";
    root_serhr_collide root_ser_int "hr" "collide";
}

// ---------------------------------------------------------------- a field named like the tag
pub fn root_ser_collide() -> Result<Done, EnvErr> {
    rt::set("collide", 1);
    root_ser_int()
}
pub fn root_spec_ser_collide() -> Result<Done, EnvErr> {
    rt::set("collide", 1);
    spec_int()
}
/// ... whatever the name of the implementation
pub fn root_ser_collide_any() -> Result<Done, EnvErr> {
    rt::set("any name", 1);
    root_ser_collide()
}
pub fn root_spec_ser_collide_any() -> Result<Done, EnvErr> {
    rt::set("any name", 1);
    root_spec_ser_collide()
}
const FIELDS: &[&str] = &["field named type", "field named Type", "field named typ", "field named types", "field named A", "field named value"];
const COLL: &[&str] = &[
    "str A", "str B", "str token", "char A", "char B", "some A", "some B", "newtype A", "newtype B", "some some A", "none", "bool", "i8", "i16", "i32", "i64", "i128", "u8", "u16",
    "u32", "u64", "u128", "f32", "f64", "unit", "unit struct", "unit variant", "bytes", "newtype variant", "seq", "tuple", "tuple struct", "tuple variant", "map", "struct",
    "struct variant", "error",
];
struct Coll;
impl Serialize for Coll {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        if rt::get("hr") == 1 && !rt::type_is::<S, EnvSer>() {
            rt::ev("hr of a field named like the tag", (s.is_human_readable(),));
        }
        match rt::choose(COLL) {
            0 => s.serialize_str("A"),
            1 => s.serialize_str("B"),
            2 => s.serialize_str(t("s", 3)),
            3 | 4 if rt::get("any name") == 1 => rt::stop(),
            3 => s.serialize_char('A'),
            4 => s.serialize_char('B'),
            5 => s.serialize_some("A"),
            6 => s.serialize_some("B"),
            7 => s.serialize_newtype_struct("N", "A"),
            8 => s.serialize_newtype_struct("N", "B"),
            9 => s.serialize_some(&Some("A")),
            10 => s.serialize_none(),
            11 => s.serialize_bool(t("b", 3)),
            12 => s.serialize_i8(t("n", 3)),
            13 => s.serialize_i16(t("n", 3)),
            14 => s.serialize_i32(t("n", 3)),
            15 => s.serialize_i64(t("n", 3)),
            16 => s.serialize_i128(t("n", 3)),
            17 => s.serialize_u8(t("n", 3)),
            18 => s.serialize_u16(t("n", 3)),
            19 => s.serialize_u32(t("n", 3)),
            20 => s.serialize_u64(t("n", 3)),
            21 => s.serialize_u128(t("n", 3)),
            22 => s.serialize_f32(t("x", 3)),
            23 => s.serialize_f64(t("x", 3)),
            24 => s.serialize_unit(),
            25 => s.serialize_unit_struct("A"),
            26 => s.serialize_unit_variant("A", 0, "A"),
            27 => s.serialize_bytes(b"A"),
            28 => s.serialize_newtype_variant("A", 0, "A", "A"),
            29 => s.serialize_seq(Some(0))?.end(),
            30 => s.serialize_tuple(0)?.end(),
            31 => s.serialize_tuple_struct("A", 0)?.end(),
            32 => s.serialize_tuple_variant("A", 0, "A", 0)?.end(),
            33 => s.serialize_map(Some(0))?.end(),
            34 => s.serialize_struct("A", 0)?.end(),
            35 => s.serialize_struct_variant("A", 0, "A", 0)?.end(),
            _ => fail_ser(),
        }
    }
}
const BEFORE: &[&str] = &["nothing before", "a field before"];
const AFTER: &[&str] = &["nothing after", "a field after"];
pub fn drive_collide<S: Serializer>(s: S) -> Result<S::Ok, S::Error> {
    let before = rt::choose(BEFORE);
    let after = rt::choose(AFTER);
    let mut c = s.serialize_struct("S", 1 + before + after)?;
    if before == 1 {
        c.serialize_field("other", &elem(1, 2))?;
    }
    match rt::choose(FIELDS) {
        0 => c.serialize_field("type", &Coll)?,
        1 => c.serialize_field("Type", &elem(2, 2))?,
        2 => c.serialize_field("typ", &elem(2, 2))?,
        3 => c.serialize_field("types", &elem(2, 2))?,
        4 if rt::get("any name") == 1 => rt::stop(),
        4 => c.serialize_field("A", &elem(2, 2))?,
        _ => c.serialize_field("value", &elem(2, 2))?,
    }
    if after == 1 {
        c.serialize_field("another", &elem(3, 2))?;
    }
    c.end()
}

macro_rules! kind_root {
    ($($root:ident $of:ident $($m:literal = $v:literal)*;)*) => {$(
        pub fn $root() -> Result<Done, EnvErr> {
            $(rt::set($m, $v);)*
            $of()
        }
    )*};
}
// Long sequences of every kind, at the top and inside a buffered part, of which one element is watched.
kind_root! {
    root_ser_long_seq root_ser_int "watch"=1 "kind"=23;
    root_ser_longin_seq root_ser_int "watch"=1 "deep"=1 "kind"=23;
    root_ser_long_tuple root_ser_int "watch"=1 "kind"=24;
    root_ser_longin_tuple root_ser_int "watch"=1 "deep"=1 "kind"=24;
    root_ser_long_tuple_struct root_ser_int "watch"=1 "kind"=25;
    root_ser_longin_tuple_struct root_ser_int "watch"=1 "deep"=1 "kind"=25;
    root_ser_long_tuple_variant root_ser_int "watch"=1 "kind"=26;
    root_ser_longin_tuple_variant root_ser_int "watch"=1 "deep"=1 "kind"=26;
    root_ser_longin_map root_ser_int "watch"=1 "deep"=1 "kind"=27;
    root_ser_longin_struct root_ser_int "watch"=1 "deep"=1 "kind"=28;
    root_ser_long_struct_variant root_ser_int "watch"=1 "kind"=29;
    root_ser_longin_struct_variant root_ser_int "watch"=1 "deep"=1 "kind"=29;
    root_spec_ser_long_seq spec_int "watch"=1 "kind"=23;
    root_spec_ser_longin_seq spec_int "watch"=1 "deep"=1 "kind"=23;
    root_spec_ser_long_tuple spec_int "watch"=1 "kind"=24;
    root_spec_ser_longin_tuple spec_int "watch"=1 "deep"=1 "kind"=24;
    root_spec_ser_long_tuple_struct spec_int "watch"=1 "kind"=25;
    root_spec_ser_longin_tuple_struct spec_int "watch"=1 "deep"=1 "kind"=25;
    root_spec_ser_long_tuple_variant spec_int "watch"=1 "kind"=26;
    root_spec_ser_longin_tuple_variant spec_int "watch"=1 "deep"=1 "kind"=26;
    root_spec_ser_longin_map spec_int "watch"=1 "deep"=1 "kind"=27;
    root_spec_ser_longin_struct spec_int "watch"=1 "deep"=1 "kind"=28;
    root_spec_ser_long_struct_variant spec_int "watch"=1 "kind"=29;
    root_spec_ser_longin_struct_variant spec_int "watch"=1 "deep"=1 "kind"=29;
}
