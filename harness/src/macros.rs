//! Programs that use the macros in many ways, read and written with their own registrations.
use crate::env_ser::*;
use crate::err::*;
use crate::rt;
use serde::de::{DeserializeSeed, Deserializer, MapAccess, Visitor};
use serde::forward_to_deserialize_any;
use serde::ser::*;

// ------------------------------------------------------------------------------------- formats
/// A format holding one object of the given tag, in the given representation.
#[derive(Clone, Copy)]
pub struct In {
    rep: usize,
    tag: &'static str,
}
pub const EXT: usize = 0;
pub const INT: usize = 1;
pub const ADJ: usize = 2;

macro_rules! any {
    () => {
        forward_to_deserialize_any! {
            bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf option unit unit_struct
            newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any
        }
    };
}
impl<'de> Deserializer<'de> for In {
    type Error = EnvErr;
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, EnvErr> {
        v.visit_map(Entries { of: self, i: 0 })
    }
    any!();
}
struct Entries {
    of: In,
    i: usize,
}
impl<'de> MapAccess<'de> for Entries {
    type Error = EnvErr;
    fn next_key_seed<K: DeserializeSeed<'de>>(&mut self, seed: K) -> Result<Option<K::Value>, EnvErr> {
        let k = match (self.of.rep, self.i) {
            (EXT, 0) => self.of.tag,
            (INT, 0) | (ADJ, 0) => "type",
            (ADJ, 1) => "data",
            _ => return Ok(None),
        };
        self.i += 1;
        seed.deserialize(Text(k)).map(Some)
    }
    fn next_value_seed<S: DeserializeSeed<'de>>(&mut self, seed: S) -> Result<S::Value, EnvErr> {
        seed.deserialize(Text(if self.of.rep != EXT && self.i == 1 { self.of.tag } else { "content" }))
    }
}
struct Text(&'static str);
impl<'de> Deserializer<'de> for Text {
    type Error = EnvErr;
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, EnvErr> {
        v.visit_str(self.0)
    }
    any!();
}

/// what is written for an object of this tag
fn written<T: ?Sized>(rep: usize, trait_name: &'static str, tag: &'static str, v: &T) -> Result<Done, EnvErr> {
    match rep {
        INT => {
            guard();
            rt::ev_type("writes", v);
            let mut m = EnvSer.serialize_map(Some(1))?;
            SerializeMap::serialize_entry(&mut m, "type", tag)?;
            SerializeMap::end(m)
        }
        EXT => {
            let mut m = EnvSer.serialize_map(Some(1))?;
            m.serialize_key(tag)?;
            m.serialize_value(&Typed(v))?;
            SerializeMap::end(m)
        }
        _ => {
            let mut m = EnvSer.serialize_struct(trait_name, 2)?;
            SerializeStruct::serialize_field(&mut m, "type", tag)?;
            SerializeStruct::serialize_field(&mut m, "data", &Typed(v))?;
            SerializeStruct::end(m)
        }
    }
}
struct Typed<'a, T: ?Sized>(&'a T);
impl<'a, T: ?Sized> Serialize for Typed<'a, T> {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        guard();
        rt::ev_type("writes", self.0);
        rt::cast(outcome(done()))
    }
}

// -------------------------------------------------------------------------------------- types
macro_rules! types {
    ($($t:ident)*) => {$(
        pub struct $t;
        crate::fixtures::opaque_serde!($t);
    )*};
}
types!(Plain Explicit Const Path Concat Block InFn InConst Renamed Attr Unsafe Grouped Assoc Func If _Under_ lower_case X9 Très DynImplBoxT);
/// types with unusual names of their own
pub struct Odd<const N: usize>;
impl<const N: usize> Serialize for Odd<N> {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        loop {}
    }
}
impl<'de, const N: usize> serde::Deserialize<'de> for Odd<N> {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        loop {}
    }
}
pub struct Gen<T>(T);
impl<T> Serialize for Gen<T> {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        loop {}
    }
}
impl<'de, T> serde::Deserialize<'de> for Gen<T> {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        loop {}
    }
}
pub mod deep {
    pub mod er {
        use crate::fixtures::opaque_serde;
        pub struct Type;
        opaque_serde!(Type);
        pub struct Plain;
        opaque_serde!(Plain);
        pub struct __;
        opaque_serde!(__);
    }
    pub use super::deep_more::*;
    pub const NAME: &str = "module constant";
}
pub type Alias = (u8, u8, u8);
pub type Other = Gen<u64>;
pub trait Named {
    const NAME: &'static str;
}
impl Named for Plain {
    const NAME: &'static str = "associated";
}
pub const fn text(b: bool) -> &'static str {
    if b { "from a function" } else { "no" }
}

// --------------------------------------------------------------------------- where names come from
macro_rules! by_ty { ($t:ty) => { #[typetag::serde] impl Tr for $t {} }; }
macro_rules! by_ty_again { ($t:ty) => { by_ty!($t); }; }
macro_rules! by_path { ($p:path) => { #[typetag::serde] impl Tr for $p {} }; }
macro_rules! by_ident { ($i:ident) => { #[typetag::serde] impl Tr for $i {} }; }
macro_rules! by_literal { ($l:literal $t:ty) => { #[typetag::serde(name = $l)] impl Tr for $t {} }; }
macro_rules! by_expr { ($l:expr, $t:ty) => { #[typetag::serde(name = $l)] impl Tr for $t {} }; }

macro_rules! names {
    ($m:ident $($attr:tt)*) => {
        pub mod $m {
            use super::*;
            const CONST: &str = "constant";
            #[typetag::serde $($attr)*]
            pub trait Tr {}
            #[typetag::serde] impl Tr for Plain {}
            #[typetag::serde(name = "explicit")] impl Tr for Explicit {}
            #[typetag::serde(name = CONST)] impl Tr for Const {}
            #[typetag::serde(name = deep::NAME)] impl Tr for Path {}
            #[typetag::serde(name = concat!("con", "cat"))] impl Tr for Concat {}
            #[typetag::serde(name = { const X: &str = "block"; X })] impl Tr for Block {}
            #[typetag::serde(name = <Plain as Named>::NAME)] impl Tr for Assoc {}
            #[typetag::serde(name = text(true))] impl Tr for Func {}
            #[typetag::serde(name = if 1 + 1 == 2 { "two" } else { "not two" },)] impl Tr for If {}
            #[typetag::serde] impl Tr for deep::er::Type {}
            #[typetag::serde] impl Tr for _Under_ {}
            #[typetag::serde] impl Tr for crate::macros::lower_case {}
            #[typetag::serde] impl Tr for super::X9 {}
            #[typetag::serde] impl Tr for Très {}
            #[typetag::serde] impl Tr for DynImplBoxT {}
            #[typetag::serde] impl Tr for deep::er::__ {}
            #[typetag::serde(name = "deep plain")] impl Tr for crate::macros::deep::er::Plain {}
            #[typetag::serde] impl Tr for Gen<u8> {}
            #[typetag::serde(name = "Gen<u16>")] impl Tr for Gen<u16> {}
            #[typetag::serde] impl Tr for Other {}
            #[typetag::serde] impl Tr for super::Alias {}
            #[typetag::serde] impl Tr for u8 {}
            #[typetag::serde] impl Tr for alloc::string::String {}
            #[typetag::serde] impl self::Tr for Option<alloc::vec::Vec<u8>> {}
            #[typetag::serde(name = "pair")] impl Tr for (u8, u16) {}
            #[typetag::serde(name = "array")] impl Tr for [u8; 2] {}
            #[typetag::serde(name = "unit")] impl Tr for () {}
            #[typetag::serde(name = "Attr")] #[allow(dead_code)] impl Tr for Attr {}
            by_ty!(u16);
            by_ty_again!(deep::Second);
            by_path!(crate::macros::deep::Third);
            by_ident!(Renamed);
            by_literal!("literal" Grouped);
            by_literal!("Alias literal" Gen<i8>);
            by_expr!(concat!("ex", "pr"), Gen<i16>);
            #[typetag::serde(name = "")] impl Tr for Odd<0> {}
            #[typetag::serde(name = " ")] impl Tr for Odd<1> {}
            #[typetag::serde(name = "x")] impl Tr for Odd<2> {}
            #[typetag::serde(name = "x ")] impl Tr for Odd<3> {}
            #[typetag::serde(name = " x")] impl Tr for Odd<4> {}
            #[typetag::serde(name = "X")] impl Tr for Odd<5> {}
            #[typetag::serde(name = "x\0")] impl Tr for Odd<6> {}
            #[typetag::serde(name = "x\0y")] impl Tr for Odd<7> {}
            #[typetag::serde(name = "\u{e9}")] impl Tr for Odd<8> {}
            #[typetag::serde(name = "e\u{301}")] impl Tr for Odd<9> {}
            #[typetag::serde(name = "\u{feff}x")] impl Tr for Odd<10> {}
            #[typetag::serde(name = "1")] impl Tr for Odd<11> {}
            #[typetag::serde(name = "01")] impl Tr for Odd<12> {}
            #[typetag::serde(name = "-1")] impl Tr for Odd<13> {}
            #[typetag::serde(name = "null")] impl Tr for Odd<14> {}
            #[typetag::serde(name = "type")] impl Tr for Odd<15> {}
            #[typetag::serde(name = "data")] impl Tr for Odd<16> {}
            #[typetag::serde(name = "true")] impl Tr for Odd<17> {}
            #[typetag::serde(name = "a::b")] impl Tr for Odd<18> {}
            #[typetag::serde(name = "r#x")] impl Tr for Odd<19> {}
            #[typetag::serde(name = "<u8>")] impl Tr for Odd<20> {}
            #[typetag::serde(name = "prefix")] impl Tr for Odd<21> {}
            #[typetag::serde(name = "prefixed")] impl Tr for Odd<22> {}
            #[typetag::serde(name = "prefix.")] impl Tr for Odd<23> {}
            #[typetag::serde(name = "\n")] impl Tr for Odd<24> {}
            #[typetag::serde(name = "\"quoted\"")] impl Tr for Odd<25> {}
            #[typetag::serde(name = "{}")] impl Tr for Odd<26> {}
            #[typetag::serde(name = "\u{65e5}\u{672c}\u{8a9e}")] impl Tr for Odd<27> {}
            #[typetag::serde(name = "\u{df}")] impl Tr for Odd<28> {}
            #[typetag::serde(name = "ss")] impl Tr for Odd<29> {}
            #[typetag::serde(name = "\u{212a}")] impl Tr for Odd<30> {}
            #[typetag::serde(name = "k")] impl Tr for Odd<31> {}
            #[typetag::serde(name = "a name of many letters and of many words, longer than any that a program would use, to be read and to be written as it is, down to its very last letter, whatever the length of the names that the others have been given: abababababababababababababababababababababababababababababababababababababababababababababababababababababababababababab")] impl Tr for Odd<32> {}
            #[typetag::serde(name = "a name of many letters and of many words, longer than any that a program would use, to be read and to be written as it is, down to its very last letter, whatever the length of the names that the others have been given: ababababababababababababababababababababababababababababababababababababababababababababababababababababababababababababc")] impl Tr for Odd<33> {}
            #[typetag::serde] impl Tr for deep::Gene<u32> {}
            fn function() {
                #[typetag::serde] impl Tr for InFn {}
            }
            const _: () = {
                #[typetag::serde] impl super::$m::Tr for InConst {}
            };
        }
    };
}
pub mod deep_more {
    pub struct Gene<T>(T);
    impl<T> serde::Serialize for Gene<T> {
        fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
            loop {}
        }
    }
    impl<'de, T> serde::Deserialize<'de> for Gene<T> {
        fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
            loop {}
        }
    }
    pub struct Second;
    crate::fixtures::opaque_serde!(Second);
    pub struct Third;
    crate::fixtures::opaque_serde!(Third);
}
names!(names_ext);
names!(names_int (tag = "type"));
names!(names_adj (tag = "type", content = "data"));

macro_rules! table {
    ($cb:ident $($x:tt)*) => {
        $cb! { [$($x)*]
            Plain, "Plain";
            Explicit, "explicit";
            Const, "constant";
            Path, "module constant";
            Concat, "concat";
            Block, "block";
            Assoc, "associated";
            Func, "from a function";
            If, "two";
            deep::er::Type, "Type";
            deep::er::Plain, "deep plain";
            Gen<u8>, "Gen";
            Gen<u16>, "Gen<u16>";
            Gen<u64>, "Other";
            (u8, u8, u8), "Alias";
            u8, "u8";
            alloc::string::String, "String";
            Option<alloc::vec::Vec<u8>>, "Option";
            (u8, u16), "pair";
            [u8; 2], "array";
            (), "unit";
            Attr, "Attr";
            u16, "u16";
            deep::Second, "Second";
            deep::Third, "Third";
            Renamed, "Renamed";
            Grouped, "literal";
            Gen<i8>, "Alias literal";
            Gen<i16>, "expr";
            InFn, "InFn";
            InConst, "InConst";
            _Under_, "_Under_";
            lower_case, "lower_case";
            X9, "X9";
            Très, "Très";
            DynImplBoxT, "DynImplBoxT";
            deep::er::__, "__";
            deep::Gene<u32>, "Gene";
            Odd<0>, "";
            Odd<1>, " ";
            Odd<2>, "x";
            Odd<3>, "x ";
            Odd<4>, " x";
            Odd<5>, "X";
            Odd<6>, "x\0";
            Odd<7>, "x\0y";
            Odd<8>, "\u{e9}";
            Odd<9>, "e\u{301}";
            Odd<10>, "\u{feff}x";
            Odd<11>, "1";
            Odd<12>, "01";
            Odd<13>, "-1";
            Odd<14>, "null";
            Odd<15>, "type";
            Odd<16>, "data";
            Odd<17>, "true";
            Odd<18>, "a::b";
            Odd<19>, "r#x";
            Odd<20>, "<u8>";
            Odd<21>, "prefix";
            Odd<22>, "prefixed";
            Odd<23>, "prefix.";
            Odd<24>, "\n";
            Odd<25>, "\"quoted\"";
            Odd<26>, "{}";
            Odd<27>, "\u{65e5}\u{672c}\u{8a9e}";
            Odd<28>, "\u{df}";
            Odd<29>, "ss";
            Odd<30>, "\u{212a}";
            Odd<31>, "k";
            Odd<32>, "a name of many letters and of many words, longer than any that a program would use, to be read and to be written as it is, down to its very last letter, whatever the length of the names that the others have been given: abababababababababababababababababababababababababababababababababababababababababababababababababababababababababababab";
            Odd<33>, "a name of many letters and of many words, longer than any that a program would use, to be read and to be written as it is, down to its very last letter, whatever the length of the names that the others have been given: ababababababababababababababababababababababababababababababababababababababababababababababababababababababababababababc";
        }
    };
}
const SORTED: &[&str] = &[
    "",
    "\n",
    " ",
    " x",
    "\"quoted\"",
    "-1",
    "01",
    "1",
    "<u8>",
    "Alias",
    "Alias literal",
    "Attr",
    "DynImplBoxT",
    "Gen",
    "Gen<u16>",
    "Gene",
    "InConst",
    "InFn",
    "Option",
    "Other",
    "Plain",
    "Renamed",
    "Second",
    "String",
    "Third",
    "Très",
    "Type",
    "X",
    "X9",
    "_Under_",
    "__",
    "a name of many letters and of many words, longer than any that a program would use, to be read and to be written as it is, down to its very last letter, whatever the length of the names that the others have been given: abababababababababababababababababababababababababababababababababababababababababababababababababababababababababababab",
    "a name of many letters and of many words, longer than any that a program would use, to be read and to be written as it is, down to its very last letter, whatever the length of the names that the others have been given: ababababababababababababababababababababababababababababababababababababababababababababababababababababababababababababc",
    "a::b",
    "array",
    "associated",
    "block",
    "concat",
    "constant",
    "data",
    "deep plain",
    "explicit",
    "expr",
    "e\u{301}",
    "from a function",
    "k",
    "literal",
    "lower_case",
    "module constant",
    "null",
    "pair",
    "prefix",
    "prefix.",
    "prefixed",
    "r#x",
    "ss",
    "true",
    "two",
    "type",
    "u16",
    "u8",
    "unit",
    "x",
    "x\0",
    "x\0y",
    "x ",
    "{}",
    "\u{df}",
    "\u{e9}",
    "\u{212a}",
    "\u{65e5}\u{672c}\u{8a9e}",
    "\u{feff}x",
];
macro_rules! strings {
    ([] $($t:ty, $n:literal;)*) => { &[$(concat!("tag of ", stringify!($t))),*] };
}
const TAGS: &[&str] = table!(strings);
const STRAY: &[&str] = &["tag Explicit", "tag blanks", "tag plain", "tag Gen<u8>", "tag macros::Plain", "tag B", "tag deep::er::Type", "tag Vec", "tag long", "tag y", "tag NUL", "tag upper", "tag prefi"];
const STRAYS: &[&str] = &["Explicit", "  ", "plain", "Gen<u8>", "macros::Plain", "B", "deep::er::Type", "Vec", "a name of many letters and of many words, longer than any that a program would use, to be read and to be written as it is, down to its very last letter, whatever the length of the names that the others have been given: ababababababababababababababababababababababababababababababababababababababababababababababababababababababababababababcd", "y", "\0", "NULL", "prefi"];

macro_rules! write_one {
    ([$m:ident $i:ident] $($t:ty, $n:literal;)*) => {{
        let mut k = 0;
        $(
            if k == $i {
                let v: $t = rt::tok("val", 0);
                let o: &dyn $m::Tr = &v;
                return o.serialize(EnvSer);
            }
            k += 1;
        )*
        rt::stop()
    }};
}
macro_rules! spec_write_one {
    ([$rep:ident $i:ident] $($t:ty, $n:literal;)*) => {{
        let mut k = 0;
        $(
            if k == $i {
                let v: $t = rt::tok("val", 0);
                return written($rep, "Tr", $n, &v);
            }
            k += 1;
        )*
        rt::stop()
    }};
}
macro_rules! read_one {
    ([$m:ident $rep:ident $i:ident] $($t:ty, $n:literal;)*) => {{
        let mut k = 0;
        $(
            if k == $i {
                return read::<dyn $m::Tr>($rep, $n);
            }
            k += 1;
        )*
        rt::stop()
    }};
}
macro_rules! spec_read_one {
    ([$rep:ident $i:ident] $($t:ty, $n:literal;)*) => {{
        let mut k = 0;
        $(
            if k == $i {
                let v: $t = rt::tok("val", 0);
                rt::ev_type("reads", &v);
                return written($rep, "Tr", $n, &v);
            }
            k += 1;
        )*
        rt::stop()
    }};
}
fn start() {
    rt::set("typed", 1);
    rt::set("real registry", 1);
}
/// read an object and write it again
fn read<T: ?Sized + Serialize>(rep: usize, tag: &'static str) -> Result<Done, EnvErr>
where
    alloc::boxed::Box<T>: for<'de> serde::Deserialize<'de>,
{
    let b = <alloc::boxed::Box<T> as serde::Deserialize>::deserialize(In { rep, tag })?;
    (*b).serialize(EnvSer)
}
fn stray() -> &'static str {
    STRAYS[rt::choose(STRAY)]
}

macro_rules! name_roots {
    ($($ser:ident $spec_ser:ident $de:ident $spec_de:ident $un:ident $spec_un:ident $m:ident $rep:ident;)*) => {$(
        pub fn $ser() -> Result<Done, EnvErr> {
            start();
            let i = rt::choose(TAGS);
            table!(write_one $m i)
        }
        pub fn $spec_ser() -> Result<Done, EnvErr> {
            let i = rt::choose(TAGS);
            table!(spec_write_one $rep i)
        }
        pub fn $de() -> Result<Done, EnvErr> {
            start();
            let i = rt::choose(TAGS);
            table!(read_one $m $rep i)
        }
        pub fn $spec_de() -> Result<Done, EnvErr> {
            let i = rt::choose(TAGS);
            table!(spec_read_one $rep i)
        }
        pub fn $un() -> Result<Done, EnvErr> {
            start();
            read::<dyn $m::Tr>($rep, stray())
        }
        pub fn $spec_un() -> Result<Done, EnvErr> {
            Err(serde::de::Error::unknown_variant(stray(), SORTED))
        }
    )*};
}
name_roots! {
    root_names_ser_ext root_spec_names_ser_ext root_names_de_ext root_spec_names_de_ext root_names_un_ext root_spec_names_un_ext names_ext EXT;
    root_names_ser_int root_spec_names_ser_int root_names_de_int root_spec_names_de_int root_names_un_int root_spec_names_un_int names_int INT;
    root_names_ser_adj root_spec_names_ser_adj root_names_de_adj root_spec_names_de_adj root_names_un_adj root_spec_names_un_adj names_adj ADJ;
}

// ------------------------------------------------------------- several traits and modes on the same types
pub mod modes {
    use super::*;
    #[typetag::serde]
    pub trait Both {}
    #[typetag::serialize]
    pub trait Writes {}
    #[typetag::deserialize]
    pub trait Reads {}
    #[typetag::serde(tag = "type")]
    pub trait Again {}
    #[typetag::serde]
    pub trait Empty {}
    #[typetag::serialize]
    pub trait Of<T> {}
    pub mod other {
        #[typetag::serde(tag = "type", content = "data")]
        pub trait Both {}
    }

    #[typetag::serde] impl Both for Plain {}
    #[typetag::serialize] impl Writes for Plain {}
    #[typetag::deserialize] impl Reads for Plain {}
    #[typetag::serde(name = "again")] impl Again for Plain {}
    #[typetag::serialize] impl<T> Of<T> for Plain {}
    #[typetag::serde] impl other::Both for Plain {}

    #[typetag::serde] impl Both for Const {}
    #[typetag::serialize(name = "const")] impl Writes for Const {}
    #[typetag::serialize(name = "of u8")] impl Of<u8> for Const {}
    #[typetag::serialize(name = "of u16")] impl Of<u16> for Const {}
    #[typetag::deserialize(name = "const")] impl Reads for Const {}

    #[typetag::serde(name = "x")] impl Both for Path {}
    #[typetag::deserialize(name = "x")] impl Reads for Concat {}
    #[typetag::serde(name = "x")] impl Again for Block {}
    #[typetag::serde(name = "x")] impl other::Both for Attr {}
    #[typetag::serialize(name = "x")] impl Writes for Func {}
    #[typetag::serialize] impl<T> Writes for Gen<T> {}
    #[typetag::serialize(name = "borrowed")] impl<'a> Writes for &'a Plain {}
}
const MODE_TAGS: &[&str] = &["tag Plain", "tag Const", "tag x", "tag again", "tag const", "tag nothing"];
const MODE_NAMES: &[&str] = &["Plain", "Const", "x", "again", "const", "nothing"];

/// whatever is read is only looked at
fn look<T: ?Sized>(rep: usize) -> Result<(), EnvErr>
where
    alloc::boxed::Box<T>: for<'de> serde::Deserialize<'de>,
{
    start();
    let tag = MODE_NAMES[rt::choose(MODE_TAGS)];
    let b = <alloc::boxed::Box<T> as serde::Deserialize>::deserialize(In { rep, tag })?;
    rt::ev_type("object", &*b);
    Ok(())
}
macro_rules! mode_de_roots {
    ($($root:ident $spec:ident $t:ident $rep:ident $tr:path, $($n:literal => $ty:ty),*;)*) => {$(
        pub fn $root() -> Result<(), EnvErr> {
            look::<dyn $tr>($rep)
        }
        pub fn $spec() -> Result<(), EnvErr> {
            let tag = MODE_NAMES[rt::choose(MODE_TAGS)];
            $(
                if rt::same_str(tag, $n) {
                    let v: $ty = rt::tok("val", 0);
                    rt::ev_type("reads", &v);
                    rt::ev_type("object", &v);
                    return Ok(());
                }
            )*
            Err(serde::de::Error::unknown_variant(tag, &[$($n),*]))
        }
    )*};
}
mode_de_roots! {
    root_modes_de_both root_spec_modes_de_both Both EXT modes::Both, "Const" => Const, "Plain" => Plain, "x" => Path;
    root_modes_de_reads root_spec_modes_de_reads Reads EXT modes::Reads, "Plain" => Plain, "const" => Const, "x" => Concat;
    root_modes_de_again root_spec_modes_de_again Again INT modes::Again, "again" => Plain, "x" => Block;
    root_modes_de_other root_spec_modes_de_other Both ADJ modes::other::Both, "Plain" => Plain, "x" => Attr;
    root_modes_de_empty root_spec_modes_de_empty Empty EXT modes::Empty, ;
}
macro_rules! mode_ser_roots {
    ($root:ident $spec:ident $labels:ident $($rep:ident $tr:path, $name:literal $ty:ty, $n:literal;)*) => {
        const $labels: &[&str] = &[$(concat!("writes as ", stringify!($tr), " of ", stringify!($ty))),*];
        pub fn $root() -> Result<Done, EnvErr> {
            start();
            let i = rt::choose($labels);
            let mut k = 0;
            $(
                if k == i {
                    let v: $ty = rt::tok("val", 0);
                    let o: &dyn $tr = &v;
                    return o.serialize(EnvSer);
                }
                k += 1;
            )*
            rt::stop()
        }
        pub fn $spec() -> Result<Done, EnvErr> {
            let i = rt::choose($labels);
            let mut k = 0;
            $(
                if k == i {
                    let v: $ty = rt::tok("val", 0);
                    return written($rep, $name, $n, &v);
                }
                k += 1;
            )*
            rt::stop()
        }
    };
}
mode_ser_roots! {
    root_modes_ser root_spec_modes_ser MODE_SER
    EXT modes::Both, "Both" Plain, "Plain";
    EXT modes::Both, "Both" Const, "Const";
    EXT modes::Both, "Both" Path, "x";
    EXT modes::Writes, "Writes" Plain, "Plain";
    EXT modes::Writes, "Writes" Const, "const";
    EXT modes::Writes, "Writes" Func, "x";
    EXT modes::Writes, "Writes" Gen<u8>, "Gen";
    EXT modes::Writes, "Writes" &'static Plain, "borrowed";
    INT modes::Again, "Again" Plain, "again";
    INT modes::Again, "Again" Block, "x";
    EXT modes::Of<bool>, "Of" Plain, "Plain";
    EXT modes::Of<u8>, "Of" Const, "of u8";
    EXT modes::Of<u16>, "Of" Const, "of u16";
    ADJ modes::other::Both, "Both" Plain, "Plain";
    ADJ modes::other::Both, "Both" Attr, "x";
}

// ------------------------------------------------------- shapes of traits, implementations and types
pub mod shapes {
    use super::*;
    pub trait S0 {}
    impl<T: ?Sized> S0 for T {}
    pub trait S1 {}
    impl<T: ?Sized> S1 for T {}
    pub trait S2 {}
    impl<T: ?Sized> S2 for T {}
    pub trait S3 {}
    impl<T: ?Sized> S3 for T {}
    pub trait S4 {}
    impl<T: ?Sized> S4 for T {}
    pub trait S5 {}
    impl<T: ?Sized> S5 for T {}
    pub trait S6 {}
    impl<T: ?Sized> S6 for T {}
    pub trait S7 {}
    impl<T: ?Sized> S7 for T {}
    pub trait S8 {}
    impl<T: ?Sized> S8 for T {}
    pub trait S9 {}
    impl<T: ?Sized> S9 for T {}
    pub mod own {
        pub trait Send {}
        impl<T: ?Sized> Send for T {}
    }
    /// many supertraits
    #[typetag::serde(tag = "type")]
    pub trait Supers: S0 + S1 + S2 + S3 + S4 + S5 + S6 + S7 + S8 + S9 + core::any::Any + own::Send + 'static + Send + Sync {}
    /// many items
    #[typetag::serde]
    pub trait Items {
        #![allow(dead_code)]
        fn m0(&self) -> u8 { 0 } fn m1(&self) -> u8 { 1 } fn m2(&self) -> u8 { 2 } fn m3(&self) -> u8 { 3 } fn m4(&self) -> u8 { 4 } fn m5(&self) -> u8 { 5 } fn m6(&self) -> u8 { 6 } fn m7(&self) -> u8 { 7 } fn m8(&self) -> u8 { 8 } fn m9(&self) -> u8 { 9 } fn m10(&self) -> u8 { 10 } fn m11(&self) -> u8 { 11 } fn m12(&self) -> u8 { 12 } fn m13(&self) -> u8 { 13 } fn m14(&self) -> u8 { 14 } fn m15(&self) -> u8 { 15 } fn m16(&self) -> u8 { 16 } fn m17(&self) -> u8 { 17 } fn m18(&self) -> u8 { 18 } fn m19(&self) -> u8 { 19 }
        type Ty: Clone where Self: Sized;
        type Lengthy<'a, T: 'a>: Clone where T: Clone, Self: Clone + Sized, Self: 'a;
        fn new() -> Self where Self: Sized;
        fn generic<T, const N: usize>(&self, _: [T; N]) where Self: Sized {}
        fn boxed(self: alloc::boxed::Box<Self>) {}
    }
    /// not safe, and bounded
    #[typetag::serde(tag = "type", content = "data", deny_unknown_fields)]
    pub(crate) unsafe trait Unsafe: Send where Self: 'static, Self: core::any::Any, u8: Copy {}
    #[allow(dead_code)] #[doc = "docs"] #[doc(alias = "x")] #[cfg(all())] #[cfg_attr(all(), allow(unused_variables))] #[must_use] #[deny(unused_imports)] #[warn(unused_mut)] #[doc(hidden)]
    #[typetag::serde]
    #[allow(dead_code)] #[doc = "docs"] #[doc(alias = "x")] #[cfg(all())] #[cfg_attr(all(), allow(unused_variables))] #[must_use] #[deny(unused_imports)] #[warn(unused_mut)] #[doc(hidden)]
    pub(in crate::macros) trait Attrs { #[allow(dead_code)] #[doc = "docs"] #[doc(alias = "x")] #[cfg(all())] #[cfg_attr(all(), allow(unused_variables))] #[must_use] #[deny(unused_imports)] #[warn(unused_mut)] #[doc(hidden)] fn f(&self) -> u8 { 0 } }

    impl Clone for Plain { fn clone(&self) -> Self { Plain } }
    impl Clone for Const { fn clone(&self) -> Self { Const } }
    impl Clone for Path { fn clone(&self) -> Self { Path } }
    pub trait Family { type Member; }
    impl Family for Plain { type Member = Grouped; }
    macro_rules! a_type { ($($t:tt)*) => { ($($t)*, Renamed) } }

    #[typetag::serde] impl Supers for Plain {}
    #[typetag::serde(name = "const")] impl Supers for <Plain as Family>::Member {}
    #[typetag::serde(name = "x")] impl Supers for (Path) {}
    #[typetag::serde(name = "again")] impl Supers for ((Plain, [Const; 2]), (), [[u8; 2]; 2]) {}

    #[typetag::serde] impl Items for Plain { #![allow(unused_variables)] fn m0(&self) -> u8 { 20 } fn m1(&self) -> u8 { 21 } fn m2(&self) -> u8 { 22 } fn m3(&self) -> u8 { 23 } fn m4(&self) -> u8 { 24 } fn m5(&self) -> u8 { 25 } fn m6(&self) -> u8 { 26 } fn m7(&self) -> u8 { 27 } fn m8(&self) -> u8 { 28 } fn m9(&self) -> u8 { 29 } fn m10(&self) -> u8 { 30 } fn m11(&self) -> u8 { 31 } fn m12(&self) -> u8 { 32 } fn m13(&self) -> u8 { 33 } fn m14(&self) -> u8 { 34 } fn m15(&self) -> u8 { 35 } fn m16(&self) -> u8 { 36 } fn m17(&self) -> u8 { 37 } fn m18(&self) -> u8 { 38 } fn m19(&self) -> u8 { 39 } type Ty = u8; type Lengthy<'a, T: 'a> = u8 where T: Clone, Self: 'a; fn new() -> Self { Plain } fn generic<T, const N: usize>(&self, x: [T; N]) {} }
    #[typetag::serde(name = "const")] impl Items for Const { type Ty = u8; type Lengthy<'a, T: 'a> = T where T: Clone, Self: 'a; fn new() -> Self { Const } }
    #[typetag::serde(name = "x")] impl Items for Path { fn new() -> Self { Path } fn m0(&self) -> u8 { 20 } fn m1(&self) -> u8 { 21 } fn m2(&self) -> u8 { 22 } fn m3(&self) -> u8 { 23 } fn m4(&self) -> u8 { 24 } fn m5(&self) -> u8 { 25 } fn m6(&self) -> u8 { 26 } fn m7(&self) -> u8 { 27 } fn m8(&self) -> u8 { 28 } fn m9(&self) -> u8 { 29 } fn m10(&self) -> u8 { 30 } fn m11(&self) -> u8 { 31 } fn m12(&self) -> u8 { 32 } fn m13(&self) -> u8 { 33 } fn m14(&self) -> u8 { 34 } fn m15(&self) -> u8 { 35 } fn m16(&self) -> u8 { 36 } fn m17(&self) -> u8 { 37 } fn m18(&self) -> u8 { 38 } fn m19(&self) -> u8 { 39 } fn boxed(self: alloc::boxed::Box<Self>) {} type Lengthy<'a, T: 'a> = u8 where T: Clone, Self: 'a; type Ty = u8; }

    #[typetag::serde] unsafe impl Unsafe for Plain where u8: Copy, [u8; 2]: Copy {}
    #[typetag::serde(name = "const")] unsafe impl self::Unsafe for [Const; 3] {}
    #[typetag::serde(name = "x")] unsafe impl crate::macros::shapes::Unsafe for a_type!(u8, u8) {}
    #[typetag::serde(name = "again")] unsafe impl Unsafe for ::core::marker::PhantomData<fn(u8) -> u8> {}

    #[allow(dead_code)] #[doc = "docs"] #[cfg(all())] #[cfg_attr(all(), allow(unused_variables))] #[deny(unused_imports)] #[warn(unused_mut)] #[doc(hidden)]
    #[typetag::serde]
    #[allow(dead_code)] #[doc = "docs"] #[cfg(all())] #[cfg_attr(all(), allow(unused_variables))] #[deny(unused_imports)] #[warn(unused_mut)] #[doc(hidden)]
    impl Attrs for Plain { #[allow(dead_code)] #[doc = "docs"] #[cfg(all())] #[cfg_attr(all(), allow(unused_variables))] #[deny(unused_imports)] #[warn(unused_mut)] #[doc(hidden)] fn f(&self) -> u8 { 1 } }
    /** docs */ #[typetag::serde(name = "const")] /** more */ #[allow(unused)] impl Attrs for Const {}
    #[typetag::serde(name = "x")] #[allow(unused)] impl Attrs for Gen<Gen<(u8, Gen<u8>)>> {}
    #[typetag::serde(name = "again")] #[cfg(not(all()))] impl Attrs for Attr {}
}
mode_de_roots! {
    root_shapes_de_supers root_spec_shapes_de_supers Supers INT shapes::Supers, "Plain" => Plain, "again" => ((Plain, [Const; 2]), (), [[u8; 2]; 2]), "const" => Grouped, "x" => Path;
    root_shapes_de_items root_spec_shapes_de_items Items EXT shapes::Items, "Plain" => Plain, "const" => Const, "x" => Path;
    root_shapes_de_unsafe root_spec_shapes_de_unsafe Unsafe ADJ shapes::Unsafe, "Plain" => Plain, "again" => core::marker::PhantomData<fn(u8) -> u8>, "const" => [Const; 3], "x" => (u8, u8, Renamed);
    root_shapes_de_attrs root_spec_shapes_de_attrs Attrs EXT shapes::Attrs, "Plain" => Plain, "const" => Const, "x" => Gen<Gen<(u8, Gen<u8>)>>;
}
mode_ser_roots! {
    root_shapes_ser root_spec_shapes_ser SHAPE_SER
    INT shapes::Supers, "Supers" Plain, "Plain";
    INT shapes::Supers, "Supers" Grouped, "const";
    INT shapes::Supers, "Supers" Path, "x";
    INT shapes::Supers, "Supers" ((Plain, [Const; 2]), (), [[u8; 2]; 2]), "again";
    EXT shapes::Items, "Items" Plain, "Plain";
    EXT shapes::Items, "Items" Const, "const";
    EXT shapes::Items, "Items" Path, "x";
    ADJ shapes::Unsafe, "Unsafe" Plain, "Plain";
    ADJ shapes::Unsafe, "Unsafe" [Const; 3], "const";
    ADJ shapes::Unsafe, "Unsafe" (u8, u8, Renamed), "x";
    ADJ shapes::Unsafe, "Unsafe" core::marker::PhantomData<fn(u8) -> u8>, "again";
    EXT shapes::Attrs, "Attrs" Plain, "Plain";
    EXT shapes::Attrs, "Attrs" Const, "const";
    EXT shapes::Attrs, "Attrs" Gen<Gen<(u8, Gen<u8>)>>, "x";
}

// ------------------------------------------------------------------- spellings of the trait's arguments
macro_rules! spelled_one {
    ($m:ident $($attr:tt)*) => {
        pub mod $m {
            use crate::rt::Sym;
            pub struct Val(pub Sym);
            crate::fixtures::opaque_serde!(Val);
            pub mod both {
                use super::Val;
                #[typetag::serde $($attr)*] pub trait Tr {}
                #[typetag::serde(name = "A")] impl Tr for Val {}
            }
            pub mod ser {
                use super::Val;
                #[typetag::serialize $($attr)*] pub trait Tr {}
                #[typetag::serialize(name = "A")] impl Tr for Val {}
            }
            pub mod de {
                use super::Val;
                #[typetag::deserialize $($attr)*] pub trait Tr {}
                #[typetag::deserialize(name = "A")] impl Tr for Val {}
            }
        }
    };
}
macro_rules! lit { ($m:ident $t:literal) => { spelled_one!($m (tag = $t)); }; ($m:ident $t:literal $c:literal $d:literal) => { spelled_one!($m (tag = $t, content = $c, default_variant = $d, deny_unknown_fields)); }; }
spelled_one!(ext_1);
spelled_one!(ext_2 ());
spelled_one!(int_1 (tag = "type",));
spelled_one!(int_2 (tag = r#"type"#));
spelled_one!(int_3 (tag = "ty\x70e"));
lit!(int_4 "type");
spelled_one!(int_def_1 (tag = "type", default_variant = "B",));
spelled_one!(int_def_2 (tag = "type", default_variant = r"B"));
spelled_one!(adj_1 (tag = "type", content = "data",));
spelled_one!(adj_2 (tag = "type", content = "\u{64}ata"));
spelled_one!(adj_def_1 (tag = "type", content = "data", default_variant = "B",));
spelled_one!(adj_deny_1 (tag = "type", content = "data", deny_unknown_fields,));
spelled_one!(adj_both_1 (tag = "type", content = "data", deny_unknown_fields, default_variant = "B"));
spelled_one!(adj_both_2 (tag = "type", content = "data", deny_unknown_fields, default_variant = "B",));
spelled_one!(adj_both_3 (tag = "type", content = "data", default_variant = "B", deny_unknown_fields,));
lit!(adj_both_4 "type" "data" "B");

macro_rules! spelled_roots {
    ($($m:ident $both:ident $ser:ident $bde:ident $de:ident $($k:literal)*;)*) => {$(
        pub fn $both() -> Result<Done, EnvErr> {
            let v = $m::Val(rt::tok("val", 0));
            let o: &dyn $m::both::Tr = &v;
            o.serialize(EnvSer)
        }
        pub fn $ser() -> Result<Done, EnvErr> {
            let v = $m::Val(rt::tok("val", 0));
            let o: &dyn $m::ser::Tr = &v;
            o.serialize(EnvSer)
        }
        pub fn $bde() -> Result<rt::Sym, EnvErr> {
            $(rt::set($k, 1);)*
            match <alloc::boxed::Box<dyn $m::both::Tr> as serde::Deserialize>::deserialize(crate::env_de::top()) {
                Ok(b) => Ok(rt::cast(b)),
                Err(e) => Err(e),
            }
        }
        pub fn $de() -> Result<rt::Sym, EnvErr> {
            $(rt::set($k, 1);)*
            match <alloc::boxed::Box<dyn $m::de::Tr> as serde::Deserialize>::deserialize(crate::env_de::top()) {
                Ok(b) => Ok(rt::cast(b)),
                Err(e) => Err(e),
            }
        }
    )*};
}
spelled_roots! {
    ext_1 root_sp_bser_ext_1 root_sp_ser_ext_1 root_sp_bde_ext_1 root_sp_de_ext_1 "keys are tags";
    ext_2 root_sp_bser_ext_2 root_sp_ser_ext_2 root_sp_bde_ext_2 root_sp_de_ext_2 "keys are tags";
    int_1 root_sp_bser_int_1 root_sp_ser_int_1 root_sp_bde_int_1 root_sp_de_int_1;
    int_2 root_sp_bser_int_2 root_sp_ser_int_2 root_sp_bde_int_2 root_sp_de_int_2;
    int_3 root_sp_bser_int_3 root_sp_ser_int_3 root_sp_bde_int_3 root_sp_de_int_3;
    int_4 root_sp_bser_int_4 root_sp_ser_int_4 root_sp_bde_int_4 root_sp_de_int_4;
    int_def_1 root_sp_bser_int_def_1 root_sp_ser_int_def_1 root_sp_bde_int_def_1 root_sp_de_int_def_1;
    int_def_2 root_sp_bser_int_def_2 root_sp_ser_int_def_2 root_sp_bde_int_def_2 root_sp_de_int_def_2;
    adj_1 root_sp_bser_adj_1 root_sp_ser_adj_1 root_sp_bde_adj_1 root_sp_de_adj_1 "adjacent";
    adj_2 root_sp_bser_adj_2 root_sp_ser_adj_2 root_sp_bde_adj_2 root_sp_de_adj_2 "adjacent";
    adj_def_1 root_sp_bser_adj_def_1 root_sp_ser_adj_def_1 root_sp_bde_adj_def_1 root_sp_de_adj_def_1 "adjacent";
    adj_deny_1 root_sp_bser_adj_deny_1 root_sp_ser_adj_deny_1 root_sp_bde_adj_deny_1 root_sp_de_adj_deny_1 "adjacent";
    adj_both_1 root_sp_bser_adj_both_1 root_sp_ser_adj_both_1 root_sp_bde_adj_both_1 root_sp_de_adj_both_1 "adjacent";
    adj_both_2 root_sp_bser_adj_both_2 root_sp_ser_adj_both_2 root_sp_bde_adj_both_2 root_sp_de_adj_both_2 "adjacent";
    adj_both_3 root_sp_bser_adj_both_3 root_sp_ser_adj_both_3 root_sp_bde_adj_both_3 root_sp_de_adj_both_3 "adjacent";
    adj_both_4 root_sp_bser_adj_both_4 root_sp_ser_adj_both_4 root_sp_bde_adj_both_4 root_sp_de_adj_both_4 "adjacent";
}

// the strings are used as they are
pub mod odd {
    use crate::rt::Sym;
    pub struct Val(pub Sym);
    crate::fixtures::opaque_serde!(Val);
    #[typetag::serde(tag = "", content = " \u{e9}\"\n\\\0{}")] pub trait Tr {}
    #[typetag::serde(name = "\t'A'\u{1f600}")] impl Tr for Val {}
    #[typetag::serde(tag = "type", content = "type")] pub trait Same {}
    #[typetag::serde(name = "type")] impl Same for Val {}
    #[typetag::serde] pub trait Ext {}
    #[typetag::serde(name = "")] impl Ext for Val {}
}
const ODD: &[&str] = &["odd strings", "equal strings", "empty name"];
pub fn root_odd() -> Result<Done, EnvErr> {
    rt::set("typed", 1);
    let v = odd::Val(rt::tok("val", 0));
    match rt::choose(ODD) {
        0 => {
            let o: &dyn odd::Tr = &v;
            o.serialize(EnvSer)
        }
        1 => {
            let o: &dyn odd::Same = &v;
            o.serialize(EnvSer)
        }
        _ => {
            let o: &dyn odd::Ext = &v;
            o.serialize(EnvSer)
        }
    }
}
pub fn root_spec_odd() -> Result<Done, EnvErr> {
    let v = odd::Val(rt::tok("val", 0));
    let (name, tag, content, variant) = match rt::choose(ODD) {
        0 => ("Tr", "", " é\"\n\\\0{}", "\t'A'😀"),
        1 => ("Same", "type", "type", "type"),
        _ => return written(EXT, "Ext", "", &v),
    };
    let mut m = EnvSer.serialize_struct(name, 2)?;
    SerializeStruct::serialize_field(&mut m, tag, variant)?;
    SerializeStruct::serialize_field(&mut m, content, &Typed(&v))?;
    SerializeStruct::end(m)
}
