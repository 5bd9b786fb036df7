"""The witness programs of each macro property."""
import re

from witness import Witness as W

PRELUDE = "#![allow(dead_code, unused)]\n"

TYPES = """
#[derive(serde::Serialize, serde::Deserialize)] struct A; #[derive(serde::Serialize, serde::Deserialize)] struct B(u8);
"""

MODES = ("serde", "serialize", "deserialize")

# ------------------------------------------------------------------------------------------- M03
M03 = []
for mode in MODES:
    covers = {"serde": ("", "serialize", "deserialize"), "serialize": ("",), "deserialize": ("",)}[mode]
    for args in ("", '(tag = "t")', '(tag = "t", content = "c")'):
        n = "%s-%d" % (mode, args.count("="))
        M03.append(W(
            "impl-of-" + n,
            TYPES + "#[typetag::%s%s] trait Tr { fn f(&self) {} }\n#[typetag::%s] impl Tr for A {}\n#[typetag::%s(name = \"q\")]\nimpl Tr for B {}" % (mode, args, mode, mode),
            [TYPES + "#[typetag::%s%s] trait Tr { fn f(&self) {} }\n#[typetag::%s] impl Tr for A {}\n%s\nimpl Tr for B {} //~error" % (
                mode, args, mode, "#[typetag::%s]" % m if m else "") for m in covers],
        ))
M03 += [
    W("impl-in-other-module",
      TYPES + "mod m { #[typetag::serde] pub trait Tr {} }\nmod n {\n#[typetag::serde]\nimpl super::m::Tr for super::A {}\n}",
      TYPES + "mod m { #[typetag::serde] pub trait Tr {} }\nmod n {\nimpl super::m::Tr for super::A {} //~error\n}"),
    W("impl-in-function",
      TYPES + "#[typetag::serde] trait Tr {}\nfn f() {\n#[typetag::serde]\nimpl Tr for A {}\n}",
      TYPES + "#[typetag::serde] trait Tr {}\nfn f() {\nimpl Tr for A {} //~error\n}"),
    W("trait-with-methods",
      TYPES + "#[typetag::serde(tag = \"t\")] trait Tr { fn f(&self); fn g(&self) {} }\n#[typetag::serde]\nimpl Tr for A { fn f(&self) {} }",
      TYPES + "#[typetag::serde(tag = \"t\")] trait Tr { fn f(&self); fn g(&self) {} }\nimpl Tr for A { fn f(&self) {} } //~error"),
    W("generic-impl-of-serialize",
      TYPES + "#[typetag::serialize] trait Tr {}\n#[derive(serde::Serialize)] struct G<T>(T);\n#[typetag::serialize]\nimpl<T: serde::Serialize> Tr for G<T> {}",
      TYPES + "#[typetag::serialize] trait Tr {}\n#[derive(serde::Serialize)] struct G<T>(T);\nimpl<T: serde::Serialize> Tr for G<T> {} //~error"),
    W("unserializable-type",
      TYPES + "#[typetag::serialize] trait Tr {}\nstruct N;\n#[typetag::serialize]\nimpl Tr for A {}",
      TYPES + "#[typetag::serialize] trait Tr {}\nstruct N;\n#[typetag::serialize]\nimpl Tr for N {} //~error"),
    W("undeserializable-type",
      TYPES + "#[typetag::deserialize] trait Tr {}\nstruct N;\n#[typetag::deserialize]\nimpl Tr for A {}",
      TYPES + "#[typetag::deserialize] trait Tr {}\nstruct N;\n#[typetag::deserialize] //~error\nimpl Tr for N {} //~error"),
]

# ------------------------------------------------------------------------------------------- M04
M04 = []
for mode in MODES:
    a = "#[typetag::%s]" % mode
    M04 += [
        W("inherent-impl-" + mode,
          TYPES + a + " trait Tr {}\n" + a + "\nimpl Tr for A {}",
          TYPES + a + " trait Tr {}\n" + a + "\nimpl A {} //~macro"),
        W("assoc-const-" + mode,
          a + "\ntrait Tr {\n fn f(&self);\n}",
          [a + "\ntrait Tr {\n const C: u8; //~macro\n}", a + "\ntrait Tr {\n fn f(&self);\n const C: u8 = 0; //~macro\n}",
           a + "\npub unsafe trait Tr {\n type T where Self: Sized;\n const C: u8; //~macro\n}"]),
        W("assoc-const-in-impl-" + mode,
          TYPES + a + " trait Tr { fn f(&self) {} }\n" + a + "\nimpl Tr for A {\n fn f(&self) {}\n}",
          TYPES + a + " trait Tr { fn f(&self) {} }\n" + a + "\nimpl Tr for A {\n fn f(&self) {}\n const C: u8 = 0; //~macro\n}"),
        W("assoc-type-" + mode,
          a + "\ntrait Tr {\n type T where Self: Sized;\n type U: Clone where Self: Sized;\n type V where Self: Send + Sized, Self: Clone;\n}",
          [a + "\ntrait Tr {\n type T; //~macro\n}", a + "\ntrait Tr {\n type T where Self: Sized;\n type U: Sized; //~macro\n}",
           a + "\ntrait Tr {\n type T where Self: Send; //~macro\n}", a + "\ntrait Tr {\n type T: Clone; //~macro\n fn f(&self) {}\n}",
           a + "\ntrait Tr {\n type T where u8: Sized; //~macro\n}", a + "\ntrait Tr: Sized {\n type T<X> where X: Sized; //~macro\n}"]),
        W("assoc-type-in-impl-" + mode,
          TYPES + a + " trait Tr { type T where Self: Sized; fn f(&self) -> u8; }\n" + a + "\nimpl Tr for A {\n type T = u8;\n fn f(&self) -> u8 { let x: Self::T = 1; x }\n}"),
        W("other-items-" + mode,
          a + "\ntrait Tr {}",
          [a + "\nconst C: u8 = 0; //~macro", a + "\nstatic C: u8 = 0; //~macro", a + "\nfn f() {} //~macro", a + "\nstruct S; //~macro",
           a + "\nenum E {} //~macro", a + "\nmod m {} //~macro", a + "\ntype T = u8; //~macro", a + "\nuse core::fmt; //~macro",
           a + "\npub union U { a: u8 } //~macro", a + "\nunsafe extern \"C\" {} //~macro", a + "\nextern crate core; //~macro"]),
        W("unnameable-" + mode,
          TYPES + a + " trait Tr {}\n" + a + "\nimpl Tr for A {}\n" + "".join("#[typetag::%s(name = \"n%d\")]\nimpl Tr for %s {}\n" % (mode, i, t) for i, t in
              enumerate(["(u8, u8)", "[u8; 3]", "()", "(A, B)", "[A; 1]"]))
          + "mod p { #[typetag::%s] trait Tr {}\n#[typetag::%s(name = \"q\")]\nimpl Tr for <Vec<u16> as IntoIterator>::Item {} }\n" % (mode, mode),
          [TYPES + a + " trait Tr {}\n" + a + "\nimpl Tr for %s {} //~macro" % t for t in
              ["(u8, u8)", "[u8; 3]", "()", "<Vec<u16> as IntoIterator>::Item", "(A,)", "!"] + (["&'static str", "[u8]"] if mode == "serialize" else [])]),
        W("nameable-" + mode,
          TYPES + "mod m { pub mod n { #[derive(serde::Serialize, serde::Deserialize)] pub struct P; } }\ntype Al = (u8, u8);\n" + a + " trait Tr {}\n" + "".join(
              a + "\nimpl Tr for %s {}\n" % t for t in ["A", "crate::B", "m::n::P", "u8", "String", "Vec<u8>", "Option<Vec<u16>>", "std::collections::BTreeMap<u8, A>", "Al", "::std::boxed::Box<u8>"])),
        W("unsafe-" + mode, TYPES + a + "\npub unsafe trait Tr {}\n" + a + "\nunsafe impl Tr for A {}"),
        W("attributes-" + mode, TYPES + "/// doc\n" + a + "\n/// more\n#[allow(unused)]\npub(crate) trait Tr {\n /// x\n fn f(&self) {}\n}\n#[allow(unused)]\n" + a + "\n#[cfg(all())]\nimpl Tr for A {}"),
    ]
    if mode != "serialize":
        M04 += [
            W("generic-trait-" + mode,
              a + "\ntrait Tr {}",
              [a + "\ntrait Tr<T> {} //~macro", a + "\ntrait Tr<'a> { fn f(&self, _: &'a u8) {} } //~macro", a + "\ntrait Tr<const N: usize> {} //~macro",
               a + "\npub trait Tr<T = u8> where T: Clone {} //~macro"]),
            W("generic-impl-" + mode,
              TYPES + "#[derive(serde::Serialize, serde::Deserialize)] struct G<T>(T);\n" + a + " trait Tr {}\n" + a + "\nimpl Tr for G<u8> {}",
              [TYPES + "#[derive(serde::Serialize, serde::Deserialize)] struct G<T>(T);\n" + a + " trait Tr {}\n" + a + "\nimpl<T> Tr for G<T> where T: serde::Serialize + serde::de::DeserializeOwned {} //~macro",
               TYPES + "#[derive(serde::Serialize, serde::Deserialize)] struct G<const N: usize>;\n" + a + " trait Tr {}\n#[typetag::" + mode + "(name = \"g\")]\nimpl<const N: usize> Tr for G<N> {} //~macro",
               TYPES + "struct G<'a>(&'a u8);\n" + a + " trait Tr {}\n" + a + "\nimpl<'a> Tr for G<'a> {} //~macro"]),
        ]
M04 += [
    W("generic-serialize",
      TYPES + """
#[derive(serde::Serialize)] struct G<T>(T);
#[derive(serde::Serialize)] struct L<'a, T>(&'a T);
#[typetag::serialize] trait One<T> { fn f(&self, _: T) {} }
#[typetag::serialize(tag = "t")] trait Two<'a, T: 'a, const N: usize> where T: Clone { fn f(&self, _: &'a [T; N]) {} }
#[typetag::serialize(tag = "t", content = "c")] trait Three<T: ?Sized = str> {}
#[typetag::serialize] trait Plain {}
#[typetag::serialize] impl<T> One<T> for A {}
#[typetag::serialize] impl One<u8> for B {}
#[typetag::serialize] impl<'a, T: Clone + 'a, const N: usize> Two<'a, T, N> for A {}
#[typetag::serialize] impl<T: serde::Serialize> Plain for G<T> {}
#[typetag::serialize] impl<'a, T: serde::Serialize> Plain for L<'a, T> {}
#[typetag::serialize] impl<T: ?Sized> Three<T> for A {}
fn s<T: serde::Serialize + ?Sized>(_: &T) {}
fn f(a: &dyn One<u8>, b: &(dyn Two<'_, u8, 3> + Send), c: &(dyn Three + Sync), d: &(dyn Plain + Send + Sync), e: Box<dyn One<Vec<u8>> + Send>) { s(a); s(b); s(c); s(d); s(&e); }
"""),
]

# ------------------------------------------------------------------------------------------- M07
ADJ = 'tag = "t", content = "c"'
REFUSED = [
    # unknown
    "foo", "foo = \"x\"", "\"t\"", "=", ",", "tag", "tag =", "tag = t", "tag = 1", "tag = b\"t\"", "tag = 't'", "tag = concat!(\"a\")", "tag = \"a\" \"b\"", "tag(\"t\")", "tag: \"t\"", "\"tag\" = \"t\"",
    # misplaced
    "content = \"c\"", "content = \"c\", tag = \"t\"", "default_variant = \"A\"", "deny_unknown_fields", "default_variant = \"A\", tag = \"t\"",
    "tag = \"t\", deny_unknown_fields", "tag = \"t\", default_variant = \"A\", content = \"c\"", "tag = \"t\", default_variant = \"A\", deny_unknown_fields",
    ADJ + ", default_variant", ADJ + ", default_variant =", ADJ + ", default_variant = A", ADJ + ", default_variant = 1", "tag = \"t\", default_variant = A", "tag = \"t\", default_variant",
    "tag = \"t\", content", "tag = \"t\", content =", "tag = \"t\", content = c", "tag = \"t\", content = 1",
    ADJ + ", deny_unknown_fields = true", ADJ + ", deny_unknown_fields(true)", ADJ + ", deny_unknown_fields = \"x\"",
    # repeated
    "tag = \"t\", tag = \"t\"", "tag = \"t\", tag = \"u\"", ADJ + ", content = \"c\"", ADJ + ", tag = \"t\"", ADJ + ", deny_unknown_fields, deny_unknown_fields",
    ADJ + ", default_variant = \"A\", default_variant = \"A\"", ADJ + ", default_variant = \"A\", deny_unknown_fields, default_variant = \"B\"",
    ADJ + ", deny_unknown_fields, default_variant = \"A\", deny_unknown_fields", "tag = \"t\", default_variant = \"A\", default_variant = \"A\"",
    # punctuation
    "tag = \"t\",,", "tag = \"t\" content = \"c\"", "tag = \"t\"; content = \"c\"", ADJ + ",,", ADJ + " deny_unknown_fields", ADJ + " default_variant = \"A\"", ADJ + ", deny_unknown_fields default_variant = \"A\"",
    ADJ + ", default_variant = \"A\" deny_unknown_fields", ADJ + ", deny_unknown_fields,,", "tag = \"t\", default_variant = \"A\",,", "tag = \"t\", default_variant = \"A\" \"B\"", ", tag = \"t\"",
    # trailing
    "tag = \"t\", foo", ADJ + ", foo", ADJ + ", foo = \"x\"", ADJ + ", default_variant = \"A\", foo", ADJ + ", deny_unknown_fields, foo", "tag = \"t\", name = \"x\"", "name = \"x\"", "tag = \"t\", default_variant = \"A\", foo",
]
ACCEPTED = [
    None, "", "tag = \"t\"", "tag = \"t\",", "tag = r#\"t\"#", "tag = \"\"", "tag = \"t\", default_variant = \"A\"", "tag = \"t\", default_variant = \"A\",",
    ADJ, ADJ + ",", ADJ + ", deny_unknown_fields", ADJ + ", deny_unknown_fields,", ADJ + ", default_variant = \"A\"", ADJ + ", default_variant = \"A\",",
    ADJ + ", default_variant = \"A\", deny_unknown_fields", ADJ + ", default_variant = \"A\", deny_unknown_fields,", ADJ + ", deny_unknown_fields, default_variant = \"A\"",
    ADJ + ", deny_unknown_fields, default_variant = \"A\",", "tag = \"t\", content = \"t\"", "tag = \"\\u{e9} \\\"\", content = \"\\n\"",
]
IMPL_REFUSED = [
    "foo", "name", "name =", "\"x\"", "name = \"x\" \"y\"", "name = \"x\", foo", "name = \"x\", name = \"x\"", "name = \"x\",,", "tag = \"t\"", "content = \"c\"", "name(\"x\")", "foo = \"x\"", ", name = \"x\"",
    "tag = \"t\", name = \"x\"", "name = \"x\", tag = \"t\"", "name = \"x\"; foo", "default_variant = \"A\"", "deny_unknown_fields", "name: \"x\"",
]
IMPL_ACCEPTED = [None, "", "name = \"x\"", "name = \"x\",", "name = CONST", "name = m::CONST,", "name = concat!(\"a\", \"b\")", "name = { const X: &str = \"y\"; X }", "name = r\"x\"", "name = \"\"", "name = if true { \"a\" } else { \"b\" }"]


def paren(a):
    return "" if a is None else "(%s)" % a


M07 = []
for mode in MODES:
    M07.append(W("accepted-on-traits-" + mode, TYPES + "\n".join(
        "mod m%d { #[typetag::%s%s] pub trait Tr {} }" % (i, mode, paren(a)) for i, a in enumerate(ACCEPTED))))
    M07.append(W("accepted-on-impls-" + mode, TYPES + "const CONST: &str = \"c\"; mod m { pub const CONST: &str = \"d\"; }\n" + "\n".join(
        "const _: () = { #[typetag::%s] trait Tr {}\n#[typetag::%s%s] impl Tr for A {} };" % (mode, mode, paren(a)) for i, a in enumerate(IMPL_ACCEPTED))))
    for i, a in enumerate(REFUSED):
        M07.append(W("refused-on-traits-%s-%d" % (mode, i + 1), None, "\n#[typetag::%s(%s)] //~macro\ntrait Tr {}" % (mode, a)))
    for i, a in enumerate(IMPL_REFUSED):
        M07.append(W("refused-on-impls-%s-%d" % (mode, i + 1), None, TYPES + "\n#[typetag::%s] trait Tr {}\n#[typetag::%s(%s)] //~macro\nimpl Tr for A {}" % (mode, mode, a)))

# ------------------------------------------------------------------------------------------- M02, M06
PROBE = """
fn has_ser<T: ?Sized + serde::Serialize>() {}
fn has_de<T: serde::de::DeserializeOwned>() {}
struct Is;
trait NoSer<X> { fn no_ser() {} }
impl<T: ?Sized> NoSer<()> for T {}
impl<T: ?Sized + serde::Serialize> NoSer<Is> for T {}
trait NoDe<X> { fn no_de() {} }
impl<T: ?Sized> NoDe<()> for T {}
impl<'de, T: ?Sized + serde::Deserialize<'de>> NoDe<&'de Is> for T {}
"""
MARKERS = {"": set(), " + Send": {"Send"}, " + Sync": {"Sync"}, " + Send + Sync": {"Send", "Sync"}}


def ser_lines(obj, yes, mark):
    o = "(dyn %s%s)" % (obj, mark)
    d = "dyn %s%s" % (obj, mark)
    a = "has_ser::<%s>();" if yes else "<%s as NoSer<_>>::no_ser();"
    return [a % o] + [a % (p % (d if "<" in p else o)) for p in ("Box<%s>", "&'static %s")]


def de_lines(obj, yes, mark):
    d = "Box<dyn %s%s>" % (obj, mark)
    return [("has_de::<%s>();" if yes else "<%s as NoDe<_>>::no_de();") % d]


ARGS = ("", '(tag = "t")', '(tag = "t", content = "c")', '(tag = "t", default_variant = "A")', '(tag = "t", content = "c", deny_unknown_fields, default_variant = "A")')
M02 = []
for mode in MODES:
    for k, args in enumerate(ARGS):
        for sup, implied in (("", set()), (": Send", {"Send"}), (": Sync + Send", {"Send", "Sync"})):
            lines = []
            for mk, has in MARKERS.items():
                lines += ser_lines("Tr", mode != "deserialize", mk)
                lines += de_lines("Tr", mode != "serialize" and has <= implied, mk)
            M02.append(W("impls-%s-%d-%d" % (mode, k, len(implied)), TYPES + PROBE + "#[typetag::%s%s] pub trait Tr%s {}\n#[typetag::%s] impl Tr for A {}\nfn f() {\n%s\n}" % (
                mode, args, sup, mode, "\n".join(lines))))
M02.append(W("two-modes-on-one-type", TYPES + PROBE + """
mod one { #[typetag::serde] pub trait Tr {} #[typetag::serde] impl Tr for super::A {} }
mod two { #[typetag::serialize] pub trait Tr {} #[typetag::serialize] impl Tr for super::A {} #[typetag::serialize(name = "x")] impl<'a> Tr for &'a str {} }
mod three { #[typetag::deserialize] pub trait Tr {} #[typetag::deserialize] impl Tr for super::A {} #[derive(serde::Deserialize)] struct N; #[typetag::deserialize] impl Tr for N {} }
mod four { #[typetag::serialize] pub trait Tr<T> {} #[typetag::serialize] impl<T> Tr<T> for super::A {} }
fn f() {
has_ser::<dyn one::Tr>();
has_de::<Box<dyn one::Tr>>();
has_ser::<dyn two::Tr>();
<Box<dyn two::Tr> as NoDe<_>>::no_de();
<dyn three::Tr as NoSer<_>>::no_ser();
has_de::<Box<dyn three::Tr>>();
has_ser::<dyn four::Tr<u8>>();
<Box<dyn four::Tr<u8>> as NoDe<_>>::no_de();
}
"""))

M06 = []
SUPS = [
    ("", ""), (": Send", "s"), (": Sync", "y"), (": Send + Sync", "sy"), (": Sync + Send", "sy"), (": core::fmt::Debug", ""), (": core::fmt::Debug + Send", "s"),
    (": Send + core::fmt::Debug + Sync", "sy"), (": Unpin + Sync", "y"), (": 'static", ""), (": Send + 'static", "s"), (": 'static + Sync + Send", "sy"), (": (Send) + (Sync)", "sy"),
    (": Other", ""), (": other::Send", ""), (": other::Sync", ""), (": other::Send + Sync", "y"), (": other::Sync + Send", "s"), (": other::Sync + other::Send", ""),
    (": Generic<dyn Send>", ""), (": Generic<Box<dyn Send + Sync>>", ""), (": Sender", ""), (": AsSend + AsSync", ""),
    (": Send + Send", "s"), (": SendSync", ""), (": NotSend", ""),
]
LETTER = {"Send": "s", "Sync": "y"}
OTHERS = """
mod other { pub trait Send {} pub trait Sync {} impl<T: ?Sized> Send for T {} impl<T: ?Sized> Sync for T {} }
trait Other {} impl<T: ?Sized> Other for T {} trait Generic<T: ?Sized> {} impl<T: ?Sized, U: ?Sized> Generic<T> for U {}
trait Sender {} impl<T: ?Sized> Sender for T {} trait AsSend {} impl<T: ?Sized> AsSend for T {} trait AsSync {} impl<T: ?Sized> AsSync for T {}
trait SendSync {} impl<T: ?Sized> SendSync for T {} trait NotSend {} impl<T: ?Sized> NotSend for T {}
#[derive(Debug, serde::Serialize, serde::Deserialize)] struct D;
"""
for mode in ("serde", "deserialize"):
    for k, (sup, implied) in enumerate(SUPS):
        for ai, args in enumerate(ARGS[:3]):
            lines = []
            for mk, has in MARKERS.items():
                lines += de_lines("Tr", {LETTER[h] for h in has} <= set(implied), mk)
            for extra in (" + Unpin", " + Send + Unpin"):
                lines += de_lines("Tr", False, extra)
            M06.append(W("%s-%d-%d" % (mode, k, ai), OTHERS + PROBE + "#[typetag::%s%s] pub trait Tr%s {}\n#[typetag::%s] impl Tr for D {}\nfn f() {\n%s\n}" % (
                mode, args, sup, mode, "\n".join(lines))))

M06.append(W("indirect", OTHERS + PROBE + "".join("""
mod i%d { use super::*; pub trait Sup: %s {} impl<T: %s> Sup for T {}
#[typetag::serde] pub trait Tr%s {}
#[typetag::serde] impl Tr for D {}
fn f() {
%s
} }""" % (i, m, m, sup, "\n".join(lines)) for i, (m, sup, lines) in enumerate([
    ("Send", ": Sup", de_lines("Tr", True, "") + de_lines("Tr", False, " + Sync") + de_lines("Tr", False, " + Send + Sync")),
    ("Sync", ": Sup", de_lines("Tr", True, "") + de_lines("Tr", False, " + Send") + de_lines("Tr", False, " + Send + Sync")),
    ("Send", ": core::marker::Send", de_lines("Tr", True, "") + de_lines("Tr", False, " + Sync") + de_lines("Tr", False, " + Send + Sync")),
    ("Send", " where Self: Send", de_lines("Tr", True, "") + de_lines("Tr", False, " + Sync") + de_lines("Tr", False, " + Send + Sync")),
]))))
# the concrete types have to have the markers
for mk, bad in (("Send", "std::marker::PhantomData<*const u8>"), ("Sync", "std::cell::Cell<u8>")):
    for args in ARGS[:3]:
        M06.append(W("concrete-%s-%d" % (mk, args.count("=")),
                     "use serde::*;\n#[derive(Serialize, Deserialize)] struct X(#[serde(skip)] u8);\n#[typetag::serde%s] trait Tr: %s {}\n#[typetag::serde]\nimpl Tr for X {}" % (args, mk),
                     "use serde::*;\n#[derive(Serialize, Deserialize)] struct X(#[serde(skip)] %s);\n#[typetag::serde%s] trait Tr: %s {}\n#[typetag::serde]\nimpl Tr for X {} //~error" % (bad, args, mk)))

# ------------------------------------------------------------------------------------------- M05
CLEAN = """
pub mod types {
    #[derive(::serde::Serialize, ::serde::Deserialize)] pub struct A;
    #[derive(::serde::Serialize, ::serde::Deserialize)] pub struct B(pub u8);
}
"""
LOCALS = ["name", "names", "serializer", "deserializer", "registry", "registered", "map", "entry", "tag", "content", "object", "key", "value", "this", "error", "err", "r", "e", "x", "s", "d", "v",
          "de", "f", "i", "ser", "result", "node", "iter", "it", "first", "last", "variant", "variants", "default", "fields", "field", "func", "cell", "lock", "init", "len", "n"]
TYPE_NAMES = ["Box", "Vec", "Option", "Result", "String", "BTreeMap", "Registry", "Strictest", "DeserializeFn", "Entry", "OnceBox", "OnceLock", "Registration", "Object", "Error", "Ok", "Err", "Some", "None", "S", "D", "T", "E",
              "Send", "Sync", "Serializer", "Deserializer", "Self_", "Iterator", "IntoIterator", "Fn", "FnOnce", "FnMut", "Copy", "Clone", "Sized", "Drop", "Default", "From", "Into", "AsRef", "ToString", "ToOwned", "Ord", "Eq",
              "PartialEq", "PartialOrd", "Extend", "Vacant", "Occupied", "Static", "Node", "Marker", "Unpin", "TryFrom", "TryInto", "FromIterator", "Hash"]
MODS = ["std", "core", "alloc", "serde", "inventory", "erased_serde", "once_cell", "externally", "internally", "adjacently", "__private", "private", "btree_map", "option", "result", "boxed", "vec", "marker", "fmt", "collections"]
MACROS = ["vec", "panic", "concat", "stringify", "matches", "include", "env", "cfg", "compile_error", "unreachable", "todo", "unimplemented", "format", "format_args", "write", "writeln", "assert", "assert_eq", "debug_assert",
          "print", "println", "eprintln", "thread_local", "module_path", "line", "file", "column", "option_env", "include_str", "dbg", "submit", "collect"]
METHODS = ["push", "insert", "entry", "sort_unstable", "sort", "get_or_init", "get_or_try_init", "get", "set", "push_str", "iter", "into_iter", "next", "serialize", "deserialize", "serialize_map", "erase", "map", "or_insert", "or_insert_with",
           "and_modify", "extend", "collect", "for_each", "fold", "dedup", "len", "unwrap", "expect", "clone", "into", "as_ref", "as_mut", "to_string", "map_err", "ok", "key", "or_default", "contains_key", "get_mut", "remove", "reserve",
           "is_empty", "sort_by", "sort_by_key", "sort_unstable_by", "sort_unstable_by_key", "as_deref", "cloned", "copied", "from_iter", "is_some", "is_none", "take", "replace", "retain", "first", "last"]
SCOPES = {
    "types": "".join("pub struct %s;\n" % t for t in TYPE_NAMES),
    "generic-types": "".join("pub struct %s<'a, A, B: ?::core::marker::Sized, const N: usize>(&'a A, B);\n" % t for t in TYPE_NAMES if t != "Sized"),
    "traits": "".join("pub trait %s { fn f(&self) {} }\n" % t for t in TYPE_NAMES + ["Serialize", "Deserialize"]),
    "aliases": "".join("pub type %s = u8;\n" % t for t in TYPE_NAMES),
    "functions": "".join("pub fn %s() {}\n" % t for t in TYPE_NAMES + LOCALS),
    "modules": "".join("pub mod %s {}\n" % t for t in MODS),
    "macros": "".join("macro_rules! %s { ($($t:tt)*) => { ::core::compile_error!{\"captured\"} } }\n" % t for t in MACROS),
    "constants": "".join("pub const %s: u8 = 0;\n" % t for t in LOCALS),
    "statics": "".join("pub static %s: u8 = 0;\n" % t for t in LOCALS),
    "unit-structs": "".join("pub struct %s;\n" % t for t in LOCALS),
    "tuple-structs": "".join("pub struct %s(u8);\n" % t for t in LOCALS),
    "enums": "pub enum E0 { %s }\nuse self::E0::*;\n" % ", ".join(sorted(set(TYPE_NAMES) | set(LOCALS))),
    "methods": "".join("pub trait By_%s: ::core::marker::Sized { fn %s(self) { } fn by_%s(self) {} }\nimpl<T> By_%s for T {}\n" % (m, m, m, m) for m in METHODS),
    "methods-by-reference": "".join("pub trait By_%s { fn %s(&self) { } }\nimpl<T: ?::core::marker::Sized> By_%s for T {}\n" % (m, m, m) for m in METHODS),
    "methods-by-mutable-reference": "".join("pub trait By_%s { fn %s(&mut self) { } }\nimpl<T: ?::core::marker::Sized> By_%s for T {}\n" % (m, m, m) for m in METHODS),
}
INNER = """
    use crate::types::{A as Alpha, B as Beta};
    #[typetag::%(mode)s%(args)s] pub trait Tr%(sup)s { fn method(&self) {} }
    #[typetag::%(mode)s(name = "x")] impl Tr for Alpha {}
    #[typetag::%(mode)s] impl Tr for Beta {}
    #[typetag::%(mode)s%(args)s] pub(crate) unsafe trait Two%(sup)s { fn method(&self); }
    #[typetag::%(mode)s] unsafe impl Two for Alpha { fn method(&self) {} }
"""
M05 = []


def hostile(name, scope, attrs="", inner=INNER, crate="", sups=None, **kw):
    out = []
    for mode in MODES:
        body = ""
        k = 0
        for args in (ARGS[0], ARGS[1], ARGS[2], ARGS[4]):
            for sup in sups or ("", ": ::core::marker::Send + ::core::marker::Sync"):
                k += 1
                body += "%s pub mod m%d {\n%s%s}\n" % (attrs, k, scope, inner % {"mode": mode, "args": args, "sup": sup})
        out.append(W("%s-%s" % (name, mode), crate + CLEAN + body, **kw))
    return out


for n, sc in SCOPES.items():
    M05 += hostile("shadowed-" + n, sc)
    M05 += hostile("shadowed-" + n + "-no-prelude", "use ::typetag;\n" + sc, "#[no_implicit_prelude]")
    # the same scopes with the real Send and Sync in them, by name: what the macro adds to a trait that names them
    sc = "use ::core::marker::{Send, Sync};\n" + "".join(re.sub(r"\b(Send|Sync), ", "", l) + "\n" if l.startswith("pub enum") or " E0 " in l else l + "\n"
                                                        for l in sc.splitlines() if not re.match(r"pub \w+ (Send|Sync)\b", l))
    M05 += hostile("shadowed-markers-" + n, sc, sups=(": Send", ": Sync", ": Send + Sync"))
    M05 += hostile("shadowed-markers-" + n + "-no-prelude", "use ::typetag;\n" + sc, "#[no_implicit_prelude]", sups=(": Send", ": Sync", ": Send + Sync"))
for ed in ("2015", "2018", "2021", "2024"):
    pre = "extern crate typetag; extern crate serde;\n" if ed == "2015" else ""
    sups = ("", ": Send", ": Sync", ": Send + Sync")
    inner = INNER.replace("typetag::", "typetag::")
    M05 += hostile("edition-" + ed, "" if ed != "2015" else "use typetag;\n", crate=pre, edition=ed, sups=sups, inner=INNER if ed != "2015" else INNER.replace("crate::types", "types"))
    M05 += hostile("no-std-" + ed, "" if ed != "2015" else "use typetag;\n", crate="#![no_std]\n" + pre, edition=ed, sups=sups, inner=INNER if ed != "2015" else INNER.replace("crate::types", "types"))
M05 += hostile("no-core-prelude", "use ::typetag;\n", crate="#![no_implicit_prelude]\n")
LINTS = ["warnings", "unused", "nonstandard_style", "future_incompatible", "rust_2018_idioms", "rust_2021_compatibility", "missing_docs", "unreachable_pub", "missing_debug_implementations", "missing_copy_implementations",
         "unused_results", "unused_qualifications", "trivial_casts", "trivial_numeric_casts", "single_use_lifetimes", "unused_lifetimes", "elided_lifetimes_in_paths", "explicit_outlives_requirements", "variant_size_differences",
         "unused_import_braces", "let_underscore_drop", "non_ascii_idents", "macro_use_extern_crate", "meta_variable_misuse", "unused_extern_crates", "unused_crate_dependencies", "redundant_lifetimes", "unit_bindings",
         "keyword_idents", "absolute_paths_not_starting_with_crate", "unsafe_op_in_unsafe_fn", "non_local_definitions", "private_interfaces", "private_bounds", "unnameable_types", "improper_ctypes", "static_mut_refs", "linker_messages",
         "dead_code", "bare_trait_objects", "ambiguous_negative_literals", "boxed_slice_into_iter", "if_let_rescope", "impl_trait_overcaptures", "tail_expr_drop_order", "unsafe_attr_outside_unsafe", "missing_unsafe_on_extern",
         "rust_2024_compatibility", "fuzzy_provenance_casts", "unstable_features", "unsafe_code"]
LINTED = """
//! Docs.
#![deny(%s)]
/// Docs.
pub mod types {
    /// Docs.
    #[derive(serde::Serialize, serde::Deserialize, Debug, Clone, Copy)] pub struct A;
    /// Docs.
    #[derive(serde::Serialize, serde::Deserialize, Debug, Clone, Copy)] pub struct B(u8);
}
"""
for lint in LINTS:
    for mode in MODES:
        body = ""
        for k, args in enumerate(ARGS):
            for j, sup in enumerate(("", ": Send + Sync")):
                body += """/// Docs.
pub mod m%d {
    use crate::types::{A, B};
    /// Docs.
    #[typetag::%s%s] pub trait Tr%s { /** Docs. */ fn method(&self) {} }
    #[typetag::%s] impl Tr for A {}
    #[typetag::%s(name = "x")] impl Tr for B {}
    /// Docs.
    pub fn f() { fn g<T: ?Sized>() {} g::<dyn Tr>() }
}
""" % (k * 2 + j, mode, args, sup, mode, mode)
        M05.append(W("lint-%s-%s" % (lint, mode), LINTED % lint + body))

NAMED = sorted((set(TYPE_NAMES) | {"Serialize", "Deserialize", "r#type", "r#fn", "Visitor", "Content", "MapAccess", "A", "X", "K", "N", "value", "name"}) - {"Send", "Sync", "Sized"})
for mode in MODES:
    for k, args in enumerate((ARGS[0], ARGS[1], ARGS[4])):
        v = {"mode": mode, "args": args}
        # the trait or the type has an unusual name
        M05.append(W("trait-names-%s-%d" % (mode, k), CLEAN + "\n".join(
            "mod m%d { use ::typetag; pub struct Alpha; impl ::serde::Serialize for Alpha { fn serialize<Q: ::serde::Serializer>(&self, s: Q) -> ::core::result::Result<Q::Ok, Q::Error> { s.serialize_unit() } }\n"
            "impl<'x> ::serde::Deserialize<'x> for Alpha { fn deserialize<Q: ::serde::Deserializer<'x>>(_: Q) -> ::core::result::Result<Self, Q::Error> { loop {} } }\n"
            "#[typetag::%s%s] pub trait %s { fn method(&self) {} }\n#[typetag::%s] impl %s for Alpha {}\n"
            "#[typetag::%s%s] pub trait With%s: ::core::marker::Send + ::core::marker::Sync { fn method(&self) {} }\n#[typetag::%s(name = \"x\")] impl With%s for Alpha {} }" % (
                i, mode, args, n, mode, n, mode, args, n.replace("r#", "_"), mode, n.replace("r#", "_")) for i, n in enumerate(NAMED))))
        M05.append(W("type-names-%s-%d" % (mode, k), "\n".join(
            "mod m%d { use ::typetag; pub struct %s; impl ::serde::Serialize for %s { fn serialize<Q: ::serde::Serializer>(&self, s: Q) -> ::core::result::Result<Q::Ok, Q::Error> { s.serialize_unit() } }\n"
            "impl<'x> ::serde::Deserialize<'x> for %s { fn deserialize<Q: ::serde::Deserializer<'x>>(_: Q) -> ::core::result::Result<Self, Q::Error> { loop {} } }\n"
            "#[typetag::%s%s] pub trait Tr { fn method(&self) {} }\n#[typetag::%s] impl Tr for %s {} }" % (i, n, n, n, mode, args, mode, n) for i, n in enumerate(NAMED))))
        # positions and visibilities
        M05.append(W("positions-%s-%d" % (mode, k), CLEAN + ("""
#[typetag::%(mode)s%(args)s] trait One { fn method(&self) {} }
#[typetag::%(mode)s%(args)s] pub trait Two { fn method(&self) {} }
#[typetag::%(mode)s%(args)s] pub(crate) trait Three { fn method(&self) {} }
#[typetag::%(mode)s] impl One for types::A {}
#[typetag::%(mode)s] impl Two for types::A {}
#[typetag::%(mode)s] impl Three for types::A {}
#[typetag::%(mode)s] impl One for crate::types::B {}
pub mod deep {
    pub mod inner {
        #[typetag::%(mode)s%(args)s] pub(super) trait One { fn method(&self) {} }
        #[typetag::%(mode)s%(args)s] pub(in crate::deep) trait Two { fn method(&self) {} }
        #[typetag::%(mode)s%(args)s] pub(self) trait Three { fn method(&self) {} }
        #[typetag::%(mode)s] impl One for crate::types::A {}
        #[typetag::%(mode)s(name = "super")] impl super::super::One for u8 {}
        #[typetag::%(mode)s] impl Three for crate::types::B {}
        use crate::Three as Renamed;
        #[typetag::%(mode)s] impl Renamed for crate::types::B {}
    }
    #[typetag::%(mode)s] impl inner::One for crate::types::B {}
    #[typetag::%(mode)s] impl self::inner::Two for crate::types::B {}
    #[typetag::%(mode)s] impl crate::Two for crate::types::B {}
}
mod hidden { #[typetag::%(mode)s%(args)s] pub trait Tr { fn method(&self) {} } }
#[typetag::%(mode)s] impl hidden::Tr for types::A {}
pub use hidden::Tr as Visible;
#[typetag::%(mode)s] impl Visible for types::B {}
fn function() {
    #[typetag::%(mode)s%(args)s] trait One { fn method(&self) {} }
    #[typetag::%(mode)s%(args)s] pub trait Two { fn method(&self) {} }
    #[typetag::%(mode)s] impl One for types::A {}
    #[typetag::%(mode)s] impl Two for types::A {}
    struct Local; 
    impl serde::Serialize for Local { fn serialize<Q: serde::Serializer>(&self, s: Q) -> Result<Q::Ok, Q::Error> { s.serialize_unit() } }
    impl<'x> serde::Deserialize<'x> for Local { fn deserialize<Q: serde::Deserializer<'x>>(_: Q) -> Result<Self, Q::Error> { loop {} } }
    #[typetag::%(mode)s] impl One for Local {}
    {
        #[typetag::%(mode)s%(args)s] trait One { fn method(&self) {} }
        #[typetag::%(mode)s] impl One for Local {}
    }
    let _ = || {
        #[typetag::%(mode)s%(args)s] trait One { fn method(&self) {} }
        #[typetag::%(mode)s] impl One for Local {}
    };
}
fn generic<T, S, D, E>(_: T, _: S, _: D, _: E) {
    #[typetag::%(mode)s%(args)s] trait One { fn method(&self) {} }
    #[typetag::%(mode)s] impl One for types::A {}
}
const _: () = {
    #[typetag::%(mode)s%(args)s] trait One { fn method(&self) {} }
    #[typetag::%(mode)s] impl One for types::A {}
};
static X: u8 = { #[typetag::%(mode)s%(args)s] trait One { fn method(&self) {} } 0 };
impl types::A { fn assoc() {
    #[typetag::%(mode)s%(args)s] trait One { fn method(&self) {} }
    #[typetag::%(mode)s] impl One for types::A {}
} }
""" % v)))
        # members
        M05.append(W("members-%s-%d" % (mode, k), CLEAN + ("""
use types::{A, B};
pub trait Base { fn serialize(&self) {} fn deserialize(&self) {} fn name(&self) -> u8 { 0 } fn register(&self) {} fn insert(&self) {} }
impl Base for A {} impl Base for B {}
#[typetag::%(mode)s%(args)s] pub trait Tr: Base {
    fn serialize(&self) {}
    fn deserialize(&self) {}
    fn name(&self) -> u8 { 1 }
    fn tag(&self) -> Box<dyn Tr>;
    fn erased_serialize(&self) {}
    fn new() -> Self where Self: Sized;
    fn generic<T, S, D>(&self, _: T, _: S, _: D) where Self: Sized {}
    fn borrow<'a, 'b: 'a>(&'a self, x: &'b str) -> &'a str { x }
    type Assoc: Clone where Self: Sized;
}
#[typetag::%(mode)s] impl Tr for A { fn tag(&self) -> Box<dyn Tr> { Box::new(A) } fn new() -> Self { A } type Assoc = u8; }
#[typetag::%(mode)s] impl Tr for B { type Assoc = Vec<u8>; fn new() -> Self { B(0) } fn tag(&self) -> Box<dyn Tr> { Box::new(A) } fn name(&self) -> u8 { self.0 } fn generic<T, S, D>(&self, _: T, _: S, _: D) {} }
impl A { fn serialize(&self) {} fn deserialize(&self) {} fn name(&self) {} fn register(&self) {} }
impl dyn Tr { fn inherent(&self) {} fn name_of(&self) {} }
impl dyn Tr + Send { fn inherent_send(&self) {} }
""" % v)))
        # written by other macros
        M05.append(W("macros-%s-%d" % (mode, k), CLEAN + ("""
macro_rules! define {
    ($v:vis $name:ident, $($t:ty as $n:expr),*; $($p:path),*; $($i:ident),*; $($tt:tt)*) => {
        #[typetag::%(mode)s%(args)s] $v trait $name { fn method(&self) {} }
        $(#[typetag::%(mode)s(name = $n)] impl $name for $t {})*
        $(#[typetag::%(mode)s] impl $name for $p {})*
        $(#[typetag::%(mode)s] impl $name for $i {})*
        $(#[typetag::%(mode)s] impl $name for $tt {})*
    };
}
macro_rules! again { ($($x:tt)*) => { define!($($x)*); } }
macro_rules! forward { ($name:ident, $t:ty) => { forward_more!($name, $t); } }
macro_rules! forward_more { ($name:ident, $t:ty) => { #[typetag::%(mode)s] impl $name for $t {} } }
macro_rules! with_supers { ($name:ident: $($b:tt)*) => { #[typetag::%(mode)s%(args)s] trait $name: $($b)* { fn method(&self) {} } } }
macro_rules! with_bound { ($name:ident: $b:path) => { #[typetag::%(mode)s%(args)s] trait $name: $b { fn method(&self) {} } } }
macro_rules! item { ($i:item) => { #[typetag::%(mode)s] $i } }
macro_rules! attributed { ($(#[$m:meta])* => $i:item) => { $(#[$m])* $i } }
macro_rules! trait_path { ($p:path, $t:ty) => { #[typetag::%(mode)s] impl $p for $t {} } }
macro_rules! hygienic { () => { const N: &str = "n"; #[typetag::%(mode)s%(args)s] trait Hyg { fn method(&self) {} } #[typetag::%(mode)s(name = N)] impl Hyg for types::A {} } }
macro_rules! named { ($l:literal, $t:ty) => { #[typetag::%(mode)s(name = $l)] impl First for $t {} } }
macro_rules! exprs { ($l:expr, $t:ty) => { #[typetag::%(mode)s(name = $l)] impl First for $t {} } }
mod x { use super::types::*; define!(pub(crate) Tr, (u8, u8) as "pair", Vec<u8> as concat!("v", "ec"); crate::types::A, Option<u8>; B; u8 u16); }
mod y { use super::types::*; again!(Tr, A as "a"; ; B; ); forward!(Tr, String); forward!(Tr, crate::y::Vec8); type Vec8 = Vec<u8>; }
mod z { with_supers!(A: Send + Sync); with_supers!(B: Send); with_bound!(C: Send); with_bound!(D: std::fmt::Debug); item!(trait E { fn method(&self) {} }); item!(impl E for crate::types::A {}); }
mod w { attributed!(#[typetag::%(mode)s%(args)s] => pub trait Tr { fn method(&self) {} }); attributed!(#[typetag::%(mode)s] => impl Tr for crate::types::A {}); trait_path!(crate::w::Tr, crate::types::B); trait_path!(Tr, u8); }
hygienic!();
#[typetag::%(mode)s%(args)s] trait First { fn method(&self) {} }
named!("one", types::A); named!("two", (u8, u16)); exprs!("three", types::B); exprs!(concat!("f", "our"), [u8; 2]); exprs!({ const X: &str = "five"; X }, ());
""" % v)))
# the strings may come from macros as well
M05.append(W("literal-fragments", CLEAN + """
macro_rules! rep { ($m:ident $t:literal $c:literal $d:literal) => { mod $m {
    #[typetag::serde(tag = $t)] trait One { fn method(&self) {} }
    #[typetag::serde(tag = $t, content = $c)] trait Two { fn method(&self) {} }
    #[typetag::serde(tag = $t, content = $c, default_variant = $d, deny_unknown_fields)] trait Three { fn method(&self) {} }
    #[typetag::serde] impl One for crate::types::A {}
    #[typetag::serde(name = $d)] impl Two for crate::types::A {}
} } }
rep!(one "t" "c" "A");
"""))
# a name is resolved where it is written
for mode in MODES:
    M05.append(W("name-scopes-" + mode, CLEAN + """
mod m {
    pub const name: &str = "n"; pub const deserializer: &str = "d"; pub const serializer: &str = "s"; pub const T: &str = "t"; pub const D: &str = "d2"; pub const registry: &str = "r";
    pub fn map() -> u8 { 0 } pub const fn names() -> &'static str { "fn" } pub static registered: &str = "reg";
    pub struct K; impl K { pub const NAME: &'static str = "k"; } pub trait Named { const NAME: &'static str; } impl Named for crate::types::B { const NAME: &'static str = "b"; }
    #[typetag::%(m)s] pub trait Tr { fn f(&self) {} }
    use crate::types::*;
    #[typetag::%(m)s(name = name)] impl Tr for A {}
    #[typetag::%(m)s(name = deserializer)] impl Tr for u8 {}
    #[typetag::%(m)s(name = serializer)] impl Tr for u16 {}
    #[typetag::%(m)s(name = T)] impl Tr for u32 {}
    #[typetag::%(m)s(name = D)] impl Tr for u64 {}
    #[typetag::%(m)s(name = registry)] impl Tr for i8 {}
    #[typetag::%(m)s(name = names())] impl Tr for i16 {}
    #[typetag::%(m)s(name = K::NAME)] impl Tr for i32 {}
    #[typetag::%(m)s(name = <B as Named>::NAME)] impl Tr for B {}
    #[typetag::%(m)s(name = crate::m::name)] impl Tr for i64 {}
    #[typetag::%(m)s(name = self::T)] impl Tr for f32 {}
    #[typetag::%(m)s(name = if true { "yes" } else { "no" })] impl Tr for f64 {}
    #[typetag::%(m)s(name = match 1 { 1 => "one", _ => "other" })] impl Tr for char {}
    #[typetag::%(m)s(name = ["a", "b"][1])] impl Tr for String {}
    #[typetag::%(m)s(name = ("a", "b").0)] impl Tr for bool {}
    #[typetag::%(m)s(name = *&"x")] impl Tr for Vec<u8> {}
}
""" % {"m": mode}))

# ------------------------------------------------------------------------------------------- M04 again: wherever the item stands
LONG = " ".join("fn m%d(&self) {}" % i for i in range(12))
for mode in MODES:
    a = "#[typetag::%s]" % mode
    for pre, what in (("", "bare"), ("/// Docs.\n#[allow(unused)] #[doc(hidden)] ", "attributed")):
        M04 += [
            W("const-anywhere-%s-%s" % (what, mode), pre + a + " trait Tr { fn f(&self); }",
              [pre + a + "\n" + pre + "trait Tr {\n%s\n /** Docs. */ #[allow(unused)] const C: u8; //~macro\n}" % LONG,
               pre + a + "\n" + pre + "trait Tr {\n #[allow(unused)] const C: u8; //~macro\n%s\n}" % LONG,
               pre + a + "\n" + pre + "trait Tr: Send + Sync {\n fn f(&self);\n const C: u8; //~macro\n fn g(&self);\n}"]),
            W("type-anywhere-%s-%s" % (what, mode), pre + a + " trait Tr { fn f(&self); }",
              [pre + a + "\n" + pre + "trait Tr {\n%s\n /** Docs. */ #[allow(unused)] type T; //~macro\n}" % LONG,
               pre + a + "\n" + pre + "trait Tr {\n type T; //~macro\n%s\n}" % LONG,
               pre + a + "\n" + pre + "trait Tr: Send + Sync {\n type S where Self: Sized;\n type T: Clone; //~macro\n type U where Self: Sized;\n}"]),
            W("const-in-impl-anywhere-%s-%s" % (what, mode), TYPES + a + " trait Tr { fn f(&self) {} %s }\n%s%s impl Tr for A { %s }" % (LONG, pre, a, LONG),
              [TYPES + a + " trait Tr { fn f(&self) {} %s }\n%s%s\nimpl Tr for A {\n%s\n #[allow(unused)] const C: u8 = 0; //~macro\n fn f(&self) {}\n}" % (LONG, pre, a, LONG)]),
            W("inherent-anywhere-%s-%s" % (what, mode), TYPES + a + " trait Tr {}\n" + pre + a + pre + "\nimpl Tr for A {}",
              [TYPES + a + " trait Tr {}\n" + pre + a + "\n" + pre + "impl A { %s } //~macro" % LONG, TYPES + a + " trait Tr {}\n" + pre + a[:-1] + "(name = \"x\")]\n" + pre + "impl A {} //~macro"]),
        ]
        if mode != "serialize":
            M04.append(W("generic-anywhere-%s-%s" % (what, mode), pre + a + " trait Tr { fn f<'a>(&self, x: &'a u8) -> &'a u8; fn g<T>(&self, _: T) where Self: Sized {} }",
                         [pre + a + "\n" + pre + "pub(crate) unsafe trait Tr<'a, T: 'a, const N: usize>: Send where T: Clone { %s } //~macro" % LONG,
                          TYPES + a + " trait Tr {}\n" + pre + a + "\n" + pre + "impl<const N: usize> Tr for [(); N] { %s } //~macro" % ""]))
    M04.append(W("sized-anywhere-" + mode, a + """
trait Tr {
    type A where Self: Sized + Clone;
    type B where Self: Clone + Sized;
    type C where Self: Clone, Self: Sized;
    type D where u8: Copy, Self: Sized;
    type E<'a, T: 'a> where T: 'a, Self: 'a, Self: 'a + Clone + Sized;
    type F: Clone + Send where Self: Sized,;
    type G where Self: Clone, Self: Send, Self: Sync, Self: Unpin, Self: core::fmt::Debug + Sized, u8: Copy;
    /// Docs.
    #[allow(unused)] type H where (): Copy, Self: Sized, (): Clone;
}""",
        [a + "\ntrait Tr {\n type T where (): Sized, [Self]: Clone, Vec<Self>: Sized; //~macro\n}",
         a + "\ntrait Tr {\n type T where Self: Clone, Self: Send, Self: Sync, Self: Unpin, Self: core::fmt::Debug; //~macro\n}",
         a + "\ntrait Tr {\n type T where Self: PartialEq<u8>, u8: Sized; //~macro\n}"]))

# ------------------------------------------------------------------------------------------- M06 again: many supertraits
MANY = ["core::fmt::Debug", "core::any::Any", "Unpin", "other::Send", "other::Sync", "Other", "Sender", "AsSend", "AsSync", "SendSync", "NotSend", "Generic<u8>", "for<'a> Generic<&'a u8>", "'static"]
for mode in ("serde", "deserialize"):
    for k, extra in enumerate(([], ["Send"], ["Sync"], ["Send", "Sync"], ["Sync", "Send"])):
        for where in ("last", "first", "middle"):
            sups = MANY + extra if where == "last" else extra + MANY if where == "first" else MANY[:7] + extra[:1] + MANY[7:10] + extra[1:] + MANY[10:]
            lines = []
            for mk, has in MARKERS.items():
                lines += de_lines("Tr", has <= set(extra), mk)
            M06.append(W("many-%s-%d-%s" % (mode, k, where), OTHERS + PROBE + "#[typetag::%s] pub trait Tr: %s where Self: 'static, u8: Copy { %s }\n#[typetag::%s] impl Tr for D {}\nfn f() {\n%s\n}" % (
                mode, " + ".join(sups), LONG, mode, "\n".join(lines))))

# ------------------------------------------------------------------------------------------- M02 again: implementations in other crates
def lib(mode, args):
    v = {"mode": mode, "args": args}
    return """
#[typetag::%(mode)s%(args)s] pub trait Tr { fn f(&self) {} fn g(&self) -> u8 { 0 } }
#[typetag::%(mode)s%(args)s] pub unsafe trait Strict: Send + Sync { fn f(&self) {} }
mod hidden { #[typetag::%(mode)s%(args)s] pub trait Inner: Send { fn f(&self) {} } }
pub use hidden::Inner; pub use hidden::Inner as Other;
pub mod deep { pub mod er { #[typetag::%(mode)s%(args)s] pub trait Deep { fn f(&self) {} } } }
#[derive(serde::Serialize, serde::Deserialize)] pub struct Theirs;
#[typetag::%(mode)s] impl Tr for Theirs {}
#[typetag::%(mode)s] unsafe impl Strict for Theirs {}
pub const NAME: &str = "their constant";
macro_rules! in_macro { () => { #[typetag::%(mode)s%(args)s] pub trait Made { fn f(&self) {} } } }
in_macro!();
#[macro_export] macro_rules! implement { ($t:ty, $n:expr) => { #[typetag::%(mode)s(name = $n)] impl $crate::Tr for $t { fn g(&self) -> u8 { 1 } } } }
#[macro_export] macro_rules! define { ($t:ident) => { #[typetag::%(mode)s%(args)s] pub trait $t { fn f(&self) {} } } }
""" % v


LOCAL = """
#[derive(serde::Serialize, serde::Deserialize)] struct Mine; #[derive(serde::Serialize, serde::Deserialize)] pub struct Ours(u8); #[derive(serde::Serialize, serde::Deserialize)] struct Third;
"""
for mode in MODES:
    for k, args in enumerate(ARGS):
        v = {"mode": mode}
        lines = []
        for tr, implied in (("theirs::Tr", set()), ("theirs::Strict", {"Send", "Sync"}), ("theirs::Other", {"Send"}), ("theirs::deep::er::Deep", set()), ("theirs::Made", set()), ("Defined", set())):
            for mk, has in MARKERS.items():
                lines += ser_lines(tr, mode != "deserialize", mk)
                lines += de_lines(tr, mode != "serialize" and has <= implied, mk)
        M02.append(W("other-crate-%s-%d" % (mode, k), LOCAL + PROBE + """
#[typetag::%(mode)s] impl theirs::Tr for Mine {}
#[typetag::%(mode)s(name = theirs::NAME)] impl theirs::Tr for Ours { fn f(&self) {} }
#[typetag::%(mode)s(name = "theirs")] unsafe impl theirs::Strict for Ours {}
#[typetag::%(mode)s] impl theirs::Inner for Mine {}
mod m { use theirs::Other; #[typetag::%(mode)s] impl Other for super::Ours {} #[typetag::%(mode)s] impl theirs::deep::er::Deep for super::Mine {} }
fn function() { #[typetag::%(mode)s] impl theirs::Made for Mine {} }
theirs::implement!(Box<Mine>, "boxed"); theirs::implement!(Third, concat!("thi", "rd"));
theirs::define!(Defined); #[typetag::%(mode)s] impl Defined for Mine {}
fn f() {
%%s
}
""" % v % "\n".join(lines), libs={"theirs": lib(mode, args)}, edition="2018" if k == 1 else "2024" if k == 2 else "2021"))
    for m in {"serde": ("", "serialize", "deserialize"), "serialize": ("",), "deserialize": ("",)}[mode]:
        M03.append(W("other-crate-%s-%s" % (mode, m or "none"), None, LOCAL + "#[typetag::%s] impl theirs::Tr for Mine {}\n%s\nimpl theirs::Tr for Ours {} //~error" % (mode, "#[typetag::%s]" % m if m else ""),
                     libs={"theirs": lib(mode, "")}))

# ------------------------------------------------------------------------------------------- M10
M10 = []
for mode in MODES:
    for k, args in enumerate(ARGS):
        a = "#[typetag::%s%s]" % (mode, args)
        i = "#[typetag::%s]" % mode
        n = "-%s-%d" % (mode, k)
        T = TYPES + "impl A { fn inherent(&self) {} }\n"
        M10 += [
            # attributes, on either side, and inside
            W("lint-on-trait" + n,
              "%s\n#[allow(unused_variables)]\ntrait Tr {\n fn f(&self) { let x = 1; }\n}\n#[allow(unused_variables)]\n%s\ntrait Us {\n fn f(&self) { let x = 1; }\n}\n%s\ntrait Vs {\n #![allow(unused_variables)]\n fn f(&self) { let x = 1; }\n #[allow(unused_mut)] fn g(&self) { let mut _x = 1; }\n}" % (a, a, a),
              ["%s\n#[deny(unused_variables)]\ntrait Tr {\n fn f(&self) { let x = 1; } //~lint\n}" % a,
               "#[deny(unused_variables)]\n%s\ntrait Tr {\n fn f(&self) { let x = 1; } //~lint\n}" % a,
               "%s\ntrait Tr {\n #![deny(unused_variables)]\n fn f(&self) { let x = 1; } //~lint\n}" % a,
               "%s\n/// Docs.\n#[allow(unused_mut)]\n#[deny(unused_variables)]\ntrait Tr {\n %s\n fn f(&self) { let x = 1; } //~lint\n}" % (a, LONG),
               "%s\ntrait Tr {\n %s\n #[deny(unused_variables)] fn f(&self) { let x = 1; } //~lint\n}" % (a, LONG)], strict=True),
            W("lint-on-impl" + n,
              T + "%s trait Tr { fn f(&self) {} fn g(&self) {} }\n%s\n#[allow(unused_variables)]\nimpl Tr for A { fn f(&self) { let x = 1; } }\n#[allow(unused_variables)]\n%s\nimpl Tr for B { fn f(&self) { let x = 1; } }\n%s\nimpl Tr for u8 {\n #![allow(unused_variables)]\n fn f(&self) { let x = 1; }\n #[allow(unused_mut)] fn g(&self) { let mut _x = 1; }\n}" % (a, i, i, i),
              [T + "%s trait Tr { fn f(&self) {} }\n%s\n#[deny(unused_variables)]\nimpl Tr for A {\n fn f(&self) { let x = 1; } //~lint\n}" % (a, i),
               T + "%s trait Tr { fn f(&self) {} }\n#[deny(unused_variables)]\n%s\nimpl Tr for A {\n fn f(&self) { let x = 1; } //~lint\n}" % (a, i),
               T + "%s trait Tr { fn f(&self) {} }\n%s\nimpl Tr for A {\n #![deny(unused_variables)]\n fn f(&self) { let x = 1; } //~lint\n}" % (a, i),
               T + "%s trait Tr { fn f(&self) {} %s }\n%s\n/// Docs.\n#[allow(unused_mut)]\n#[deny(unused_variables)]\nimpl Tr for A {\n %s\n fn f(&self) { let x = 1; } //~lint\n}" % (a, LONG, i, LONG),
               T + "%s trait Tr { fn f(&self) {} }\n%s\nimpl Tr for A {\n #[deny(unused_variables)] fn f(&self) { let x = 1; } //~lint\n}" % (a, i)], strict=True),
            W("docs" + n,
              "//! Docs.\n#![deny(missing_docs)]\n%s\n/// Docs.\npub trait Tr { /** Docs. */ fn f(&self) {} }\n/// Docs.\n%s\npub trait Us { /** Docs. */ fn f(&self) {} }\n%s #[doc(hidden)]\npub trait Vs { fn f(&self) {} }\n%s #[doc = \"\"]\npub trait Ws { #[doc(hidden)] fn f(&self) {} }" % (a, a, a, a),
              ["//! Docs.\n#![deny(missing_docs)]\n%s\npub trait Tr { /** Docs. */ fn f(&self) {} } //~error" % a,
               "//! Docs.\n#![deny(missing_docs)]\n%s\n/// Docs.\npub trait Tr {\n fn f(&self) {} //~error\n}" % a], bare=True),
            W("must-use" + n,
              "#![deny(unused_must_use)]\n%s\ntrait Tr { fn f(&self) -> u8 { 0 } #[must_use] fn g(&self) -> u8 { 0 } }\n%s\n#[must_use]\ntrait Us { fn f(&self) -> u8 { 0 } }\nfn x(t: &dyn Tr, u: fn() -> Box<dyn Us>) {\n t.f();\n let _ = t.g();\n let _ = u();\n}" % (a, a),
              ["#![deny(unused_must_use)]\n%s\ntrait Tr { fn f(&self) -> u8 { 0 } #[must_use] fn g(&self) -> u8 { 0 } }\nfn x(t: &dyn Tr) {\n t.g(); //~error\n}" % a,
               "#![deny(unused_must_use)]\n%s\n#[must_use]\ntrait Us { fn f(&self) -> u8 { 0 } }\nfn x(u: fn() -> Box<dyn Us>) {\n u(); //~error\n}" % a,
               "#![deny(unused_must_use)]\n#[must_use]\n%s\ntrait Us { fn f(&self) -> u8 { 0 } }\nfn x(u: fn() -> Box<dyn Us>) {\n u(); //~error\n}" % a], bare=True),
            W("deprecated" + n,
              "#![deny(deprecated)]\n%s\ntrait Tr { fn f(&self) {} #[deprecated] fn g(&self) {} }\nfn x(t: &dyn Tr) {\n t.f();\n}" % a,
              ["#![deny(deprecated)]\n%s\ntrait Tr { fn f(&self) {} #[deprecated] fn g(&self) {} }\nfn x(t: &dyn Tr) {\n t.g(); //~error\n}" % a,
               "#![deny(deprecated)]\n#[allow(deprecated)] mod m {\n%s\n#[deprecated]\npub trait Tr { fn f(&self) {} }\n}\nfn x(\n t: &dyn m::Tr //~error\n) {}" % a], bare=True),
            W("cfg" + n,
              T + "%s\ntrait Tr { #[cfg(any())] fn f(&self, x: Missing); #[cfg(all())] fn g(&self) -> u8; fn h(#[cfg(any())] x: Missing, &self); #[cfg_attr(all(), cfg(any()))] fn f(&self, x: Missing); }\n%s\nimpl Tr for A { #[cfg(any())] fn f(&self, x: Missing) {} #[cfg(all())] fn g(&self) -> u8 { 0 } fn h(&self) {} }\n"
              "%s\n#[cfg(any())]\nimpl Tr for Missing {}\n#[cfg(any())]\n%s\nimpl Tr for Missing {}\n%s\n#[cfg_attr(all(), cfg(any()))]\ntrait Missing2 {}\n%s\n#[cfg_attr(any(), cfg(any()))]\ntrait There {}\nfn x(t: &dyn There) {}".replace("fn h(#[cfg(any())] x: Missing, &self)", "fn h(&self, #[cfg(any())] x: Missing)") % (a, i, i, i, a, a),
              [T + "%s\n#[cfg(any())]\ntrait Tr {}\nfn x(t: &dyn Tr) {} //~error" % a,
               T + "%s\ntrait Tr { fn f(&self); }\n%s\n#[cfg(any())]\nimpl Tr for A { fn f(&self) {} }\nfn x(a: &A) {\n a.f() //~error\n}" % (a, i)]),
            # visibility, safety, bounds
            W("visibility" + n,
              "mod m { %s pub trait Tr {} %s pub(crate) trait Us {} %s pub(super) trait Vs {} pub mod n { %s pub(in super::super::m) trait Ws {} } use self::n::Ws; }\nuse m::{Tr, Us, Vs};" % (a, a, a, a),
              ["mod m { %s trait Tr {} }\nuse m::Tr; //~error" % a, "mod m { pub mod n { %s pub(super) trait Tr {} } }\nuse m::n::Tr; //~error" % a,
               "mod m { pub mod n { %s pub(self) trait Tr {} } }\nuse m::n::Tr; //~error" % a, "mod m { pub mod n { %s pub(in super::super::m) trait Tr {} } }\nuse m::n::Tr; //~error" % a]),
            W("unsafety" + n,
              T + "%s unsafe trait Tr { unsafe fn f(&self) {} }\n%s unsafe impl Tr for A {}\nfn x(t: &dyn Tr) { unsafe { t.f() } }" % (a, i),
              [T + "%s unsafe trait Tr {}\n%s\nimpl Tr for A {} //~error" % (a, i), T + "%s trait Tr {}\n%s\nunsafe impl Tr for A {} //~error" % (a, i),
               T + "%s trait Tr { unsafe fn f(&self) {} }\nfn x(t: &dyn Tr) {\n t.f() //~error\n}" % a]),
            W("supertraits" + n,
              T + "trait S0 {} trait S1 {} impl<T: ?Sized> S0 for T {} impl S1 for A {}\n%s trait Tr: S0 + S1 + 'static {}\n%s impl Tr for A {}\nfn y<T: S1 + ?Sized>(_: &T) {}\nfn x(t: &dyn Tr) { y(t) }" % (a, i),
              [T + "trait S0 {} trait S1 {} impl<T: ?Sized> S0 for T {}\n%s trait Tr: S0 + S1 + 'static {}\n%s\nimpl Tr for A {} //~error" % (a, i),
               T + "trait S1 {}\n%s trait Tr where Self: S1 {}\n%s\nimpl Tr for A {} //~error" % (a, i)]),
            W("items" + n,
              T + "%s trait Tr { fn f(&self) -> u8; fn g(&self) -> u8 { 1 } fn h<'a>(&'a mut self, x: &'a str) -> &'a str; fn new(x: u8) -> Self where Self: Sized; fn map<T, F: Fn(&Self) -> T>(&self, f: F) -> T where Self: Sized { f(self) } fn b(self: Box<Self>) -> u8; type Ty: Clone where Self: Sized; }\n"
              "%s impl Tr for A { fn f(&self) -> u8 { 2 } fn h<'a>(&'a mut self, x: &'a str) -> &'a str { x } fn new(_: u8) -> A { A } fn b(self: Box<Self>) -> u8 { 3 } type Ty = u16; }\n"
              "fn x(t: &mut dyn Tr, b: Box<dyn Tr>, a: <A as Tr>::Ty) -> u16 { let _: u8 = t.f() + t.g() + b.b(); let _: &str = t.h(\"\"); let _: u32 = A::new(1).map(|_| 1u32); a }" % (a, i),
              [T + "%s trait Tr { fn f(&self) -> u8; fn g(&self) {} }\n%s\nimpl Tr for A {} //~error" % (a, i),
               T + "%s trait Tr { fn f(&self) {} }\n%s\nimpl Tr for A {\n fn g(&self) {} //~error\n}" % (a, i),
               T + "%s trait Tr { fn f(&self) -> u8; }\n%s\nimpl Tr for A {\n fn f(&self) -> u16 { 0 } //~error\n}" % (a, i),
               T + "%s trait Tr { fn f(&self) where Self: Sized {} }\nfn x(t: &dyn Tr) {\n t.f() //~error\n}" % a]),
            # nothing else is added: neither requirements nor names
            W("nothing-more" + n,
              T + "%s trait Tr { fn name(&self) {} fn tag(&self) {} fn serialize(&self) {} fn deserialize(&self) {} fn register(&self) {} }\n%s impl Tr for A {}\n%s impl Tr for Box<u8> {}\nfn x(a: &A, t: &dyn Tr) { a.inherent(); t.name(); t.tag(); t.serialize(); t.deserialize(); t.register(); }\nfn y<'a>(t: &'a A) -> Box<dyn Tr + 'a> { Box::new(A) }\nfn z<T: Tr + ?Sized>(_: &T) {}\nfn w(t: &dyn Tr, s: &(dyn Tr + Send)) { z(t); z(s); z(&A); let _: &dyn Tr = s; }" % (a, i, i)),
        ]
        if mode == "serialize":
            # nothing that has to outlive the value
            L = "#[derive(serde::Serialize)] struct L<'a>(&'a str);\n"
            M10.append(W("short-lived" + n,
                L + "%s trait Tr { fn f(&self) -> &str; }\n%s impl<'a> Tr for L<'a> { fn f(&self) -> &str { self.0 } }\nfn x<'a>(x: &'a L<'a>) -> &'a dyn Tr { x }\nfn y<'a>(x: L<'a>) -> Box<dyn Tr + 'a> { Box::new(x) }\n"
                "fn z<'a>(t: &'a (dyn Tr + 'a)) -> impl serde::Serialize + 'a { t }\nfn w(s: String) -> usize { let l = L(&s); let t: &dyn Tr = &l; t.f().len() }" % (a, i),
                [L + "%s trait Tr: 'static {}\n%s\nimpl<'a> Tr for L<'a> {} //~error" % (a, i)]))
        if mode == "serialize":
            M10.append(W("generics" + n,
                T + "%s trait Tr<'a, T: Clone + 'a, U: ?Sized = str, const N: usize = 3> where U: core::fmt::Debug { fn f(&self, _: &'a [T; N], _: &U) {} }\n%s impl<'a, T: Clone + 'a, U: ?Sized, const N: usize> Tr<'a, T, U, N> for A where U: core::fmt::Debug + Send {}\nfn x(t: &dyn Tr<'_, u8>) { t.f(&[1, 2, 3], \"\"); }" % (a, i),
                [T + "struct N;\n%s trait Tr<T: Clone> {}\n%s impl<T: Clone> Tr<T> for A {}\nfn x<\n T: Tr<N> + ?Sized //~error\n>(t: &T) {}" % (a, i),
                 T + "%s trait Tr<T> { fn f(&self, _: T) {} }\n%s impl<T> Tr<T> for A where T: Copy {}\nfn x(t: String) {\n A.f(t) //~error\n}" % (a, i)]))
