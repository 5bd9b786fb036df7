//! Traits expanded by the macros under analysis.
use crate::rt::Sym;

macro_rules! fixture {
    ($m:ident $($attr:tt)*) => { crate::fixtures::fixture_with!($m [] $($attr)*); };
}
macro_rules! fixture_with {
    ($m:ident [$($sup:tt)*] $($attr:tt)*) => {
        pub mod $m {
            use crate::rt::Sym;
            #[typetag::serde $($attr)*]
            pub trait Tr $($sup)* {}
            pub struct Val(pub Sym);
            crate::fixtures::opaque_serde!(Val);
            #[typetag::serde(name = "A")]
            impl Tr for Val {}
        }
    };
}

macro_rules! opaque_serde {
    ($t:ident) => {
        impl serde::Serialize for $t {
            fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
                loop {}
            }
        }
        impl<'de> serde::Deserialize<'de> for $t {
            fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
                loop {}
            }
        }
    };
}
pub(crate) use {fixture_with, opaque_serde};

fixture!(ext);
fixture!(int (tag = "type"));
fixture!(int_def (tag = "type", default_variant = "B"));
fixture!(adj (tag = "type", content = "data"));
fixture!(adj_def (tag = "type", content = "data", default_variant = "B"));
fixture!(adj_deny (tag = "type", content = "data", deny_unknown_fields));
fixture!(adj_both (tag = "type", content = "data", default_variant = "B", deny_unknown_fields));

// trait objects with marker traits
fixture_with!(ext_s [: Send]);
fixture_with!(ext_y [: Sync]);
fixture_with!(ext_b [: Send + Sync]);
fixture_with!(int_s [: Send] (tag = "type"));
fixture_with!(int_y [: Sync] (tag = "type"));
fixture_with!(int_b [: Sync + Send] (tag = "type"));
fixture_with!(adj_s [: Send] (tag = "type", content = "data"));
fixture_with!(adj_y [: Sync] (tag = "type", content = "data"));
fixture_with!(adj_b [: Send + Sync] (tag = "type", content = "data"));
