//! Errors of the user's format.
use crate::rt::{self, Sym};
use core::fmt::{self, Debug, Display};
use serde::de::{Expected, Unexpected};

pub struct EnvErr(pub Sym);

impl Debug for EnvErr {
    fn fmt(&self, _: &mut fmt::Formatter) -> fmt::Result {
        Ok(())
    }
}
impl Display for EnvErr {
    fn fmt(&self, _: &mut fmt::Formatter) -> fmt::Result {
        Ok(())
    }
}
impl Display for Sym {
    fn fmt(&self, _: &mut fmt::Formatter) -> fmt::Result {
        Ok(())
    }
}
impl core::error::Error for EnvErr {}

impl serde::ser::Error for EnvErr {
    fn custom<T: Display>(msg: T) -> Self {
        EnvErr(rt::mentions_anew(&msg))
    }
}
impl serde::de::Error for EnvErr {
    fn custom<T: Display>(msg: T) -> Self {
        EnvErr(rt::mentions(&msg))
    }
    fn invalid_type(unexp: Unexpected, _exp: &dyn Expected) -> Self {
        EnvErr(rt::tok("local:invalid_type", 0))
    }
    fn invalid_value(unexp: Unexpected, _exp: &dyn Expected) -> Self {
        EnvErr(rt::tok("local:invalid_value", 0))
    }
    fn invalid_length(len: usize, _exp: &dyn Expected) -> Self {
        EnvErr(rt::app("local:invalid_length", &len))
    }
    fn unknown_variant(variant: &str, expected: &'static [&'static str]) -> Self {
        EnvErr(rt::app("local:unknown_variant", &(variant, expected)))
    }
    fn unknown_field(field: &str, expected: &'static [&'static str]) -> Self {
        EnvErr(rt::app("local:unknown_field", &(field, expected)))
    }
    fn missing_field(field: &'static str) -> Self {
        EnvErr(rt::app("local:missing_field", &field))
    }
    fn duplicate_field(field: &'static str) -> Self {
        EnvErr(rt::app("local:duplicate_field", &field))
    }
}

pub const OKERR: &[&str] = &["ok", "err"];

/// A call on the user's format either succeeds or fails.
pub fn outcome<T>(v: T) -> Result<T, EnvErr> {
    if rt::choose(OKERR) == 0 {
        Ok(v)
    } else {
        rt::set("failed", 1);
        Err(EnvErr(rt::tok("err", 0)))
    }
}

/// No call on the format may follow a failure.
pub fn guard() {
    if rt::get("failed") == 1 {
        rt::ev("PROTOCOL: format used after an error", ());
    }
}

/// The concrete value itself reports an error while being written.
pub fn fail_ser<T, E: serde::ser::Error>() -> Result<T, E> {
    rt::set("failed", 1);
    Err(E::custom(rt::tok::<Sym>("err.value", 0)))
}
