//! Stand-ins for the crates typetag is built on.
use crate::env_ser::*;
use crate::err::*;
use crate::rt::{self, Sym};
use serde::ser::*;

/// erased_serde::serialize: the concrete value drives the serializer it is given.
pub fn hook_erased_serialize<T: ?Sized, S: Serializer>(v: &T, s: S) -> Result<S::Ok, S::Error> {
    if rt::type_is::<S, EnvSer>() {
        guard();
        if rt::get("typed") == 1 {
            rt::ev_type("writes", v);
            return rt::cast(outcome(done()));
        }
        rt::ev("concrete", (v,));
        return rt::cast(outcome(done()));
    }
    if rt::get("typed") == 1 {
        rt::ev_type("writes", v);
        return s.serialize_struct("S", 0)?.end();
    }
    if rt::get("collide") == 1 {
        return crate::ser_roots::drive_collide(s);
    }
    drive_ser(s, 0)
}

/// a captured part of the concrete value is written
pub fn hook_captured_ser<S: Serializer>(c: Sym, s: S) -> Result<S::Ok, S::Error> {
    if rt::type_is::<S, EnvSer>() {
        return rt::cast(emit_opaque(rt::uncapture(c)));
    }
    if rt::type_is::<S::Ok, crate::tape::Rec>() {
        return Ok(rt::cast(crate::tape::Rec::Opaque(rt::uncapture(c))));
    }
    if rt::choose(CAP) == 0 {
        Ok(rt::cast(c))
    } else {
        fail_ser()
    }
}
