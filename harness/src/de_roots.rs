//! Reading: roots.
use crate::env_de::*;
use crate::err::*;
use crate::fixtures;
use crate::rt::{self, Sym};
use alloc::boxed::Box;
use serde::de::*;

macro_rules! de_root {
    ($($root:ident $m:ident $($k:literal = $v:literal)*;)*) => {$(
        pub fn $root() -> Result<Sym, EnvErr> {
            $(rt::set($k, $v);)*
            match <Box<dyn fixtures::$m::Tr>>::deserialize(top()) {
                Ok(b) => Ok(rt::cast(b)),
                Err(e) => Err(e),
            }
        }
    )*};
}
de_root! {
    root_de_ext ext "keys are tags"=1;
    root_de_int int;
    root_de_int_def int_def;
    root_de_adj adj "adjacent"=1;
    root_de_adj_def adj_def "adjacent"=1;
    root_de_adj_deny adj_deny "adjacent"=1;
    root_de_adj_both adj_both "adjacent"=1;
    root_de_buffered adj "adjacent"=1 "script"=1 "req"=1 "full"=1;
    root_de_enum adj "adjacent"=1 "script"=1 "req"=1 "full"=2 "force"=28;
    root_de_longseq adj "adjacent"=1 "script"=1 "req"=1 "full"=1 "kind"=25 "force"=23 "watch"=1;
    root_de_longmap adj "adjacent"=1 "script"=1 "req"=1 "full"=1 "kind"=26 "force"=26 "watch"=1;
    root_de_stream int "script"=2 "req"=1;
    root_de_late int "script"=4 "req"=1;
    root_de_late_def int_def "script"=5 "req"=1;
}

pub fn root_de_reg_int() -> Result<Sym, EnvErr> {
    any_program();
    rt::set("script", 3);
    root_de_int()
}
pub fn root_de_reg_adj() -> Result<Sym, EnvErr> {
    any_program();
    rt::set("script", 3);
    root_de_adj()
}
pub fn root_de_reg_int_def() -> Result<Sym, EnvErr> {
    any_program();
    rt::set("script", 3);
    root_de_int_def()
}
pub fn root_de_reg_adj_def() -> Result<Sym, EnvErr> {
    any_program();
    rt::set("script", 3);
    root_de_adj_def()
}
pub fn root_de_reg() -> Result<Sym, EnvErr> {
    any_program();
    root_de_ext()
}

// trait objects with marker traits
macro_rules! de_marker_root {
    ($($root:ident $m:ident ($($mk:tt)*) $($k:literal = $v:literal)*;)*) => {$(
        pub fn $root() -> Result<Sym, EnvErr> {
            $(rt::set($k, $v);)*
            match <Box<dyn fixtures::$m::Tr $($mk)*>>::deserialize(top()) {
                Ok(b) => Ok(rt::cast(b)),
                Err(e) => Err(e),
            }
        }
    )*};
}
de_marker_root! {
    root_mde_ext_s_n ext_s () "keys are tags"=1;
    root_mde_ext_s_s ext_s (+ Send) "keys are tags"=1;
    root_mde_ext_y_n ext_y () "keys are tags"=1;
    root_mde_ext_y_y ext_y (+ Sync) "keys are tags"=1;
    root_mde_ext_b_n ext_b () "keys are tags"=1;
    root_mde_ext_b_s ext_b (+ Send) "keys are tags"=1;
    root_mde_ext_b_y ext_b (+ Sync) "keys are tags"=1;
    root_mde_ext_b_b ext_b (+ Send + Sync) "keys are tags"=1;
    root_mde_int_s_n int_s ();
    root_mde_int_s_s int_s (+ Send);
    root_mde_int_y_n int_y ();
    root_mde_int_y_y int_y (+ Sync);
    root_mde_int_b_n int_b ();
    root_mde_int_b_s int_b (+ Send);
    root_mde_int_b_y int_b (+ Sync);
    root_mde_int_b_b int_b (+ Send + Sync);
    root_mde_adj_s_n adj_s () "adjacent"=1;
    root_mde_adj_s_s adj_s (+ Send) "adjacent"=1;
    root_mde_adj_y_n adj_y () "adjacent"=1;
    root_mde_adj_y_y adj_y (+ Sync) "adjacent"=1;
    root_mde_adj_b_n adj_b () "adjacent"=1;
    root_mde_adj_b_s adj_b (+ Send) "adjacent"=1;
    root_mde_adj_b_y adj_b (+ Sync) "adjacent"=1;
    root_mde_adj_b_b adj_b (+ Send + Sync) "adjacent"=1;
    root_hrde_ext ext () "keys are tags"=1 "hr"=1;
    root_hrde_int int () "hr"=1;
    root_hrde_adj adj () "adjacent"=1 "hr"=1;
    root_hrde_buffered adj () "adjacent"=1 "script"=1 "req"=1 "full"=1 "hr"=1;
    root_hrde_stream int () "script"=2 "req"=1 "hr"=1;
}

// several reads in one run of the program
fn again() {
    rt::ev("first read is over", ());
    rt::set("failed", 0);
    rt::set("late tag", 0);
    rt::set("read before", 1);
}
macro_rules! twice {
    ($($root:ident $once:ident;)*) => {$(
        pub fn $root() -> Result<Sym, EnvErr> {
            let _ = $once();
            again();
            $once()
        }
    )*};
}
fn once_ext() -> Result<Sym, EnvErr> {
    rt::set("keys are tags", 1);
    rt::set("script", 3);
    root_de_ext()
}
fn once_int() -> Result<Sym, EnvErr> {
    rt::set("script", 3);
    root_de_int()
}
fn once_adj() -> Result<Sym, EnvErr> {
    rt::set("script", 3);
    root_de_adj()
}
fn spec_once_ext() -> Result<Sym, EnvErr> {
    rt::set("keys are tags", 1);
    rt::set("script", 3);
    crate::spec_de::root_spec_de_ext()
}
fn spec_once_int() -> Result<Sym, EnvErr> {
    rt::set("script", 3);
    crate::spec_de::root_spec_de_int()
}
fn spec_once_adj() -> Result<Sym, EnvErr> {
    rt::set("script", 3);
    crate::spec_de::root_spec_de_adj()
}
twice! {
    root_twice_ext once_ext;
    root_twice_int once_int;
    root_twice_adj once_adj;
    root_spec_twice_ext spec_once_ext;
    root_spec_twice_int spec_once_int;
    root_spec_twice_adj spec_once_adj;
}
pub fn root_twice_reg() -> Result<Sym, EnvErr> {
    any_program();
    root_twice_ext()
}
pub fn root_spec_twice_reg() -> Result<Sym, EnvErr> {
    any_program();
    root_spec_twice_ext()
}
