//! Model environment for the analysis of typetag. Nothing here is executed: the analyser explores
//! the functions named `root_*` abstractly, with the functions below standing for an arbitrary
//! format, an arbitrary concrete type and an arbitrary set of registrations.
#![allow(dead_code, unused_variables, unreachable_code, unused_mut, clippy::all)]
#![no_std]
extern crate alloc;

pub mod de_roots;
pub mod spec_de;
pub mod env_de;
pub mod env_ser;
pub mod err;
pub mod fixtures;
pub mod hooks;
pub mod models;
pub mod rt;
pub mod ser_roots;
pub mod spec_ser;
pub mod tape;
#[cfg(feature = "macros")]
pub mod macros;
