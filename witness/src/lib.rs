//! Only here to have the dependencies of the witness programs built.
