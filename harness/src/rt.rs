//! Intrinsics interpreted by the analyser. They have no meaningful bodies: nothing in this crate is
//! ever run.

/// An opaque value that the environment supplies or the analysed code produced.
#[derive(Clone, Copy)]
pub struct Sym(#[allow(dead_code)] usize);

/// labelled nondeterministic choice of the environment
pub fn choose(_: &'static [&'static str]) -> usize {
    loop {}
}
/// unlabelled nondeterministic choice
pub fn nondet(_: usize) -> usize {
    loop {}
}
/// observable event
pub fn ev<T>(_: &'static str, _: T) {
    loop {}
}
/// the environment's value called `label` (index 0), `label.i`, or the watched one `label.w` (index 888), or one
/// of many `label.*` (index 999 before the watched one, 1000 after it)
pub fn tok<T>(_: &'static str, _: usize) -> T {
    loop {}
}
/// opaque value `label(x)`
pub fn app<R, T: ?Sized>(_: &'static str, _: &T) -> R {
    loop {}
}
/// the strings and scalars mentioned by a displayed message
pub fn mentions<R, T: ?Sized>(_: &T) -> R {
    loop {}
}
/// the same, when a new error is made of it: an error is no longer the one it was
pub fn mentions_anew<R, T: ?Sized>(_: &T) -> R {
    loop {}
}
/// structural description
pub fn desc<R, T>(_: T) -> R {
    loop {}
}
pub fn type_is<A, B>() -> bool {
    loop {}
}
pub fn cast<A, B>(_: A) -> B {
    loop {}
}
pub fn get(_: &'static str) -> usize {
    loop {}
}
pub fn set(_: &'static str, _: usize) {
    loop {}
}
/// this path is of no interest
pub fn stop() -> ! {
    loop {}
}
/// this path ends with the given event
pub fn end(_: &'static str) -> ! {
    loop {}
}
/// A registration with the given name and function.
pub fn make_reg<T, F>(_: &'static str, _: F) -> &'static T {
    loop {}
}
/// is the value exactly this literal?
pub fn same_str(_: &str, _: &str) -> bool {
    loop {}
}
/// the value behind `captured(x)`
pub fn uncapture(_: Sym) -> Sym {
    loop {}
}

/// event naming the type of the value
pub fn ev_type<T: ?Sized>(_: &'static str, _: &T) {
    loop {}
}
/// the i-th registration of this type made by the analysed crate
pub fn real_reg<T: 'static>(_: usize) -> Option<&'static T> {
    loop {}
}
pub fn plus_one(_: usize) -> usize {
    loop {}
}
/// what the cell holds, if it was filled
pub fn cell_get<C: ?Sized, T: 'static>(_: &C) -> Option<&'static T> {
    loop {}
}
pub fn cell_put<C: ?Sized, T: 'static>(_: &C, _: &'static T) {
    loop {}
}
