//! Rust-level models of library functions: the driver calls one of these, instantiated with the
//! type arguments of the modelled function, where the body of the library function works on raw
//! memory.  Unused type parameters stand for parameters (allocators) of the modelled function.
use alloc::boxed::Box;
use alloc::string::String;
use alloc::vec::Vec;
use alloc::collections::btree_map::{BTreeMap, Entry};

pub fn model_mem_take<T: Default>(place: &mut T) -> T {
    core::mem::replace(place, T::default())
}

pub fn model_select<T>(b: bool, x: T, y: T) -> T {
    if b { x } else { y }
}

pub fn model_box_clone<T: Clone, A>(b: &Box<T>) -> Box<T> {
    Box::new(T::clone(&**b))
}

pub fn model_vec_from_iter<T, I: IntoIterator<Item = T>>(iter: I) -> Vec<T> {
    let mut out = Vec::new();
    for x in iter {
        out.push(x);
    }
    out
}

pub fn model_vec_extend<T, A, I: IntoIterator<Item = T>>(v: &mut Vec<T>, iter: I) {
    for x in iter {
        v.push(x);
    }
}

pub fn model_vec_retain<T, A, F: FnMut(&T) -> bool>(v: &mut Vec<T>, mut f: F) {
    let old = core::mem::replace(v, Vec::new());
    for x in old {
        if f(&x) {
            v.push(x);
        }
    }
}

pub fn model_vec_retain_mut<T, A, F: FnMut(&mut T) -> bool>(v: &mut Vec<T>, mut f: F) {
    let old = core::mem::replace(v, Vec::new());
    for mut x in old {
        if f(&mut x) {
            v.push(x);
        }
    }
}

pub fn model_entry_and_modify<'a, K: Ord, V, A, F: FnOnce(&mut V)>(entry: Entry<'a, K, V>, f: F) -> Entry<'a, K, V> {
    match entry {
        Entry::Occupied(mut o) => {
            f(o.get_mut());
            Entry::Occupied(o)
        }
        v => v,
    }
}

pub fn model_entry_or_insert_with<'a, K: Ord, V, A, F: FnOnce() -> V>(entry: Entry<'a, K, V>, f: F) -> &'a mut V {
    match entry {
        Entry::Occupied(o) => o.into_mut(),
        Entry::Vacant(v) => v.insert(f()),
    }
}

pub fn model_entry_or_default<'a, K: Ord, V: Default, A>(entry: Entry<'a, K, V>) -> &'a mut V {
    match entry {
        Entry::Occupied(o) => o.into_mut(),
        Entry::Vacant(v) => v.insert(V::default()),
    }
}

pub fn model_map_from_iter<K: Ord, V, I: IntoIterator<Item = (K, V)>>(iter: I) -> BTreeMap<K, V> {
    let mut out = BTreeMap::new();
    for (k, v) in iter {
        out.insert(k, v);
    }
    out
}

pub fn model_map_extend<K: Ord, V, A, I: IntoIterator<Item = (K, V)>>(map: &mut BTreeMap<K, V>, iter: I) {
    for (k, v) in iter {
        map.insert(k, v);
    }
}

pub fn model_vec_extend_from_slice<T: Clone, A>(v: &mut Vec<T>, other: &[T]) {
    for x in other {
        v.push(x.clone());
    }
}

pub fn model_vec_push_mut<T, A>(v: &mut Vec<T>, x: T) -> &mut T {
    v.push(x);
    v.last_mut().unwrap()
}

pub fn model_vec_resize<T: Clone, A>(v: &mut Vec<T>, n: usize, x: T) {
    v.truncate(n);
    while v.len() < n {
        v.push(x.clone());
    }
}

pub fn model_vec_dedup_by<T, A, F: FnMut(&mut T, &mut T) -> bool>(v: &mut Vec<T>, mut same: F) {
    let old = core::mem::replace(v, Vec::new());
    for mut x in old {
        let again = match v.last_mut() {
            Some(prev) => same(&mut x, prev),
            None => false,
        };
        if !again {
            v.push(x);
        }
    }
}

pub fn model_vec_drain<T, A, R: core::ops::RangeBounds<usize>>(v: &mut Vec<T>, range: R) -> alloc::vec::IntoIter<T> {
    let lo = match range.start_bound() {
        core::ops::Bound::Included(n) => *n,
        core::ops::Bound::Excluded(n) => *n + 1,
        core::ops::Bound::Unbounded => 0,
    };
    let hi = match range.end_bound() {
        core::ops::Bound::Included(n) => *n + 1,
        core::ops::Bound::Excluded(n) => *n,
        core::ops::Bound::Unbounded => v.len(),
    };
    let old = core::mem::replace(v, Vec::new());
    let mut out = Vec::new();
    let mut i = 0;
    for x in old {
        if i >= lo && i < hi {
            out.push(x);
        } else {
            v.push(x);
        }
        i += 1;
    }
    assert!(lo <= hi && hi <= i);
    out.into_iter()
}

pub fn model_vec_split_off<T, A>(v: &mut Vec<T>, at: usize) -> Vec<T> {
    let old = core::mem::replace(v, Vec::new());
    let mut out = Vec::new();
    let mut i = 0;
    for x in old {
        if i >= at {
            out.push(x);
        } else {
            v.push(x);
        }
        i += 1;
    }
    assert!(at <= i);
    out
}

pub fn model_vec_extend_one<T, A>(v: &mut Vec<T>, x: T) {
    v.push(x);
}

pub fn model_slice_to_vec<T: Clone>(v: &[T]) -> Vec<T> {
    let mut out = Vec::new();
    for x in v {
        out.push(x.clone());
    }
    out
}

/// `[V]::concat`
pub fn model_slice_concat<V: core::borrow::Borrow<[T]>, T: Clone>(v: &[V]) -> Vec<T> {
    let mut out = Vec::new();
    for x in v {
        for y in x.borrow() {
            out.push(y.clone());
        }
    }
    out
}

pub fn model_array_map<T, F: FnMut(T) -> U, U>(v: [T; 1], mut f: F) -> Vec<U> {
    let mut out = Vec::new();
    for x in v {
        out.push(f(x));
    }
    out
}

pub fn model_slice_get_range<T, R: core::ops::RangeBounds<usize>>(v: &[T], range: R) -> Option<&[T]> {
    let lo = match range.start_bound() {
        core::ops::Bound::Included(n) => *n,
        core::ops::Bound::Excluded(n) => *n + 1,
        core::ops::Bound::Unbounded => 0,
    };
    let hi = match range.end_bound() {
        core::ops::Bound::Included(n) => *n + 1,
        core::ops::Bound::Excluded(n) => *n,
        core::ops::Bound::Unbounded => v.len(),
    };
    if lo <= hi && hi <= v.len() {
        Some(&v[lo..hi])
    } else {
        None
    }
}

pub fn model_vec_extend_one_unchecked<T, A>(v: &mut Vec<T>, x: T) {
    v.push(x);
}

/// `core::iter::Zip`, whose `next` works on positions when it can.
pub struct ZipShape<A, B> {
    a: A,
    b: B,
    _index: usize,
    _len: usize,
}

pub fn model_zip_next<A: Iterator, B: Iterator>(z: &mut ZipShape<A, B>) -> Option<(A::Item, B::Item)> {
    let x = z.a.next()?;
    let y = z.b.next()?;
    Some((x, y))
}

pub fn model_zip_size_hint<A: Iterator, B: Iterator>(z: &ZipShape<A, B>) -> (usize, Option<usize>) {
    let (a, p) = z.a.size_hint();
    let (b, q) = z.b.size_hint();
    let hi = match (p, q) {
        (Some(p), Some(q)) => Some(core::cmp::min(p, q)),
        (Some(p), None) | (None, Some(p)) => Some(p),
        (None, None) => None,
    };
    (core::cmp::min(a, b), hi)
}

/// Sequences (slices, vectors, arrays) compared element by element.
pub fn model_seq_eq<T: PartialEq<U>, U>(a: &Vec<T>, b: &Vec<U>) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut b = b.iter();
    for x in a.iter() {
        match b.next() {
            Some(y) => {
                if x != y {
                    return false;
                }
            }
            None => return false,
        }
    }
    true
}

pub fn model_slice_sort_by<T, F: FnMut(&T, &T) -> core::cmp::Ordering>(v: &mut [T], mut f: F) {
    let n = v.len();
    let mut i = 1;
    while i < n {
        let mut j = i;
        while j > 0 && f(&v[j - 1], &v[j]) == core::cmp::Ordering::Greater {
            v.swap(j - 1, j);
            j -= 1;
        }
        i += 1;
    }
}

pub fn model_slice_sort_unstable_by<T, F: FnMut(&T, &T) -> core::cmp::Ordering>(v: &mut [T], f: F) {
    model_slice_sort_by(v, f)
}

pub fn model_slice_sort_by_key<T, K: Ord, F: FnMut(&T) -> K>(v: &mut [T], mut f: F) {
    let n = v.len();
    let mut i = 1;
    while i < n {
        let mut j = i;
        while j > 0 && f(&v[j - 1]).cmp(&f(&v[j])) == core::cmp::Ordering::Greater {
            v.swap(j - 1, j);
            j -= 1;
        }
        i += 1;
    }
}

pub fn model_slice_sort_unstable_by_key<T, K: Ord, F: FnMut(&T) -> K>(v: &mut [T], f: F) {
    model_slice_sort_by_key(v, f)
}

/// what strings are put together from
pub trait Piece {
    fn add_to(self, s: &mut String);
}
impl Piece for char {
    fn add_to(self, s: &mut String) {
        s.push(self);
    }
}
impl Piece for &char {
    fn add_to(self, s: &mut String) {
        s.push(*self);
    }
}
impl Piece for &str {
    fn add_to(self, s: &mut String) {
        s.push_str(self);
    }
}
impl Piece for String {
    fn add_to(self, s: &mut String) {
        s.push_str(&self);
    }
}
impl Piece for alloc::boxed::Box<str> {
    fn add_to(self, s: &mut String) {
        s.push_str(&self);
    }
}
impl Piece for alloc::borrow::Cow<'_, str> {
    fn add_to(self, s: &mut String) {
        s.push_str(&self);
    }
}
pub fn model_string_from_iter<I: IntoIterator>(it: I) -> String
where
    I::Item: Piece,
{
    let mut s = String::new();
    model_string_extend(&mut s, it);
    s
}
pub fn model_string_extend<I: IntoIterator>(s: &mut String, it: I)
where
    I::Item: Piece,
{
    for x in it {
        x.add_to(s);
    }
}
