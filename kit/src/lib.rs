//! Property-testing engine used by every check. A case is a pure function of a "tape" of bounded
//! integers: generation records the tape, shrinking edits it, replay reads it back.
#![allow(clippy::all)]
pub mod case;
pub mod dims;
pub mod elem;
pub mod fp;
pub mod hist;
pub mod runner;
pub mod track;

pub use case::{Case, Rng, R};
pub use elem::Elem;
pub use runner::{main, panics, panics_dyn, Units};

use std::fmt::{Arguments, Debug};

#[inline(never)]
pub fn fail(a: Arguments) -> R {
    Err(a.to_string())
}

#[inline(never)]
pub fn compare<A: PartialEq<B> + Debug + ?Sized, B: Debug + ?Sized>(a: &A, b: &B, what: Arguments) -> R {
    if *a == *b { Ok(()) } else { differ(&a, &b, what) }
}

#[inline(never)]
fn differ(a: &dyn Debug, b: &dyn Debug, what: Arguments) -> R {
    Err(format!("{}: got {:?}, expected {:?}", what, a, b))
}

#[macro_export]
macro_rules! ensure {
    ($cond:expr, $($arg:tt)*) => { if !($cond) { $crate::fail(format_args!($($arg)*))?; } };
}

#[macro_export]
macro_rules! ensure_eq {
    ($a:expr, $b:expr, $($arg:tt)*) => { $crate::compare(&$a, &$b, format_args!($($arg)*))? };
}

/// r rows of k values. Code that is generic over dimensions hands closures to these non-generic
/// helpers, which keeps compile times bearable.
#[inline(never)]
pub fn grid<K>(r: usize, k: usize, f: &mut dyn FnMut(usize, usize) -> K) -> Vec<Vec<K>> {
    let mut out = Vec::with_capacity(r);
    for i in 0..r {
        let mut row = Vec::with_capacity(k);
        for j in 0..k {
            row.push(f(i, j));
        }
        out.push(row);
    }
    out
}

#[inline(never)]
pub fn list<K>(n: usize, f: &mut dyn FnMut(usize) -> K) -> Vec<K> {
    let mut out = Vec::with_capacity(n);
    for i in 0..n {
        out.push(f(i));
    }
    out
}

/// The keys of a slice.
#[inline(never)]
pub fn keys<T: Elem>(s: &[T]) -> Vec<T::Key> {
    s.iter().map(|x| x.key()).collect()
}

/// The keys of at most `limit` slices.
#[inline(never)]
pub fn rows_keys<'a, T: Elem>(it: &mut dyn Iterator<Item = &'a [T]>, limit: usize) -> Vec<Vec<T::Key>> {
    let mut out = Vec::new();
    while out.len() < limit {
        match it.next() { Some(r) => out.push(keys(r)), None => break }
    }
    out
}

/// The keys of at most `limit` borrowed items.
#[inline(never)]
pub fn refs_keys<'a, T: Elem>(it: &mut dyn Iterator<Item = &'a T>, limit: usize) -> Vec<T::Key> {
    let mut out = Vec::new();
    while out.len() < limit {
        match it.next() { Some(x) => out.push(x.key()), None => break }
    }
    out
}

/// r rows of k generated elements.
#[inline(never)]
pub fn gen_grid<T: Elem>(c: &mut Case, r: usize, k: usize) -> Vec<Vec<T>> {
    grid(r, k, &mut |_, _| T::gen(c))
}

#[inline(never)]
pub fn grid_keys<T: Elem>(g: &[Vec<T>]) -> Vec<Vec<T::Key>> {
    g.iter().map(|r| keys(r)).collect()
}

#[inline(never)]
pub fn columns<K: Clone>(g: &[Vec<K>], k: usize) -> Vec<Vec<K>> {
    (0..k).map(|j| g.iter().map(|r| r[j].clone()).collect()).collect()
}
