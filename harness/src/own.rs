//! Histories of safe operations on vectors, matrices and their iterators over tracked elements, with
//! panics injected into clones, element operations, callbacks and destructors.
use harness::*;
use kit::case::mix;
use kit::fp::F7;
use kit::track::{self, Tk, Zt, F_CALL, F_CLONE, F_DROP, F_OP};
use num::{Bounded, Complex, One, Zero};
use rowcol::matrix::{Cofactor, Determinant, Inverse};
use rowcol::vector::IntoIter;
use std::cell::RefCell;
use typenum::Unsigned;

pub type E = Tk<F7>;

/// What a history is made of: the tracked field elements, and heap-owning or zero-sized ones without faults.
pub trait Own: Elem {
    fn touch(&self) -> u64;
    fn fault(kind: u8) { let _ = kind; }
}
impl Own for E { fn touch(&self) -> u64 { self.get().0 } fn fault(kind: u8) { track::fault_point(kind) } }
impl Own for Zt { fn touch(&self) -> u64 { 0 } fn fault(kind: u8) { track::fault_point(kind) } }
impl Own for String { fn touch(&self) -> u64 { kit::case::hash_str(self) } }
impl Own for Box<u64> { fn touch(&self) -> u64 { **self } }
impl Own for Option<Box<u32>> { fn touch(&self) -> u64 { self.as_ref().map_or(7, |b| **b as u64) } }
impl Own for std::rc::Rc<u32> { fn touch(&self) -> u64 { **self as u64 } }
impl Own for Vec<u8> { fn touch(&self) -> u64 { kit::case::hash_bytes(1, self) } }

/// The history so far and how each step ended.
pub struct Hist { log: RefCell<String>, leak: bool, faults: bool, steps: usize, hands: usize }

#[derive(Clone, Copy, PartialEq)]
enum Mode { Must, MayPanic, MayLeak }

impl Hist {
    fn start(c: &mut Case, n: usize, faulty: bool) -> Hist {
        track::reset();
        let faults = super::FAULTS && faulty && c.chance(3, 5);
        let h = Hist { log: Default::default(), leak: false, faults, steps: 0, hands: 0 };
        h.arm(c, n);
        h
    }
    #[inline(never)]
    fn arm(&self, c: &mut Case, n: usize) {
        if !self.faults { return }
        let mask = *c.pick(&[F_CLONE | F_OP | F_CALL | F_DROP, F_CLONE, F_OP, F_CALL, F_DROP]);
        let far = match c.below(4) { 0 => 4, 1 => 3 * n as u64 + 4, 2 => 8 * n as u64 + 10, _ => 60 + (n * n * n) as u64 };
        track::arm(mask, c.below(far));
    }
    /// One step. A panic is fine if it was injected, or if the step may panic by contract.
    #[inline(never)]
    fn step(&mut self, c: &mut Case, what: &'static str, mode: Mode, n: usize, f: &mut dyn FnMut(&mut Case)) -> R {
        self.steps += 1;
        if self.log.borrow().len() < 4000 {
            let mut l = self.log.borrow_mut();
            l.push_str(what);
            l.push_str("; ");
        }
        let before = track::faulted();
        if before { track::disarm() }
        let p = panics_dyn(&mut || f(c));
        c.out(p.is_some() as u64 + 2 * track::live() as u64);
        if let Some(m) = p {
            if !before && track::faulted() {
                c.label("fault injected");
                self.leak = true;
                self.log.borrow_mut().push_str("<- panics; ");
            } else if mode == Mode::Must {
                return Err(format!("unexpected panic in the last step of [{}]: {}", self.log.borrow(), m));
            } else {
                c.label("panic by contract");
                if mode == Mode::MayLeak { self.leak = true }
                self.log.borrow_mut().push_str("<- panics by contract; ");
            }
        }
        let _ = n;
        track::check().map_err(|e| format!("{} after [{}]", e, self.log.borrow()))
    }
    #[inline(never)]
    fn end(self, c: &mut Case, what: &str) -> R {
        c.nontrivial_if(self.steps >= 3);
        if self.hands > 0 { c.label("elements handed out") }
        c.note(|| format!("{}: {}", what, self.log.borrow()));
        track::disarm();
        track::finish(self.leak).map_err(|e| format!("{} after [{}] and dropping everything", e, self.log.borrow()))
    }
}

/// Everything a history holds besides the containers: elements handed out.
#[inline(never)]
fn touch_all<T: Own>(s: &[T]) -> u64 { s.iter().fold(0, |h, x| mix(h, x.touch())) }

/// An iterator with a random amount of items and a size hint that may lie.
struct Src<T> { left: usize, hint: (usize, Option<usize>), make: Box<dyn FnMut() -> T> }
impl<T: Own> Iterator for Src<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        T::fault(F_CALL);
        if self.left == 0 { return None }
        self.left -= 1;
        Some((self.make)())
    }
    fn size_hint(&self) -> (usize, Option<usize>) { self.hint }
}
#[inline(never)]
fn source<T: Own>(c: &mut Case, n: usize) -> Src<T> {
    let left = match c.below(4) { 0 => c.upto(n), 1 if super::SURPLUS => n + 1 + c.index(3), _ => n };
    let hint = match c.below(4) { 0 => (left, Some(left)), 1 => (0, None), 2 => (n, Some(n)), _ => (0, Some(usize::MAX)) };
    let mut sub = Case::random(c.below(1 << 16));
    Src { left, hint, make: Box::new(move || T::gen(&mut sub)) }
}

#[inline(never)]
fn take<T>(c: &mut Case, pool: &mut Vec<T>) -> Option<T> {
    if pool.is_empty() { None } else { let i = c.index(pool.len()); Some(pool.swap_remove(i)) }
}
#[inline(never)]
fn some<'a, T>(c: &mut Case, pool: &'a mut Vec<T>) -> Option<&'a mut T> {
    if pool.is_empty() { None } else { let i = c.index(pool.len()); pool.get_mut(i) }
}
#[inline(never)]
fn keep<T>(pool: &mut Vec<T>, x: T) {
    if pool.len() >= 4 { pool.remove(0); }
    pool.push(x)
}

/// Steps that need nothing of the elements but `Clone`: construction, moving, iterating, dropping.
fn basic<T: Own, N: ArrayLen<T>>(c: &mut Case, h: &mut Hist, vs: &mut Vec<Vector<T, N>>, its: &mut Vec<IntoIter<T, N>>, hand: &mut Vec<T>, op: u64) -> R {
    let n = N::to_usize();
    use Mode::*;
    match op {
        0 => h.step(c, "generate", Must, n, &mut |c| { let mut s = Case::random(c.below(1 << 16)); keep(vs, Vector::generate(|_| { T::fault(F_CALL); T::gen(&mut s) })) }),
        1 => h.step(c, "collect", MayLeak, n, &mut |c| { let s = source::<T>(c, n); keep(vs, s.collect()) }),
        2 => h.step(c, "clone", Must, n, &mut |c| if let Some(v) = some(c, vs) { let w = v.clone(); keep(vs, w) }),
        3 => h.step(c, "drop", Must, n, &mut |c| { take(c, vs); }),
        4 => h.step(c, "into_iter", Must, n, &mut |c| if let Some(v) = take(c, vs) { keep(its, v.into_iter()) }),
        5 => h.step(c, "into_inner, new", Must, n, &mut |c| if let Some(v) = take(c, vs) { let a = v.into_inner(); keep(vs, Vector::new(a)) }),
        6 => h.step(c, "next", Must, n, &mut |c| if let Some(i) = some(c, its) { hand.extend(i.next()) }),
        7 => h.step(c, "next_back", Must, n, &mut |c| if let Some(i) = some(c, its) { hand.extend(i.next_back()) }),
        8 => h.step(c, "nth", Must, n, &mut |c| { let k = c.upto(n + 1); if let Some(i) = some(c, its) { hand.extend(i.nth(k)) } }),
        9 => h.step(c, "nth_back", Must, n, &mut |c| { let k = c.upto(n + 1); if let Some(i) = some(c, its) { hand.extend(i.nth_back(k)) } }),
        10 => h.step(c, "drop iterator", Must, n, &mut |c| { take(c, its); }),
        11 => h.step(c, "count", Must, n, &mut |c| if let Some(i) = take(c, its) { c.out(i.count() as u64) }),
        12 => h.step(c, "last", Must, n, &mut |c| if let Some(i) = take(c, its) { hand.extend(i.last()) }),
        13 => h.step(c, "fold", Must, n, &mut |c| { let back = c.bool(); if let Some(i) = take(c, its) {
            if back { i.rev().fold((), |_, x| { T::fault(F_CALL); hand.push(x) }) } else { i.for_each(|x| { T::fault(F_CALL); x.touch(); }) } } }),
        14 => h.step(c, "take by reference", Must, n, &mut |c| { let k = c.upto(n); if let Some(i) = some(c, its) { hand.extend(i.by_ref().take(k)) } }),
        15 => h.step(c, "collect the rest", MayLeak, n, &mut |c| if let Some(i) = take(c, its) { keep(vs, i.collect()) }),
        16 => h.step(c, "collect chained", MayLeak, n, &mut |c| { let back = c.bool(); let s = source::<T>(c, n); if let Some(i) = take(c, its) { let most = if super::SURPLUS { usize::MAX } else { n }; keep(vs, if back { s.chain(i).take(most).collect() } else { i.rev().chain(s).take(most).collect() }) } }),
        17 => h.step(c, "zip", MayLeak, n, &mut |c| if let (Some(a), Some(b)) = (take(c, its), take(c, its)) { let w: Vector<T, N> = a.zip(b).map(|(x, y)| { T::fault(F_CALL); drop(x); y }).collect(); keep(vs, w) }),
        18 => h.step(c, "write", Must, n, &mut |c| if n > 0 { let (p, x) = (c.index(n), T::gen(c)); if let Some(v) = some(c, vs) { v[p] = x } }),
        19 => h.step(c, "swap two elements", Must, n, &mut |c| if n > 0 { let (p, q) = (c.index(n), c.index(n)); if let Some(v) = some(c, vs) { v.as_slice_mut().swap(p, q) } }),
        20 => h.step(c, "replace through iter_mut", Must, n, &mut |c| if let Some(v) = some(c, vs) { let mut s = Case::random(5); for x in v.iter_mut() { T::fault(F_CALL); *x = T::gen(&mut s) } }),
        21 => h.step(c, "index out of range", MayPanic, n, &mut |c| { let p = n + c.index(3); if let Some(v) = some(c, vs) { c.out(v[p].touch()) } }),
        22 => h.step(c, "drop elements handed out", Must, n, &mut |c| { let k = c.upto(hand.len()); hand.truncate(k) }),
        23 => h.step(c, "compare", Must, n, &mut |c| if vs.len() > 1 { c.out((vs[0] == vs[1]) as u64) }),
        24 => h.step(c, "map and collect", Must, n, &mut |c| if let Some(v) = take(c, vs) { keep(vs, v.into_iter().map(|x| { T::fault(F_CALL); x.clone() }).collect()) }),
        25 => h.step(c, "clone_from", Must, n, &mut |c| if let (Some(w), Some(v)) = (take(c, vs), some(c, vs)) { v.clone_from(&w) }),
        26 => h.step(c, "format", Must, n, &mut |c| if let Some(v) = some(c, vs) { let s = format!("{:?}", v); c.out(s.len() as u64) }),
        27 => h.step(c, "len and size_hint", Must, n, &mut |c| if let Some(i) = some(c, its) { c.out((i.len() + i.size_hint().0) as u64) }),
        28 => h.step(c, "swap two vectors", Must, n, &mut |c| if vs.len() > 1 { let (a, b) = vs.split_at_mut(1); std::mem::swap(&mut a[0], &mut b[0]); c.out(1) }),
        29 => h.step(c, "find by predicate", Must, n, &mut |c| if let Some(i) = some(c, its) { let k = c.index(4); let mut m = 0; hand.extend(i.find(|x| { T::fault(F_CALL); m += 1; x.touch(); m > k })) }),
        _ => h.step(c, "try_fold", Must, n, &mut |c| if let Some(i) = some(c, its) { let k = c.index(4); let mut m = 0; let _ = i.try_for_each(|x| { T::fault(F_CALL); hand.push(x); m += 1; if m > k { Err(()) } else { Ok(()) } }); }),
    }
}
const BASIC: u64 = 31;

#[inline(never)]
fn look<T: Own>(c: &mut Case, h: &mut Hist, f: &mut dyn FnMut() -> u64, hand: &[T]) -> R {
    let mut v = 0;
    h.step(c, "read everything", Mode::Must, 0, &mut |_| v = f())?;
    h.hands += hand.len();
    let t = touch_all(hand);
    c.out(mix(v, t));
    track::check().map_err(|e| format!("{} reading everything after [{}]", e, h.log.borrow()))
}

pub fn vector<T: Own, N: ArrayLen<T>>(c: &mut Case) -> R {
    let n = N::to_usize();
    let mut h = Hist::start(c, n, T::TRACKED);
    let steps = 2 + c.index(24);
    {
        let (mut vs, mut its, mut hand): (Vec<Vector<T, N>>, Vec<IntoIter<T, N>>, Vec<T>) = Default::default();
        for i in 0..steps {
            let op = if i == 0 { 0 } else { c.below(BASIC) };
            basic(c, &mut h, &mut vs, &mut its, &mut hand, op)?;
            if c.chance(1, 3) { look(c, &mut h, &mut || vs.iter().fold(0, |a, v| mix(a, touch_all(v.as_slice()))), &hand)?; }
        }
        look(c, &mut h, &mut || vs.iter().fold(0, |a, v| mix(a, touch_all(v.as_slice()))), &hand)?;
        h.step(c, "drop all", Mode::Must, n, &mut |_| { drop(std::mem::take(&mut vs)); drop(std::mem::take(&mut its)); drop(std::mem::take(&mut hand)) })?;
    }
    h.end(c, "vectors")
}

/// Steps that compute with the elements.
fn compute<N: ArrayLen<E>>(c: &mut Case, h: &mut Hist, vs: &mut Vec<Vector<E, N>>, op: u64) -> R {
    let n = N::to_usize();
    use Mode::*;
    let unit = |c: &mut Case| E::new(F7::new(1 + c.below(6)));
    let mut two = |c: &mut Case, what: &'static str, h: &mut Hist, f: &mut dyn FnMut(Vector<E, N>, &Vector<E, N>) -> Vector<E, N>| {
        h.step(c, what, Must, n, &mut |c| if let (Some(a), Some(b)) = (take(c, vs), some(c, vs)) { let r = f(a, b); keep(vs, r) })
    };
    match op {
        0 => two(c, "+ &", h, &mut |a, b| a + b),
        1 => two(c, "& + &", h, &mut |a, b| &a + b),
        2 => two(c, "+", h, &mut |a, b| a + b.clone()),
        3 => two(c, "& -", h, &mut |a, b| b - a),
        4 => two(c, "-", h, &mut |a, b| a - b.clone()),
        5 => two(c, "+=", h, &mut |mut a, b| { a += b.clone(); a }),
        6 => h.step(c, "+= in place", Must, n, &mut |c| if let (Some(a), Some(b)) = (take(c, vs), some(c, vs)) { *b += a }),
        7 => h.step(c, "-= in place", Must, n, &mut |c| if let (Some(a), Some(b)) = (take(c, vs), some(c, vs)) { *b -= a }),
        8 => h.step(c, "* scalar", Must, n, &mut |c| { let s = unit(c); if let Some(a) = take(c, vs) { let r = a * s; keep(vs, r) } }),
        9 => h.step(c, "*= scalar", Must, n, &mut |c| { let s = unit(c); if let Some(a) = some(c, vs) { *a *= s } }),
        10 => h.step(c, "/ scalar", Must, n, &mut |c| { let s = unit(c); if let Some(a) = take(c, vs) { let r = a / s; keep(vs, r) } }),
        11 => h.step(c, "/= scalar", Must, n, &mut |c| { let s = unit(c); if let Some(a) = some(c, vs) { *a /= s } }),
        12 => h.step(c, "neg", Must, n, &mut |c| if let Some(a) = take(c, vs) { let r = -a; keep(vs, r) }),
        13 => h.step(c, "dot", Must, n, &mut |c| if vs.len() > 1 { let d = vs[0].dot(&vs[1]); c.out(d.touch()) }),
        14 => h.step(c, "sum", Must, n, &mut |c| if let Some(a) = some(c, vs) { let d = a.sum(); c.out(d.touch()) }),
        15 => h.step(c, "clamp", Must, n, &mut |c| { let (lo, hi) = (E::new(F7::new(1 + c.below(3))), E::new(F7::new(4 + c.below(3)))); if let Some(a) = some(c, vs) { a.clamp(lo, hi) } }),
        16 => h.step(c, "clamped", Must, n, &mut |c| { let (lo, hi) = (E::new(F7::new(1 + c.below(3))), E::new(F7::new(4 + c.below(3)))); if let Some(a) = some(c, vs) { let r = a.clamped(lo, hi); keep(vs, r) } }),
        17 => h.step(c, "zero, default, bounds", Must, n, &mut |c| { let r = match c.below(4) { 0 => Vector::zero(), 1 => Vector::default(), 2 => Vector::min_value(), _ => Vector::max_value() }; keep(vs, r) }),
        _ => h.step(c, "is_zero", Must, n, &mut |c| if let Some(a) = some(c, vs) { let z = a.is_zero(); c.out(z as u64) }),
    }
}
const COMPUTE: u64 = 19;

pub fn arithmetic<N: ArrayLen<E>>(c: &mut Case) -> R {
    let n = N::to_usize();
    let mut h = Hist::start(c, n, true);
    let steps = 2 + c.index(16);
    {
        let (mut vs, mut its, mut hand): (Vec<Vector<E, N>>, Vec<IntoIter<E, N>>, Vec<E>) = Default::default();
        for i in 0..steps {
            if i < 2 { basic(c, &mut h, &mut vs, &mut its, &mut hand, 0)? }
            else if c.chance(3, 4) { let op = c.below(COMPUTE); compute(c, &mut h, &mut vs, op)? }
            else { let op = c.below(BASIC); basic(c, &mut h, &mut vs, &mut its, &mut hand, op)? }
            if c.chance(1, 3) { look(c, &mut h, &mut || vs.iter().fold(0, |a, v| mix(a, touch_all(v.as_slice()))), &hand)?; }
        }
        look(c, &mut h, &mut || vs.iter().fold(0, |a, v| mix(a, touch_all(v.as_slice()))), &hand)?;
        h.step(c, "drop all", Mode::Must, n, &mut |_| { drop(std::mem::take(&mut vs)); drop(std::mem::take(&mut its)); drop(std::mem::take(&mut hand)) })?;
    }
    h.end(c, "vector arithmetic")
}

/// The extremes exist for non-empty vectors only.
pub trait Ext<T> { fn ext(&self, k: u64) -> T; }
macro_rules! ext { ($($n:ident)*) => { $(
    impl Ext<E> for Vector<E, $n> { fn ext(&self, k: u64) -> E { match k { 0 => self.max(), 1 => self.min(), 2 => self.max_by(|a, b| { E::fault(F_CALL); a.cmp(b) }), _ => self.min_by(|a, b| { E::fault(F_CALL); b.cmp(a) }) } } }
    impl Ext<E> for Matrix<E, $n, $n> { fn ext(&self, k: u64) -> E { match k { 0 => self.max(), 1 => self.min(), 2 => self.max_by(|a, b| { E::fault(F_CALL); a.cmp(b) }), _ => self.min_by(|a, b| { E::fault(F_CALL); b.cmp(a) }) } } }
)* } }
ext! { U1 U2 U3 U4 U5 U6 U7 U8 U9 U10 U11 U12 U13 U14 U15 U16 U17 U18 U19 U20 U21 U22 U23 U24 U25 U26 U27 U28 U29 U30 U31 U32 }

/// Extremes, cross products, chunks, reshaping, conjugates.
pub fn extremes<N: ArrayLen<E>>(c: &mut Case) -> R where Vector<E, N>: Ext<E> {
    let n = N::to_usize();
    let mut h = Hist::start(c, n, true);
    {
        let mut vs: Vec<Vector<E, N>> = Vec::new();
        let mut got: Vec<E> = Vec::new();
        h.step(c, "generate", Mode::Must, n, &mut |c| keep(&mut vs, vgen(c)))?;
        for _ in 0..1 + c.index(4) {
            h.step(c, "extreme", Mode::Must, n, &mut |c| { let k = c.below(4); if let Some(v) = some(c, &mut vs) { got.push(v.ext(k)) } })?;
        }
        look(c, &mut h, &mut || vs.iter().fold(0, |a, v| mix(a, touch_all(v.as_slice()))), &got)?;
        h.step(c, "drop all", Mode::Must, n, &mut |_| { drop(std::mem::take(&mut vs)); drop(std::mem::take(&mut got)) })?;
    }
    h.end(c, "extremes")
}

pub fn cross(c: &mut Case) -> R {
    let mut h = Hist::start(c, 3, true);
    {
        let mut vs: Vec<Vector<E, U3>> = Vec::new();
        for _ in 0..2 { h.step(c, "generate", Mode::Must, 3, &mut |c| keep(&mut vs, vgen(c)))?; }
        for _ in 0..1 + c.index(4) {
            h.step(c, "cross", Mode::Must, 3, &mut |_| if vs.len() > 1 { let r = vs[0].cross(&vs[1]); keep(&mut vs, r) })?;
        }
        look::<E>(c, &mut h, &mut || vs.iter().fold(0, |a, v| mix(a, touch_all(v.as_slice()))), &[])?;
        h.step(c, "drop all", Mode::Must, 3, &mut |_| drop(std::mem::take(&mut vs)))?;
    }
    h.end(c, "cross products")
}

pub fn chunks<T: Own, N, I>(c: &mut Case) -> R
where N: ArrayLen<T> + std::ops::Rem<I>, I: ArrayLen<T>, typenum::Mod<N, I>: typenum::Same<U0> {
    let (n, k) = (<N as Unsigned>::to_usize(), <I as Unsigned>::to_usize());
    let mut h = Hist::start(c, n, T::TRACKED);
    {
        let mut it = None;
        let mut vs: Vec<Vector<T, I>> = Vec::new();
        h.step(c, "into_chunks", Mode::Must, n, &mut |c| it = Some(vgen::<T, N>(c).into_chunks::<I>()))?;
        let steps = 1 + c.index(n / k + 3);
        for _ in 0..steps {
            let op = c.below(9);
            h.step(c, ["next chunk", "next_back chunk", "nth chunk", "nth_back chunk", "len", "take by reference", "drop a chunk", "next chunk", "next_back chunk"][op as usize], Mode::Must, n, &mut |c| {
                let p = c.index(3);
                if let Some(ref mut i) = it {
                    match op {
                        0 | 7 => vs.extend(i.next()),
                        1 | 8 => vs.extend(i.next_back()),
                        2 => vs.extend(i.nth(p)),
                        3 => vs.extend(i.nth_back(p)),
                        4 => c.out(i.len() as u64),
                        5 => vs.extend(i.by_ref().take(p)),
                        _ => { take(c, &mut vs); }
                    }
                }
            })?;
        }
        look::<T>(c, &mut h, &mut || vs.iter().fold(0, |a, v| mix(a, touch_all(v.as_slice()))), &[])?;
        let end = c.below(4);
        h.step(c, ["drop all", "count", "last", "collect the rest"][end as usize], Mode::Must, n, &mut |c| {
            if let Some(i) = it.take() { match end { 0 => drop(i), 1 => c.out(i.count() as u64), 2 => vs.extend(i.last()), _ => vs.extend(i) } }
        })?;
        h.step(c, "drop all", Mode::Must, n, &mut |_| { it = None; drop(std::mem::take(&mut vs)) })?;
    }
    h.end(c, "chunks")
}

pub fn reshape<Ro, Co>(c: &mut Case) -> R
where Ro: ArrayLen<Vector<E, Co>> + std::ops::Mul<Co>, Co: ArrayLen<E>, typenum::Prod<Ro, Co>: ArrayLen<E>,
      Matrix<E, Ro, Co>: From<Vector<E, typenum::Prod<Ro, Co>>> {
    let (r, k) = (<Ro as Unsigned>::to_usize(), <Co as Unsigned>::to_usize());
    let mut h = Hist::start(c, r * k, true);
    {
        let mut m: Option<Matrix<E, Ro, Co>> = None;
        h.step(c, "vector into matrix", Mode::Must, r * k, &mut |c| { let v: Vector<E, typenum::Prod<Ro, Co>> = vgen(c); m = Some(Matrix::from(v)) })?;
        look::<E>(c, &mut h, &mut || m.iter().fold(0, |a, m| m.rows_iter_ref().fold(a, |a, row| mix(a, touch_all(row)))), &[])?;
        h.step(c, "drop all", Mode::Must, r * k, &mut |_| m = None)?;
    }
    h.end(c, "reshaping")
}

#[inline(never)]
fn mtouch<Ro: ArrayLen<Vector<E, Co>>, Co: ArrayLen<E>>(ms: &[Matrix<E, Ro, Co>]) -> u64 {
    ms.iter().fold(0, |a, m| m.rows_iter_ref().fold(a, |a, row| mix(a, touch_all(row))))
}

pub fn matrix<Ro, Co>(c: &mut Case) -> R
where Ro: ArrayLen<Vector<E, Co>> + ArrayLen<E> + ArrayLen<Vector<E, Ro>>, Co: ArrayLen<E> + ArrayLen<Vector<E, Ro>> {
    let (r, k) = (<Ro as Unsigned>::to_usize(), <Co as Unsigned>::to_usize());
    let n = r * k;
    let mut h = Hist::start(c, n, true);
    use Mode::*;
    let steps = 1 + c.index(12);
    {
        let mut ms: Vec<Matrix<E, Ro, Co>> = Vec::new();
        let mut rows: Vec<Vector<E, Co>> = Vec::new();
        let mut cols: Vec<Vector<E, Ro>> = Vec::new();
        for i in 0..2 + steps {
            let op = if i < 2 { 0 } else { c.below(25) };
            let ms = &mut ms;
            let unit = |c: &mut Case| E::new(F7::new(1 + c.below(6)));
            let mut two = |c: &mut Case, what: &'static str, h: &mut Hist, f: &mut dyn FnMut(Matrix<E, Ro, Co>, &mut Matrix<E, Ro, Co>) -> Option<Matrix<E, Ro, Co>>| {
                h.step(c, what, Must, n, &mut |c| if let (Some(a), Some(b)) = (take(c, ms), some(c, ms)) { if let Some(r) = f(a, b) { keep(ms, r) } })
            };
            match op {
                0 => h.step(c, "generate", Must, n, &mut |c| { let mut s = Case::random(c.below(1 << 16)); keep(ms, Matrix::generate(|_| { E::fault(F_CALL); E::gen(&mut s) })) })?,
                1 => h.step(c, "clone", Must, n, &mut |c| if let Some(m) = some(c, ms) { let w = m.clone(); keep(ms, w) })?,
                2 => h.step(c, "drop", Must, n, &mut |c| { take(c, ms); })?,
                3 => h.step(c, "map", Must, n, &mut |c| if let Some(m) = take(c, ms) { keep(ms, m.map(|_, x| { E::fault(F_CALL); x.clone() })) })?,
                4 => h.step(c, "all, any", Must, n, &mut |c| if let Some(m) = some(c, ms) { let k = c.upto(n); let mut i = 0; let a = m.all(|_, x| { E::fault(F_CALL); x.touch(); i += 1; i < k }); i = 0; let b = m.any(|_, x| { E::fault(F_CALL); x.touch(); i += 1; i > k }); c.out(a as u64 * 2 + b as u64) })?,
                5 => two(c, "& + &", &mut h, &mut |a, b| Some(&a + &*b))?,
                6 => two(c, "+ &", &mut h, &mut |a, b| Some(a + &*b))?,
                7 => two(c, "-", &mut h, &mut |a, b| Some(a - b.clone()))?,
                8 => two(c, "& -", &mut h, &mut |a, b| Some(&*b - a))?,
                9 => two(c, "+= in place", &mut h, &mut |a, b| { *b += a; None })?,
                10 => two(c, "-= in place", &mut h, &mut |a, b| { *b -= a; None })?,
                11 => h.step(c, "* scalar", Must, n, &mut |c| { let (s, by) = (unit(c), c.bool()); if let Some(a) = take(c, ms) { let r = if by { a * &s } else { a * s }; keep(ms, r) } })?,
                12 => h.step(c, "/ scalar", Must, n, &mut |c| { let (s, by) = (unit(c), c.bool()); if let Some(a) = take(c, ms) { let r = if by { a / &s } else { a / s }; keep(ms, r) } })?,
                13 => h.step(c, "*= and /= scalar", Must, n, &mut |c| { let (s, by) = (unit(c), c.bool()); if let Some(a) = some(c, ms) { if by { *a *= s } else { *a /= s } } })?,
                14 => h.step(c, "neg", Must, n, &mut |c| if let Some(a) = take(c, ms) { keep(ms, -a) })?,
                15 => h.step(c, "transposed twice", Must, n, &mut |c| if let Some(a) = take(c, ms) { let t = a.transposed(); drop(a); keep(ms, t.transposed()) })?,
                16 => h.step(c, "* matrix", Must, n, &mut |c| { let by = c.below(4); if let (Some(a), Some(b)) = (take(c, ms), some(c, ms)) {
                    let t = b.transposed();
                    let p: Matrix<E, Ro, Ro> = match by { 0 => a * t, 1 => &a * t, 2 => a * &t, _ => &a * &t };
                    let q = p * &*b;
                    keep(ms, q)
                } })?,
                17 => h.step(c, "* vector", Must, n, &mut |c| { let by = c.bool(); let v = take(c, &mut rows).unwrap_or_else(|| vgen(c)); if let Some(a) = take(c, ms) { keep(&mut cols, if by { a * v } else { a * &v }) } })?,
                18 => h.step(c, "rows", Must, n, &mut |c| { let (b, p, q) = (c.below(4), c.upto(r), c.index(3)); if let Some(a) = some(c, ms) { let mut i = a.rows_iter(); for _ in 0..q { rows.extend(if b & 1 == 0 { i.next() } else { i.next_back() }) } rows.extend(i.nth(p)); if b < 2 { rows.extend(i.last()) } else { rows.extend(i) } rows.truncate(6) } })?,
                19 => h.step(c, "columns", Must, n, &mut |c| { let (b, p, q) = (c.below(4), c.upto(k), c.index(3)); if let Some(a) = some(c, ms) { let mut i = a.cols_iter(); for _ in 0..q { cols.extend(if b & 1 == 0 { i.next() } else { i.next_back() }) } cols.extend(i.nth(p)); if b < 2 { cols.extend(i.last()) } else { cols.extend(i) } cols.truncate(6) } })?,
                20 => h.step(c, "borrowed rows and columns", Must, n, &mut |c| if let Some(a) = some(c, ms) { let mut t = 0; for row in a.rows_iter_ref().rev() { t = mix(t, touch_all(row)) } for col in a.cols_iter_ref() { let mut col = col; for x in col.next_back().into_iter().chain(col) { t = mix(t, x.touch()) } } c.out(t) })?,
                21 => h.step(c, "write", Must, n, &mut |c| if n > 0 { let (i, j, x) = (c.index(r), c.index(k), E::gen(c)); if let Some(a) = some(c, ms) { a[(i, j)] = x } })?,
                22 => h.step(c, "clamp, sum, compare", Must, n, &mut |c| { let (lo, hi) = (E::new(F7::new(1 + c.below(3))), E::new(F7::new(4 + c.below(3)))); if ms.len() > 1 { c.out((ms[0] == ms[1]) as u64 + ms[0].is_zero() as u64) } if let Some(a) = some(c, ms) { let s = a.sum(); c.out(s.touch()); if c.bool() { a.clamp(lo, hi) } else { let r = a.clamped(lo, hi); *a = r } } })?,
                23 => h.step(c, "zero, default, bounds", Must, n, &mut |c| { let r = match c.below(4) { 0 => Matrix::zero(), 1 => Matrix::default(), 2 => Matrix::min_value(), _ => Matrix::max_value() }; keep(ms, r) })?,
                _ => h.step(c, "index out of range", MayPanic, n, &mut |c| { let p = if c.bool() { (r + c.index(2), c.upto(k)) } else { (c.upto(r), k + c.index(2)) }; if let Some(a) = some(c, ms) { c.out(a[p].touch()) } })?,
            }
            let ms = &*ms;
            if c.chance(1, 4) { look::<E>(c, &mut h, &mut || mtouch(ms) ^ rows.iter().fold(0, |a, v| mix(a, touch_all(v.as_slice()))) ^ cols.iter().fold(0, |a, v| mix(a, touch_all(v.as_slice()))), &[])? }
        }
        look::<E>(c, &mut h, &mut || mtouch(&ms) ^ rows.iter().fold(0, |a, v| mix(a, touch_all(v.as_slice()))) ^ cols.iter().fold(0, |a, v| mix(a, touch_all(v.as_slice()))), &[])?;
        h.step(c, "drop all", Must, n, &mut |_| { drop(std::mem::take(&mut ms)); drop(std::mem::take(&mut rows)); drop(std::mem::take(&mut cols)) })?;
    }
    h.end(c, "matrices")
}

pub fn square<N: ArrayLen<E> + ArrayLen<Vector<E, N>>>(c: &mut Case) -> R where Matrix<E, N, N>: Ext<E> {
    let n = <N as Unsigned>::to_usize();
    let mut h = Hist::start(c, n * n, true);
    use Mode::*;
    let steps = 1 + c.index(6);
    {
        let mut ms: Vec<Matrix<E, N, N>> = Vec::new();
        let mut got: Vec<E> = Vec::new();
        for i in 0..2 + steps {
            let op = if i < 2 { 0 } else { 1 + c.below(6) };
            let ms = &mut ms;
            match op {
                0 => h.step(c, "generate", Must, n, &mut |c| keep(ms, mgen(c)))?,
                1 => h.step(c, "transpose", Must, n, &mut |c| if let Some(m) = some(c, ms) { m.transpose() })?,
                2 => h.step(c, "pow", Must, n, &mut |c| { let e = if n > 8 { c.index(3) } else { c.index(7) }; if let Some(m) = some(c, ms) { let r = m.pow(e); keep(ms, r) } })?,
                3 => h.step(c, "*= matrix", Must, n, &mut |c| if let (Some(a), Some(b)) = (take(c, ms), some(c, ms)) { *b *= a })?,
                4 => h.step(c, "identity", Must, n, &mut |c| { let r = if c.bool() { Matrix::identity() } else { Matrix::one() }; keep(ms, r) })?,
                5 => h.step(c, "extreme", Must, n, &mut |c| { let k = c.below(4); if let Some(m) = some(c, ms) { got.push(m.ext(k)) } })?,
                _ => h.step(c, "transpose a clone", Must, n, &mut |c| if let Some(m) = some(c, ms) { let mut w = m.clone(); w.transpose(); keep(ms, w) })?,
            }
            let ms = &*ms;
            if c.chance(1, 4) { look(c, &mut h, &mut || mtouch(ms), &got)? }
        }
        look(c, &mut h, &mut || mtouch(&ms), &got)?;
        h.step(c, "drop all", Must, n, &mut |_| { drop(std::mem::take(&mut ms)); drop(std::mem::take(&mut got)) })?;
    }
    h.end(c, "square matrices")
}

/// Determinants, inverses and cofactors.
fn algebra<N: ArrayLen<E> + ArrayLen<Vector<E, N>>>(c: &mut Case, cof: Option<&dyn Fn(&Matrix<E, N, N>, (usize, usize)) -> E>) -> R
where Matrix<E, N, N>: Determinant<Output = E> + Inverse<Output = Matrix<E, N, N>> {
    let n = <N as Unsigned>::to_usize();
    let mut h = Hist::start(c, n * n, true);
    use Mode::*;
    let steps = 1 + c.index(4);
    let m0 = kit::fp::gen_square(c, n, &mut |c| F7::gen(c));
    {
        let mut ms: Vec<Matrix<E, N, N>> = Vec::new();
        let mut got: Vec<E> = Vec::new();
        h.step(c, "build", Must, n, &mut |_| keep(&mut ms, Matrix::generate(|(i, j)| E::new(m0[i][j]))))?;
        for _ in 0..steps {
            let op = c.below(if cof.is_some() { 4 } else { 2 });
            match op {
                0 => h.step(c, "determinant", Must, n, &mut |_| if let Some(m) = ms.first() { got.push(m.determinant()) })?,
                1 => h.step(c, "inverse", Must, n, &mut |_| if let Some(m) = ms.first() { let i = m.inverse(); if let Some(i) = i { keep(&mut ms, i) } })?,
                2 => h.step(c, "cofactor", Must, n, &mut |c| { let p = (c.index(n), c.index(n)); if let (Some(m), Some(f)) = (ms.first(), cof) { got.push(f(m, p)) } })?,
                _ => h.step(c, "cofactor outside", MayPanic, n, &mut |c| { let p = if c.bool() { (n, c.index(n)) } else { (c.index(n), n + c.index(2)) }; if let (Some(m), Some(f)) = (ms.first(), cof) { got.push(f(m, p)) } })?,
            }
        }
        look(c, &mut h, &mut || mtouch(&ms), &got)?;
        h.step(c, "drop all", Must, n, &mut |_| { drop(std::mem::take(&mut ms)); drop(std::mem::take(&mut got)) })?;
    }
    h.end(c, "determinant and inverse")
}
pub fn linear<N: ArrayLen<E> + ArrayLen<Vector<E, N>>>(c: &mut Case) -> R
where Matrix<E, N, N>: Determinant<Output = E> + Inverse<Output = Matrix<E, N, N>> { algebra::<N>(c, None) }
pub fn linear_cof<N: ArrayLen<E> + ArrayLen<Vector<E, N>>>(c: &mut Case) -> R
where Matrix<E, N, N>: Determinant<Output = E> + Inverse<Output = Matrix<E, N, N>> + Cofactor<Output = E> { algebra::<N>(c, Some(&|m, p| m.cofactor(p))) }

/// Conjugates and diagonal matrices.
pub fn odds(c: &mut Case) -> R {
    let mut h = Hist::start(c, 6, true);
    {
        let mut m: Option<Matrix<Complex<E>, U3, U2>> = None;
        let mut d: Option<Matrix<E, U3, U4>> = None;
        h.step(c, "generate", Mode::Must, 6, &mut |c| m = Some(Matrix::generate(|_| Complex::new(E::gen(c), E::gen(c)))))?;
        h.step(c, "conjugate", Mode::Must, 6, &mut |_| if let Some(ref x) = m { let y = x.conjugate(); m = Some(y) })?;
        h.step(c, "diag", Mode::Must, 6, &mut |c| d = Some(Matrix::diag([E::gen(c), E::gen(c), E::gen(c)])))?;
        h.step(c, "new", Mode::Must, 6, &mut |c| { let x: Matrix<E, U2, U2> = Matrix::new([[E::gen(c), E::gen(c)], [E::gen(c), E::gen(c)]]); c.out(x[(1, 0)].touch()) })?;
        h.step(c, "macros", Mode::Must, 6, &mut |c| { let v = rowcol::vector![E::gen(c), E::gen(c), E::gen(c)]; let w = rowcol::matrix![[E::gen(c), E::gen(c)], [E::gen(c), E::gen(c)]]; c.out(v[2].touch() + w[(0, 1)].touch()) })?;
        h.step(c, "type-level writes", Mode::Must, 6, &mut |c| { let x = E::gen(c); if let Some(ref mut m) = d { m[(U2::new(), U3::new())] = x; c.out(m[(U2::new(), U0::new())].touch()) } })?;
        h.step(c, "drop all", Mode::Must, 6, &mut |_| { m = None; d = None })?;
    }
    h.end(c, "conjugates, diagonals, literals")
}
