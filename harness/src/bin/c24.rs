//! Everything a case observes goes into its digest; digests are compared between build configurations.
#[path = "../own.rs"]
mod own;
use harness::*;
use kit::case::mix;
use kit::track;
use own::*;
use num::{Bounded, Zero};
use rowcol::matrix::{Cofactor, Determinant, Inverse};
use rowcol::vector::IntoIter;
use std::cell::RefCell;
use std::fmt::{self, Debug};
use typenum::Unsigned;

/// A surplus of items is a violated precondition (debug builds reject it), and faults are counted in clones and operations.
pub const SURPLUS: bool = false;
pub const FAULTS: bool = false;

/// Originals have an identity and record when they are dropped; one of them may panic when dropped or cloned.
pub struct D { id: u64, v: u64 }
#[derive(Default)]
struct Log { made: u64, drops: u64, order: u64, drop_bomb: u64, clone_bomb: u64 }
thread_local! { static LOG: RefCell<Log> = RefCell::new(Log::default()); }
fn log<R>(f: impl FnOnce(&mut Log) -> R) -> R { LOG.with(|l| f(&mut l.borrow_mut())) }

impl Drop for D {
    fn drop(&mut self) {
        if self.id == 0 { return }
        let id = self.id;
        let bomb = log(|l| { l.drops += 1; l.order = mix(l.order, id); let b = l.drop_bomb == id; if b { l.drop_bomb = 0 } b });
        if bomb && !std::thread::panicking() { track::trigger() }
    }
}
impl Clone for D {
    fn clone(&self) -> D {
        let id = self.id;
        if id != 0 && log(|l| { let b = l.clone_bomb == id; if b { l.clone_bomb = 0 } b }) { track::trigger() }
        D { id: 0, v: self.v }
    }
}
impl PartialEq for D { fn eq(&self, o: &D) -> bool { self.v == o.v } }
impl Debug for D { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { write!(f, "d{}", self.v) } }
impl Elem for D {
    type Key = u64;
    fn gen(c: &mut Case) -> D { let v = c.below(5); D { id: log(|l| { l.made += 1; l.made }), v } }
    fn key(&self) -> u64 { self.v }
}
impl Own for D { fn touch(&self) -> u64 { mix(self.id, self.v) } }

fn bombs(c: &mut Case, n: usize) {
    let far = 3 * n as u64 + 2;
    let (d, k) = match c.below(4) { 0 => (1, 0), 1 => (0, 1), _ => (0, 0) };
    let (a, b) = (1 + c.below(far), 1 + c.below(far));
    log(|l| *l = Log { drop_bomb: if d == 1 { a } else { 0 }, clone_bomb: if k == 1 { b } else { 0 }, ..Log::default() });
}
fn drops(c: &mut Case) {
    let (made, drops, order) = log(|l| (l.made, l.drops, l.order));
    c.out(made);
    c.out(drops);
    c.out(order);
}

fn history<N: ArrayLen<D>>(c: &mut Case) -> R {
    bombs(c, N::to_usize());
    let r = vector::<D, N>(c);
    drops(c);
    r
}
fn blocks<N, I>(c: &mut Case) -> R
where N: ArrayLen<D> + std::ops::Rem<I>, I: ArrayLen<D>, typenum::Mod<N, I>: typenum::Same<U0> {
    bombs(c, <N as Unsigned>::to_usize());
    let r = chunks::<D, N, I>(c);
    drops(c);
    r
}

/// What one operation gave: values, or the fact that it panicked.
#[inline(never)]
fn op(c: &mut Case, what: &str, f: &mut dyn FnMut(&mut Case)) {
    c.out_str(what);
    let p = panics_dyn(&mut || f(c));
    c.out(p.is_some() as u64);
}

/// Matrices of identified elements.
fn grid_history<Ro, Co>(c: &mut Case) -> R
where Ro: ArrayLen<Vector<D, Co>> + ArrayLen<D> + ArrayLen<Vector<D, Ro>>, Co: ArrayLen<D> + ArrayLen<Vector<D, Ro>> {
    let (r, k) = (<Ro as Unsigned>::to_usize(), <Co as Unsigned>::to_usize());
    track::reset();
    bombs(c, r * k);
    let mut ms: Vec<Matrix<D, Ro, Co>> = Vec::new();
    let mut rows: Vec<Vector<D, Co>> = Vec::new();
    let mut cols: Vec<Vector<D, Ro>> = Vec::new();
    let steps = 2 + c.index(12);
    for i in 0..steps {
        let which = if i == 0 { 0 } else { c.below(16) };
        let (a, b) = (c.index(r + 3), c.index(k + 3));
        op(c, "step", &mut |c| match which {
            0 => { let m = mgen(c); if ms.len() > 3 { ms.remove(0); } ms.push(m) }
            1 => { if let Some(m) = ms.first() { let w = m.clone(); ms.push(w) } }
            2 => { ms.pop(); }
            3 => if let Some(m) = ms.last() { let t = m.transposed(); c.out(t.cols_iter_ref().len() as u64); ms.push(t.transposed()) },
            4 => if let Some(m) = ms.last() { let mut i = m.rows_iter(); rows.extend(i.nth(a)); c.out(i.len() as u64); rows.extend(i.next_back()); rows.truncate(3); c.out(i.count() as u64) },
            5 => if let Some(m) = ms.last() { let mut i = m.cols_iter(); cols.extend(i.nth(b)); c.out(i.len() as u64); cols.extend(i.next_back()); cols.truncate(3); c.out(i.count() as u64) },
            6 => if let Some(m) = ms.last() { let mut i = m.rows_iter_ref(); for row in [i.next(), i.next_back(), i.nth(a)] { c.out(row.map_or(77, |x| touched(x))) } c.out(i.len() as u64) },
            7 => if let Some(m) = ms.last() { let mut i = m.cols_iter_ref(); for col in [i.next(), i.next_back(), i.nth(b)] { match col { Some(mut col) => { c.out(col.len() as u64); let z = [col.next_back().map_or(78, |x| x.touch()), col.nth(a / 2).map_or(78, |x| x.touch()), col.next().map_or(78, |x| x.touch())]; for z in z { c.out(z) } c.out(col.count() as u64) } None => c.out(77) } } c.out(i.len() as u64) },
            8 => if let Some(m) = ms.last() { c.out(m[(a, b)].touch()) },
            9 => if let Some(m) = ms.last_mut() { let x = D::gen(c); m[(a, b)] = x },
            10 => if ms.len() > 1 { c.out((ms[0] == ms[1]) as u64) },
            11 => if let Some(m) = ms.last() { let s = if a & 1 == 0 { format!("{:?}", m) } else { format!("{:#?}", m) }; c.out_str(&s) },
            12 => { rows.clear() }
            13 => { cols.clear() }
            14 => if let Some(m) = ms.last_mut() { if r > 0 && k > 0 { let x = std::mem::replace(&mut m[(a % r, b % k)], D::gen(c)); m[(b % r, a % k)] = x } },
            _ => if ms.len() > 1 { let n = ms.len(); ms.swap(0, n - 1) },
        });
        drops(c);
    }
    for m in &ms { for row in m.rows_iter_ref() { let t = touched(row); c.out(t) } }
    for v in &rows { let t = touched(v.as_slice()); c.out(t) }
    for v in &cols { let t = touched(v.as_slice()); c.out(t) }
    op(c, "drop all", &mut |_| { drop(std::mem::take(&mut ms)); drop(std::mem::take(&mut rows)); drop(std::mem::take(&mut cols)) });
    drops(c);
    c.nontrivial_if(r * k > 1);
    c.note(|| format!("{}x{}, {} steps", r, k, steps));
    Ok(())
}
fn touched(s: &[D]) -> u64 { s.iter().fold(s.len() as u64, |h, x| mix(h, x.touch())) }

/// Bits of plain numbers, all NaNs alike.
trait Num: Elem + Copy + num::Num + std::ops::Neg<Output = Self> + PartialOrd + num::Bounded + Default {
    fn bits(self) -> u64;
    fn make(c: &mut Case) -> Self;
}
impl Num for f64 { fn bits(self) -> u64 { if self.is_nan() { 1 } else { self.to_bits() } } fn make(c: &mut Case) -> f64 { c.float() } }
impl Num for f32 { fn bits(self) -> u64 { if self.is_nan() { 1 } else { self.to_bits() as u64 } } fn make(c: &mut Case) -> f32 { c.float() as f32 } }
impl Num for i64 { fn bits(self) -> u64 { self as u64 } fn make(c: &mut Case) -> i64 { c.small(6) } }
#[inline(never)]
fn outs<T: Num>(c: &mut Case, s: &[T]) { c.out(s.len() as u64); for x in s { let b = x.bits(); c.out(b) } }
fn outm<T: Num, Ro: ArrayLen<Vector<T, Co>>, Co: ArrayLen<T>>(c: &mut Case, m: Matrix<T, Ro, Co>) { for row in m.rows_iter_ref() { outs(c, row) } }

macro_rules! plain { ($m:ident $t:ident) => { mod $m {
use super::*;
type T = $t;
pub fn numbers<N: ArrayLen<T>>(c: &mut Case) -> R {
    let (a, b): (Vector<T, N>, Vector<T, N>) = (Vector::generate(|_| T::make(c)), Vector::generate(|_| T::make(c)));
    let s = T::make(c);
    op(c, "+", &mut |c| outs(c, (&a + &b).as_slice()));
    op(c, "-", &mut |c| outs(c, (&a - &b).as_slice()));
    op(c, "neg", &mut |c| outs(c, (-a.clone()).as_slice()));
    op(c, "*", &mut |c| outs(c, (a.clone() * s).as_slice()));
    op(c, "/", &mut |c| outs(c, (a.clone() / s).as_slice()));
    op(c, "+=", &mut |c| { let mut w = a.clone(); w += b.clone(); w -= a.clone(); w *= s; w /= s; outs(c, w.as_slice()) });
    op(c, "dot", &mut |c| outs(c, &[a.dot(&b)]));
    op(c, "sum", &mut |c| outs(c, &[a.sum()]));
    op(c, "compare", &mut |c| c.out((a == b) as u64 + 2 * (a == a.clone()) as u64));
    op(c, "debug", &mut |c| { let t = format!("{:?} {:#?} {:.3?} {:8?}", a, b, a, b); c.out_str(&t) });
    op(c, "index", &mut |c| { let i = c.index(a.len() + 3); outs(c, &[a[i]]) });
    op(c, "slices", &mut |c| { let mut w = a.clone(); w.as_slice_mut().reverse(); outs(c, w.as_slice()); c.out((w.iter().len() + w.len()) as u64) });
    op(c, "zero", &mut |c| { c.out(a.is_zero() as u64); outs(c, Vector::<T, N>::zero().as_slice()); outs(c, Vector::<T, N>::default().as_slice()) });
    op(c, "bounds", &mut |c| { outs(c, Vector::<T, N>::min_value().as_slice()); outs(c, Vector::<T, N>::max_value().as_slice()) });
    op(c, "iterate", &mut |c| { let k = c.index(a.len() + 2); let mut i: IntoIter<T, N> = a.clone().into_iter(); let x: Vec<T> = i.nth(k).into_iter().chain(i.next_back()).collect(); outs(c, &x); c.out(i.len() as u64); let l: Vec<T> = i.collect(); outs(c, &l) });
    op(c, "map", &mut |c| outs(c, a.clone().into_iter().map(|x| x + s).collect::<Vector<T, N>>().as_slice()));
    c.nontrivial_if(N::to_usize() > 1);
    c.note(|| format!("{:?} and {:?}, scalar {:?}", a, b, s));
    Ok(())
}

pub fn table<Ro, Co>(c: &mut Case) -> R
where Ro: ArrayLen<Vector<T, Co>> + ArrayLen<T> + ArrayLen<Vector<T, Ro>>, Co: ArrayLen<T> + ArrayLen<Vector<T, Ro>> {
    let (r, k) = (<Ro as Unsigned>::to_usize(), <Co as Unsigned>::to_usize());
    let (a, b): (Matrix<T, Ro, Co>, Matrix<T, Ro, Co>) = (Matrix::generate(|_| T::make(c)), Matrix::generate(|_| T::make(c)));
    let v: Vector<T, Co> = Vector::generate(|_| T::make(c));
    let s = T::make(c);
    op(c, "+", &mut |c| outm(c, &a + &b));
    op(c, "-", &mut |c| outm(c, &a - &b));
    op(c, "neg", &mut |c| outm(c, -a.clone()));
    op(c, "*", &mut |c| outm(c, a.clone() * s));
    op(c, "/", &mut |c| outm(c, a.clone() / s));
    op(c, "+=", &mut |c| { let mut w = a.clone(); w += b.clone(); w -= a.clone(); w *= s; w /= s; outm(c, w) });
    op(c, "* vector", &mut |c| outs(c, (a.clone() * &v).as_slice()));
    op(c, "* matrix", &mut |c| outm(c, &a * &b.transposed()));
    op(c, "transposed", &mut |c| outm(c, a.transposed()));
    op(c, "sum", &mut |c| outs(c, &[a.sum()]));
    op(c, "compare", &mut |c| c.out((a == b) as u64 + 2 * (a == a.clone()) as u64));
    op(c, "debug", &mut |c| { let t = format!("{:?} {:#?} {:.3?} {:8?}", a, b, a, b); c.out_str(&t) });
    op(c, "index", &mut |c| { let p = (c.index(r + 2), c.index(k + 2)); outs(c, &[a[p]]) });
    op(c, "queries", &mut |c| { let (x, y) = (a.all(|p, e| *e != s || p.0 > p.1), a.any(|p, e| *e == s && p.0 <= p.1)); c.out(x as u64 + 2 * y as u64); c.out(a.dim().0 as u64 + 100 * a.dim().1 as u64) });
    op(c, "map", &mut |c| outm(c, a.clone().map(|_, x| x + s)));
    op(c, "rows", &mut |c| { let n = c.index(r + 2); let mut i = a.rows_iter(); if let Some(v) = i.nth(n) { outs(c, v.as_slice()) } if let Some(v) = i.next_back() { outs(c, v.as_slice()) } c.out(i.len() as u64); for v in i { outs(c, v.as_slice()) } });
    op(c, "columns", &mut |c| { let n = c.index(k + 2); let mut i = a.cols_iter(); if let Some(v) = i.nth(n) { outs(c, v.as_slice()) } if let Some(v) = i.next_back() { outs(c, v.as_slice()) } c.out(i.len() as u64); for v in i { outs(c, v.as_slice()) } });
    op(c, "zero", &mut |c| { c.out(a.is_zero() as u64); outm(c, Matrix::<T, Ro, Co>::zero()); outm(c, Matrix::<T, Ro, Co>::default()); outm(c, Matrix::<T, Ro, Co>::min_value()); outm(c, Matrix::<T, Ro, Co>::max_value()) });
    c.nontrivial_if(r * k > 1);
    c.note(|| format!("{:?} and {:?}, scalar {:?}", a, b, s));
    Ok(())
}

} } }
plain! { on_f64 f64 }
plain! { on_f32 f32 }
plain! { on_i64 i64 }
mod floats {
use super::*;
type T = f64;
pub fn algebra<N: ArrayLen<T> + ArrayLen<Vector<T, N>>>(c: &mut Case) -> R
where Matrix<T, N, N>: Determinant<Output = T> + Inverse<Output = Matrix<T, N, N>> {
    let n = <N as Unsigned>::to_usize();
    let a: Matrix<T, N, N> = Matrix::generate(|_| T::make(c));
    op(c, "determinant", &mut |c| { let d = a.determinant(); outs(c, &[d]) });
    op(c, "inverse", &mut |c| match a.inverse() { Some(m) => outm(c, m), None => c.out(5) });
    op(c, "transpose", &mut |c| { let mut w = a.clone(); w.transpose(); outm(c, w) });
    op(c, "pow", &mut |c| { let e = c.index(4); outm(c, a.pow(e)) });
    op(c, "*=", &mut |c| { let mut w = a.clone(); w *= a.transposed(); outm(c, w) });
    op(c, "identity", &mut |c| outm(c, Matrix::<T, N, N>::identity()));
    c.nontrivial_if(n > 1);
    c.note(|| format!("{:?}", a));
    Ok(())
}
}
/// Sizes beyond those where elimination may meet zeros at will.
fn dominant<N: ArrayLen<f64> + ArrayLen<Vector<f64, N>>>(c: &mut Case) -> R
where Matrix<f64, N, N>: Determinant<Output = f64> + Inverse<Output = Matrix<f64, N, N>> + Cofactor<Output = f64> {
    let n = <N as Unsigned>::to_usize();
    let a: Matrix<f64, N, N> = Matrix::generate(|(i, j)| { let x = c.below(1 << 20) as f64 / (1u64 << 20) as f64 + 0.5; if i == j { x + 2.0 * n as f64 } else if c.bool() { -x } else { x } });
    op(c, "determinant", &mut |c| { let d = a.determinant(); outs(c, &[d]) });
    op(c, "inverse", &mut |c| match a.inverse() { Some(m) => outm(c, m), None => c.out(5) });
    op(c, "cofactor", &mut |c| { let i = c.index(n); let x = a.cofactor((i, i)); outs(c, &[x]) });
    op(c, "transpose", &mut |c| { let mut w = a.clone(); w.transpose(); outm(c, w) });
    op(c, "pow", &mut |c| { let e = c.index(20); outm(c, a.pow(e)) });
    op(c, "*", &mut |c| outm(c, a.transposed() * &a));
    c.nontrivial_if(n > 1);
    c.note(|| format!("{:?}", a));
    Ok(())
}

/// Lengths and angles of vectors of any length, bounds, and the same for orders.
fn metric<N: ArrayLen<f64> + ArrayLen<i64>>(c: &mut Case) -> R {
    let a: Vector<f64, N> = Vector::generate(|_| c.float());
    let mut b: Vector<i64, N> = Vector::generate(|_| c.small(20));
    let (x, y) = (c.small(20), c.small(20));
    op(c, "norm", &mut |c| outs(c, &[a.norm()]));
    op(c, "normalized", &mut |c| outs(c, a.normalized().as_slice()));
    op(c, "clamped", &mut |c| outs(c, b.clamped(x.min(y), x.max(y)).as_slice()));
    op(c, "clamp", &mut |c| { b.clamp(x.min(y), x.max(y)); outs(c, b.as_slice()) });
    op(c, "near", &mut |c| { let w = a.clone(); c.out((a == w) as u64 + 4 * b.iter().rev().any(|v| *v == x) as u64) });
    op(c, "mixed", &mut |c| { let m: Vector<f64, N> = b.iter().map(|&v| v as f64).collect(); outs(c, (&m - &a).as_slice()); outs(c, &[m.dot(&a), a.dot(&m), m.norm()]) });
    op(c, "short", &mut |c| { let v: Vector<i64, N> = (0..N::to_usize() as i64 - 1).collect(); outs(c, v.as_slice()) });
    op(c, "back", &mut |c| { let mut i = b.clone().into_iter(); let k = c.index(b.len() + 1); for _ in 0..k { if let Some(v) = i.next_back() { outs(c, &[v]) } } if let Some(v) = i.nth(c.index(3)) { outs(c, &[v]) } c.out(i.len() as u64); c.out(i.last().map_or(-1, |v| v) as u64) });
    c.nontrivial_if(N::to_usize() > 1);
    c.note(|| format!("{:?} and {:?} to {}, {}", a, b, x, y));
    Ok(())
}
fn order<N: ArrayLen<i64> + ArrayLen<Vector<i64, N>>>(c: &mut Case) -> R where Vector<i64, N>: Most, Matrix<i64, N, N>: Most {
    let a: Vector<i64, N> = Vector::generate(|_| c.small(30));
    let m: Matrix<i64, N, N> = Matrix::generate(|_| c.small(300));
    op(c, "vector", &mut |c| { let t = a.most(); outs(c, &t) });
    op(c, "matrix", &mut |c| { let t = m.most(); outs(c, &t) });
    op(c, "clamp", &mut |c| { let mut w = m.clamped(-20, 20); outm(c, w.clone()); w.clamp(-3, 7); outm(c, w) });
    op(c, "sum", &mut |c| { let t = [m.sum(), a.sum()]; outs(c, &t) });
    op(c, "identity", &mut |c| { outm(c, Matrix::<i64, N, N>::identity()); outs(c, (Matrix::<i64, N, N>::identity() * a.clone()).as_slice()) });
    c.nontrivial_if(<N as Unsigned>::to_usize() > 1);
    c.note(|| format!("{:?}", a));
    Ok(())
}
trait Most { fn most(&self) -> [i64; 4]; }
macro_rules! most { ($($n:ident)*) => { $(
    impl Most for Vector<i64, $n> { fn most(&self) -> [i64; 4] { [self.max(), self.min(), self.max_by(|a, b| (a & 7).cmp(&(b & 7)).then(a.cmp(b))), self.min_by(|a, b| (a & 7).cmp(&(b & 7)).then(a.cmp(b)))] } }
    impl Most for Matrix<i64, $n, $n> { fn most(&self) -> [i64; 4] { [self.max(), self.min(), self.max_by(|a, b| (a & 7).cmp(&(b & 7)).then(a.cmp(b))), self.min_by(|a, b| (a & 7).cmp(&(b & 7)).then(a.cmp(b)))] } }
)* } }
most! { U1 U2 U3 U4 U7 U11 U16 U25 U32 }

fn cofactors<N: ArrayLen<f64> + ArrayLen<Vector<f64, N>>>(c: &mut Case) -> R where Matrix<f64, N, N>: Cofactor<Output = f64> {
    let n = <N as Unsigned>::to_usize();
    let a: Matrix<f64, N, N> = Matrix::generate(|_| if c.bool() { c.small(3) as f64 } else { c.float() });
    op(c, "cofactor", &mut |c| { let p = (c.index(n), c.index(n)); let x = a.cofactor(p); outs(c, &[x]) });
    op(c, "cofactor outside", &mut |c| { let p = if c.bool() { (n, c.index(n)) } else { (c.index(n), n + c.index(2)) }; let x = a.cofactor(p); outs(c, &[x]) });
    c.nontrivial_if(n > 2);
    c.note(|| format!("{:?}", a));
    Ok(())
}
fn geometry(c: &mut Case) -> R {
    use num::Complex;
    let (a, b): (Vector<f64, U3>, Vector<f64, U3>) = (Vector::generate(|_| c.float()), Vector::generate(|_| c.float()));
    let v: Vector<f64, U4> = Vector::generate(|_| c.float());
    op(c, "cross", &mut |c| outs(c, a.cross(&b).as_slice()));
    op(c, "norm", &mut |c| outs(c, &[a.norm(), v.norm()]));
    op(c, "normalize", &mut |c| { outs(c, a.normalized().as_slice()); outs(c, v.normalized().as_slice()) });
    op(c, "complex", &mut |c| { let m: Matrix<Complex<f64>, U2, U3> = Matrix::generate(|_| Complex::new(c.float(), c.float())); let k = m.conjugate(); for row in k.rows_iter_ref() { for z in row { outs(c, &[z.re, z.im]) } } });
    op(c, "diag", &mut |c| { let m = Matrix::<f64, U2, U4>::diag([c.float(), c.float()]); outm(c, m) });
    op(c, "near", &mut |c| { use approx::ApproxEq; let x: Matrix<f64, U2, U2> = Matrix::generate(|_| c.float()); let mut w = x.clone(); if c.bool() { w[(1, 0)] = w[(1, 0)] + 1e-9 } c.out(x.relative_eq(&w, 1e-6, 1e-6) as u64 + 2 * x.ulps_eq(&w, 1e-12, 4) as u64) });
    op(c, "reshape", &mut |c| { let w: Vector<f64, U6> = Vector::generate(|_| c.float()); outm(c, Matrix::<f64, U2, U3>::from(w)) });
    op(c, "literals", &mut |c| { let w = rowcol::vector![c.float(), c.float()]; outs(c, w.as_slice()); let m = rowcol::matrix![[c.float(), c.float()], [1.0, 2.0]]; outm(c, m) });
    c.nontrivial();
    c.note(|| format!("{:?} {:?} {:?}", a, b, v));
    Ok(())
}

#[cfg(feature = "std")]
mod display {
    use super::*;
    /// Plain ASCII texts, also of several lines; with unicode-width also wide ones.
    #[derive(Clone, Debug, PartialEq)]
    pub struct Txt(String);
    impl fmt::Display for Txt { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str(&self.0) } }
    fn text(c: &mut Case, wide: bool) -> Txt {
        let n = c.index(4);
        let words: &[&str] = if wide { &["\u{6f22}\u{5b57}", "e\u{301}", "\u{200b}", "x"] } else { &["1", "-42", "3.25", "a b", "hello", "~", "{}", "0"] };
        let one = |c: &mut Case| { let k = c.index(3); (0..k).map(|_| *c.pick(words)).collect::<String>() };
        Txt(if n < 3 { one(c) } else { (0..2).map(|_| one(c) + "|").collect::<Vec<_>>().join("\n") })
    }
    pub fn texts<const WIDE: bool, Ro, Co>(c: &mut Case) -> R
    where Ro: ArrayLen<Vector<Txt, Co>> + ArrayLen<usize>, Co: ArrayLen<Txt> + ArrayLen<usize>, Matrix<Txt, Ro, Co>: fmt::Display {
        let m: Matrix<Txt, Ro, Co> = Matrix::generate(|_| text(c, WIDE));
        op(c, "display", &mut |c| { let s = format!("{}", m); c.out_str(&s) });
        c.nontrivial_if(<Ro as Unsigned>::to_usize() * <Co as Unsigned>::to_usize() > 1);
        c.note(|| format!("{}", m));
        Ok(())
    }
    pub fn ascii<Ro, Co>(c: &mut Case) -> R
    where Ro: ArrayLen<Vector<Txt, Co>> + ArrayLen<usize>, Co: ArrayLen<Txt> + ArrayLen<usize>, Matrix<Txt, Ro, Co>: fmt::Display { texts::<false, Ro, Co>(c) }
    #[cfg(feature = "unicode_width")]
    pub fn wide<Ro, Co>(c: &mut Case) -> R
    where Ro: ArrayLen<Vector<Txt, Co>> + ArrayLen<usize>, Co: ArrayLen<Txt> + ArrayLen<usize>, Matrix<Txt, Ro, Co>: fmt::Display { texts::<true, Ro, Co>(c) }
    pub fn numbers<Ro, Co>(c: &mut Case) -> R
    where Ro: ArrayLen<Vector<f64, Co>> + ArrayLen<usize>, Co: ArrayLen<f64> + ArrayLen<usize>, Matrix<f64, Ro, Co>: fmt::Display {
        let m: Matrix<f64, Ro, Co> = Matrix::generate(|_| c.small(1000) as f64 / 8.0);
        op(c, "display", &mut |c| { let s = format!("{} {:.2}", m, m); c.out_str(&s) });
        c.note(|| format!("{}", m));
        Ok(())
    }
}

macro_rules! lens { ($($f:ident)::+) => { &[
    ("0", $($f)::+::<U0> as kit::runner::UnitFn), ("1", $($f)::+::<U1>), ("2", $($f)::+::<U2>), ("3", $($f)::+::<U3>), ("5", $($f)::+::<U5>), ("8", $($f)::+::<U8>), ("17", $($f)::+::<U17>), ("32", $($f)::+::<U32>)] } }
use on_i64::numbers as numbers_i64;
macro_rules! all_lens { ($f:ident $($n:ident)*) => { &[$((stringify!($n), $f::<$n> as kit::runner::UnitFn)),*] } }
macro_rules! shapes { ($($f:ident)::+) => { &[
    ("0x0", $($f)::+::<U0, U0> as kit::runner::UnitFn), ("0x3", $($f)::+::<U0, U3>), ("2x0", $($f)::+::<U2, U0>), ("1x1", $($f)::+::<U1, U1>), ("1x4", $($f)::+::<U1, U4>),
    ("2x3", $($f)::+::<U2, U3>), ("3x2", $($f)::+::<U3, U2>), ("4x1", $($f)::+::<U4, U1>), ("3x3", $($f)::+::<U3, U3>), ("7x5", $($f)::+::<U7, U5>), ("9x11", $($f)::+::<U9, U11>)] } }
macro_rules! squares { ($($f:ident)::+) => { &[
    ("1", $($f)::+::<U1> as kit::runner::UnitFn), ("2", $($f)::+::<U2>), ("3", $($f)::+::<U3>), ("4", $($f)::+::<U4>), ("5", $($f)::+::<U5>), ("7", $($f)::+::<U7>)] } }

fn main() {
    let mut u = Units::default();
    u.add_all("histories", 300, lens!(history));
    u.add("chunks 6 by 2", 100, blocks::<U6, U2>);
    u.add("chunks 5 by 5", 100, blocks::<U5, U5>);
    u.add("chunks 12 by 3", 100, blocks::<U12, U3>);
    u.add_all("matrix histories", 200, shapes!(grid_history));
    u.add_all("tracked arithmetic", 100, &[("0", arithmetic::<U0> as kit::runner::UnitFn), ("3", arithmetic::<U3>), ("8", arithmetic::<U8>)]);
    u.add_all("tracked matrices", 100, &[("2x3", matrix::<U2, U3> as kit::runner::UnitFn), ("0x2", matrix::<U0, U2>), ("4x4", matrix::<U4, U4>), ("1x19", matrix::<U1, U19>), ("18x2", matrix::<U18, U2>)]);
    u.add_all("tracked square matrices", 100, &[("1", square::<U1> as kit::runner::UnitFn), ("3", square::<U3>), ("6", square::<U6>)]);
    u.add_all("tracked linear algebra", 100, squares!(linear));
    u.add("tracked cofactors 4", 100, linear_cof::<U4>);
    u.add("tracked extremes 5", 100, extremes::<U5>);
    u.add("tracked cross product", 100, cross);
    u.add("tracked odds", 100, odds);
    u.add("tracked reshaping", 50, reshape::<U3, U4>);
    u.add_all("vectors f64", 200, lens!(on_f64::numbers));
    u.add_all("vectors i64", 30, all_lens!(numbers_i64 U1 U2 U4 U5 U6 U7 U8 U10 U11 U12 U13 U14 U15 U16 U17 U18 U19 U20 U21 U22 U23 U24 U25 U26 U27 U28 U29 U30 U31 U32));
    u.add_all("metric", 60, all_lens!(metric U0 U1 U2 U3 U4 U5 U6 U7 U8 U9 U10 U11 U12 U13 U14 U15 U16 U17 U18 U19 U20 U21 U22 U23 U24 U25 U26 U27 U28 U29 U30 U31 U32));
    u.add_all("order", 60, all_lens!(order U1 U2 U3 U4 U7 U11 U16 U25 U32));
    u.add_all("dominant", 30, all_lens!(dominant U5 U6 U8 U9 U11 U16 U20));
    u.add_all("larger matrices", 30, &[("32x1", on_i64::table::<U32, U1> as kit::runner::UnitFn), ("1x32", on_i64::table::<U1, U32>), ("17x20", on_i64::table::<U17, U20>), ("20x17", on_i64::table::<U20, U17>),
        ("3x24", on_i64::table::<U3, U24>), ("24x3", on_i64::table::<U24, U3>), ("6x5", on_i64::table::<U6, U5>), ("12x8", on_i64::table::<U12, U8>), ("16x16", on_i64::table::<U16, U16>), ("32x32", on_i64::table::<U32, U32>)]);
    u.add_all("vectors f32", 50, &[("4", on_f32::numbers::<U4> as kit::runner::UnitFn)]);
    u.add_all("vectors i64", 100, &[("3", on_i64::numbers::<U3> as kit::runner::UnitFn), ("9", on_i64::numbers::<U9>)]);
    u.add_all("matrices f64", 150, shapes!(on_f64::table));
    u.add_all("matrices i64", 100, &[("2x2", on_i64::table::<U2, U2> as kit::runner::UnitFn), ("3x4", on_i64::table::<U3, U4>)]);
    u.add_all("linear algebra f64", 200, squares!(floats::algebra));
    u.add_all("linear algebra f64", 30, &[("12", floats::algebra::<U12> as kit::runner::UnitFn)]);
    u.add_all("cofactors", 100, &[("2", cofactors::<U2> as kit::runner::UnitFn), ("3", cofactors::<U3>), ("4", cofactors::<U4>), ("6", cofactors::<U6>)]);
    u.add("geometry", 600, geometry);
    #[cfg(feature = "std")]
    {
        u.add_all("display ascii", 100, shapes!(display::ascii));
        u.add_all("display numbers", 30, &[("3x3", display::numbers::<U3, U3> as kit::runner::UnitFn), ("1x2", display::numbers::<U1, U2>)]);
        #[cfg(feature = "unicode_width")]
        u.add_all("display wide", 100, &[("2x2", display::wide::<U2, U2> as kit::runner::UnitFn), ("3x1", display::wide::<U3, U1>)]);
    }
    kit::main(u)
}
