use harness::*;
use kit::runner::UnitFn;
use kit::track::{self, Bare, Int, Payload, Ring, Tk};
use num::{Bounded, Complex, One, Zero};
use std::ops::{Add, Mul};

/// Every special value is different from every other one.
#[derive(Clone, Copy, Debug, PartialEq)]
struct Odd(i32);
impl Default for Odd { fn default() -> Odd { Odd(7) } }
impl Zero for Odd { fn zero() -> Odd { Odd(3) } fn is_zero(&self) -> bool { self.0 == 3 || self.0 == -3 } }
impl One for Odd { fn one() -> Odd { Odd(5) } }
impl Bounded for Odd { fn min_value() -> Odd { Odd(-9) } fn max_value() -> Odd { Odd(9) } }
impl Add for Odd { type Output = Odd; fn add(self, o: Odd) -> Odd { Odd(self.0.wrapping_add(o.0).wrapping_sub(3)) } }
impl Mul for Odd { type Output = Odd; fn mul(self, _: Odd) -> Odd { Odd(11) } }
impl Elem for Odd {
    type Key = i32;
    fn gen(c: &mut Case) -> Odd { Odd(*c.pick(&[7, 3, 5, -9, 9, 0, 1])) }
    fn key(&self) -> i32 { self.0 }
}

fn constant<K: Clone + PartialEq + std::fmt::Debug>(what: &str, got: Vec<Vec<K>>, (r, k): (usize, usize), want: K) -> R {
    ensure_eq!(got, vec![vec![want; k]; r], "{} of shape {}x{}", what, r, k);
    Ok(())
}
fn diagonal<K: Clone + PartialEq + std::fmt::Debug>(what: &str, got: Vec<Vec<K>>, (r, k): (usize, usize), d: &[K], zero: K) -> R {
    ensure_eq!(got, grid(r, k, &mut |i, j| if i == j { d[i].clone() } else { zero.clone() }), "{} of shape {}x{}", what, r, k);
    Ok(())
}

fn vec_consts<T: Elem + Zero + Bounded + Default, N: ArrayLen<T>>(_: &mut Case) -> R {
    let n = (1, N::to_usize());
    let one = |v: Vector<T, N>| vec![vkeys(&v)];
    constant("vector zero", one(Zero::zero()), n, T::zero().key())?;
    constant("vector min_value", one(Bounded::min_value()), n, T::min_value().key())?;
    constant("vector max_value", one(Bounded::max_value()), n, T::max_value().key())?;
    constant("vector default", one(Default::default()), n, T::default().key())
}
fn mat_consts<T: Elem + Zero + Bounded + Default, Ro: ArrayLen<Vector<T, Co>>, Co: ArrayLen<T>>(_: &mut Case) -> R {
    let d = (Ro::to_usize(), Co::to_usize());
    constant("matrix zero", mkeys(&Matrix::<T, Ro, Co>::zero()), d, T::zero().key())?;
    constant("matrix min_value", mkeys(&Matrix::<T, Ro, Co>::min_value()), d, T::min_value().key())?;
    constant("matrix max_value", mkeys(&Matrix::<T, Ro, Co>::max_value()), d, T::max_value().key())?;
    constant("matrix default", mkeys(&Matrix::<T, Ro, Co>::default()), d, T::default().key())
}
/// Any number of entries, anywhere, replaced by others that may or may not be zero themselves.
fn zero_pattern<T: Elem + Zero>(c: &mut Case, n: usize) -> (Vec<T>, bool) {
    let mut items: Vec<T> = list(n, &mut |_| T::zero());
    if n > 0 {
        for _ in 0..*c.pick(&[1, 0, 1, 2, 3]) {
            let i = c.index(n);
            items[i] = T::gen(c);
        }
    }
    let z = items.iter().all(|x| x.is_zero());
    c.label(if z { "zero" } else { "not zero" });
    c.nontrivial_if(n > 1 && !z);
    (items, z)
}
fn is_zero_judge(got: bool, want: bool, what: std::fmt::Arguments) -> R {
    ensure_eq!(got, want, "is_zero of {}", what);
    track::check()
}
fn vec_zero<T: Elem + Zero, N: ArrayLen<T>>(c: &mut Case) -> R {
    track::reset();
    let (items, z) = zero_pattern::<T>(c, N::to_usize());
    let v: Vector<T, N> = vof(items);
    is_zero_judge(v.is_zero(), z, format_args!("{:?}", v.as_slice()))
}
fn mat_zero<T: Elem + Zero, Ro: ArrayLen<Vector<T, Co>>, Co: ArrayLen<T>>(c: &mut Case) -> R {
    track::reset();
    let (r, k) = (Ro::to_usize(), Co::to_usize());
    let (mut items, z) = zero_pattern::<T>(c, r * k);
    let mut rows = Vec::new();
    for _ in 0..r { let rest = items.split_off(k); rows.push(items); items = rest; }
    let m: Matrix<T, Ro, Co> = mof(rows);
    is_zero_judge(m.is_zero(), z, format_args!("{:?}", mkeys(&m)))
}

fn ident<T: Elem + Zero + One, N: ArrayLen<T> + ArrayLen<Vector<T, N>>>(c: &mut Case) -> R {
    track::reset();
    let n = <N as typenum::Unsigned>::to_usize();
    let ones = vec![T::one().key(); n];
    diagonal("identity", mkeys(&Matrix::<T, N, N>::identity()), (n, n), &ones, T::zero().key())?;
    diagonal("one", mkeys(&<Matrix<T, N, N> as One>::one()), (n, n), &ones, T::zero().key())?;
    c.nontrivial_if(n > 1);
    track::check()
}

fn diag_unit<T: Elem + Zero, Ro: ArrayLen<Vector<T, Co>>, Co: ArrayLen<T>>(c: &mut Case, make: fn(Vec<T>) -> Matrix<T, Ro, Co>) -> R {
    track::reset();
    let d = (Ro::to_usize(), Co::to_usize());
    let items: Vec<T> = list(d.0.min(d.1), &mut |_| T::gen(c));
    let k = keys(&items);
    let m = make(items);
    c.nontrivial_if(k.len() > 1);
    c.note(|| format!("diag {:?} of shape {:?}", k, d));
    let z = T::zero().key();
    diagonal("diag", mkeys(&m), d, &k, z)?;
    drop(m);
    track::finish(false)
}
const fn min(a: usize, b: usize) -> usize { if a < b { a } else { b } }
fn arr<T, const K: usize>(v: Vec<T>) -> [T; K] { v.try_into().ok().expect("harness: wrong number of items") }
macro_rules! diag_for {
    ($t:ty; $r:ident, $c:ident; $rk:expr, $ck:expr) => {{
        fn f(c: &mut Case) -> R { diag_unit::<$t, $r, $c>(c, |v| Matrix::diag(arr::<_, { min($rk, $ck) }>(v))) }
        f as UnitFn
    }};
}
macro_rules! diag_tk { ($r:ident, $c:ident; $rk:expr, $ck:expr) => { diag_for!(Tk<Int>; $r, $c; $rk, $ck) }; }
macro_rules! diag_odd { ($r:ident, $c:ident; $rk:expr, $ck:expr) => { diag_for!(Odd; $r, $c; $rk, $ck) }; }
macro_rules! diag_f64 { ($r:ident, $c:ident; $rk:expr, $ck:expr) => { diag_for!(f64; $r, $c; $rk, $ck) }; }

type G = Vec<Vec<Ring>>;
fn mul(a: &G, b: &G) -> G {
    let n = a.len();
    grid(n, n, &mut |i, j| (0..n).fold(Ring([0; 4]), |s, k| Ring::add(s, Ring::mul(a[i][k], b[k][j]))))
}
fn power(a: &G, e: usize) -> G {
    let n = a.len();
    let mut r = grid(n, n, &mut |i, j| if i == j { Ring([1, 0, 0, 1]) } else { Ring([0; 4]) });
    if e <= 12 {
        for _ in 0..e { r = mul(&r, a) }
    } else {
        // left to right binary
        for b in (0..usize::BITS).rev() {
            r = mul(&r, &r);
            if e >> b & 1 == 1 { r = mul(&r, a) }
        }
    }
    r
}
fn pow<T: Elem<Key = Ring> + Zero + One, N: ArrayLen<T> + ArrayLen<Vector<T, N>>>(c: &mut Case) -> R {
    track::reset();
    let n = <N as typenum::Unsigned>::to_usize();
    let items = gen_grid::<T>(c, n, n);
    let k = grid_keys(&items);
    let m: Matrix<T, N, N> = mof(items);
    let e = if n <= 4 {
        match c.below(4) {
            0 => c.index(6),
            1 => c.index(40),
            2 => *c.pick(&[64, 255, 256, 65535, 1 << 32, usize::MAX, usize::MAX / 2 + 1]),
            _ => c.full() as usize >> c.below(60),
        }
    } else { c.index(if n <= 12 { 10 } else { 5 }) };
    let p = m.pow(e);
    c.nontrivial_if(n > 1 && e > 1);
    c.note(|| format!("{:?} to the {}", k, e));
    ensure_eq!(mkeys(&p), power(&k, e), "{:?} to the power {}", k, e);
    ensure_eq!(mkeys(&m), k, "the base of a power afterwards");
    track::check()
}

trait Part: Clone + PartialEq + std::fmt::Debug + num::Num + std::ops::Neg<Output = Self> + 'static {
    fn part(c: &mut Case) -> Self;
    fn seen(&self) -> u64;
}
impl Part for i32 { fn part(c: &mut Case) -> i32 { (c.int() as i32).max(-i32::MAX) } fn seen(&self) -> u64 { *self as u64 } }
impl Part for f64 { fn part(c: &mut Case) -> f64 { c.float() } fn seen(&self) -> u64 { if self.is_nan() { 1 } else { self.to_bits() } } }
impl Part for num::BigInt { fn part(c: &mut Case) -> num::BigInt { c.int().into() } fn seen(&self) -> u64 { use num::ToPrimitive; self.to_i64().map_or(1, |x| x as u64) } }
fn conj<P: Part, Ro: ArrayLen<Vector<Complex<P>, Co>>, Co: ArrayLen<Complex<P>>>(c: &mut Case) -> R {
    let (r, k) = (Ro::to_usize(), Co::to_usize());
    let items = grid(r, k, &mut |_, _| Complex::new(P::part(c), P::part(c)));
    let m: Matrix<Complex<P>, Ro, Co> = mof(items.clone());
    let g = m.conjugate();
    conj_judge(c, r, k, &items, grid(r, k, &mut |i, j| g[(i, j)].clone()), grid(r, k, &mut |i, j| m[(i, j)].clone()))
}
fn conj_judge<P: Part>(c: &mut Case, r: usize, k: usize, items: &[Vec<Complex<P>>], got: Vec<Vec<Complex<P>>>, after: Vec<Vec<Complex<P>>>) -> R {
    let obs = |g: &[Vec<Complex<P>>]| -> Vec<Vec<(u64, u64)>> { g.iter().map(|r| r.iter().map(|x| (x.re.seen(), x.im.seen())).collect()).collect() };
    let want: Vec<Vec<(u64, u64)>> = items.iter().map(|r| r.iter().map(|x| (x.re.seen(), (-x.im.clone()).seen())).collect()).collect();
    c.nontrivial_if(r * k > 1);
    c.note(|| format!("conjugate of {:?}", items));
    ensure_eq!(obs(&got), want, "conjugate of {:?}", items);
    ensure_eq!(obs(&after), obs(items), "original after conjugate of {:?}", items);
    Ok(())
}

fn main() {
    type E = Tk<Int>;
    type B = Bare<Ring>;
    let mut u = Units::default();
    u.add_all("constants of vectors", 2, kit::dims_n!(vec_consts, Odd));
    u.add_all("constants of vectors u8", 2, kit::dims_n!(vec_consts, u8));
    u.add_all("constants of vectors f64", 2, kit::dims_few!(vec_consts, f64));
    u.add_all("constants of matrices", 2, dims_shapes!(mat_consts, Odd));
    u.add_all("constants of matrices i64", 2, kit::dims_small_pairs!(mat_consts, i64));
    u.add_all("constants of matrices f32", 2, kit::dims_small_pairs!(mat_consts, f32));
    u.add_all("vector is_zero", 60, kit::dims_n!(vec_zero, E));
    u.add_all("vector is_zero f64", 40, kit::dims_n!(vec_zero, f64));
    u.add_all("vector is_zero odd", 40, kit::dims_few!(vec_zero, Odd));
    u.add_all("matrix is_zero", 40, dims_shapes!(mat_zero, Odd));
    u.add_all("matrix is_zero f64", 40, kit::dims_few_pairs!(mat_zero, f64));
    u.add_all("matrix is_zero tracked", 40, kit::dims_small_pairs!(mat_zero, E));
    u.add_all("identity", 2, kit::dims_n!(ident, Odd));
    u.add_all("identity f32", 2, kit::dims_n!(ident, f32));
    u.add_all("identity tracked", 2, kit::dims_n!(ident, E));
    u.add_all("diag", 20, cb_shapes!(diag_tk));
    u.add_all("diag odd", 10, kit::cb_few_pairs!(diag_odd));
    u.add_all("diag f64", 10, kit::cb_few_pairs!(diag_f64));
    u.add_all("pow", 30, kit::dims_n!(pow, B));
    u.add_all("pow tracked", 30, kit::dims_small!(pow, Tk<Ring>));
    u.add_all("conjugate i32", 30, kit::dims_few_pairs!(conj, i32));
    u.add_all("conjugate f64", 30, kit::dims_small_pairs!(conj, f64));
    u.add_all("conjugate BigInt", 30, kit::dims_small_pairs!(conj, num::BigInt));
    kit::main(u)
}
