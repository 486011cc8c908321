//! Exact fields and reference linear algebra over plain `Vec`s.
use crate::case::Case;
use crate::track::{Op, Payload};
use num::{One, Zero};
use std::fmt;
use std::ops::*;

/// The prime field Z/P.
#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Fp<const P: u64>(pub u64);

pub const BIG: u64 = (1 << 61) - 1;
pub type F61 = Fp<BIG>;
pub type F3 = Fp<3>;
pub type F7 = Fp<7>;
pub type F101 = Fp<101>;

impl<const P: u64> Fp<P> {
    pub fn new(v: u64) -> Self { Fp(v % P) }
    pub fn int(v: i64) -> Self { Fp((v as i128).rem_euclid(P as i128) as u64) }
    pub fn pow(self, mut e: u64) -> Self {
        let (mut b, mut r) = (self, Fp::new(1));
        while e > 0 {
            if e & 1 == 1 { r = r * b; }
            b = b * b;
            e >>= 1;
        }
        r
    }
    pub fn inv(self) -> Self { self.pow(P - 2) }
    pub fn gen(c: &mut Case) -> Self {
        if P < 1000 { Fp(c.below(P)) } else if c.bool() { Fp::int(c.small(4)) } else { Fp::new(c.full()) }
    }
}
impl<const P: u64> fmt::Debug for Fp<P> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { write!(f, "{}", self.0) }
}
impl<const P: u64> Add for Fp<P> { type Output = Self; fn add(self, o: Self) -> Self { let s = self.0 as u128 + o.0 as u128; Fp((s % P as u128) as u64) } }
impl<const P: u64> Sub for Fp<P> { type Output = Self; fn sub(self, o: Self) -> Self { let s = self.0 as u128 + P as u128 - o.0 as u128; Fp((s % P as u128) as u64) } }
impl<const P: u64> Mul for Fp<P> { type Output = Self; fn mul(self, o: Self) -> Self { Fp((self.0 as u128 * o.0 as u128 % P as u128) as u64) } }
impl<const P: u64> Div for Fp<P> {
    type Output = Self;
    fn div(self, o: Self) -> Self {
        if o.0 == 0 { panic!("division by zero in a field") }
        self * o.inv()
    }
}
impl<const P: u64> Rem for Fp<P> { type Output = Self; fn rem(self, _: Self) -> Self { Fp(0) } }
impl<const P: u64> Neg for Fp<P> { type Output = Self; fn neg(self) -> Self { Fp(0) - self } }
impl<const P: u64> Zero for Fp<P> { fn zero() -> Self { Fp(0) } fn is_zero(&self) -> bool { self.0 == 0 } }
impl<const P: u64> One for Fp<P> { fn one() -> Self { Fp(1 % P) } }
impl<const P: u64> num::Num for Fp<P> {
    type FromStrRadixErr = ();
    fn from_str_radix(_: &str, _: u32) -> Result<Self, ()> { Err(()) }
}
// a field has no order; these only satisfy the bounds
impl<const P: u64> num::Signed for Fp<P> {
    fn abs(&self) -> Self { *self }
    fn abs_sub(&self, o: &Self) -> Self { *self - *o }
    fn signum(&self) -> Self { if self.0 == 0 { Fp(0) } else { Fp(1) } }
    fn is_positive(&self) -> bool { self.0 != 0 }
    fn is_negative(&self) -> bool { false }
}
impl<const P: u64> num::Bounded for Fp<P> {
    fn min_value() -> Self { Fp(0) }
    fn max_value() -> Self { Fp(P - 1) }
}
impl<const P: u64> Payload for Fp<P> {
    fn bin(op: Op, a: Self, b: Self) -> Self {
        match op { Op::Add => a + b, Op::Sub => a - b, Op::Mul => a * b, Op::Div => a / b }
    }
    fn neg(a: Self) -> Self { -a }
    fn zero() -> Self { Fp(0) }
    fn one() -> Self { Fp(1) }
    fn gen(c: &mut Case) -> Self { Fp::gen(c) }
}

pub type Mat<T> = Vec<Vec<T>>;

pub trait Field: Clone + PartialEq + Zero + One + Add<Output = Self> + Sub<Output = Self> + Mul<Output = Self> + Div<Output = Self> + Neg<Output = Self> {}
impl<T> Field for T where T: Clone + PartialEq + Zero + One + Add<Output = T> + Sub<Output = T> + Mul<Output = T> + Div<Output = T> + Neg<Output = T> {}

/// Determinant by elimination with row exchanges.
pub fn det<T: Field>(m: &Mat<T>) -> T {
    let n = m.len();
    let mut a = m.clone();
    let mut d = T::one();
    for i in 0..n {
        let p = match (i..n).find(|&r| !a[r][i].is_zero()) { Some(p) => p, None => return T::zero() };
        if p != i {
            a.swap(p, i);
            d = -d;
        }
        d = d * a[i][i].clone();
        let inv = T::one() / a[i][i].clone();
        for r in i + 1..n {
            if a[r][i].is_zero() { continue; }
            let f = a[r][i].clone() * inv.clone();
            for k in i..n {
                let s = a[i][k].clone() * f.clone();
                a[r][k] = a[r][k].clone() - s;
            }
        }
    }
    d
}

pub fn matmul<T: Clone + Zero + Add<Output = T> + Mul<Output = T>>(a: &Mat<T>, b: &Mat<T>, cols: usize) -> Mat<T> {
    a.iter().map(|r| (0..cols).map(|j| {
        let mut s = T::zero();
        for (k, x) in r.iter().enumerate() { s = s + x.clone() * b[k][j].clone(); }
        s
    }).collect()).collect()
}

pub fn minor<T: Clone>(m: &Mat<T>, i: usize, j: usize) -> Mat<T> {
    m.iter().enumerate().filter(|&(r, _)| r != i)
        .map(|(_, row)| row.iter().enumerate().filter(|&(c, _)| c != j).map(|(_, v)| v.clone()).collect()).collect()
}

pub fn identity<T: Zero + One + Clone>(n: usize) -> Mat<T> {
    (0..n).map(|i| (0..n).map(|j| if i == j { T::one() } else { T::zero() }).collect()).collect()
}

/// Square matrices whose elimination runs into every kind of situation.
pub fn gen_square<T: Field>(c: &mut Case, n: usize, g: &mut dyn FnMut(&mut Case) -> T) -> Mat<T> {
    fn nonzero<T: Field>(c: &mut Case, g: &mut dyn FnMut(&mut Case) -> T) -> T {
        for _ in 0..4 {
            let x = g(c);
            if !x.is_zero() { return x }
        }
        T::one()
    }
    // rows[at] = combination, with non-zero coefficients, of the others listed, in the first `cols` columns
    fn combine<T: Field>(c: &mut Case, m: &mut Mat<T>, at: usize, from: &[usize], cols: usize, g: &mut dyn FnMut(&mut Case) -> T) {
        for k in 0..cols { m[at][k] = T::zero() }
        for &r in from {
            let f = nonzero(c, g);
            for k in 0..cols { m[at][k] = m[at][k].clone() + m[r][k].clone() * f.clone() }
        }
    }
    let kind = c.below(14);
    let mut m: Mat<T> = if kind < 10 {
        (0..n).map(|_| (0..n).map(|_| nonzero(c, g)).collect()).collect()
    } else {
        vec![vec![T::zero(); n]; n]
    };
    match kind {
        0 => { c.label("dense"); }
        // a leading block is singular: zero pivot at that step, matrix usually invertible
        1 => if n > 1 { let k = 1 + c.index(n - 1); let from: Vec<usize> = (0..k - 1).collect(); combine(c, &mut m, k - 1, &from, k, g); c.label("singular leading block"); },
        // rank n - 1, the last row depends on all others
        2 => { let from: Vec<usize> = (0..n - 1).collect(); combine(c, &mut m, n - 1, &from, n, g); c.label("rank n-1"); }
        3 => if n > 2 { let at = n - 2; let from: Vec<usize> = (0..at).collect(); combine(c, &mut m, at, &from, n, g); c.label("rank n-1"); },
        // triangular with a non-zero diagonal
        4 => {
            let lower = c.bool();
            for i in 0..n { for j in 0..n { if i != j && (j > i) == lower { m[i][j] = T::zero() } } }
            c.label("triangular");
        }
        // one zero anywhere
        5 => { let (i, j) = (c.index(n), c.index(n)); m[i][j] = T::zero(); c.label("one zero"); }
        // two leading blocks singular
        6 => if n > 2 {
            let a = 1 + c.index(n - 1);
            let from: Vec<usize> = (0..a - 1).collect();
            combine(c, &mut m, a - 1, &from, a, g);
            let b = 1 + c.index(n - 1);
            let from: Vec<usize> = (0..b - 1).collect();
            combine(c, &mut m, b - 1, &from, b, g);
            c.label("two singular leading blocks");
        },
        // any row depends on any others
        7 => {
            let at = c.index(n);
            let from: Vec<usize> = (0..n).filter(|&r| r != at && c.bool()).collect();
            combine(c, &mut m, at, &from, n, g);
            c.label("dependent row");
        }
        // any number of zeros
        8 => {
            let p = 1 + c.below(9);
            for i in 0..n { for j in 0..n { if c.below(10) < p { m[i][j] = T::zero() } } }
            c.label("sparse");
        }
        // a column depends on others
        9 => {
            let at = c.index(n);
            for i in 0..n { m[i][at] = T::zero() }
            if n > 1 {
                let (a, f) = (c.index(n), g(c));
                if a != at { for i in 0..n { m[i][at] = m[i][a].clone() * f.clone() } }
            }
            c.label("dependent column");
        }
        // generalised permutation
        10 | 11 => {
            let mut p: Vec<usize> = (0..n).collect();
            for i in (1..n).rev() { let j = c.index(i + 1); p.swap(i, j) }
            for i in 0..n { m[i][p[i]] = nonzero(c, g) }
            if kind == 11 { let (i, j) = (c.index(n), c.index(n)); m[i][j] = g(c); }
            c.label("permutation");
        }
        // a product of low rank factors
        12 => {
            let rank = c.index(n + 1);
            let l: Mat<T> = (0..n).map(|_| (0..rank).map(|_| g(c)).collect()).collect();
            let r: Mat<T> = (0..rank).map(|_| (0..n).map(|_| g(c)).collect()).collect();
            m = matmul(&l, &r, n);
            c.label("low rank");
        }
        // block diagonal of random blocks, perhaps anti-diagonal
        _ => {
            let s = c.index(n + 1);
            for i in 0..n { for j in 0..n { if (i < s) == (j < s) { m[i][j] = g(c) } } }
            if c.bool() { m.reverse(); }
            c.label("blocks");
        }
    }
    m
}
