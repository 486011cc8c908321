use harness::*;
use kit::fp::{self, Field, F101, F3, F61, F7, Mat};
use kit::track::Tk;
use num::{BigInt, BigRational, Complex, Num, Signed};
use rowcol::matrix::{Cofactor, Determinant};
use std::fmt::Debug;

/// Entries as the library sees them, and as the reference computes with them.
trait Entry: Clone + 'static {
    type F: Field + Debug;
    fn make(f: &Self::F) -> Self;
    fn field(&self) -> Self::F;
    fn gen(c: &mut Case) -> Self::F;
}
macro_rules! fields { ($($t:ty)*) => { $(
    impl Entry for $t { type F = $t; fn make(f: &$t) -> $t { *f } fn field(&self) -> $t { *self } fn gen(c: &mut Case) -> $t { <$t>::gen(c) } }
    impl Entry for Tk<$t> { type F = $t; fn make(f: &$t) -> Tk<$t> { Tk::new(*f) } fn field(&self) -> $t { self.get() } fn gen(c: &mut Case) -> $t { <$t>::gen(c) } }
)* } }
fields! { F3 F7 F101 F61 }
fn rational(c: &mut Case) -> BigRational {
    BigRational::new(BigInt::from(c.small(9)), BigInt::from(if c.bool() { 1 } else { 1 + c.below(6) as i64 }))
}
impl Entry for BigRational {
    type F = BigRational;
    fn make(f: &BigRational) -> BigRational { f.clone() }
    fn field(&self) -> BigRational { self.clone() }
    fn gen(c: &mut Case) -> BigRational { rational(c) }
}
impl Entry for Complex<BigRational> {
    type F = Complex<BigRational>;
    fn make(f: &Self) -> Self { f.clone() }
    fn field(&self) -> Self { self.clone() }
    fn gen(c: &mut Case) -> Self { Complex::new(rational(c), rational(c)) }
}
#[allow(dead_code)]
fn bounds<T: Num + Signed>() {}

fn judge<F: Field + Debug>(c: &mut Case, m: &Mat<F>, got: F) -> R {
    let want = fp::det(m);
    c.label(if want.is_zero() { "det 0" } else { "det not 0" });
    c.nontrivial_if(m.len() > 1);
    c.note(|| format!("determinant of {:?} is {:?}", m, want));
    ensure_eq!(got, want, "determinant of {:?}", m);
    Ok(())
}
fn prepare<T: Entry>(c: &mut Case, n: usize) -> (Mat<T::F>, Vec<Vec<T>>) {
    let m = fp::gen_square(c, n, &mut |c| T::gen(c));
    let items = m.iter().map(|r| r.iter().map(T::make).collect()).collect();
    (m, items)
}

fn unit<T: Entry, N: ArrayLen<T> + ArrayLen<Vector<T, N>>>(c: &mut Case) -> R
where Matrix<T, N, N>: Determinant<Output = T> {
    let n = <N as typenum::Unsigned>::to_usize();
    let (m, items) = prepare::<T>(c, n);
    let mat: Matrix<T, N, N> = mof(items);
    let got = mat.determinant().field();
    judge(c, &m, got)?;
    unchanged(&m, &grid(n, n, &mut |i, j| mat[(i, j)].field()))
}
fn unchanged<F: Field + Debug>(m: &Mat<F>, after: &Mat<F>) -> R {
    ensure_eq!(after, m, "the matrix after computing its determinant");
    Ok(())
}

fn main() {
    let mut u = Units::default();
    u.add_all("Z/7", 800, kit::dims_det_small!(unit, F7));
    u.add_all("Z/3", 800, kit::dims_det_small!(unit, F3));
    u.add_all("Z/101", 400, kit::dims_det_small!(unit, F101));
    u.add_all("Z/(2^61-1)", 400, kit::dims_det_small!(unit, F61));
    u.add_all("Z/(2^61-1), size 8..=16", 60, kit::dims_det_mid!(unit, F61));
    u.add_all("Z/7, size 8..=16", 60, kit::dims_det_mid!(unit, F7));
    u.add_all("Z/7, size 17..=32", 20, kit::dims_det_big!(unit, F7));
    u.add_all("Z/(2^61-1), size 17..=32", 20, kit::dims_det_big!(unit, F61));
    u.add_all("rationals", 100, kit::dims_det_six!(unit, BigRational));
    u.add_all("tracked Z/7", 100, kit::dims_det_six!(unit, Tk<F7>));
    u.add_all("complex rationals", 200, kit::dims_det_three!(unit, Complex<BigRational>));
    kit::main(u)
}
