use harness::*;
use kit::fp::{self, Field, F101, F3, F61, F7, Mat};
use kit::track::Tk;
use num::{BigInt, BigRational, Complex, Num};
use rowcol::matrix::Inverse;
use std::fmt::Debug;

trait Entry: Clone + 'static {
    type F: Field + Debug;
    fn make(f: &Self::F) -> Self;
    fn field(&self) -> Self::F;
    fn gen(c: &mut Case) -> Self::F;
}
macro_rules! fields { ($($t:ty)*) => { $(
    impl Entry for $t { type F = $t; fn make(f: &$t) -> $t { *f } fn field(&self) -> $t { *self } fn gen(c: &mut Case) -> $t { <$t>::gen(c) } }
    impl Entry for Tk<$t> { type F = $t; fn make(f: &$t) -> Tk<$t> { Tk::new(*f) } fn field(&self) -> $t { self.get() } fn gen(c: &mut Case) -> $t { <$t>::gen(c) } }
)* } }
fields! { F3 F7 F101 F61 }
fn rational(c: &mut Case) -> BigRational {
    BigRational::new(BigInt::from(c.small(9)), BigInt::from(if c.bool() { 1 } else { 1 + c.below(6) as i64 }))
}
impl Entry for BigRational {
    type F = BigRational;
    fn make(f: &BigRational) -> BigRational { f.clone() }
    fn field(&self) -> BigRational { self.clone() }
    fn gen(c: &mut Case) -> BigRational { rational(c) }
}
impl Entry for Complex<BigRational> {
    type F = Complex<BigRational>;
    fn make(f: &Self) -> Self { f.clone() }
    fn field(&self) -> Self { self.clone() }
    fn gen(c: &mut Case) -> Self { Complex::new(rational(c), rational(c)) }
}
#[allow(dead_code)]
fn bounds<T: Num>() {}

fn judge<F: Field + Debug>(c: &mut Case, m: &Mat<F>, got: Option<Mat<F>>, after: Mat<F>) -> R {
    let n = m.len();
    let d = fp::det(m);
    c.label(if d.is_zero() { "singular" } else { "invertible" });
    c.nontrivial_if(n > 1);
    c.note(|| format!("inverse of {:?}", m));
    ensure_eq!(after, *m, "the matrix after computing its inverse");
    match got {
        None => ensure!(d.is_zero(), "no inverse of {:?} although its determinant is {:?}", m, d),
        Some(inv) => {
            ensure!(!d.is_zero(), "an inverse {:?} of the singular {:?}", inv, m);
            ensure_eq!(fp::matmul(m, &inv, n), fp::identity::<F>(n), "m times its inverse {:?}, m = {:?}", inv, m);
            ensure_eq!(fp::matmul(&inv, m, n), fp::identity::<F>(n), "the inverse {:?} times m, m = {:?}", inv, m);
        }
    }
    Ok(())
}

fn unit<T: Entry, N: ArrayLen<T> + ArrayLen<Vector<T, N>>>(c: &mut Case) -> R
where Matrix<T, N, N>: Inverse<Output = Matrix<T, N, N>> {
    let n = <N as typenum::Unsigned>::to_usize();
    let m = fp::gen_square(c, n, &mut |c| T::gen(c));
    let mat: Matrix<T, N, N> = mof(m.iter().map(|r| r.iter().map(T::make).collect()).collect());
    let got = mat.inverse().map(|i| grid(n, n, &mut |a, b| i[(a, b)].field()));
    judge(c, &m, got, grid(n, n, &mut |i, j| mat[(i, j)].field()))
}

fn main() {
    let mut u = Units::default();
    u.add_all("Z/7", 400, kit::dims_det!(unit, F7));
    u.add_all("Z/3", 400, kit::dims_det_small!(unit, F3));
    u.add_all("Z/101", 200, kit::dims_det_small!(unit, F101));
    u.add_all("Z/(2^61-1)", 60, kit::dims_det!(unit, F61));
    u.add_all("rationals", 80, kit::dims_det_six!(unit, BigRational));
    u.add_all("tracked Z/7", 80, kit::dims_det_six!(unit, Tk<F7>));
    u.add_all("complex rationals", 150, kit::dims_det_three!(unit, Complex<BigRational>));
    kit::main(u)
}
