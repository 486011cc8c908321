use harness::*;
use kit::fp::{self, Field, F101, F3, F61, F7, Mat};
use kit::track::Tk;
use num::{BigInt, BigRational, Signed, Zero};
use rowcol::matrix::Cofactor;
use std::fmt::Debug;

trait Entry: Clone + Signed + 'static {
    type F: Field + Debug;
    fn make(f: &Self::F) -> Self;
    fn field(&self) -> Self::F;
    fn gen(c: &mut Case) -> Self::F;
}
macro_rules! fields { ($($t:ty)*) => { $(
    impl Entry for $t { type F = $t; fn make(f: &$t) -> $t { *f } fn field(&self) -> $t { *self } fn gen(c: &mut Case) -> $t { <$t>::gen(c) } }
    impl Entry for Tk<$t> { type F = $t; fn make(f: &$t) -> Tk<$t> { Tk::new(*f) } fn field(&self) -> $t { self.get() } fn gen(c: &mut Case) -> $t { <$t>::gen(c) } }
)* } }
fields! { F3 F7 F101 F61 }
impl Entry for BigRational {
    type F = BigRational;
    fn make(f: &BigRational) -> BigRational { f.clone() }
    fn field(&self) -> BigRational { self.clone() }
    fn gen(c: &mut Case) -> BigRational { BigRational::new(BigInt::from(c.small(9)), BigInt::from(if c.bool() { 1 } else { 1 + c.below(6) as i64 })) }
}

fn want<F: Field>(m: &Mat<F>, i: usize, j: usize) -> F {
    let d = fp::det(&fp::minor(m, i, j));
    if (i + j) % 2 == 0 { d } else { -d }
}
fn judge<F: Field + Debug>(c: &mut Case, m: &Mat<F>, (i, j): (usize, usize), got: F) -> R {
    c.nontrivial_if(m.len() > 2);
    c.note(|| format!("cofactor {:?} of {:?}", (i, j), m));
    ensure_eq!(got, want(m, i, j), "cofactor {:?} of {:?}", (i, j), m);
    Ok(())
}
/// The expansions along every row and column, from all cofactors.
fn expansions<F: Field + Debug>(m: &Mat<F>, cof: &Mat<F>) -> R {
    let n = m.len();
    let d = fp::det(m);
    for a in 0..n {
        for b in 0..n {
            let expect = if a == b { d.clone() } else { F::zero() };
            let row = (0..n).fold(F::zero(), |s, k| s + m[a][k].clone() * cof[b][k].clone());
            ensure_eq!(row, expect, "row {} of {:?} expanded with the cofactors of row {}", a, m, b);
            let col = (0..n).fold(F::zero(), |s, k| s + m[k][a].clone() * cof[k][b].clone());
            ensure_eq!(col, expect, "column {} of {:?} expanded with the cofactors of column {}", a, m, b);
        }
    }
    Ok(())
}
fn outside(c: &mut Case, n: usize) -> usize {
    match c.below(5) {
        0 => n,
        1 => n + 1 + c.index(40),
        2 => *c.pick(&[usize::MAX, usize::MAX - 1, 1 << 63, (1 << 63) + 1, 1 << 32, 256]),
        3 => (1usize << 63) + c.index(3),
        _ => n + c.index(3),
    }
}

fn unit<T: Entry, N: ArrayLen<T> + ArrayLen<Vector<T, N>>>(c: &mut Case) -> R
where Matrix<T, N, N>: Cofactor<Output = T> {
    let n = <N as typenum::Unsigned>::to_usize();
    let m = fp::gen_square(c, n, &mut |c| T::gen(c));
    let mat: Matrix<T, N, N> = mof(m.iter().map(|r| r.iter().map(T::make).collect()).collect());
    match c.below(4) {
        0 if n <= 8 => {
            let cof = grid(n, n, &mut |i, j| mat.cofactor((i, j)).field());
            c.label("expansion");
            c.nontrivial_if(n > 2);
            expansions(&m, &cof)
        }
        1 => {
            let (i, j) = match c.below(3) {
                0 => (outside(c, n), c.index(n)),
                1 => (c.index(n), outside(c, n)),
                _ => (outside(c, n), outside(c, n)),
            };
            c.label("out of range");
            let mut r = None;
            let p = panics_dyn(&mut || { r = Some(mat.cofactor((i, j))); });
            ensure!(p.is_some(), "cofactor ({}, {}) of a matrix of size {} did not panic", i, j, n);
            Ok(())
        }
        _ => {
            let p = (c.index(n), c.index(n));
            judge(c, &m, p, mat.cofactor(p).field())
        }
    }
}

fn main() {
    let mut u = Units::default();
    u.add_all("Z/7", 500, kit::dims_cof_small!(unit, F7));
    u.add_all("Z/3", 500, kit::dims_cof_small!(unit, F3));
    u.add_all("Z/101", 300, kit::dims_cof_small!(unit, F101));
    u.add_all("Z/(2^61-1)", 300, kit::dims_cof_small!(unit, F61));
    u.add_all("Z/(2^61-1), size 8..=16", 40, kit::dims_det_mid!(unit, F61));
    u.add_all("Z/7, size 8..=16", 60, kit::dims_det_mid!(unit, F7));
    u.add_all("Z/7, size 17..=32", 12, kit::dims_det_big!(unit, F7));
    u.add_all("Z/(2^61-1), size 17..=32", 12, kit::dims_det_big!(unit, F61));
    u.add_all("rationals", 80, kit::dims_cof_six!(unit, BigRational));
    u.add_all("tracked Z/7", 80, kit::dims_cof_six!(unit, Tk<F7>));
    kit::main(u)
}
