use harness::*;
use num::{BigInt, Float, Signed, ToPrimitive, Zero};
use rowcol::matrix::{Cofactor, Determinant, Inverse};
use std::fmt::Debug;

trait Fl: Float + Signed + Debug + 'static {
    const TOL: f64;
    /// numerators below this, over a power of two: entries are exact
    const BITS: u32;
    const SCALE: i32;
    const EXACT: u64;
    /// products of pivots stay below this
    const PIVOTS: i64;
    fn of(x: f64) -> Self;
    fn f(self) -> f64;
}
impl Fl for f64 { const TOL: f64 = 1e-9; const BITS: u32 = 30; const SCALE: i32 = 12; const EXACT: u64 = 1000; const PIVOTS: i64 = 1 << 40; fn of(x: f64) -> f64 { x } fn f(self) -> f64 { self } }
impl Fl for f32 { const TOL: f64 = 1e-3; const BITS: u32 = 16; const SCALE: i32 = 1; const EXACT: u64 = 50; const PIVOTS: i64 = 1 << 12; fn of(x: f64) -> f32 { x as f32 } fn f(self) -> f64 { self as f64 } }

/// Fraction-free elimination with exchanges: the exact determinant.
fn exact(m: &[Vec<i64>]) -> BigInt {
    let n = m.len();
    let mut a: Vec<Vec<BigInt>> = m.iter().map(|r| r.iter().map(|&x| BigInt::from(x)).collect()).collect();
    let mut prev = BigInt::from(1);
    let mut neg = false;
    for k in 0..n.saturating_sub(1) {
        match (k..n).find(|&r| !a[r][k].is_zero()) {
            None => return BigInt::from(0),
            Some(p) => if p != k { a.swap(p, k); neg = !neg },
        }
        for i in k + 1..n {
            for j in k + 1..n {
                a[i][j] = (&a[i][j] * &a[k][k] - &a[i][k] * &a[k][j]) / &prev;
            }
        }
        prev = a[k][k].clone();
    }
    let d = a[n - 1][n - 1].clone();
    if neg { -d } else { d }
}
/// m · 2^e as a float (e may be large).
fn scaled(m: &BigInt, e: i32) -> f64 {
    let bits = m.bits() as i32;
    let drop = (bits - 100).max(0);
    let top = (m >> drop as usize).to_f64().unwrap();
    let mut x = top;
    let mut e = e + drop;
    while e > 0 { let s = e.min(500); x *= 2f64.powi(s); e -= s }
    while e < 0 { let s = (-e).min(500); x *= 2f64.powi(-s); e += s }
    x
}

/// Row diagonally dominant with factor at least 2: numerators, and the common exponent.
fn dominant<T: Fl>(c: &mut Case, n: usize) -> (Vec<Vec<i64>>, i32) {
    let top = 1i64 << T::BITS;
    let kind = c.below(4);
    let m = grid(n, n, &mut |_, _| match kind {
        0 => c.below(top as u64) as i64 - top / 2,
        1 => if c.chance(1, 3) { c.below(top as u64) as i64 - top / 2 } else { 0 },
        2 => c.small(3),
        _ => c.below(top as u64) as i64,
    });
    let mut m = m;
    for i in 0..n {
        // off-diagonal sum at most half of the diagonal, which lies in [top/2, 4 top]
        let d = top / 2 + c.below(top as u64 * 2) as i64;
        let sum: i128 = (0..n).filter(|&j| j != i).map(|j| m[i][j].abs() as i128).sum();
        if sum * 2 > d as i128 {
            for j in 0..n { if j != i { m[i][j] = (m[i][j] as i128 * d as i128 / (2 * sum)) as i64 } }
        }
        m[i][i] = if c.bool() { -d } else { d };
    }
    // the diagonal is about 2^(-1..1.3) times the scale
    let e = -(T::BITS as i32) + if n <= 8 || T::SCALE > 2 { c.index(2 * T::SCALE as usize + 1) as i32 - T::SCALE } else { 0 };
    c.label(["dense", "sparse", "nearly diagonal", "positive"][kind as usize]);
    (m, e)
}
fn entries<T: Fl>(m: &[Vec<i64>], e: i32) -> Vec<Vec<T>> {
    m.iter().map(|r| r.iter().map(|&x| T::of(scaled(&BigInt::from(x), e))).collect()).collect()
}
fn det_judge<T: Fl>(c: &mut Case, m: &[Vec<i64>], e: i32, got: T) -> R {
    let n = m.len();
    let want = scaled(&exact(m), e * n as i32);
    c.nontrivial_if(n > 1);
    c.note(|| format!("determinant of {:?} * 2^{}: {:?}", m, e, want));
    ensure!((got.f() - want).abs() <= T::TOL * want.abs(), "determinant of {:?} * 2^{} is {:?}, not {:?}", m, e, got, want);
    Ok(())
}
fn mul_check<T: Fl>(what: &str, a: &[Vec<T>], b: &[Vec<T>]) -> R {
    let n = a.len();
    for i in 0..n {
        for j in 0..n {
            let s: f64 = (0..n).map(|k| a[i][k].f() * b[k][j].f()).sum();
            let want = if i == j { 1.0 } else { 0.0 };
            ensure!((s - want).abs() <= T::TOL, "entry ({}, {}) of {} is {} ({:?}, {:?})", i, j, what, s, a, b);
        }
    }
    Ok(())
}
fn inv_judge<T: Fl>(c: &mut Case, a: &[Vec<T>], got: Option<Vec<Vec<T>>>) -> R {
    c.nontrivial_if(a.len() > 1);
    c.note(|| format!("inverse of {:?}", a));
    match got {
        None => Err(format!("no inverse of the diagonally dominant {:?}", a)),
        Some(inv) => {
            mul_check("matrix times inverse", a, &inv)?;
            mul_check("inverse times matrix", &inv, a)
        }
    }
}
fn cof_judge<T: Fl>(c: &mut Case, m: &[Vec<i64>], e: i32, i: usize, got: T) -> R {
    let n = m.len();
    // the minor of a diagonal position is diagonally dominant too
    let want = scaled(&exact(&kit::fp::minor(&m.to_vec(), i, i)), e * (n as i32 - 1));
    c.nontrivial_if(n > 2);
    ensure!((got.f() - want).abs() <= T::TOL * want.abs(), "cofactor ({}, {}) of {:?} * 2^{} is {:?}, not {:?}", i, i, m, e, got, want);
    Ok(())
}

fn unit<T: Fl, N: ArrayLen<T> + ArrayLen<Vector<T, N>>>(c: &mut Case) -> R
where Matrix<T, N, N>: Determinant<Output = T> + Inverse<Output = Matrix<T, N, N>> {
    let n = <N as typenum::Unsigned>::to_usize();
    let (m, e) = dominant::<T>(c, n);
    let a = entries::<T>(&m, e);
    let mat: Matrix<T, N, N> = mof(a.clone());
    det_judge(c, &m, e, mat.determinant())?;
    let inv = mat.inverse();
    inv_judge(c, &a, inv.map(|v| grid(n, n, &mut |i, j| v[(i, j)])))
}
fn cof<T: Fl, N: ArrayLen<T> + ArrayLen<Vector<T, N>>>(c: &mut Case) -> R
where Matrix<T, N, N>: Cofactor<Output = T> {
    let n = <N as typenum::Unsigned>::to_usize();
    let (m, e) = dominant::<T>(c, n);
    let mat: Matrix<T, N, N> = mof(entries::<T>(&m, e));
    let i = c.index(n);
    cof_judge(c, &m, e, i, mat.cofactor((i, i)))
}
/// Unit lower times upper triangular: every quotient and every intermediate value of the elimination is a small integer.
fn factored<T: Fl>(c: &mut Case, n: usize) -> Vec<Vec<i64>> {
    let mut room = T::PIVOTS;
    let few = 1 + c.below(4);
    let mut u = grid(n, n, &mut |i, j| if i > j { 0 } else { c.small(9) });
    for i in 0..n {
        let p = if i == 0 || c.chance(few, n as u64 + few) { 1 + c.below(120) as i64 } else { 1 };
        let p = if p <= room { p } else { 1 };
        room /= p;
        u[i][i] = if c.bool() { p } else { -p };
    }
    let l = grid(n, n, &mut |i, j| if i == j { 1 } else if i > j && c.chance(1, 3) { c.small(2) } else { 0 });
    grid(n, n, &mut |i, j| (0..n).map(|k| l[i][k] * u[k][j]).sum())
}
/// Small integers: exact without rounding in the closed forms and in triangular matrices.
fn integers<T: Fl, N: ArrayLen<T> + ArrayLen<Vector<T, N>>>(c: &mut Case) -> R
where Matrix<T, N, N>: Determinant<Output = T> {
    let n = <N as typenum::Unsigned>::to_usize();
    let mut m = grid(n, n, &mut |_, _| c.small(T::EXACT));
    if n > 3 && c.bool() {
        m = factored::<T>(c, n);
        c.label("integers whose elimination stays exact");
    } else if n > 3 {
        for i in 0..n { for j in 0..n { if i > j { m[i][j] = 0 } else if i == j { m[i][j] = *c.pick(&[1, -1, 2, 1, -1]) } } }
        // in any order of the rows there is only one pivot to choose
        if c.bool() {
            for i in (1..n).rev() { let j = c.upto(i); m.swap(i, j) }
            c.label("triangular integers in another order");
        } else { c.label("triangular integers"); }
    } else { c.label("integers"); }
    let mat: Matrix<T, N, N> = mof(entries::<T>(&m, 0));
    let got = mat.determinant();
    int_judge(c, &m, got)
}
fn int_judge<T: Fl>(c: &mut Case, m: &[Vec<i64>], got: T) -> R {
    c.nontrivial_if(m.len() > 1);
    c.note(|| format!("determinant of {:?}", m));
    let want = exact(m).to_f64().unwrap();
    ensure!(got.f() == want, "determinant of {:?} is {:?}, not {:?}", m, got, want);
    Ok(())
}

fn main() {
    let mut u = Units::default();
    u.add_all("f64", 40, kit::dims_det!(unit, f64));
    u.add_all("f64 small", 200, kit::dims_det_six!(unit, f64));
    u.add_all("f32", 40, kit::dims_det!(unit, f32));
    u.add_all("cofactor f64", 100, kit::dims_cof_six!(cof, f64));
    u.add_all("cofactor f32", 100, kit::dims_cof_six!(cof, f32));
    u.add_all("integers f64", 60, kit::dims_det!(integers, f64));
    u.add_all("integers f32", 60, kit::dims_det_six!(integers, f32));
    kit::main(u)
}
