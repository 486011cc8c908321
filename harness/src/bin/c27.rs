//! How many element operations an operation takes, against a bound that depends on the shape only.
use approx::ApproxEq;
use harness::*;
use kit::fp::{self, Fp};
use num::{Bounded, Complex, One, Zero};
use rowcol::matrix::{Cofactor, Determinant, Inverse};
use std::cell::Cell;
use std::cmp::Ordering;
use std::fmt::{self, Write};
use std::hint::black_box as bb;
use std::ops::*;
use typenum::Unsigned;

thread_local! {
    static COUNT: Cell<u64> = const { Cell::new(0) };
    static LIMIT: Cell<u64> = const { Cell::new(u64::MAX) };
}
/// One element operation; the operation at hand ends when it has taken more than it may.
#[inline(never)]
fn tick() {
    let n = COUNT.with(|c| { c.set(c.get() + 1); c.get() });
    if n > LIMIT.with(|l| l.get()) { LIMIT.with(|l| l.set(u64::MAX)); panic!("over the bound") }
}

type F = Fp<10007>;
/// An element of a field that counts what is done with it.
#[derive(Copy)]
struct Cn(F);
impl Clone for Cn { fn clone(&self) -> Cn { tick(); *self } }
impl Default for Cn { fn default() -> Cn { tick(); Cn(Fp(0)) } }
impl fmt::Debug for Cn { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { tick(); write!(f, "{}", (self.0).0) } }
impl fmt::Display for Cn { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { tick(); write!(f, "{}", (self.0).0) } }
impl PartialEq for Cn { fn eq(&self, o: &Cn) -> bool { tick(); self.0 == o.0 } }
impl Eq for Cn {}
impl Ord for Cn { fn cmp(&self, o: &Cn) -> Ordering { tick(); (self.0).0.cmp(&(o.0).0) } }
impl PartialOrd for Cn { fn partial_cmp(&self, o: &Cn) -> Option<Ordering> { Some(self.cmp(o)) } }
macro_rules! ops { ($($t:ident $f:ident $ta:ident $fa:ident;)*) => { $(
    impl $t for Cn { type Output = Cn; fn $f(self, o: Cn) -> Cn { tick(); Cn($t::$f(self.0, o.0)) } }
    impl<'a> $t<&'a Cn> for Cn { type Output = Cn; fn $f(self, o: &'a Cn) -> Cn { tick(); Cn($t::$f(self.0, o.0)) } }
    impl<'a> $t<Cn> for &'a Cn { type Output = Cn; fn $f(self, o: Cn) -> Cn { tick(); Cn($t::$f(self.0, o.0)) } }
    impl<'a, 'b> $t<&'a Cn> for &'b Cn { type Output = Cn; fn $f(self, o: &'a Cn) -> Cn { tick(); Cn($t::$f(self.0, o.0)) } }
    impl $ta for Cn { fn $fa(&mut self, o: Cn) { tick(); self.0 = $t::$f(self.0, o.0) } }
    impl<'a> $ta<&'a Cn> for Cn { fn $fa(&mut self, o: &'a Cn) { tick(); self.0 = $t::$f(self.0, o.0) } }
)* } }
ops! { Add add AddAssign add_assign; Sub sub SubAssign sub_assign; Mul mul MulAssign mul_assign; }
/// Dividing by zero is the caller's fault, not counted as an operation that ends.
fn div(a: F, b: F) -> F { if b.0 == 0 { Fp(0) } else { a / b } }
impl Div for Cn { type Output = Cn; fn div(self, o: Cn) -> Cn { tick(); Cn(div(self.0, o.0)) } }
impl<'a> Div<&'a Cn> for Cn { type Output = Cn; fn div(self, o: &'a Cn) -> Cn { tick(); Cn(div(self.0, o.0)) } }
impl DivAssign for Cn { fn div_assign(&mut self, o: Cn) { tick(); self.0 = div(self.0, o.0) } }
impl Rem for Cn { type Output = Cn; fn rem(self, _: Cn) -> Cn { tick(); Cn(Fp(0)) } }
impl Neg for Cn { type Output = Cn; fn neg(self) -> Cn { tick(); Cn(-self.0) } }
impl Zero for Cn { fn zero() -> Cn { tick(); Cn(Fp(0)) } fn is_zero(&self) -> bool { tick(); (self.0).0 == 0 } }
impl One for Cn { fn one() -> Cn { tick(); Cn(Fp(1)) } }
impl Bounded for Cn { fn min_value() -> Cn { tick(); Cn(Fp(0)) } fn max_value() -> Cn { tick(); Cn(Fp(10006)) } }
impl num::Num for Cn { type FromStrRadixErr = (); fn from_str_radix(_: &str, _: u32) -> Result<Cn, ()> { Err(()) } }
impl num::Signed for Cn {
    fn abs(&self) -> Cn { tick(); *self }
    fn abs_sub(&self, o: &Cn) -> Cn { tick(); Cn(self.0 - o.0) }
    fn signum(&self) -> Cn { tick(); Cn(Fp(((self.0).0 != 0) as u64)) }
    fn is_positive(&self) -> bool { tick(); (self.0).0 != 0 }
    fn is_negative(&self) -> bool { tick(); false }
}
impl ApproxEq for Cn {
    type Epsilon = ();
    fn default_epsilon() { tick() }
    fn default_max_relative() { tick() }
    fn default_max_ulps() -> u32 { tick(); 1 }
    fn relative_eq(&self, o: &Cn, _: (), _: ()) -> bool { tick(); self.0 == o.0 }
    fn ulps_eq(&self, o: &Cn, _: (), _: u32) -> bool { tick(); self.0 == o.0 }
}

type Ops<'a> = [(&'static str, u64, &'a mut dyn FnMut())];
/// Each operation with the number of element operations its definition needs (rounded up): eight times as many are allowed, and some.
#[inline(never)]
fn run(what: &dyn Fn() -> String, ops: &mut Ops) -> R {
    for (name, need, f) in ops.iter_mut() {
        let bound = *need * 8 + 64;
        COUNT.with(|c| c.set(0));
        LIMIT.with(|l| l.set(bound));
        let r = panics_dyn(*f);
        LIMIT.with(|l| l.set(u64::MAX));
        let n = COUNT.with(|c| c.get());
        ensure!(n <= bound, "{} of {} takes more than {} element operations", name, what(), bound);
        ensure!(r.is_none(), "{} of {} panics: {:?}", name, what(), r);
    }
    Ok(())
}

/// Values with every kind of sameness and order.
fn values(c: &mut Case, n: usize) -> Vec<Cn> {
    let kind = c.below(7);
    list(n, &mut |i| Cn(Fp(match kind {
        0 => 0,
        1 => 1,
        2 => i as u64,
        3 => 10006 - i as u64,
        4 => c.below(2),
        5 => (i == 0 || i + 1 == n) as u64,
        _ => c.below(10007),
    })))
}
fn vec_of<N: ArrayLen<Cn>>(c: &mut Case) -> Vector<Cn, N> { let v = values(c, N::to_usize()); Vector::generate(|i| v[i]) }
fn mat_of<Ro: ArrayLen<Vector<Cn, Co>>, Co: ArrayLen<Cn>>(c: &mut Case) -> Matrix<Cn, Ro, Co> {
    let k = Co::to_usize();
    let v = values(c, Ro::to_usize() * k);
    Matrix::generate(|(i, j)| v[i * k + j])
}
fn show(x: &[Cn]) -> Vec<u64> { x.iter().map(|x| (x.0).0).collect() }
struct Null;
impl Write for Null { fn write_str(&mut self, _: &str) -> fmt::Result { Ok(()) } }

fn vec_ops<N: ArrayLen<Cn>>(c: &mut Case) -> R where Vector<Cn, N>: Copy {
    let len = N::to_usize();
    let n = len as u64;
    let (a, b): (Vector<Cn, N>, Vector<Cn, N>) = (vec_of(c), if c.bool() { vec_of(c) } else { Vector::generate(|_| Cn(Fp(3))) });
    let b = if c.chance(1, 3) { a } else { b };
    let s = Cn(Fp(c.below(10007)));
    let t = Cn(Fp((s.0).0 / 2));
    let p = c.index(len + 2);
    c.nontrivial_if(len > 1);
    c.note(|| format!("operations on {:?} and {:?}", show(a.as_slice()), show(b.as_slice())));
    run(&|| format!("{:?} and {:?}", show(a.as_slice()), show(b.as_slice())), &mut [
        ("generate", n, &mut || { bb(Vector::<Cn, N>::generate(|_| { tick(); s })); }),
        ("default", n, &mut || { bb(Vector::<Cn, N>::default()); }),
        ("zero", n, &mut || { bb(Vector::<Cn, N>::zero()); }),
        ("min_value", n, &mut || { bb(Vector::<Cn, N>::min_value()); }),
        ("max_value", n, &mut || { bb(Vector::<Cn, N>::max_value()); }),
        ("is_zero", n, &mut || { bb(a.is_zero()); }),
        ("clone", n, &mut || { bb(a.clone()); }),
        ("==", n, &mut || { bb(a == b); }),
        ("+", n, &mut || { bb(a + b); }),
        ("+ &", n, &mut || { bb(a + &b); }),
        ("& +", n, &mut || { bb(&a + b); }),
        ("& + &", n, &mut || { bb(&a + &b); }),
        ("-", n, &mut || { bb(a - b); }),
        ("- &", n, &mut || { bb(a - &b); }),
        ("& -", n, &mut || { bb(&a - b); }),
        ("& - &", n, &mut || { bb(&a - &b); }),
        ("* scalar", 2 * n, &mut || { bb(a * s); }),
        ("/ scalar", 2 * n, &mut || { bb(a / s); }),
        ("neg", n, &mut || { bb(-a); }),
        ("+=", n, &mut || { let mut x = a; x += b; bb(x); }),
        ("-=", n, &mut || { let mut x = a; x -= b; bb(x); }),
        ("*=", 2 * n, &mut || { let mut x = a; x *= s; bb(x); }),
        ("/=", 2 * n, &mut || { let mut x = a; x /= s; bb(x); }),
        ("dot", 4 * n, &mut || { bb(a.dot(&b)); }),
        ("sum", 2 * n, &mut || { bb(a.sum()); }),
        ("clamp", 2 * n, &mut || { let mut x = a; x.clamp(t, s); bb(x); }),
        ("clamped", 2 * n, &mut || { bb(a.clamped(t, s)); }),
        ("iterating", 0, &mut || { for x in a.iter() { bb(x); } let mut y = a; for x in y.iter_mut() { bb(x); } }),
        ("consuming", 0, &mut || { for x in a { bb(x); } for x in a.into_iter().rev() { bb(x); } let mut i = a.into_iter(); bb((i.len(), i.nth(p), i.next_back(), i.count())); bb(a.into_iter().last()); }),
        ("collect", n, &mut || { bb(a.into_iter().collect::<Vector<Cn, N>>()); }),
        ("Debug", n, &mut || { let _ = write!(Null, "{:?}", a); }),
    ])
}

fn mat_ops<Ro, Co>(c: &mut Case) -> R
where Ro: ArrayLen<Vector<Cn, Co>> + ArrayLen<Cn> + ArrayLen<Vector<Cn, Ro>> + ArrayLen<Vector<(String, usize), Co>> + ArrayLen<usize>,
      Co: ArrayLen<Cn> + ArrayLen<Vector<Cn, Ro>> + ArrayLen<(String, usize)> + ArrayLen<usize>,
      Matrix<Cn, Ro, Co>: Copy, Matrix<Cn, Co, Ro>: Copy, Vector<Cn, Co>: Copy {
    let (rows, cols) = (<Ro as Unsigned>::to_usize(), <Co as Unsigned>::to_usize());
    let (r, k) = (rows as u64, cols as u64);
    // work done once per row or column, and once per operation, is part of what a shape needs
    let n = (r + 1) * (k + 1);
    let a: Matrix<Cn, Ro, Co> = mat_of(c);
    let b: Matrix<Cn, Ro, Co> = if c.chance(1, 3) { a } else { mat_of(c) };
    let y: Matrix<Cn, Co, Ro> = mat_of(c);
    let v: Vector<Cn, Co> = vec_of(c);
    let s = Cn(Fp(c.below(10007)));
    let t = Cn(Fp((s.0).0 / 2));
    let (p, q) = (c.index(rows + 2), c.index(cols + 2));
    let text = |m: &Matrix<Cn, Ro, Co>| format!("{:?}", list(rows, &mut |i| list(cols, &mut |j| (m[(i, j)].0).0)));
    c.nontrivial_if(r * k > 1);
    c.note(|| format!("operations on {} and {}", text(&a), text(&b)));
    let product = 4 * ((r + 1) * (k + 1) * (r + 1));
    run(&|| format!("{} and {}", text(&a), text(&b)), &mut [
        ("generate", n, &mut || { bb(Matrix::<Cn, Ro, Co>::generate(|_| { tick(); s })); }),
        ("default", n, &mut || { bb(Matrix::<Cn, Ro, Co>::default()); }),
        ("zero", n, &mut || { bb(Matrix::<Cn, Ro, Co>::zero()); }),
        ("bounds", 2 * n, &mut || { bb((Matrix::<Cn, Ro, Co>::min_value(), Matrix::<Cn, Ro, Co>::max_value())); }),
        ("is_zero", n, &mut || { bb(a.is_zero()); }),
        ("clone", n, &mut || { bb(a.clone()); }),
        ("==", n, &mut || { bb(a == b); }),
        ("+", n, &mut || { bb(a + b); }),
        ("+ &", n, &mut || { bb(a + &b); }),
        ("& +", n, &mut || { bb(&a + b); }),
        ("& + &", n, &mut || { bb(&a + &b); }),
        ("-", n, &mut || { bb(a - b); }),
        ("- &", n, &mut || { bb(a - &b); }),
        ("& -", n, &mut || { bb(&a - b); }),
        ("& - &", n, &mut || { bb(&a - &b); }),
        ("* scalar", 2 * n, &mut || { bb(a * s); }),
        ("* &scalar", 2 * n, &mut || { bb(a * &s); }),
        ("/ scalar", 2 * n, &mut || { bb(a / s); }),
        ("/ &scalar", 2 * n, &mut || { bb(a / &s); }),
        ("neg", n, &mut || { bb(-a); }),
        ("assigning", 6 * n, &mut || { let mut x = a; x += b; x -= b; x *= s; x /= s; bb(x); }),
        ("* vector", 4 * n + r, &mut || { bb(a * v); }),
        ("* &vector", 4 * n + r, &mut || { bb(a * &v); }),
        ("* matrix", product, &mut || { let z: Matrix<Cn, Ro, Ro> = a * y; bb(z); }),
        ("* &matrix", product, &mut || { let z: Matrix<Cn, Ro, Ro> = a * &y; bb(z); }),
        ("& * matrix", product, &mut || { let z: Matrix<Cn, Ro, Ro> = &a * y; bb(z); }),
        ("& * &matrix", product, &mut || { let z: Matrix<Cn, Ro, Ro> = &a * &y; bb(z); }),
        ("transposed", n, &mut || { bb(a.transposed()); }),
        ("map", n, &mut || { bb(a.map(|_, x| { tick(); x })); }),
        ("all", n, &mut || { bb(a.all(|_, _| { tick(); true })); }),
        ("any", n, &mut || { bb(a.any(|_, _| { tick(); false })); }),
        ("sum", 2 * n + r, &mut || { bb(a.sum()); }),
        ("clamp", 2 * n, &mut || { let mut x = a; x.clamp(t, s); bb(x); }),
        ("clamped", 2 * n, &mut || { bb(a.clamped(t, s)); }),
        ("relative_eq", n, &mut || { bb(a.relative_eq(&b, (), ())); }),
        ("ulps_eq", n, &mut || { bb(a.ulps_eq(&b, (), 1)); }),
        ("rows_iter", 3 * n, &mut || { for x in a.rows_iter() { bb(x); } for x in a.rows_iter().rev() { bb(x); } let mut i = a.rows_iter(); bb((i.len(), i.nth(p), i.next_back(), i.last())); }),
        ("cols_iter", 3 * n, &mut || { for x in a.cols_iter() { bb(x); } for x in a.cols_iter().rev() { bb(x); } let mut i = a.cols_iter(); bb((i.len(), i.nth(q), i.next_back(), i.last())); }),
        ("rows_iter_ref", 0, &mut || { for x in a.rows_iter_ref() { bb(x); } for x in a.rows_iter_ref().rev() { bb(x); } let mut i = a.rows_iter_ref(); bb((i.len(), i.nth(p), i.next_back(), i.last())); }),
        ("cols_iter_ref", 0, &mut || { for x in a.cols_iter_ref() { for y in x { bb(y); } } for x in a.cols_iter_ref().rev() { for y in x.rev() { bb(y); } } }),
        ("Debug", n, &mut || { let _ = write!(Null, "{:?}", a); }),
        ("Display", n, &mut || { let _ = write!(Null, "{}", a); }),
    ])
}

trait Extremes { fn ops<'a>(&'a self) -> Vec<(&'static str, Box<dyn FnMut() + 'a>)>; }
macro_rules! extremes { ($($n:ident)*) => { $(
    impl Extremes for Vector<Cn, $n> { fn ops<'a>(&'a self) -> Vec<(&'static str, Box<dyn FnMut() + 'a>)> { vec![
        ("max", Box::new(move || { bb(self.max()); })), ("min", Box::new(move || { bb(self.min()); })),
        ("max_by", Box::new(move || { bb(self.max_by(|a, b| a.cmp(b))); })), ("min_by", Box::new(move || { bb(self.min_by(|a, b| a.cmp(b))); }))] } }
    impl Extremes for Matrix<Cn, $n, $n> { fn ops<'a>(&'a self) -> Vec<(&'static str, Box<dyn FnMut() + 'a>)> { vec![
        ("max", Box::new(move || { bb(self.max()); })), ("min", Box::new(move || { bb(self.min()); })),
        ("max_by", Box::new(move || { bb(self.max_by(|a, b| a.cmp(b))); })), ("min_by", Box::new(move || { bb(self.min_by(|a, b| a.cmp(b))); }))] } }
)* } }
extremes! { U1 U2 U3 U4 U5 U6 U7 U8 U9 U10 U11 U12 U13 U14 U15 U16 U17 U18 U19 U20 U21 U22 U23 U24 U25 U26 U27 U28 U29 U30 U31 U32 }
fn bounded(need: u64, what: &dyn Fn() -> String, x: &dyn Extremes) -> R {
    for (name, mut f) in x.ops() { run(what, &mut [(name, need, &mut *f)])? }
    Ok(())
}
fn extremes<N: ArrayLen<Cn> + ArrayLen<Vector<Cn, N>>>(c: &mut Case) -> R where Vector<Cn, N>: Extremes, Matrix<Cn, N, N>: Extremes {
    let n = <N as Unsigned>::to_usize();
    let v: Vector<Cn, N> = vec_of(c);
    let m: Matrix<Cn, N, N> = mat_of(c);
    c.nontrivial_if(n > 1);
    bounded(n as u64 + 2, &|| format!("{:?}", show(v.as_slice())), &v)?;
    bounded(3 * (n * n) as u64, &|| format!("{:?}", list(n * n, &mut |p| (m[(p / n, p % n)].0).0)), &m)
}

/// A square matrix whose elimination meets all kinds of zeros.
fn square<N: ArrayLen<Cn> + ArrayLen<Vector<Cn, N>>>(c: &mut Case) -> Matrix<Cn, N, N> {
    let n = <N as Unsigned>::to_usize();
    if n == 0 || c.chance(1, 4) { return mat_of(c) }
    let g = fp::gen_square::<F>(c, n, &mut |c| Fp::new(c.below(10007)));
    Matrix::generate(|(i, j)| Cn(g[i][j]))
}
fn square_text<N: ArrayLen<Cn> + ArrayLen<Vector<Cn, N>>>(m: &Matrix<Cn, N, N>) -> String {
    let n = <N as Unsigned>::to_usize();
    format!("{:?}", list(n, &mut |i| list(n, &mut |j| (m[(i, j)].0).0)))
}
fn square_ops<N: ArrayLen<Cn> + ArrayLen<Vector<Cn, N>>>(c: &mut Case) -> R where Matrix<Cn, N, N>: Copy {
    let n = <N as Unsigned>::to_usize() as u64;
    let a: Matrix<Cn, N, N> = square(c);
    let e = match c.below(5) { 0 => c.index(4), 1 => c.index(70), 2 => (1 << (1 + c.below(40))) - c.index(2), 3 => usize::MAX - c.index(2), _ => c.below(1 << 40) as usize };
    let product = 4 * (n * n * n + n * n);
    let bits = 64 - (e as u64).leading_zeros() as u64;
    c.nontrivial_if(n > 1);
    c.note(|| format!("power {} of {}", e, square_text(&a)));
    run(&|| format!("{} (exponent {})", square_text(&a), e), &mut [
        ("identity", n * n, &mut || { bb(Matrix::<Cn, N, N>::identity()); }),
        ("one", n * n, &mut || { bb(Matrix::<Cn, N, N>::one()); }),
        ("transpose", n * n, &mut || { let mut x = a; x.transpose(); bb(x); }),
        ("*= matrix", product, &mut || { let mut x = a; x *= a; bb(x); }),
        ("power", (2 * bits + 2) * product, &mut || { bb(a.pow(e)); }),
    ])
}
fn elimination<N: ArrayLen<Cn> + ArrayLen<Vector<Cn, N>>>(c: &mut Case) -> R
where Matrix<Cn, N, N>: Determinant<Output = Cn> + Inverse<Output = Matrix<Cn, N, N>> {
    let n = <N as Unsigned>::to_usize() as u64;
    let a: Matrix<Cn, N, N> = square(c);
    c.nontrivial_if(n > 1);
    c.note(|| format!("determinant and inverse of {}", square_text(&a)));
    run(&|| square_text(&a), &mut [
        ("determinant", 6 * n * n * n, &mut || { bb(a.determinant()); }),
        ("inverse", 12 * n * n * n, &mut || { bb(a.inverse()); }),
    ])
}
fn cofactors<N: ArrayLen<Cn> + ArrayLen<Vector<Cn, N>>>(c: &mut Case) -> R where Matrix<Cn, N, N>: Cofactor<Output = Cn> {
    let len = <N as Unsigned>::to_usize();
    let n = len as u64;
    let a: Matrix<Cn, N, N> = square(c);
    let (i, j) = (c.index(len), c.index(len));
    c.nontrivial();
    c.note(|| format!("cofactor {:?} of {}", (i, j), square_text(&a)));
    run(&|| square_text(&a), &mut [("cofactor", 6 * n * n * n, &mut || { bb(a.cofactor((i, j))); })])
}
type N2 = Matrix<Matrix<Cn, U1, U2>, U2, U1>;
type N4 = Matrix<Matrix<N2, U1, U2>, U2, U1>;
type N6 = Matrix<Matrix<N4, U1, U2>, U2, U1>;
type V3 = Vector<Vector<Vector<Cn, U2>, U2>, U2>;
type V6 = Vector<Vector<Vector<V3, U2>, U2>, U2>;
/// Operations that exist for particular shapes only.
fn special(c: &mut Case) -> R {
    let (a, b): (Vector<Cn, U3>, Vector<Cn, U3>) = (vec_of(c), vec_of(c));
    let v: Vector<Cn, U12> = vec_of(c);
    let z: Matrix<Complex<Cn>, U4, U6> = Matrix::generate(|_| Complex { re: Cn(Fp(c.below(10007))), im: Cn(Fp(1)) });
    // text in text: a drawing of drawings is as much work as its entries
    let nest: N6 = Matrix::generate(|_| Matrix::generate(|_| Matrix::generate(|_| Matrix::generate(|_| Matrix::generate(|_| mat_of(c))))));
    let deep: V6 = Vector::generate(|_| Vector::generate(|_| Vector::generate(|_| Vector::generate(|_| Vector::generate(|_| vec_of(c))))));
    c.nontrivial();
    run(&|| format!("{:?}, {:?}, {:?}", show(a.as_slice()), show(b.as_slice()), show(v.as_slice())), &mut [
        ("cross", 30, &mut || { bb(a.cross(&b)); }),
        ("into_chunks", 12, &mut || { for x in v.into_chunks::<U4>() { bb(x); } for x in v.into_chunks::<U3>().rev() { bb(x); } }),
        ("matrix from vector", 12, &mut || { bb((Matrix::<Cn, U3, U4>::from(v), Matrix::<Cn, U12, U1>::from(v))); }),
        ("diag", 15, &mut || { bb(Matrix::<Cn, U3, U4>::diag([a[0], a[1], a[2]])); }),
        ("conjugate", 100, &mut || { bb(z.conjugate()); }),
        ("Debug of nested matrices", 64, &mut || { let _ = write!(Null, "{:?}", nest); }),
        ("Display of nested matrices", 64, &mut || { let _ = write!(Null, "{}", nest); }),
        ("== of nested matrices", 64, &mut || { bb(nest == nest); }),
        ("clone of nested matrices", 64, &mut || { bb(nest.clone()); }),
        ("Debug of nested vectors", 64, &mut || { let _ = write!(Null, "{:?}", deep); }),
        ("== of nested vectors", 64, &mut || { bb(deep == deep); }),
        ("clone of nested vectors", 64, &mut || { bb(deep.clone()); }),
        ("default of nested vectors", 64, &mut || { bb(V6::default()); }),
        ("+ of nested vectors", 64, &mut || { bb(deep + deep); }),
        ("- of nested vectors", 64, &mut || { bb(deep - deep); }),
        ("neg of nested vectors", 64, &mut || { bb(-deep); }),
        ("+ of nested matrices", 64, &mut || { bb(nest + nest); }),
        ("zero of nested matrices", 128, &mut || { bb(N6::zero().is_zero()); }),
    ])
}
/// The counter counts and the limit ends what goes over it.
fn control(c: &mut Case) -> R {
    let n = 100 + c.below(100);
    let r = run(&|| String::new(), &mut [("loop", 1, &mut || for _ in 0..n { bb(Cn(Fp(1)).clone()); })]);
    ensure!(r.is_err(), "the counter does not work");
    Ok(())
}

fn main() {
    let mut u = Units::default();
    u.add("the counter", 1, control);
    u.add_all("vectors", 20, kit::dims_n!(vec_ops));
    u.add_all("matrices", 4, kit::dims_few_pairs!(mat_ops));
    u.add_all("extremes", 10, kit::dims_n1!(extremes));
    u.add_all("powers", 4, kit::dims_n!(square_ops));
    u.add_all("determinant, inverse", 20, kit::dims_det!(elimination));
    u.add_all("cofactor", 20, kit::dims_n2!(cofactors));
    u.add("special shapes", 100, special);
    kit::main(u)
}
