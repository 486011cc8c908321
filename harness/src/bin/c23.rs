use approx::ApproxEq;
use harness::*;
use kit::elem::{Three, Wide};
use kit::track::{self, Bare, Int, Tk, Zt};
use num::{Bounded, Complex, Float, One, Zero};
use rowcol::matrix::{Cofactor, Determinant, Inverse};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::fmt::Write;
use std::hint::black_box as bb;
use std::mem::{align_of, size_of};
use std::ops::*;
use typenum::Unsigned;

struct Counting;
thread_local! { static COUNT: Cell<u64> = const { Cell::new(0) }; }
fn bump() { let _ = COUNT.try_with(|c| c.set(c.get() + 1)); }
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { bump(); System.alloc(l) }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 { bump(); System.alloc_zeroed(l) }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 { bump(); System.realloc(p, l, n) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l) }
}
#[global_allocator]
static A: Counting = Counting;

type Ops<'a> = [(&'static str, &'a mut dyn FnMut())];
/// No operation may reach the allocator.
#[inline(never)]
fn run(ops: &mut Ops) -> R {
    for (name, f) in ops.iter_mut() {
        let before = COUNT.with(|c| c.get());
        f();
        let n = COUNT.with(|c| c.get()) - before;
        ensure!(n == 0, "{} allocated heap memory {} time(s)", name, n);
    }
    Ok(())
}
struct Null(usize);
impl Write for Null { fn write_str(&mut self, s: &str) -> std::fmt::Result { self.0 += s.len(); Ok(()) } }

#[inline(never)]
fn layout_judge(c: &mut Case, what: &str, n: usize, elem: (usize, usize), got: (usize, usize), base: usize, addrs: Vec<usize>, slice: usize) -> R {
    c.nontrivial_if(n > 1);
    c.note(|| format!("{} of {} elements of size {} and alignment {}", what, n, elem.0, elem.1));
    ensure_eq!(got.0, elem.0 * n, "size of {} of {} elements of size {}", what, n, elem.0);
    ensure_eq!(got.1, elem.1, "alignment of {} of {} elements of alignment {}", what, n, elem.1);
    for (i, a) in addrs.into_iter().enumerate() {
        ensure_eq!(a.wrapping_sub(base), i * elem.0, "offset of element {} of {} of {} elements of size {}", i, what, n, elem.0);
    }
    ensure_eq!(slice, base, "address of the first element of {}", what);
    Ok(())
}
fn at<T>(x: &T) -> usize { x as *const T as usize }
fn vec_layout<T: Elem, N: ArrayLen<T>>(c: &mut Case) -> R {
    track::reset();
    let n = N::to_usize();
    {
        let v: Box<Vector<T, N>> = Box::new(vgen(c));
        layout_judge(c, "a vector", n, (size_of::<T>(), align_of::<T>()), (size_of::<Vector<T, N>>(), align_of::<Vector<T, N>>()), at(&*v),
            list(n, &mut |i| at(&v[i])), v.as_slice().as_ptr() as usize)?;
        ensure_eq!((size_of::<N::Array>(), align_of::<N::Array>()), (size_of::<Vector<T, N>>(), align_of::<Vector<T, N>>()), "size and alignment of the array behind a vector");
    }
    track::finish(false)
}
fn mat_layout<T: Elem, Ro: ArrayLen<Vector<T, Co>>, Co: ArrayLen<T>>(c: &mut Case) -> R {
    track::reset();
    let (r, k) = (Ro::to_usize(), Co::to_usize());
    {
        let m: Box<Matrix<T, Ro, Co>> = Box::new(mgen(c));
        let addrs = list(r * k, &mut |p| at(&m[(p / k, p % k)]));
        layout_judge(c, "a matrix", r * k, (size_of::<T>(), align_of::<T>()), (size_of::<Matrix<T, Ro, Co>>(), align_of::<Matrix<T, Ro, Co>>()), at(&*m), addrs, at(&*m))?;
        for (i, row) in m.rows_iter_ref().take(r).enumerate() {
            ensure_eq!(row.as_ptr() as usize - at(&*m), i * k * size_of::<T>(), "offset of row {} of a {}x{} matrix", i, r, k);
        }
    }
    track::finish(false)
}

/// Plain elements.
trait Num: Elem + Copy + Default + Zero + One + Bounded + PartialOrd + Add<Output = Self> + Sub<Output = Self> + Mul<Output = Self> + Div<Output = Self>
    + AddAssign + SubAssign + MulAssign + DivAssign + Neg<Output = Self> {}
impl Num for f64 {}
impl Num for f32 {}
type B = Bare<Int>;
impl Num for B {}

fn vec_ops<T: Num, N: ArrayLen<T>>(c: &mut Case) -> R
where Vector<T, N>: Copy, for<'a> T: Add<&'a T, Output = T> + Sub<&'a T, Output = T> + Mul<&'a T, Output = T> + Div<&'a T, Output = T>,
      for<'a, 'b> &'a T: Add<&'b T, Output = T> + Sub<&'b T, Output = T> + Mul<&'b T, Output = T> + Add<T, Output = T> + Sub<T, Output = T> + Mul<T, Output = T> {
    let n = N::to_usize();
    let (a, b): (Vector<T, N>, Vector<T, N>) = (vgen(c), vgen(c));
    let s = T::gen(c);
    let p = c.upto(n);
    c.nontrivial_if(n > 1);
    c.note(|| format!("operations on {:?} and {:?}", a.as_slice(), b.as_slice()));
    run(&mut [
        ("generate", &mut || { bb(Vector::<T, N>::generate(|_| s)); }),
        ("new", &mut || { bb(Vector::<T, N>::new(a.into_inner())); }),
        ("default", &mut || { bb(Vector::<T, N>::default()); }),
        ("zero", &mut || { bb(Vector::<T, N>::zero()); }),
        ("min_value", &mut || { bb((Vector::<T, N>::min_value(), Vector::<T, N>::max_value())); }),
        ("is_zero", &mut || { bb(a.is_zero()); }),
        ("clone", &mut || { bb((a.clone(), a.len(), a.is_empty())); }),
        ("==", &mut || { bb(a == b); }),
        ("+", &mut || { bb(a + b); }),
        ("+ &", &mut || { bb(a + &b); }),
        ("& +", &mut || { bb(&a + b); }),
        ("& + &", &mut || { bb(&a + &b); }),
        ("-", &mut || { bb(a - b); }),
        ("- &", &mut || { bb(a - &b); }),
        ("& -", &mut || { bb(&a - b); }),
        ("& - &", &mut || { bb(&a - &b); }),
        ("* scalar", &mut || { bb(a * s); }),
        ("/ scalar", &mut || { bb(a / s); }),
        ("neg", &mut || { bb(-a); }),
        ("assigning", &mut || { let mut x = a; x += b; x -= b; x *= s; x /= s; bb(x); }),
        ("dot", &mut || { bb(a.dot(&b)); }),
        ("sum", &mut || { bb(a.sum()); }),
        ("iterating", &mut || { for x in a.iter() { bb(x); } for x in a.clone().iter_mut() { bb(x); } for x in a { bb(x); } for x in a.into_iter().rev() { bb(x); } }),
        ("iterator queries", &mut || {
            let mut i = a.into_iter();
            bb((i.len(), i.size_hint(), i.nth(p), i.next_back(), i.next(), i.count()));
            bb((a.into_iter().last(), a.into_iter().fold(0, |n, _| n + 1), a.into_iter().nth_back(p)));
        }),
        ("collect", &mut || { bb(a.iter().map(|x| *x).collect::<Vector<T, N>>()); bb(a.into_iter().collect::<Vector<T, N>>()); }),
        ("slices", &mut || { let mut x = a; bb((x.as_slice_mut().len(), x.as_slice().len(), AsRef::<[T]>::as_ref(&x).len(), AsMut::<[T]>::as_mut(&mut x).len())); if p < n { x[p] = s; bb(x[p]); } }),
        ("debug formatting", &mut || { let mut w = Null(0); let _ = write!(w, "{:?}", a); bb(w.0); }),
    ])
}
fn vec_float<T: Num + Float, N: ArrayLen<T>>(c: &mut Case) -> R {
    let a: Vector<T, N> = vgen(c);
    c.nontrivial_if(N::to_usize() > 1);
    run(&mut [
        ("norm", &mut || { bb(a.norm()); }),
        ("normalized", &mut || { bb(a.normalized()); }),
    ])
}
fn vec_order<N: ArrayLen<i64>>(c: &mut Case) -> R where Vector<i64, N>: Extremes<i64> + Copy {
    let a: Vector<i64, N> = vgen(c);
    let (lo, hi) = (c.small(50), 50 + c.small(50));
    c.nontrivial_if(N::to_usize() > 1);
    run(&mut [("max, min, max_by, min_by", &mut || { bb(a.extremes()); }), ("clamp", &mut || { let mut x = a; x.clamp(lo, hi); bb((x, a.clamped(lo, hi))); })])
}
trait Extremes<T> { fn extremes(&self) -> [T; 4]; }
macro_rules! extremes { ($($n:ident)*) => { $(
    impl Extremes<i64> for Vector<i64, $n> { fn extremes(&self) -> [i64; 4] { [self.max(), self.min(), self.max_by(|a, b| a.cmp(b)), self.min_by(|a, b| b.cmp(a))] } }
    impl Extremes<i64> for Matrix<i64, $n, $n> { fn extremes(&self) -> [i64; 4] { [self.max(), self.min(), self.max_by(|a, b| a.cmp(b)), self.min_by(|a, b| b.cmp(a))] } }
)* } }
extremes! { U1 U2 U3 U4 U5 U6 U7 U8 U9 U10 U11 U12 U13 U14 U15 U16 U17 U18 U19 U20 U21 U22 U23 U24 U25 U26 U27 U28 U29 U30 U31 U32 }
fn mat_order<N: ArrayLen<i64> + ArrayLen<Vector<i64, N>>>(c: &mut Case) -> R where Matrix<i64, N, N>: Extremes<i64> + Copy {
    let a: Matrix<i64, N, N> = mgen(c);
    let (lo, hi) = (c.small(50), 50 + c.small(50));
    c.nontrivial_if(<N as Unsigned>::to_usize() > 1);
    run(&mut [("max, min, max_by, min_by of a matrix", &mut || { bb(a.extremes()); }), ("clamp", &mut || { let mut x = a; x.clamp(lo, hi); bb((x, a.clamped(lo, hi))); })])
}

fn mat_ops<T: Num, Ro, Co>(c: &mut Case) -> R
where Ro: ArrayLen<Vector<T, Co>> + ArrayLen<T> + ArrayLen<Vector<T, Ro>>, Co: ArrayLen<T> + ArrayLen<Vector<T, Ro>>,
      Matrix<T, Ro, Co>: Copy, Matrix<T, Co, Ro>: Copy, Vector<T, Co>: Copy,
      for<'a> T: Add<&'a T, Output = T> + Sub<&'a T, Output = T> + Mul<&'a T, Output = T> + Div<&'a T, Output = T>,
      for<'a, 'b> &'a T: Add<&'b T, Output = T> + Sub<&'b T, Output = T> + Mul<&'b T, Output = T> + Add<T, Output = T> + Sub<T, Output = T> + Mul<T, Output = T> {
    let (r, k) = (<Ro as Unsigned>::to_usize(), <Co as Unsigned>::to_usize());
    let (a, b): (Matrix<T, Ro, Co>, Matrix<T, Ro, Co>) = (mgen(c), mgen(c));
    let v: Vector<T, Co> = vgen(c);
    let s = T::gen(c);
    let (p, q) = (c.upto(r), c.upto(k));
    c.nontrivial_if(r * k > 1);
    c.note(|| format!("operations on {:?} and {:?}", a, b));
    run(&mut [
        ("generate", &mut || { bb(Matrix::<T, Ro, Co>::generate(|_| s)); }),
        ("default", &mut || { bb(Matrix::<T, Ro, Co>::default()); }),
        ("zero", &mut || { bb(Matrix::<T, Ro, Co>::zero()); }),
        ("min_value", &mut || { bb((Matrix::<T, Ro, Co>::min_value(), Matrix::<T, Ro, Co>::max_value())); }),
        ("is_zero", &mut || { bb(a.is_zero()); }),
        ("clone", &mut || { bb((a.clone(), a.dim(), a.rows(), a.cols())); }),
        ("==", &mut || { bb(a == b); }),
        ("+", &mut || { bb(a + b); }),
        ("+ &", &mut || { bb(a + &b); }),
        ("& +", &mut || { bb(&a + b); }),
        ("& + &", &mut || { bb(&a + &b); }),
        ("-", &mut || { bb(a - b); }),
        ("- &", &mut || { bb(a - &b); }),
        ("& -", &mut || { bb(&a - b); }),
        ("& - &", &mut || { bb(&a - &b); }),
        ("* scalar", &mut || { bb((a * s, a * &s)); }),
        ("/ scalar", &mut || { bb((a / s, a / &s)); }),
        ("neg", &mut || { bb(-a); }),
        ("assigning", &mut || { let mut x = a; x += b; x -= b; x *= s; x /= s; bb(x); }),
        ("* vector", &mut || { bb((a * v, a * &v)); }),
        ("transposed", &mut || { bb(a.transposed()); }),
        ("* matrix", &mut || { let y: Matrix<T, Co, Ro> = a.transposed(); let z: Matrix<T, Ro, Ro> = a * y; bb(z); bb((a * &y, &a * y, &a * &y)); }),
        ("map", &mut || { bb(a.map(|_, x| x + s)); }),
        ("all, any", &mut || { bb((a.all(|_, x| *x != s), a.any(|_, x| *x == s))); }),
        ("sum", &mut || { bb(a.sum()); }),
        ("rows_iter", &mut || { for x in a.rows_iter() { bb(x); } for x in a.rows_iter().rev() { bb(x); } let mut i = a.rows_iter(); bb((i.len(), i.nth(p), i.next_back(), i.last())); }),
        ("cols_iter", &mut || { for x in a.cols_iter() { bb(x); } for x in a.cols_iter().rev() { bb(x); } let mut i = a.cols_iter(); bb((i.len(), i.nth(q), i.next_back(), i.last())); }),
        ("rows_iter_ref", &mut || { for x in a.rows_iter_ref() { bb(x); } for x in a.rows_iter_ref().rev() { bb(x); } let mut i = a.rows_iter_ref(); bb((i.len(), i.nth(p), i.next_back(), i.last())); }),
        ("cols_iter_ref", &mut || { for x in a.cols_iter_ref() { for y in x { bb(y); } } for x in a.cols_iter_ref().rev() { for y in x.rev() { bb(y); } } let mut i = a.cols_iter_ref(); bb((i.len(), i.nth(q).map(|x| x.count()), i.next_back().map(|x| x.len()))); }),
        ("indexing", &mut || { let mut x = a; if p < r && q < k { x[(p, q)] = s; bb(x[(p, q)]); } }),
        ("debug formatting", &mut || { let mut w = Null(0); let _ = write!(w, "{:?}", a); bb(w.0); }),
    ])
}
fn square_ops<T: Num, N: ArrayLen<T> + ArrayLen<Vector<T, N>>>(c: &mut Case) -> R
where Matrix<T, N, N>: Copy, for<'a, 'b> &'a T: Mul<&'b T, Output = T> {
    let n = <N as Unsigned>::to_usize();
    let a: Matrix<T, N, N> = mgen(c);
    let e = c.index(20);
    c.nontrivial_if(n > 1);
    run(&mut [
        ("identity", &mut || { bb((Matrix::<T, N, N>::identity(), Matrix::<T, N, N>::one())); }),
        ("pow", &mut || { bb(a.pow(e)); }),
        ("transpose", &mut || { let mut x = a; x.transpose(); bb(x); }),
        ("*= matrix", &mut || { let mut x = a; x *= a; bb(x); }),
    ])
}
fn square_float<T: Num + Float + ApproxEq<Epsilon = T>, N: ArrayLen<T> + ArrayLen<Vector<T, N>>>(c: &mut Case) -> R
where Matrix<T, N, N>: Determinant<Output = T> + Inverse<Output = Matrix<T, N, N>> {
    let n = <N as Unsigned>::to_usize();
    // values whose elimination runs into zero pivots as well
    let a: Matrix<T, N, N> = if n > 8 && c.bool() { Matrix::generate(|(i, j)| if i == j { T::from(3 + i).unwrap() } else { T::from(c.small(1)).unwrap() }) } else { Matrix::generate(|_| T::from(c.small(2)).unwrap()) };
    c.nontrivial_if(n > 1);
    c.note(|| format!("determinant and inverse of {:?}", a));
    run(&mut [
        ("determinant", &mut || { bb(a.determinant()); }),
        ("inverse", &mut || { bb(a.inverse()); }),
        ("relative_eq", &mut || { bb(a.relative_eq(&a, T::epsilon(), T::epsilon())); }),
        ("ulps_eq", &mut || { bb(a.ulps_eq(&a, T::epsilon(), 4)); }),
    ])
}
fn cofactors<T: Num + Float, N: ArrayLen<T> + ArrayLen<Vector<T, N>>>(c: &mut Case) -> R where Matrix<T, N, N>: Cofactor<Output = T> {
    let n = <N as Unsigned>::to_usize();
    let a: Matrix<T, N, N> = mgen(c);
    let (i, j) = (c.index(n), c.index(n));
    c.nontrivial();
    run(&mut [("cofactor", &mut || { bb(a.cofactor((i, j))); })])
}
/// Operations that exist for particular shapes only.
fn special(c: &mut Case) -> R {
    let (a, b): (Vector<f64, U3>, Vector<f64, U3>) = (vgen(c), vgen(c));
    let v: Vector<f64, U12> = vgen(c);
    let w: Vector<u8, U30> = vgen(c);
    let z: Matrix<Complex<f64>, U3, U2> = Matrix::generate(|_| Complex::new(c.float(), c.float()));
    c.nontrivial();
    run(&mut [
        ("cross", &mut || { bb(a.cross(&b)); }),
        ("into_chunks", &mut || { for x in v.into_chunks::<U4>() { bb(x); } for x in v.into_chunks::<U3>().rev() { bb(x); } let mut i = w.into_chunks::<U5>(); bb((i.len(), i.next(), i.next_back(), i.nth(1))); }),
        ("matrix from vector", &mut || { bb((Matrix::<f64, U3, U4>::from(v), Matrix::<f64, U12, U1>::from(v), Matrix::<u8, U5, U6>::from(w))); }),
        ("diag", &mut || { bb((Matrix::<f64, U3, U4>::diag([1.0, 2.0, 3.0]), Matrix::<f64, U2, U2>::diag([1.0, 2.0]))); }),
        ("new", &mut || { bb(Matrix::<f64, U2, U3>::new([[1.0, 2.0, 3.0], [4.0, 5.0, 6.0]])); }),
        ("macros", &mut || { bb((rowcol::vector![1, 2, 3], rowcol::matrix![[1, 2], [3, 4]])); }),
        ("type-level index", &mut || { let mut m = Matrix::<f64, U3, U4>::from(v); m[(U2::new(), U3::new())] = 1.0; m[(U0::new(), U0::new())] = 2.0; bb((v[U11::new()], m[(U2::new(), U0::new())])); }),
        ("conjugate", &mut || { bb(z.conjugate()); }),
    ])
}
/// The counter counts.
fn control(c: &mut Case) -> R {
    let n = c.below(100) as u64;
    let r = run(&mut [("boxing", &mut || { bb(Box::new(n)); })]);
    ensure!(r.is_err(), "the allocation counter does not work");
    Ok(())
}

fn main() {
    let mut u = Units::default();
    u.add("the counter", 1, control);
    u.add_all("layout u8", 1, kit::dims_n!(vec_layout, u8));
    u.add_all("layout f64", 1, kit::dims_n!(vec_layout, f64));
    u.add_all("layout [u8; 3]", 1, kit::dims_n!(vec_layout, Three));
    u.add_all("layout align 64", 1, kit::dims_n!(vec_layout, Wide));
    u.add_all("layout u128", 1, kit::dims_n!(vec_layout, u128));
    u.add_all("layout String", 1, kit::dims_n!(vec_layout, String));
    u.add_all("layout Tk", 1, kit::dims_n!(vec_layout, Tk<Int>));
    u.add_all("layout ()", 1, kit::dims_n!(vec_layout, ()));
    u.add_all("layout Zt", 1, kit::dims_n!(vec_layout, Zt));
    u.add_all("matrix layout u16", 1, dims_shapes!(mat_layout, u16));
    u.add_all("matrix layout f64", 1, kit::dims_few_pairs!(mat_layout, f64));
    u.add_all("matrix layout [u8; 3]", 1, kit::dims_few_pairs!(mat_layout, Three));
    u.add_all("matrix layout align 64", 1, kit::dims_small_pairs!(mat_layout, Wide));
    u.add_all("matrix layout Tk", 1, kit::dims_small_pairs!(mat_layout, Tk<Int>));
    u.add_all("matrix layout ()", 1, kit::dims_small_pairs!(mat_layout, ()));
    u.add_all("vector operations f64", 20, kit::dims_n!(vec_ops, f64));
    u.add_all("vector operations integers", 10, kit::dims_small!(vec_ops, B));
    u.add_all("norm", 10, kit::dims_n!(vec_float, f64));
    u.add_all("extremes", 10, kit::dims_n1!(vec_order));
    u.add_all("extremes of matrices", 10, kit::dims_n1!(mat_order));
    u.add_all("matrix operations f64", 10, kit::dims_few_pairs!(mat_ops, f64));
    u.add_all("matrix operations integers", 10, kit::dims_small_pairs!(mat_ops, B));
    u.add_all("square operations f64", 10, kit::dims_n!(square_ops, f64));
    u.add_all("square operations integers", 10, kit::dims_small!(square_ops, B));
    u.add_all("determinant, inverse", 30, kit::dims_det!(square_float, f64));
    u.add_all("determinant, inverse f32", 30, kit::dims_det_small!(square_float, f32));
    u.add_all("cofactor", 30, kit::dims_cof_small!(cofactors, f64));
    u.add("special shapes", 300, special);
    kit::main(u)
}
