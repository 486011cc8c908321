use harness::*;
use kit::fp::{F61, F7};
use kit::track::{self, Bare, Payload, Ring, Tk};
use num::{Float, Zero};
use std::fmt::Debug;
use std::ops::*;

fn ring_sum(v: &[Ring]) -> Ring { v.iter().fold(Ring([0; 4]), |s, x| Ring::add(s, *x)) }
fn ring_dot(a: &[Ring], b: &[Ring]) -> Ring { a.iter().zip(b).fold(Ring([0; 4]), |s, (x, y)| Ring::add(s, Ring::mul(*x, *y))) }
fn check<K: PartialEq + Debug, D: Debug>(c: &mut Case, what: &'static str, n: usize, input: D, got: K, want: K) -> R {
    c.label(what);
    c.nontrivial_if(n > 1);
    c.note(|| format!("{} of {:?}", what, input));
    ensure_eq!(got, want, "{} of {:?}", what, input);
    track::check()
}

fn vec_ring<T: Elem<Key = Ring> + Zero + Mul<Output = T>, N: ArrayLen<T>>(c: &mut Case) -> R {
    track::reset();
    let n = N::to_usize();
    let (a, b) = (vgen::<T, N>(c), vgen::<T, N>(c));
    let (ka, kb) = (vkeys(&a), vkeys(&b));
    match c.below(3) {
        0 => check(c, "sum", n, &ka, a.sum().key(), ring_sum(&ka))?,
        1 => check(c, "dot", n, (&ka, &kb), a.dot(&b).key(), ring_dot(&ka, &kb))?,
        _ => check(c, "dot with itself", n, &ka, a.dot(&a).key(), ring_dot(&ka, &ka))?,
    }
    check(c, "operands afterwards", n, (), (vkeys(&a), vkeys(&b)), (ka, kb))
}
fn mat_ring<T: Elem<Key = Ring> + Zero, Ro: ArrayLen<Vector<T, Co>>, Co: ArrayLen<T>>(c: &mut Case) -> R {
    track::reset();
    let m: Matrix<T, Ro, Co> = mgen(c);
    let k = mkeys(&m);
    check(c, "matrix sum", Ro::to_usize() * Co::to_usize(), &k, m.sum().key(), ring_sum(&k.concat()))
}

/// Integers: exact without overflow.
trait Int: Elem + Zero + Copy + Mul<Output = Self> + Sub<Output = Self> { fn gen_int(c: &mut Case, range: u64) -> Self; fn wide(self) -> i128; const R: u64; }
macro_rules! ints { ($($t:ident $r:expr, $g:expr;)*) => { $( impl Int for $t {
    const R: u64 = $r;
    fn gen_int(c: &mut Case, r: u64) -> $t { let g: fn(&mut Case, u64) -> i64 = $g; g(c, r) as $t }
    fn wide(self) -> i128 { self as i128 }
} )* } }
ints! { i64 1 << 29, |c, r| c.small(r); i32 1 << 12, |c, r| c.small(r); u16 40, |c, r| c.below(r) as i64; u8 2, |c, r| c.below(r + 1) as i64; f64 1 << 22, |c, r| c.small(r); f32 700, |c, r| c.small(r); }
fn vec_int<T: Int, N: ArrayLen<T>>(c: &mut Case) -> R {
    let n = N::to_usize();
    let r = if c.bool() { T::R } else { 2 };
    let (la, lb) = (list(n, &mut |_| T::gen_int(c, r)), list(n, &mut |_| T::gen_int(c, r)));
    let (a, b): (Vector<T, N>, Vector<T, N>) = (vof(la.clone()), vof(lb.clone()));
    let (s, d) = (a.sum(), a.dot(&b));
    int_judge(c, &la, &lb, s, d)
}
fn int_judge<T: Int>(c: &mut Case, la: &[T], lb: &[T], s: T, d: T) -> R {
    check(c, "sum", la.len(), la, s.wide(), la.iter().map(|x| x.wide()).sum())?;
    check(c, "dot", la.len(), (la, lb), d.wide(), la.iter().zip(lb).map(|(x, y)| x.wide() * y.wide()).sum())
}
fn mat_int<T: Int, Ro: ArrayLen<Vector<T, Co>>, Co: ArrayLen<T>>(c: &mut Case) -> R {
    let (r, k) = (Ro::to_usize(), Co::to_usize());
    let l = grid(r, k, &mut |_, _| T::gen_int(c, T::R / 32));
    let m: Matrix<T, Ro, Co> = mof(l.clone());
    let want: i128 = l.iter().flatten().map(|x| x.wide()).sum();
    check(c, "matrix sum", r * k, &l, m.sum().wide(), want)
}

/// Infinities, NaN and zeros among small numbers: what a sum of products is does not depend on its order.
fn vec_special<N: ArrayLen<f64>>(c: &mut Case) -> R {
    let n = N::to_usize();
    let mut g = |_| match c.below(16) {
        0 => *c.pick(&[f64::INFINITY, f64::NEG_INFINITY, f64::NAN, -0.0]),
        1..=5 => 0.0,
        _ => c.small(3) as f64,
    };
    let (la, lb) = (list(n, &mut g), list(n, &mut g));
    let (a, b): (Vector<f64, N>, Vector<f64, N>) = (vof(la.clone()), vof(lb.clone()));
    let (s, d, i) = (a.sum(), a.dot(&b), a.dot(&a));
    special_judge(c, &la, &lb, s, d, i)
}
fn special_judge(c: &mut Case, la: &[f64], lb: &[f64], s: f64, d: f64, i: f64) -> R {
    c.label("special values");
    c.nontrivial_if(la.len() > 1 && la.iter().chain(lb).any(|x| !x.is_finite()));
    c.note(|| format!("sum and dot of {:?} and {:?}", la, lb));
    let same = |x: f64, y: f64| x == y || (x.is_nan() && y.is_nan());
    let dot = |b: &[f64]| la.iter().zip(b).fold(0.0, |s, (x, y)| s + x * y);
    for (what, got, want) in [("sum", s, la.iter().fold(0.0, |s, x| s + x)), ("dot", d, dot(lb)), ("dot with itself", i, dot(la))] {
        ensure!(same(got, want), "{} of {:?} and {:?}: got {:?}, expected {:?}", what, la, lb, got, want);
    }
    Ok(())
}

fn cross_judge<T: Elem + Mul<Output = T> + Sub<Output = T>>(c: &mut Case, a: &[T], b: &[T], got: &[T]) -> R {
    let p = |i: usize, j: usize| a[i].clone() * b[j].clone();
    let want = vec![p(1, 2) - p(2, 1), p(2, 0) - p(0, 2), p(0, 1) - p(1, 0)];
    check(c, "cross", 3, (a, b), keys(got), keys(&want))
}
fn cross<T: Elem + Mul<Output = T> + Sub<Output = T>>(c: &mut Case, g: &mut dyn FnMut(&mut Case) -> T) -> R {
    track::reset();
    let (la, mut lb) = (list(3, &mut |_| g(c)), list(3, &mut |_| g(c)));
    if c.chance(1, 8) { lb = la.clone() }
    let (a, b): (Vector<T, U3>, Vector<T, U3>) = (vof(la.clone()), vof(lb.clone()));
    let x = a.cross(&b);
    cross_judge(c, &la, &lb, x.as_slice())
}
fn cross_i64(c: &mut Case) -> R { cross::<i64>(c, &mut |c| c.small(1 << 30)) }
fn cross_i64_small(c: &mut Case) -> R { cross::<i64>(c, &mut |c| c.small(2)) }
fn cross_f64(c: &mut Case) -> R { cross::<f64>(c, &mut |c| c.small(1 << 24) as f64) }
fn cross_field(c: &mut Case) -> R { cross::<Bare<F61>>(c, &mut |c| Bare::new(F61::gen(c))) }
fn cross_tracked(c: &mut Case) -> R { cross::<Tk<F7>>(c, &mut |c| Tk::new(F7::gen(c))) }

trait Fl: Float + Debug + 'static { const TOL: f64; fn of(x: f64) -> Self; fn f(self) -> f64; }
impl Fl for f64 { const TOL: f64 = 1e-9; fn of(x: f64) -> f64 { x } fn f(self) -> f64 { self } }
impl Fl for f32 { const TOL: f64 = 1e-4; fn of(x: f64) -> f32 { x as f32 } fn f(self) -> f64 { self as f64 } }
fn norm<T: Fl, N: ArrayLen<T>>(c: &mut Case) -> R {
    let n = N::to_usize();
    let kind = c.below(4);
    let l: Vec<T> = list(n, &mut |_| T::of(match kind {
        0 => c.small(9) as f64,
        1 => (c.below(1 << 20) as f64 - (1 << 19) as f64) / 1024.0,
        2 => if c.chance(1, 6) { c.small(1000) as f64 } else { 0.0 },
        _ => (c.small(1 << 16) as f64 / 65536.0) * *c.pick(&[1.0, 1e-4, 1e4]),
    }));
    let v: Vector<T, N> = vof(l.clone());
    let norm = v.norm();
    let normalized = v.normalized();
    norm_judge(c, &l, norm, normalized.as_slice(), v.as_slice())
}
fn norm_judge<T: Fl>(c: &mut Case, l: &[T], norm: T, normalized: &[T], after: &[T]) -> R {
    let want = l.iter().map(|x| x.f() * x.f()).sum::<f64>().sqrt();
    c.label(if want == 0.0 { "norm of zero" } else { "norm" });
    c.nontrivial_if(l.len() > 1 && want > 0.0);
    c.note(|| format!("norm of {:?}", l));
    ensure!((norm.f() - want).abs() <= T::TOL * want, "norm of {:?} is {:?}, not {:?}", l, norm, want);
    ensure_eq!(normalized.len(), l.len(), "length of a normalized vector");
    if want > 0.0 {
        for (i, x) in normalized.iter().enumerate() {
            let w = l[i].f() / want;
            ensure!((x.f() - w).abs() <= T::TOL * w.abs(), "normalized {:?} has {:?} at {}, not {:?}", l, x, i, w);
        }
    }
    ensure_eq!(after, l, "the vector after norm and normalized");
    Ok(())
}

fn main() {
    type E = Bare<Ring>;
    type F = Tk<Ring>;
    let mut u = Units::default();
    u.add_all("vectors", 150, kit::dims_n!(vec_ring, E));
    u.add_all("vectors, tracked", 60, kit::dims_n!(vec_ring, F));
    u.add_all("matrices", 30, dims_shapes!(mat_ring, E));
    u.add_all("matrices, tracked", 30, kit::dims_small_pairs!(mat_ring, F));
    u.add_all("vectors of i64", 60, kit::dims_n!(vec_int, i64));
    u.add_all("vectors of i32", 60, kit::dims_few!(vec_int, i32));
    u.add_all("vectors of u16", 60, kit::dims_few!(vec_int, u16));
    u.add_all("vectors of u8", 60, kit::dims_few!(vec_int, u8));
    u.add_all("vectors of f32", 60, kit::dims_few!(vec_int, f32));
    u.add_all("vectors of f64", 60, kit::dims_n!(vec_int, f64));
    u.add_all("matrices of i64", 30, kit::dims_few_pairs!(mat_int, i64));
    u.add_all("matrices of f64", 30, kit::dims_few_pairs!(mat_int, f64));
    u.add_all("vectors of special values", 60, kit::dims_n!(vec_special));
    u.add("cross i64", 2000, cross_i64);
    u.add("cross i64 small", 2000, cross_i64_small);
    u.add("cross f64", 1000, cross_f64);
    u.add("cross Z/(2^61-1)", 1000, cross_field);
    u.add("cross tracked", 500, cross_tracked);
    u.add_all("norm f64", 150, kit::dims_n!(norm, f64));
    u.add_all("norm f32", 150, kit::dims_n!(norm, f32));
    kit::main(u)
}
