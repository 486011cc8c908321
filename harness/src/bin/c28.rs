//! Whether the result of an operation depends on anything but its operands: what ran before, what runs inside it, what runs beside it.
use approx::ApproxEq;
use harness::*;
use kit::case::{hash_str, Rng};
use kit::fp::{self, Fp};
use num::{Bounded, Complex, One, Zero};
use rowcol::matrix::{Cofactor, Determinant, Inverse};
use std::cell::{Cell, RefCell};
use std::cmp::Ordering;
use std::fmt::{self};
use std::ops::*;
use std::sync::{Arc, Barrier, Condvar, Mutex};
use typenum::Unsigned;

/// What happens at the n-th element operation of the thread.
enum Plan {
    Cut,
    /// The operation to begin, and what to begin inside it and where, and inside that.
    Nest(Job, Vec<(u64, Job)>),
}
thread_local! {
    static COUNT: Cell<u64> = const { Cell::new(0) };
    static AT: Cell<u64> = const { Cell::new(u64::MAX) };
    static PLAN: RefCell<Option<Plan>> = const { RefCell::new(None) };
    /// What nested operations gave, innermost first.
    static INNER: RefCell<Vec<Result<Vec<u64>, String>>> = const { RefCell::new(Vec::new()) };
    static SCHED: RefCell<Option<(Arc<Sched>, usize)>> = const { RefCell::new(None) };
}

/// One element operation.
#[inline(never)]
fn tick() {
    let n = COUNT.with(|c| { c.set(c.get() + 1); c.get() });
    if n == AT.with(|a| a.get()) { act() }
    let s = SCHED.with(|s| s.borrow().clone());
    if let Some((s, me)) = s { s.step(me) }
}
fn act() {
    AT.with(|a| a.set(u64::MAX));
    match PLAN.with(|p| p.borrow_mut().take()) {
        None => {}
        Some(Plan::Cut) => panic!("cut short"),
        Some(Plan::Nest(job, mut deeper)) => {
            let before = COUNT.with(|c| c.replace(0));
            if !deeper.is_empty() { let (at, j) = deeper.remove(0); AT.with(|a| a.set(at)); PLAN.with(|p| *p.borrow_mut() = Some(Plan::Nest(j, deeper))) }
            let r = (job.run)();
            AT.with(|a| a.set(u64::MAX));
            COUNT.with(|c| c.set(before));
            INNER.with(|i| i.borrow_mut().push(r));
        }
    }
}

/// Lets one of several threads run at a time, changing over at element operations.
struct Sched { state: Mutex<(usize, Vec<bool>, Rng, u64)>, turn: Condvar }
impl Sched {
    fn new(n: usize, seed: u64, pace: u64) -> Sched { Sched { state: Mutex::new((0, vec![true; n], Rng::new(seed), pace)), turn: Condvar::new() } }
    fn begin(&self, me: usize) {
        let mut s = self.state.lock().unwrap();
        while s.0 != me { s = self.turn.wait(s).unwrap() }
    }
    fn step(&self, me: usize) {
        let mut s = self.state.lock().unwrap();
        let pace = s.3;
        if s.2.below(pace) == 0 { Sched::next(&mut s); self.turn.notify_all() }
        while s.0 != me { s = self.turn.wait(s).unwrap() }
    }
    fn end(&self, me: usize) {
        let mut s = self.state.lock().unwrap();
        s.1[me] = false;
        if s.1.iter().any(|x| *x) { Sched::next(&mut s) }
        self.turn.notify_all();
    }
    fn next(s: &mut (usize, Vec<bool>, Rng, u64)) {
        let n = s.1.len();
        let mut k = s.2.below(n as u64) as usize;
        while !s.1[k] { k = (k + 1) % n }
        s.0 = k;
    }
}

type F = Fp<10007>;
/// An element of a field whose every operation is a place where something may happen.
struct Y(F);
fn y(x: u64) -> Y { Y(Fp::new(x % 10007)) }
impl Clone for Y { fn clone(&self) -> Y { tick(); Y(self.0) } }
impl Default for Y { fn default() -> Y { tick(); Y(Fp(7)) } }
impl fmt::Debug for Y { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { tick(); write!(f, "{}", (self.0).0) } }
/// Texts of different widths and heights.
impl fmt::Display for Y {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        tick();
        match (self.0).0 {
            n if n % 5 == 0 => Ok(()),
            n if n % 5 == 1 => write!(f, "{}\n{}", n, n % 10),
            n if n % 5 == 2 => { f.write_str("a")?; tick(); f.write_str("bc") }
            n => write!(f, "{}", n),
        }
    }
}
impl PartialEq for Y { fn eq(&self, o: &Y) -> bool { tick(); self.0 == o.0 } }
impl Eq for Y {}
impl Ord for Y { fn cmp(&self, o: &Y) -> Ordering { tick(); (self.0).0.cmp(&(o.0).0) } }
impl PartialOrd for Y { fn partial_cmp(&self, o: &Y) -> Option<Ordering> { Some(self.cmp(o)) } }
macro_rules! ops { ($($t:ident $f:ident $ta:ident $fa:ident;)*) => { $(
    impl $t for Y { type Output = Y; fn $f(self, o: Y) -> Y { tick(); Y($t::$f(self.0, o.0)) } }
    impl<'a> $t<&'a Y> for Y { type Output = Y; fn $f(self, o: &'a Y) -> Y { tick(); Y($t::$f(self.0, o.0)) } }
    impl<'a> $t<Y> for &'a Y { type Output = Y; fn $f(self, o: Y) -> Y { tick(); Y($t::$f(self.0, o.0)) } }
    impl<'a, 'b> $t<&'a Y> for &'b Y { type Output = Y; fn $f(self, o: &'a Y) -> Y { tick(); Y($t::$f(self.0, o.0)) } }
    impl $ta for Y { fn $fa(&mut self, o: Y) { tick(); self.0 = $t::$f(self.0, o.0) } }
    impl<'a> $ta<&'a Y> for Y { fn $fa(&mut self, o: &'a Y) { tick(); self.0 = $t::$f(self.0, o.0) } }
)* } }
ops! { Add add AddAssign add_assign; Sub sub SubAssign sub_assign; Mul mul MulAssign mul_assign; }
fn div(a: F, b: F) -> F { if b.0 == 0 { Fp(0) } else { a / b } }
impl Div for Y { type Output = Y; fn div(self, o: Y) -> Y { tick(); Y(div(self.0, o.0)) } }
impl<'a> Div<&'a Y> for Y { type Output = Y; fn div(self, o: &'a Y) -> Y { tick(); Y(div(self.0, o.0)) } }
impl DivAssign for Y { fn div_assign(&mut self, o: Y) { tick(); self.0 = div(self.0, o.0) } }
impl Rem for Y { type Output = Y; fn rem(self, _: Y) -> Y { tick(); Y(Fp(0)) } }
impl Neg for Y { type Output = Y; fn neg(self) -> Y { tick(); Y(-self.0) } }
impl Zero for Y { fn zero() -> Y { tick(); Y(Fp(0)) } fn is_zero(&self) -> bool { tick(); (self.0).0 == 0 } }
impl One for Y { fn one() -> Y { tick(); Y(Fp(1)) } }
impl Bounded for Y { fn min_value() -> Y { tick(); Y(Fp(0)) } fn max_value() -> Y { tick(); Y(Fp(10006)) } }
impl num::Num for Y { type FromStrRadixErr = (); fn from_str_radix(_: &str, _: u32) -> Result<Y, ()> { Err(()) } }
impl num::Signed for Y {
    fn abs(&self) -> Y { tick(); Y(self.0) }
    fn abs_sub(&self, o: &Y) -> Y { tick(); Y(self.0 - o.0) }
    fn signum(&self) -> Y { tick(); Y(Fp(((self.0).0 != 0) as u64)) }
    fn is_positive(&self) -> bool { tick(); (self.0).0 != 0 }
    fn is_negative(&self) -> bool { tick(); false }
}
impl ApproxEq for Y {
    type Epsilon = ();
    fn default_epsilon() { tick() }
    fn default_max_relative() { tick() }
    fn default_max_ulps() -> u32 { tick(); 1 }
    fn relative_eq(&self, o: &Y, _: (), _: ()) -> bool { tick(); self.0 == o.0 }
    fn ulps_eq(&self, o: &Y, _: (), _: u32) -> bool { tick(); self.0 == o.0 }
}

/// An operation with its operands.
struct Work { name: String, run: Box<dyn Fn() -> Result<Vec<u64>, String> + Send + Sync> }
type Job = Arc<Work>;
type Out = Vec<u64>;
type Ops<'a> = [(&'static str, &'a dyn Fn(&mut Out))];

fn ys(o: &mut Out, s: &[Y]) { o.push(s.len() as u64); for x in s { o.push((x.0).0) } }
fn yv<N: ArrayLen<Y>>(o: &mut Out, v: &Vector<Y, N>) { ys(o, v.as_slice()) }
fn ym<Ro: ArrayLen<Vector<Y, Co>>, Co: ArrayLen<Y>>(o: &mut Out, m: &Matrix<Y, Ro, Co>) { for r in m.rows_iter_ref() { ys(o, r) } }
/// Reads operands without an element operation.
fn raw<Ro: ArrayLen<Vector<Y, Co>>, Co: ArrayLen<Y>>(m: &Matrix<Y, Ro, Co>) -> Out { let mut o = vec![]; ym(&mut o, m); o }

/// Runs the operation of the given number and sees to it that the operands stay as they were.
#[inline(never)]
fn perform(ops: &Ops, which: usize, operands: &dyn Fn(&mut Out), was: &Out) -> Result<Out, String> {
    let (name, f) = ops[which % ops.len()];
    let mut o = vec![];
    f(&mut o);
    let mut now = vec![];
    operands(&mut now);
    if now == *was { Ok(o) } else { Err(format!("{} changed its operands from {:?} to {:?}", name, was, now)) }
}
fn values(c: &mut Case, n: usize) -> Vec<u64> {
    let kind = c.below(4);
    list(n, &mut |i| match kind { 0 => i as u64, 1 => c.below(3), _ => c.below(10007) })
}
fn vec_of<N: ArrayLen<Y>>(c: &mut Case) -> Vector<Y, N> { let v = values(c, N::to_usize()); Vector::generate(|i| y(v[i])) }
fn mat_of<Ro: ArrayLen<Vector<Y, Co>>, Co: ArrayLen<Y>>(c: &mut Case) -> Matrix<Y, Ro, Co> {
    let k = Co::to_usize();
    let v = values(c, Ro::to_usize() * k);
    Matrix::generate(|(i, j)| y(v[i * k + j]))
}
fn job(name: String, f: impl Fn() -> Result<Out, String> + Send + Sync + 'static) -> Job { Arc::new(Work { name, run: Box::new(f) }) }
/// A writer in which things may happen, too.
struct Sink(u64);
impl fmt::Write for Sink {
    fn write_str(&mut self, s: &str) -> fmt::Result { for x in s.bytes() { self.0 = kit::case::mix(self.0, x as u64) } tick(); Ok(()) }
}
fn copy(v: &[Y]) -> Vec<Y> { v.iter().map(|x| Y(x.0)).collect() }

fn vec_job<N: ArrayLen<Y> + 'static>(c: &mut Case, which: usize) -> Job where Vector<Y, N>: Send + Sync {
    let len = N::to_usize();
    let (a, b): (Vector<Y, N>, Vector<Y, N>) = (vec_of(c), vec_of(c));
    let (s, t, p) = (1 + c.below(100), c.below(10007), c.index(len + 2));
    let mut was = vec![]; ys(&mut was, a.as_slice()); ys(&mut was, b.as_slice());
    job(format!("vector operation {} on {:?} ({}, {}, {})", which, was, s, t, p), move || {
        let own = |v: &Vector<Y, N>| -> Vector<Y, N> { vof(copy(v.as_slice())) };
        perform(&[
            ("+", &|o| yv(o, &(own(&a) + own(&b)))),
            ("+ &", &|o| yv(o, &(own(&a) + &b))),
            ("& +", &|o| yv(o, &(&a + own(&b)))),
            ("& + &", &|o| yv(o, &(&a + &b))),
            ("-", &|o| yv(o, &(own(&a) - own(&b)))),
            ("- &", &|o| yv(o, &(own(&a) - &b))),
            ("& -", &|o| yv(o, &(&a - own(&b)))),
            ("& - &", &|o| yv(o, &(&a - &b))),
            ("neg", &|o| yv(o, &-own(&a))),
            ("* scalar", &|o| yv(o, &(own(&a) * y(s)))),
            ("/ scalar", &|o| yv(o, &(own(&a) / y(s)))),
            ("assigning", &|o| { let mut x = own(&a); x += own(&b); x -= own(&a); x *= y(s); x /= y(t); yv(o, &x) }),
            ("dot", &|o| ys(o, &[a.dot(&b)])),
            ("sum", &|o| ys(o, &[a.sum()])),
            ("clamped", &|o| { let (lo, hi) = (s.min(t), s.max(t)); yv(o, &a.clamped(y(lo), y(hi))); let mut x = own(&a); x.clamp(y(lo), y(hi)); yv(o, &x) }),
            ("generate", &|o| yv(o, &Vector::<Y, N>::generate(|i| { tick(); y(i as u64 * s + t) }))),
            ("default, zero, bounds", &|o| { yv(o, &Vector::<Y, N>::default()); yv(o, &Vector::<Y, N>::zero()); yv(o, &Vector::<Y, N>::min_value()); yv(o, &Vector::<Y, N>::max_value()) }),
            ("is_zero", &|o| o.push(a.is_zero() as u64)),
            ("==", &|o| { o.push((a == b) as u64); o.push((a != a.clone()) as u64) }),
            ("clone", &|o| yv(o, &a.clone())),
            ("consuming", &|o| { let mut i = own(&a).into_iter(); o.push(i.len() as u64); tick(); ys(o, i.nth(p).as_ref().map_or(&[], std::slice::from_ref)); tick(); ys(o, i.next_back().as_ref().map_or(&[], std::slice::from_ref)); tick(); ys(o, &i.collect::<Vec<_>>()) }),
            ("collecting", &|o| yv(o, &own(&a).into_iter().map(|x| { tick(); x }).collect::<Vector<Y, N>>())),
            ("backwards", &|o| yv(o, &own(&a).into_iter().rev().map(|x| { tick(); x }).collect::<Vector<Y, N>>())),
            ("iterating", &|o| { for x in a.iter().rev() { tick(); o.push((x.0).0) } let mut z = own(&a); for x in z.iter_mut() { tick(); *x = y((x.0).0 + s) } yv(o, &z) }),
            ("Debug", &|o| { o.push(hash_str(&format!("{:?}", a))); o.push(hash_str(&format!("{:#?}", b))) }),
            ("index", &|o| o.push(panics(|| (a[p].0).0).unwrap_or(u64::MAX))),
            ("short", &|o| o.push(panics(|| Vector::<Y, N>::from_iter_short(&a)).is_err() as u64)),
        ], which, &|o| { ys(o, a.as_slice()); ys(o, b.as_slice()) }, &was)
    })
}
trait Short { fn from_iter_short(v: &Self) -> Self; }
impl<N: ArrayLen<Y>> Short for Vector<Y, N> {
    /// Collecting too few elements, which panics (if there is one too few).
    fn from_iter_short(v: &Self) -> Self { v.iter().skip(1).map(|x| { tick(); Y(x.0) }).collect() }
}

fn mat_job<Ro, Co>(c: &mut Case, which: usize) -> Job
where Ro: ArrayLen<Vector<Y, Co>> + ArrayLen<Y> + ArrayLen<Vector<Y, Ro>> + ArrayLen<Vector<(String, usize), Co>> + ArrayLen<usize> + 'static,
      Co: ArrayLen<Y> + ArrayLen<Vector<Y, Ro>> + ArrayLen<(String, usize)> + ArrayLen<usize> + 'static,
      Matrix<Y, Ro, Co>: Send + Sync, Matrix<Y, Co, Ro>: Send + Sync, Vector<Y, Co>: Send + Sync {
    let (rows, cols) = (<Ro as Unsigned>::to_usize(), <Co as Unsigned>::to_usize());
    let (a, b): (Matrix<Y, Ro, Co>, Matrix<Y, Ro, Co>) = (mat_of(c), mat_of(c));
    let z: Matrix<Y, Co, Ro> = mat_of(c);
    let v: Vector<Y, Co> = vec_of(c);
    let (s, t, p, q) = (1 + c.below(100), c.below(10007), c.index(rows + 2), c.index(cols + 2));
    let operands = move |a: &Matrix<Y, Ro, Co>, b: &Matrix<Y, Ro, Co>, z: &Matrix<Y, Co, Ro>, v: &Vector<Y, Co>, o: &mut Out| { ym(o, a); ym(o, b); ym(o, z); ys(o, v.as_slice()) };
    let mut was = vec![]; operands(&a, &b, &z, &v, &mut was);
    job(format!("{}x{} matrix operation {} on {:?} ({}, {}, {:?})", rows, cols, which, was, s, t, (p, q)), move || {
        let own = |m: &Matrix<Y, Ro, Co>| -> Matrix<Y, Ro, Co> { Matrix::generate(|p| Y(m[p].0)) };
        let own_t = |m: &Matrix<Y, Co, Ro>| -> Matrix<Y, Co, Ro> { Matrix::generate(|p| Y(m[p].0)) };
        let own_v = |v: &Vector<Y, Co>| -> Vector<Y, Co> { vof(copy(v.as_slice())) };
        perform(&[
            ("+", &|o| ym(o, &(own(&a) + own(&b)))),
            ("+ &", &|o| ym(o, &(own(&a) + &b))),
            ("& +", &|o| ym(o, &(&a + own(&b)))),
            ("& + &", &|o| ym(o, &(&a + &b))),
            ("-", &|o| ym(o, &(own(&a) - own(&b)))),
            ("- &", &|o| ym(o, &(own(&a) - &b))),
            ("& -", &|o| ym(o, &(&a - own(&b)))),
            ("& - &", &|o| ym(o, &(&a - &b))),
            ("neg", &|o| ym(o, &-own(&a))),
            ("* scalar", &|o| { ym(o, &(own(&a) * y(s))); ym(o, &(own(&a) * &y(s))) }),
            ("/ scalar", &|o| { ym(o, &(own(&a) / y(s))); ym(o, &(own(&a) / &y(s))) }),
            ("assigning", &|o| { let mut x = own(&a); x += own(&b); x -= own(&a); x *= y(s); x /= y(t); ym(o, &x) }),
            ("* vector", &|o| yv(o, &(own(&a) * own_v(&v)))),
            ("* &vector", &|o| yv(o, &(own(&a) * &v))),
            ("* matrix", &|o| { let m: Matrix<Y, Ro, Ro> = own(&a) * own_t(&z); ym(o, &m) }),
            ("* &matrix", &|o| { let m: Matrix<Y, Ro, Ro> = own(&a) * &z; ym(o, &m) }),
            ("& * matrix", &|o| { let m: Matrix<Y, Ro, Ro> = &a * own_t(&z); ym(o, &m) }),
            ("& * &matrix", &|o| { let m: Matrix<Y, Ro, Ro> = &a * &z; ym(o, &m) }),
            ("transposed", &|o| { o.push(0); ym(o, &a.transposed()) }),
            ("map", &|o| ym(o, &own(&a).map(|p, x| { tick(); y((x.0).0 + s * p.0 as u64 + t * p.1 as u64) }))),
            ("all", &|o| { let mut seen = vec![]; let r = a.all(|p, x| { tick(); seen.push((p.0 * 100 + p.1) as u64); (x.0).0 % 7 != t % 7 }); o.push(r as u64); if r { o.extend(seen) } }),
            ("any", &|o| o.push(a.any(|p, x| { tick(); (x.0).0 % 7 == t % 7 && p.0 <= p.1 }) as u64)),
            ("sum", &|o| ys(o, &[a.sum()])),
            ("clamped", &|o| { let (lo, hi) = (s.min(t), s.max(t)); ym(o, &a.clamped(y(lo), y(hi))); let mut x = own(&a); x.clamp(y(lo), y(hi)); ym(o, &x) }),
            ("relative_eq", &|o| { o.push(a.relative_eq(&b, (), ()) as u64); o.push(a.ulps_eq(&a, (), 1) as u64) }),
            ("rows by value", &|o| { let mut i = a.rows_iter(); o.push(i.len() as u64); for r in [i.nth(p), i.next_back(), i.next()] { tick(); if let Some(r) = r { yv(o, &r) } } o.push(i.len() as u64); for r in i { tick(); yv(o, &r) } }),
            ("columns by value", &|o| { let mut i = a.cols_iter(); o.push(i.len() as u64); for r in [i.nth(q), i.next_back(), i.next()] { tick(); if let Some(r) = r { yv(o, &r) } } o.push(i.len() as u64); for r in i { tick(); yv(o, &r) } }),
            ("rows by reference", &|o| { let mut i = a.rows_iter_ref(); o.push(i.len() as u64); for r in [i.nth(p), i.next_back(), i.next()] { tick(); if let Some(r) = r { ys(o, r) } } o.push(i.len() as u64); for r in i { tick(); ys(o, r) } }),
            ("columns by reference", &|o| { let mut i = a.cols_iter_ref(); o.push(i.len() as u64); for r in [i.nth(q), i.next_back(), i.next()] { tick(); if let Some(r) = r { for x in r { tick(); o.push((x.0).0) } } } o.push(i.len() as u64); for r in i { for x in r.rev() { tick(); o.push((x.0).0) } } }),
            ("generate", &|o| ym(o, &Matrix::<Y, Ro, Co>::generate(|(i, j)| { tick(); y(i as u64 * s + j as u64 * t) }))),
            ("default, zero, bounds", &|o| { ym(o, &Matrix::<Y, Ro, Co>::default()); ym(o, &Matrix::<Y, Ro, Co>::zero()); ym(o, &Matrix::<Y, Ro, Co>::min_value()); ym(o, &Matrix::<Y, Ro, Co>::max_value()); o.push(a.is_zero() as u64) }),
            ("==", &|o| { o.push((a == b) as u64); o.push((a != a.clone()) as u64) }),
            ("Debug", &|o| { o.push(hash_str(&format!("{:?}", a))); o.push(hash_str(&format!("{:#?}", b))) }),
            ("Display", &|o| o.push(hash_str(&format!("{}", a)))),
            ("Display to a writer", &|o| { let mut w = Sink(0); let r = fmt::write(&mut w, format_args!("{}|{:?}", a, b)); o.push(r.is_ok() as u64); o.push(w.0) }),
            ("Display twice", &|o| { o.push(hash_str(&format!("{}", a))); o.push(hash_str(&format!("{}{}", b, a))) }),
            ("index", &|o| o.push(panics(|| (a[(p, q)].0).0).unwrap_or(u64::MAX))),
        ], which, &|o| operands(&a, &b, &z, &v, o), &was)
    })
}

fn square<N: ArrayLen<Y> + ArrayLen<Vector<Y, N>>>(c: &mut Case) -> Matrix<Y, N, N> {
    let n = <N as Unsigned>::to_usize();
    if c.bool() { return mat_of(c) }
    let g = fp::gen_square::<F>(c, n, &mut |c| Fp::new(c.below(10007)));
    Matrix::generate(|(i, j)| Y(g[i][j]))
}
fn square_job<N: ArrayLen<Y> + ArrayLen<Vector<Y, N>> + 'static>(c: &mut Case, which: usize) -> Job
where Matrix<Y, N, N>: Determinant<Output = Y> + Inverse<Output = Matrix<Y, N, N>> + Cofactor<Output = Y> + Send + Sync, Vector<Y, N>: MostV, Matrix<Y, N, N>: MostM {
    let n = <N as Unsigned>::to_usize();
    let a: Matrix<Y, N, N> = square(c);
    let (e, i, j) = (c.index(10), c.index(n), c.index(n + 1));
    let was = raw(&a);
    job(format!("{}x{} square matrix operation {} on {:?} ({}, {}, {})", n, n, which, was, e, i, j), move || {
        let own = |m: &Matrix<Y, N, N>| -> Matrix<Y, N, N> { Matrix::generate(|p| Y(m[p].0)) };
        perform(&[
            ("determinant", &|o| ys(o, &[a.determinant()])),
            ("inverse", &|o| match a.inverse() { Some(m) => ym(o, &m), None => o.push(5) }),
            ("cofactor", &|o| match panics(|| a.cofactor((i, j))) { Ok(x) => ys(o, &[x]), Err(e) => { if e.contains("cut short") { panic!("cut short") } o.push(u64::MAX) } }),
            ("power", &|o| ym(o, &a.pow(e))),
            ("transpose", &|o| { let mut m = own(&a); m.transpose(); ym(o, &m) }),
            ("*=", &|o| { let mut m = own(&a); m *= own(&a); ym(o, &m) }),
            ("identity", &|o| { ym(o, &Matrix::<Y, N, N>::identity()); ym(o, &Matrix::<Y, N, N>::one()) }),
            ("extremes", &|o| { a.most(o); a.rows_iter_ref().for_each(|r| vof::<Y, N>(copy(r)).most(o)) }),
        ], which, &|o| ym(o, &a), &was)
    })
}
trait MostV { fn most(&self, o: &mut Out); }
trait MostM { fn most(&self, o: &mut Out); }
macro_rules! most { ($($n:ident)*) => { $(
    impl MostV for Vector<Y, $n> { fn most(&self, o: &mut Out) { ys(o, &[self.max(), self.min(), self.max_by(|a, b| b.cmp(a)), self.min_by(|a, b| b.cmp(a))]) } }
    impl MostM for Matrix<Y, $n, $n> { fn most(&self, o: &mut Out) { ys(o, &[self.max(), self.min(), self.max_by(|a, b| b.cmp(a)), self.min_by(|a, b| b.cmp(a))]) } }
)* } }
most! { U2 U3 U4 U5 U6 U9 }

fn other_job(c: &mut Case, which: usize) -> Job {
    let (a, b): (Vector<Y, U3>, Vector<Y, U3>) = (vec_of(c), vec_of(c));
    let v: Vector<Y, U12> = vec_of(c);
    let fl: [f64; 5] = [c.float(), c.float(), c.float(), c.float(), c.float()];
    let mut was = vec![]; ys(&mut was, a.as_slice()); ys(&mut was, b.as_slice()); ys(&mut was, v.as_slice());
    job(format!("operation {} on {:?}, {:?}", which, was, fl), move || {
        let own = || -> Vector<Y, U12> { vof(copy(v.as_slice())) };
        // Miri adds noise to floating-point functions
        let bits = |x: f64| if x.is_nan() || cfg!(miri) { 1 } else { x.to_bits() };
        perform(&[
            ("cross", &|o| yv(o, &a.cross(&b))),
            ("chunks", &|o| { for x in own().into_chunks::<U4>() { tick(); yv(o, &x) } let mut i = own().into_chunks::<U3>(); for x in [i.next_back(), i.next()] { tick(); if let Some(x) = x { yv(o, &x) } } for x in i { yv(o, &x) } }),
            ("reshape", &|o| { ym(o, &Matrix::<Y, U3, U4>::from(own())); ym(o, &Matrix::<Y, U2, U6>::from(own())) }),
            ("diag", &|o| ym(o, &Matrix::<Y, U3, U4>::diag([Y(a[0].0), Y(a[1].0), Y(a[2].0)]))),
            ("conjugate", &|o| { let z: Matrix<Complex<Y>, U2, U3> = Matrix::generate(|(i, j)| Complex { re: Y(v[i * 3 + j].0), im: Y(v[11 - i - j].0) }); for r in z.conjugate().rows_iter_ref() { for x in r { ys(o, &[Y(x.re.0), Y(x.im.0)]) } } }),
            ("norm", &|o| { let w: Vector<f64, U5> = Vector::new(fl); o.push(bits(w.norm())); for x in w.normalized().iter() { o.push(bits(*x)) } }),
            ("macros", &|o| { let w = rowcol::vector![Y(a[0].0), Y(a[1].0).clone()]; yv(o, &w); let m = rowcol::matrix![[Y(b[0].0), Y(b[1].0)], [y(1).clone(), Y(b[2].0)]]; ym(o, &m) }),
            ("nested", &|o| { let m: Matrix<Matrix<Y, U1, U2>, U2, U1> = Matrix::generate(|(i, _)| Matrix::generate(|(_, j)| Y(v[i * 2 + j].0))); o.push(hash_str(&format!("{} {:?}", m, m))); o.push((m == m.clone()) as u64) }),
        ], which, &|o| { ys(o, a.as_slice()); ys(o, b.as_slice()); ys(o, v.as_slice()) }, &was)
    })
}

type Maker = fn(&mut Case, usize) -> Job;
/// Kinds of operands with the number of operations on them.
const KINDS: &[(usize, &[Maker])] = &[
    (27, &[vec_job::<U0>, vec_job::<U1>, vec_job::<U2>, vec_job::<U4>, vec_job::<U7>, vec_job::<U16>]),
    (37, &[mat_job::<U1, U1>, mat_job::<U2, U3>, mat_job::<U3, U2>, mat_job::<U4, U4>, mat_job::<U1, U5>, mat_job::<U0, U3>, mat_job::<U2, U0>, mat_job::<U6, U3>]),
    (8, &[square_job::<U2>, square_job::<U3>, square_job::<U4>, square_job::<U5>, square_job::<U6>, square_job::<U9>]),
    (8, &[other_job])];
fn some_jobs(c: &mut Case, least: usize, most: usize) -> Vec<Job> {
    let n = least + c.index(most - least + 1);
    let mut jobs: Vec<Job> = vec![];
    let mut last = (0, 0);
    for i in 0..n {
        // mostly operations of one kind, which would share whatever they share
        if i > 0 && c.chance(1, 8) { let j = jobs[i - 1].clone(); jobs.push(j); continue }
        if i == 0 || c.chance(1, 3) { let k = c.index(KINDS.len()); last = (k, c.index(KINDS[k].0)) }
        let makers = KINDS[last.0].1;
        let make = *c.pick(if cfg!(miri) { &makers[..makers.len().min(3)] } else { makers });
        jobs.push(make(c, last.1));
    }
    jobs
}
fn quiet<T>(f: impl FnOnce() -> T) -> T {
    COUNT.with(|n| n.set(0));
    f()
}
/// What the operation gives by itself, and how many element operations it takes.
fn alone(j: &Job) -> Result<(Out, u64), String> {
    let r = quiet(|| (j.run)())?;
    Ok((r, COUNT.with(|n| n.get())))
}
fn names(jobs: &[Job]) -> String { jobs.iter().map(|j| j.name.clone()).collect::<Vec<_>>().join("; ") }
fn same(j: &Job, got: &Result<Out, String>, want: &Out, how: &dyn Fn() -> String) -> R {
    match got {
        Err(e) => Err(format!("{}: {} {}", j.name, e, how())),
        Ok(g) => { ensure!(g == want, "{} gives {:?} by itself and {:?} {}", j.name, want, g, how()); Ok(()) }
    }
}

fn repeated(c: &mut Case) -> R {
    let jobs = some_jobs(c, 2, 5);
    c.note(|| names(&jobs));
    let mut want = vec![];
    for j in &jobs { want.push(alone(j)?.0) }
    for _ in 0..3 * jobs.len() {
        let k = c.index(jobs.len());
        let fresh = c.chance(1, 8);
        let got = if fresh { let j = jobs[k].clone(); std::thread::spawn(move || panics(|| (j.run)()).unwrap_or_else(Err)).join().unwrap() } else { quiet(|| (jobs[k].run)()) };
        same(&jobs[k], &got, &want[k], &|| format!("after others{} ({})", if fresh { ", in a new thread" } else { "" }, names(&jobs)))?;
    }
    c.nontrivial();
    Ok(())
}
fn nested(c: &mut Case) -> R {
    let deep = c.chance(1, 4);
    let jobs = some_jobs(c, 2, 3);
    c.note(|| names(&jobs));
    let mut want = vec![];
    for j in &jobs { want.push(alone(j)?) }
    for _ in 0..4 {
        // operation k is begun inside operation k - 1
        let depth = if deep { 2 + c.index(if cfg!(miri) { 3 } else { 20 }) } else { 1 + c.index(2) };
        let mut who = vec![0];
        let mut plan = vec![];
        for k in 0..depth {
            let outer = who[k];
            if want[outer].1 == 0 { break }
            let inner = if k == 0 { 1 } else { c.index(jobs.len()) };
            plan.push((1 + c.below(want[outer].1), jobs[inner].clone()));
            who.push(inner);
        }
        if plan.is_empty() { return Ok(()) }
        let how = format!("(each begun inside the one before, at the given element operation: {}; {})", jobs[0].name, plan.iter().map(|p| format!("{}: {}", p.0, p.1.name)).collect::<Vec<_>>().join("; "));
        let (at, first) = plan.remove(0);
        INNER.with(|i| i.borrow_mut().clear());
        PLAN.with(|p| *p.borrow_mut() = Some(Plan::Nest(first, plan)));
        AT.with(|a| a.set(at));
        let got = panics(|| quiet(|| (jobs[0].run)())).unwrap_or_else(Err);
        AT.with(|a| a.set(u64::MAX));
        PLAN.with(|p| *p.borrow_mut() = None);
        same(&jobs[0], &got, &want[0].0, &|| format!("with another begun inside it {}", how))?;
        let inner = INNER.with(|i| std::mem::take(&mut *i.borrow_mut()));
        ensure!(inner.len() == who.len() - 1, "an operation takes a different number of element operations the second time {}", how);
        for (r, &k) in inner.iter().rev().zip(&who[1..]) { same(&jobs[k], r, &want[k].0, &|| format!("inside another {}", how))? }
        c.nontrivial();
    }
    Ok(())
}
fn cut(j: &Job, at: u64) -> bool {
    PLAN.with(|p| *p.borrow_mut() = Some(Plan::Cut));
    AT.with(|a| a.set(at));
    let r = panics(|| quiet(|| (j.run)()));
    AT.with(|a| a.set(u64::MAX));
    PLAN.with(|p| *p.borrow_mut() = None);
    r.is_err()
}
fn cut_short(c: &mut Case) -> R {
    let jobs = some_jobs(c, 2, 4);
    c.note(|| names(&jobs));
    let mut want = vec![];
    for j in &jobs { want.push(alone(j)?) }
    for _ in 0..4 {
        let k = c.index(jobs.len());
        if want[k].1 == 0 { continue }
        let at = 1 + c.below(want[k].1);
        if cut(&jobs[k], at) { c.nontrivial() }
        let m = c.index(jobs.len());
        same(&jobs[m], &quiet(|| (jobs[m].run)()), &want[m].0, &|| format!("after {} was cut short at its element operation {}", jobs[k].name, at))?;
    }
    Ok(())
}
/// What is left behind each time, or only counted, shows after many times.
fn many_times(c: &mut Case) -> R {
    let jobs = some_jobs(c, 2, 3);
    c.note(|| names(&jobs));
    let mut want = vec![];
    for j in &jobs { want.push(alone(j)?) }
    let n = if cfg!(miri) { 40 } else { 1500 };
    let ends = c.bool();
    for i in 0..n {
        let k = i % 2;
        if ends || want[k].1 == 0 { let r = quiet(|| (jobs[k].run)()); same(&jobs[k], &r, &want[k].0, &|| format!("the {}th time", i))?; continue }
        let at = 1 + c.below(want[k].1);
        if cut(&jobs[k], at) { c.nontrivial() }
    }
    for (j, w) in jobs.iter().zip(&want) { same(j, &quiet(|| (j.run)()), &w.0, &|| format!("after {} was {} {} times", names(&jobs), if ends { "run" } else { "cut short" }, n))? }
    c.nontrivial_if(ends);
    Ok(())
}
/// Every thread runs its operations one after the other; `body` is called around each of the threads.
fn threads(jobs: &[Vec<Job>], around: &(dyn Fn(usize, &mut dyn FnMut()) + Sync)) -> Vec<Vec<Result<Out, String>>> {
    std::thread::scope(|s| {
        let hs: Vec<_> = jobs.iter().enumerate().map(|(me, js)| s.spawn(move || {
            let mut out = vec![];
            around(me, &mut || for j in js { out.push(panics(|| (j.run)()).unwrap_or_else(|e| Err(format!("unexpected panic: {}", e)))) });
            out
        })).collect();
        hs.into_iter().map(|h| h.join().unwrap_or_default()).collect()
    })
}
fn lists(c: &mut Case, jobs: &[Job], n: usize, most: usize) -> Vec<Vec<usize>> { (0..n).map(|_| (0..1 + c.index(most)).map(|_| c.index(jobs.len())).collect()).collect() }
fn interleaved(c: &mut Case) -> R {
    let jobs = some_jobs(c, 2, 3);
    c.note(|| names(&jobs));
    let mut want = vec![];
    let mut ticks = 0;
    for j in &jobs { let w = alone(j)?; ticks += w.1; want.push(w.0) }
    let n = 2 + c.index(2);
    let who = lists(c, &jobs, n, 2);
    let pace = 1 + c.below(3) + ticks / 200;
    let seed = c.full();
    let sched = Arc::new(Sched::new(n, seed, pace));
    let lots: Vec<Vec<Job>> = who.iter().map(|l| l.iter().map(|&k| jobs[k].clone()).collect()).collect();
    let got = threads(&lots, &|me, f| {
        SCHED.with(|s| *s.borrow_mut() = Some((sched.clone(), me)));
        sched.begin(me);
        f();
        SCHED.with(|s| *s.borrow_mut() = None);
        sched.end(me);
    });
    for (l, g) in who.iter().zip(&got) {
        ensure_eq!(g.len(), l.len(), "a thread ended early ({})", names(&jobs));
        for (&k, r) in l.iter().zip(g) { same(&jobs[k], r, &want[k], &|| format!("while other threads run {} (changing over with seed {})", names(&jobs), seed))? }
    }
    c.nontrivial_if(ticks > 2);
    Ok(())
}
fn beside(c: &mut Case) -> R {
    let jobs = some_jobs(c, 2, 4);
    c.note(|| names(&jobs));
    let mut want = vec![];
    for j in &jobs { want.push(alone(j)?.0) }
    let n = 2 + c.index(3);
    let most = if cfg!(miri) { 4 } else { 30 };
    let who = lists(c, &jobs, n, most);
    let lots: Vec<Vec<Job>> = who.iter().map(|l| l.iter().map(|&k| jobs[k].clone()).collect()).collect();
    let start = Barrier::new(n);
    let got = threads(&lots, &|_, f| { start.wait(); f() });
    for (l, g) in who.iter().zip(&got) {
        ensure_eq!(g.len(), l.len(), "a thread ended early ({})", names(&jobs));
        for (&k, r) in l.iter().zip(g) { same(&jobs[k], r, &want[k], &|| format!("while other threads run {}", names(&jobs)))? }
    }
    c.nontrivial();
    Ok(())
}
/// A state that operations share is noticed in every way there is.
fn control(c: &mut Case) -> R {
    thread_local! { static STATE: Cell<u64> = const { Cell::new(0) }; }
    let j = |k: u64| job(format!("control {}", k), move || { STATE.with(|s| s.set(k)); tick(); Ok(vec![STATE.with(|s| s.get())]) });
    let (a, b) = (j(1), j(2 + c.below(5)));
    let want = alone(&a)?.0;
    PLAN.with(|p| *p.borrow_mut() = Some(Plan::Nest(b, vec![])));
    AT.with(|x| x.set(1));
    let got = quiet(|| (a.run)());
    ensure!(got != Ok(want), "a nested operation was not run");
    Ok(())
}

fn main() {
    let mut u = Units::default();
    u.add("control", 1, control);
    u.add("interleaved", 400, interleaved);
    u.add("beside each other", 200, beside);
    u.add("nested", if cfg!(miri) { 200 } else { 2000 }, nested);
    if !cfg!(miri) {
        u.add("repeated", 2000, repeated);
        u.add("cut short", 2000, cut_short);
        u.add("many times", 60, many_times);
    }
    kit::main(u)
}
