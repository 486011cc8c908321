use harness::*;
use kit::track::{self, Op, Payload, Sym, Tk};
use std::ops::*;

type E = Tk<Sym>;

/// Element types with mixed-type operators whose result depends on both sides and their order.
macro_rules! wrapper {
    ($($w:ident $tag:expr;)*) => { $(
        #[derive(Debug, PartialEq)]
        struct $w(E);
        impl Clone for $w { fn clone(&self) -> $w { $w(self.0.clone()) } }
        impl Elem for $w { type Key = Sym; fn gen(c: &mut Case) -> $w { $w(E::gen(c)) } fn key(&self) -> Sym { self.0.key() } }
    )* }
}
wrapper! { A 1; B 2; O 3; }
fn mixed(op: Op, variant: u64, a: &A, b: &B) -> O { O(Tk::new(mixval(op, variant, a.0.get(), b.0.get()))) }
/// `variant` says whether the operands were borrowed, so that a by-reference form that uses another operator shows.
fn mixval(op: Op, variant: u64, a: Sym, b: Sym) -> Sym { Sym::bin(op, Sym(a.0 ^ variant << 40), Sym(b.0 ^ variant << 41)) }
macro_rules! mixed_ops {
    ($($t:ident $f:ident;)*) => { $(
        impl $t<B> for A { type Output = O; fn $f(self, b: B) -> O { mixed(Op::$t, 0, &self, &b) } }
        impl<'a> $t<&'a B> for A { type Output = O; fn $f(self, b: &'a B) -> O { mixed(Op::$t, 1, &self, b) } }
        impl<'a> $t<B> for &'a A { type Output = O; fn $f(self, b: B) -> O { mixed(Op::$t, 2, self, &b) } }
        impl<'a, 'b> $t<&'a B> for &'b A { type Output = O; fn $f(self, b: &'a B) -> O { mixed(Op::$t, 3, self, b) } }
    )* }
}
mixed_ops! { Add add; Sub sub; Mul mul; Div div; }
impl Neg for A { type Output = O; fn neg(self) -> O { O(Tk::new(Sym::neg(self.0.get()))) } }
macro_rules! mixed_assign {
    ($($t:ident $f:ident $o:ident;)*) => { $(
        impl $t<B> for A { fn $f(&mut self, b: B) { self.0 = Tk::new(mixval(Op::$o, 5, self.0.get(), b.0.get())) } }
    )* }
}
mixed_assign! { AddAssign add_assign Add; SubAssign sub_assign Sub; MulAssign mul_assign Mul; DivAssign div_assign Div; }

fn zip(op: Op, variant: u64, a: &[Sym], b: &[Sym]) -> Vec<Sym> {
    a.iter().zip(b).map(|(x, y)| if variant == 9 { Sym::bin(op, *x, *y) } else { mixval(op, variant, *x, *y) }).collect()
}
fn all(op: Op, variant: u64, a: &[Sym], s: Sym) -> Vec<Sym> { zip(op, variant, a, &vec![s; a.len()]) }
fn negs(a: &[Sym]) -> Vec<Sym> { a.iter().map(|x| Sym::neg(*x)).collect() }

struct Got { what: &'static str, got: Vec<Sym>, want: Vec<Sym>, a: Option<Vec<Sym>>, b: Option<Vec<Sym>>, len: usize }

fn judge(n: usize, ka: &[Sym], kb: &[Sym], g: Got) -> R {
    ensure_eq!(g.len, n, "{} of length {}: length", g.what, n);
    ensure_eq!(g.got, g.want, "{} of {:?} and {:?}", g.what, ka, kb);
    if let Some(a) = g.a { ensure_eq!(a, ka, "{}: left operand afterwards", g.what) }
    if let Some(b) = g.b { ensure_eq!(b, kb, "{}: right operand afterwards", g.what) }
    Ok(())
}

/// Elements of one type (generic programs over T: Add<Output = T> and so on).
fn same<N: ArrayLen<E>>(c: &mut Case) -> R {
    track::reset();
    let n = N::to_usize();
    let (mut a, b) = (vgen::<E, N>(c), vgen::<E, N>(c));
    let (ka, kb) = (vkeys(&a), vkeys(&b));
    let s = E::gen(c);
    let ks = s.get();
    let op = c.below(21);
    c.nontrivial_if(n > 1);
    let g = |what, v: Vector<E, N>, want, a: Option<&Vector<E, N>>, b: Option<&Vector<E, N>>| Got {
        what, got: vkeys(&v), want, a: a.map(vkeys), b: b.map(vkeys), len: v.as_slice().len() };
    let r = match op {
        0 => g("a + b", a + b, zip(Op::Add, 9, &ka, &kb), None, None),
        1 => g("&a + b", &a + b, zip(Op::Add, 9, &ka, &kb), Some(&a), None),
        2 => g("a + &b", a + &b, zip(Op::Add, 9, &ka, &kb), None, Some(&b)),
        3 => g("&a + &b", &a + &b, zip(Op::Add, 9, &ka, &kb), Some(&a), Some(&b)),
        4 => g("a - b", a - b, zip(Op::Sub, 9, &ka, &kb), None, None),
        5 => g("&a - b", &a - b, zip(Op::Sub, 9, &ka, &kb), Some(&a), None),
        6 => g("a - &b", a - &b, zip(Op::Sub, 9, &ka, &kb), None, Some(&b)),
        7 => g("&a - &b", &a - &b, zip(Op::Sub, 9, &ka, &kb), Some(&a), Some(&b)),
        8 => { a += b; g("a += b", a, zip(Op::Add, 9, &ka, &kb), None, None) }
        9 => { a -= b; g("a -= b", a, zip(Op::Sub, 9, &ka, &kb), None, None) }
        10 => g("a * s", a * s, all(Op::Mul, 9, &ka, ks), None, None),
        11 => g("a / s", a / s, all(Op::Div, 9, &ka, ks), None, None),
        12 => g("a * &s", a * &s, all(Op::Mul, 9, &ka, ks), None, None),
        13 => g("a / &s", a / &s, all(Op::Div, 9, &ka, ks), None, None),
        14 => { a *= s; g("a *= s", a, all(Op::Mul, 9, &ka, ks), None, None) }
        15 => { a /= s; g("a /= s", a, all(Op::Div, 9, &ka, ks), None, None) }
        16 => { a *= &s; g("a *= &s", a, all(Op::Mul, 9, &ka, ks), None, None) }
        17 => { a /= &s; g("a /= &s", a, all(Op::Div, 9, &ka, ks), None, None) }
        18 => g("-a", -a, negs(&ka), None, None),
        // aliasing operands
        19 => g("&a + &a", &a + &a, zip(Op::Add, 9, &ka, &ka), Some(&a), None),
        _ => g("&a - &a", &a - &a, zip(Op::Sub, 9, &ka, &ka), Some(&a), None),
    };
    c.label(r.what);
    c.note(|| format!("{} over length {}: {:?}, {:?}, s = {:?}", r.what, n, ka, kb, ks));
    judge(n, &ka, &kb, r)?;
    track::check()
}

fn mixed_unit<N: ArrayLen<A> + ArrayLen<B> + ArrayLen<O>>(c: &mut Case) -> R {
    track::reset();
    let n = <N as typenum::Unsigned>::to_usize();
    let (mut a, b) = (vgen::<A, N>(c), vgen::<B, N>(c));
    let (ka, kb) = (vkeys(&a), vkeys(&b));
    let s = B::gen(c);
    let ks = s.key();
    let op = c.below(17);
    c.nontrivial_if(n > 1);
    let g = |what, v: Vector<O, N>, want, a: Option<&Vector<A, N>>, b: Option<&Vector<B, N>>| Got {
        what, got: vkeys(&v), want, a: a.map(vkeys), b: b.map(vkeys), len: v.as_slice().len() };
    let h = |what, v: Vector<A, N>, want| Got { what, got: vkeys(&v), want, a: None, b: None, len: v.as_slice().len() };
    let r = match op {
        0 => g("A a + B b", a + b, zip(Op::Add, 0, &ka, &kb), None, None),
        1 => g("A a + B &b", a + &b, zip(Op::Add, 1, &ka, &kb), None, Some(&b)),
        2 => g("A &a + B b", &a + b, zip(Op::Add, 2, &ka, &kb), Some(&a), None),
        3 => g("A &a + B &b", &a + &b, zip(Op::Add, 3, &ka, &kb), Some(&a), Some(&b)),
        4 => g("A a - B b", a - b, zip(Op::Sub, 0, &ka, &kb), None, None),
        5 => g("A a - B &b", a - &b, zip(Op::Sub, 1, &ka, &kb), None, Some(&b)),
        6 => g("A &a - B b", &a - b, zip(Op::Sub, 2, &ka, &kb), Some(&a), None),
        7 => g("A &a - B &b", &a - &b, zip(Op::Sub, 3, &ka, &kb), Some(&a), Some(&b)),
        8 => { a += b; h("A a += B b", a, zip(Op::Add, 5, &ka, &kb)) }
        9 => { a -= b; h("A a -= B b", a, zip(Op::Sub, 5, &ka, &kb)) }
        10 => g("A a * B s", a * s, all(Op::Mul, 0, &ka, ks), None, None),
        11 => g("A a / B s", a / s, all(Op::Div, 0, &ka, ks), None, None),
        12 => g("A a * B &s", a * &s, all(Op::Mul, 1, &ka, ks), None, None),
        13 => g("A a / B &s", a / &s, all(Op::Div, 1, &ka, ks), None, None),
        14 => { a *= s; h("A a *= B s", a, all(Op::Mul, 5, &ka, ks)) }
        15 => { a /= s; h("A a /= B s", a, all(Op::Div, 5, &ka, ks)) }
        _ => g("-A a", -a, negs(&ka), None, None),
    };
    c.label(r.what);
    c.note(|| format!("{} over length {}: {:?}, {:?}, s = {:?}", r.what, n, ka, kb, ks));
    judge(n, &ka, &kb, r)?;
    track::check()
}

/// Built-in numbers, against the same operations on slices.
trait Prim: Elem + Copy + Add<Output = Self> + Sub<Output = Self> + Mul<Output = Self> + Div<Output = Self> + AddAssign + SubAssign + MulAssign + DivAssign {
    /// operands for which no operation overflows or divides by zero
    fn operand(c: &mut Case, op: u64, right: bool) -> Self;
    fn bits(&self) -> u64;
}
fn float_operand(c: &mut Case) -> f64 { c.float() }
macro_rules! prims {
    (int: $($t:ident)*) => { $( impl Prim for $t {
        fn operand(c: &mut Case, op: u64, right: bool) -> $t {
            let half = $t::MAX / 2;
            let root = (1 as $t) << (std::mem::size_of::<$t>() * 4 - 1);
            match op {
                0 => c.below(half as u64 / 2 + 1) as $t + if c.bool() { half / 2 } else { 0 },
                1 => if right { c.below(half as u64) as $t } else { half + (c.below(100) % half as u64) as $t },
                2 => c.below(root as u64) as $t,
                _ => if right { 1 + c.below(root as u64) as $t } else { c.below(half as u64) as $t },
            }
        }
        fn bits(&self) -> u64 { *self as u64 }
    } )* };
    (float: $($t:ident)*) => { $( impl Prim for $t {
        fn operand(c: &mut Case, _: u64, _: bool) -> $t { float_operand(c) as $t }
        fn bits(&self) -> u64 { if self.is_nan() { 1 << 63 | 1 } else { self.to_bits() as u64 } }
    } )* };
}
prims!(int: u8 i32 i64);
prims!(float: f32 f64);

fn bits<T: Prim>(s: &[T]) -> Vec<u64> { s.iter().map(|x| x.bits()).collect() }
fn prim_want<T: Prim>(op: u64, a: &[T], b: &[T], s: T) -> Vec<T> {
    (0..a.len()).map(|i| match op {
        0 => a[i] + b[i],
        1 => a[i] - b[i],
        2 => a[i] * s,
        _ => a[i] / s,
    }).collect()
}
fn prim_judge<T: Prim>(op: u64, form: u64, a: &[T], b: &[T], s: T, got: &[T]) -> R {
    ensure_eq!(bits(got), bits(&prim_want(op, a, b, s)), "op {} form {} of {:?} and {:?} / {:?}", op, form, a, b, s);
    Ok(())
}
fn prim<T, N>(c: &mut Case) -> R
where N: ArrayLen<T>, T: Prim + for<'a> Add<&'a T, Output = T> + for<'a> Sub<&'a T, Output = T> + for<'a> Mul<&'a T, Output = T> + for<'a> Div<&'a T, Output = T>, for<'a, 'b> &'a T: Add<&'b T, Output = T> + Sub<&'b T, Output = T> + Add<T, Output = T> + Sub<T, Output = T> {
    let n = N::to_usize();
    let op = c.below(4);
    let form = c.below(5);
    let la = list(n, &mut |_| T::operand(c, op, false));
    let lb = list(n, &mut |_| T::operand(c, op, true));
    let s = T::operand(c, op, true);
    let mk = |l: &[T]| Vector::<T, N>::generate(|i| l[i]);
    let (mut a, b) = (mk(&la), mk(&lb));
    let got: Vector<T, N> = match (op, form) {
        (0, 0) => a + b,
        (0, 1) => &a + b,
        (0, 2) => a + &b,
        (0, 3) => &a + &b,
        (0, _) => { a += b; a }
        (1, 0) => a - b,
        (1, 1) => &a - b,
        (1, 2) => a - &b,
        (1, 3) => &a - &b,
        (1, _) => { a -= b; a }
        (2, 0) => a * s,
        (2, 1) | (2, 2) => a * &s,
        (2, _) => { a *= s; a }
        (_, 0) => a / s,
        (_, 1) | (_, 2) => a / &s,
        _ => { a /= s; a }
    };
    c.nontrivial_if(n > 1);
    c.note(|| format!("op {} form {} on {:?}, {:?}, {:?}", op, form, la, lb, s));
    prim_judge(op, form, &la, &lb, s, got.as_slice())
}

/// String + &str, &Wrapping etc.: operators between different library types.
fn strings<N: ArrayLen<String> + ArrayLen<&'static str>>(c: &mut Case) -> R {
    let n = <N as typenum::Unsigned>::to_usize();
    let (a, b) = (vgen::<String, N>(c), vgen::<&'static str, N>(c));
    let want: Vec<String> = list(n, &mut |i| format!("{}{}", a[i], b[i]));
    let got = match c.below(2) {
        0 => a + b,
        _ => { let mut a = a; a += b; a }
    };
    c.nontrivial_if(n > 1);
    ensure_eq!(got.as_slice(), &want[..], "strings");
    Ok(())
}

fn main() {
    let mut u = Units::default();
    u.add_all("same type", 200, dims_n!(same));
    u.add_all("mixed types", 200, dims_n!(mixed_unit));
    u.add_all("u8", 60, dims_n!(prim, u8));
    u.add_all("i32", 60, dims_n!(prim, i32));
    u.add_all("i64", 60, dims_few!(prim, i64));
    u.add_all("f32", 60, dims_few!(prim, f32));
    u.add_all("f64", 60, dims_n!(prim, f64));
    u.add_all("String + &str", 30, dims_n!(strings));
    kit::main(u)
}
