use harness::*;
use kit::track::{self, Bare, Payload, Ring, Tk};
use num::Zero;
use std::ops::*;

/// Elements that go through products; the operands are generated, the result is computed by definition.
trait Num: Elem + Zero + Add<Output = Self> + Mul<Output = Self> + for<'a> Mul<&'a Self, Output = Self> {
    type Val: Clone + PartialEq + std::fmt::Debug;
    fn operand(c: &mut Case) -> Self;
    fn val(&self) -> Self::Val;
    fn zero_val() -> Self::Val;
    fn fma(s: Self::Val, a: &Self::Val, b: &Self::Val) -> Self::Val;
}
macro_rules! ring { ($($w:ident)*) => { $(
    impl Num for $w<Ring> {
        type Val = Ring;
        fn operand(c: &mut Case) -> Self { $w::new(Ring::gen(c)) }
        fn val(&self) -> Ring { self.get() }
        fn zero_val() -> Ring { Ring([0; 4]) }
        fn fma(s: Ring, a: &Ring, b: &Ring) -> Ring { Ring::add(s, Ring::mul(*a, *b)) }
    }
)* } }
ring! { Bare Tk }
macro_rules! prim { ($($t:ident $range:expr;)*) => { $(
    impl Num for $t {
        type Val = $t;
        fn operand(c: &mut Case) -> $t { c.below($range) as $t }
        fn val(&self) -> $t { *self }
        fn zero_val() -> $t { 0 as $t }
        fn fma(s: $t, a: &$t, b: &$t) -> $t { s + a * b }
    }
)* } }
// every partial sum of at most 32 products is exact
prim! { u16 45; i32 1 << 13; i64 1 << 28; f32 700; u128 1 << 40; }

/// Exact finite numbers, and now and then a zero, an infinity or NaN: which of these a sum of products is does not depend on its order.
#[derive(Clone, Copy)]
struct Special(f64);
impl PartialEq for Special { fn eq(&self, o: &Special) -> bool { self.0 == o.0 || (self.0.is_nan() && o.0.is_nan()) } }
impl std::fmt::Debug for Special { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "{:?}", self.0) } }
impl Num for f64 {
    type Val = Special;
    fn operand(c: &mut Case) -> f64 {
        match c.below(64) {
            0 => f64::INFINITY,
            1 => f64::NEG_INFINITY,
            2 => f64::NAN,
            3 => -0.0,
            4..=20 => 0.0,
            21..=40 => c.small(2) as f64,
            _ => c.small(1 << 23) as f64,
        }
    }
    fn val(&self) -> Special { Special(*self) }
    fn zero_val() -> Special { Special(0.0) }
    fn fma(s: Special, a: &Special, b: &Special) -> Special { Special(s.0 + a.0 * b.0) }
}

fn product<T: Num>(a: &[Vec<T::Val>], b: &[Vec<T::Val>], l: usize, n: usize, r: usize) -> Vec<Vec<T::Val>> {
    grid(l, r, &mut |i, j| (0..n).fold(T::zero_val(), |s, k| T::fma(s, &a[i][k], &b[k][j])))
}
fn vals<T: Num>(r: usize, k: usize, f: &mut dyn FnMut(usize, usize) -> T::Val) -> Vec<Vec<T::Val>> { grid(r, k, f) }
fn operands<T: Num>(c: &mut Case, r: usize, k: usize) -> Vec<Vec<T>> { grid(r, k, &mut |_, _| T::operand(c)) }
fn values<T: Num>(g: &[Vec<T>]) -> Vec<Vec<T::Val>> { g.iter().map(|r| r.iter().map(|x| x.val()).collect()).collect() }

const FORMS: [&str; 8] = ["a * b", "a * &b", "&a * b", "&a * &b", "a *= b", "m * v", "m * &v", "&a * &a"];

fn judge<T: Num>(c: &mut Case, form: usize, (l, n, r): (usize, usize, usize), a: &[Vec<T::Val>], b: &[Vec<T::Val>], got: Vec<Vec<T::Val>>,
    after: [Option<Vec<Vec<T::Val>>>; 2]) -> R {
    c.label(FORMS[form]);
    c.nontrivial_if(l > 0 && r > 0 && n > 1);
    c.note(|| format!("{} ({}x{} by {}x{}) of {:?} and {:?}", FORMS[form], l, n, n, r, a, b));
    ensure_eq!(got, product::<T>(a, b, l, n, r), "{} ({}x{} by {}x{}) of {:?} and {:?}", FORMS[form], l, n, n, r, a, b);
    let [x, y] = after;
    if let Some(x) = x { ensure_eq!(x, a, "{}: left operand afterwards", FORMS[form]) }
    if let Some(y) = y { ensure_eq!(y, b, "{}: right operand afterwards", FORMS[form]) }
    track::check()
}

fn mvals<T: Num, Ro: ArrayLen<Vector<T, Co>>, Co: ArrayLen<T>>(m: &Matrix<T, Ro, Co>) -> Vec<Vec<T::Val>> {
    vals::<T>(Ro::to_usize(), Co::to_usize(), &mut |i, j| m[(i, j)].val())
}

fn triple<T: Num, Lr, N, Rc>(c: &mut Case) -> R
where Lr: ArrayLen<Vector<T, N>> + ArrayLen<Vector<T, Rc>>, N: ArrayLen<T> + ArrayLen<Vector<T, Rc>>, Rc: ArrayLen<T> {
    track::reset();
    let (l, n, r) = (<Lr as typenum::Unsigned>::to_usize(), <N as typenum::Unsigned>::to_usize(), Rc::to_usize());
    let (la, lb) = (operands::<T>(c, l, n), operands::<T>(c, n, r));
    let (ka, kb) = (values(&la), values(&lb));
    let a: Matrix<T, Lr, N> = mof(la);
    let b: Matrix<T, N, Rc> = mof(lb);
    let form = c.index(4);
    let mut after = [None, None];
    let got: Matrix<T, Lr, Rc> = match form {
        0 => a * b,
        1 => { let g = a * &b; after[1] = Some(mvals(&b)); g }
        2 => { let g = &a * b; after[0] = Some(mvals(&a)); g }
        _ => { let g = &a * &b; after = [Some(mvals(&a)), Some(mvals(&b))]; g }
    };
    judge::<T>(c, form, (l, n, r), &ka, &kb, mvals(&got), after)
}

fn square<T: Num, N: ArrayLen<T> + ArrayLen<Vector<T, N>>>(c: &mut Case) -> R {
    track::reset();
    let n = <N as typenum::Unsigned>::to_usize();
    let (la, lb) = (operands::<T>(c, n, n), operands::<T>(c, n, n));
    let (ka, kb) = (values(&la), values(&lb));
    let mut a: Matrix<T, N, N> = mof(la);
    if c.chance(1, 6) {
        // one object on both sides
        let g = &a * &a;
        judge::<T>(c, 7, (n, n, n), &ka, &ka, mvals(&g), [Some(mvals(&a)), None])
    } else if c.chance(1, 4) {
        // by itself
        let b = a.clone();
        a *= b;
        judge::<T>(c, 4, (n, n, n), &ka, &ka, mvals(&a), [None, None])
    } else {
        a *= mof::<T, N, N>(lb);
        judge::<T>(c, 4, (n, n, n), &ka, &kb, mvals(&a), [None, None])
    }
}

fn vector<T: Num, Ro, Co>(c: &mut Case) -> R
where Ro: ArrayLen<Vector<T, Co>> + ArrayLen<T>, Co: ArrayLen<T> {
    track::reset();
    let (r, k) = (<Ro as typenum::Unsigned>::to_usize(), Co::to_usize());
    let (la, lb) = (operands::<T>(c, r, k), operands::<T>(c, k, 1));
    let (ka, kb) = (values(&la), values(&lb));
    let a: Matrix<T, Ro, Co> = mof(la);
    let v: Vector<T, Co> = vof(lb.into_iter().flatten().collect());
    let (form, got, after): (usize, Vector<T, Ro>, _) = if c.bool() { (5, a * v, None) } else {
        let g = a * &v;
        (6, g, Some(vals::<T>(k, 1, &mut |i, _| v.as_slice()[i].val())))
    };
    judge::<T>(c, form, (r, k, 1), &ka, &kb, vals::<T>(r, 1, &mut |i, _| got.as_slice()[i].val()), [None, after])
}

fn main() {
    type E = Bare<Ring>;
    type F = Tk<Ring>;
    let mut u = Units::default();
    u.add_all("product", 40, dims_products!(triple, E));
    u.add_all("product of tracked", 40, dims_small_triples!(triple, F));
    u.add_all("product f64", 40, dims_small_triples!(triple, f64));
    u.add_all("assigning product", 40, dims_n!(square, E));
    u.add_all("assigning product u16", 40, dims_few!(square, u16));
    u.add_all("assigning product f32", 40, dims_few!(square, f32));
    u.add_all("assigning product u128", 40, dims_few!(square, u128));
    u.add_all("matrix by vector", 40, dims_shapes!(vector, E));
    u.add_all("matrix by vector, tracked", 40, dims_small_pairs!(vector, F));
    u.add_all("matrix by vector i32", 40, dims_small_pairs!(vector, i32));
    u.add_all("assigning product f64", 40, dims_few!(square, f64));
    u.add_all("matrix by vector f64", 40, dims_small_pairs!(vector, f64));
    u.add_all("matrix by vector i64", 40, dims_small_pairs!(vector, i64));
    kit::main(u)
}
