use approx::ApproxEq;
use harness::*;
use kit::track::{self, Int, Tk};
use std::fmt::Debug;
use typenum::Unsigned;

/// Left and right element types of a mixed comparison; the relation is neither symmetric nor an equality of values.
#[derive(Clone, Debug)]
struct L(i64);
#[derive(Clone, Debug)]
struct Rt(u32);
impl PartialEq<Rt> for L { fn eq(&self, o: &Rt) -> bool { self.0.rem_euclid(5) == (o.0 % 7) as i64 } }
impl PartialEq<L> for Rt { fn eq(&self, o: &L) -> bool { (self.0 % 3) as i64 == o.0.rem_euclid(4) } }
/// Never equal to anything, not even itself.
#[derive(Clone, Debug)]
struct Never(u8);
impl PartialEq for Never { fn eq(&self, _: &Never) -> bool { false } }
/// Equality looks at a part of the value only.
#[derive(Clone, Copy, Debug)]
struct Part { seen: i16, hidden: u16 }
impl PartialEq for Part { fn eq(&self, o: &Part) -> bool { self.seen == o.seen } }

/// Pairs of element types: `gen` draws a left element, `partner` a right one that is related to it or not as asked
/// (as far as the types allow).
trait Pair: 'static {
    type A: PartialEq<Self::B> + Debug + 'static;
    type B: Debug + 'static;
    fn gen(c: &mut Case) -> Self::A;
    fn partner(c: &mut Case, a: &Self::A, related: bool) -> Self::B;
}
macro_rules! pairs { ($($n:ident $a:ty, $b:ty: |$c:ident| $g:expr, |$d:ident, $x:ident, $r:ident| $p:expr;)*) => { $(
    struct $n;
    impl Pair for $n {
        type A = $a; type B = $b;
        fn gen($c: &mut Case) -> $a { $g }
        fn partner($d: &mut Case, $x: &$a, $r: bool) -> $b { $p }
    } )* } }
pairs! {
    PInt i64, i64: |c| c.int(), |c, x, r| if r { *x } else { x.wrapping_add(*c.pick(&[1, -1, 256, 1 << 32, i64::MIN])) };
    PU8 u8, u8: |c| c.below(256) as u8, |c, x, r| if r { *x } else { x ^ *c.pick(&[1u8, 128, 255]) };
    PF f64, f64: |c| c.float(), |c, x, r| if r { if *x == 0.0 && c.bool() { -*x } else { *x } } else { *c.pick(&[f64::from_bits(x.to_bits() ^ 1), -*x, f64::NAN]) };
    PStr String, String: |c| <String as Elem>::gen(c), |_c, x, r| if r { x.clone() } else { format!("{}.", x) };
    PMixStr String, &'static str: |c| c.pick(&["a", "b", "", "cc"]).to_string(), |c, x, r| if r { ["a", "b", "", "cc"].iter().find(|y| **y == x.as_str()).unwrap() } else { *c.pick(&["a ", "x", "c"]) };
    PTk Tk<Int>, Tk<Int>: |c| Tk::gen(c), |c, x, r| Tk::new(Int(if r { x.get().0 } else { x.get().0.wrapping_add(1 + c.small(3).abs()) }));
    PMix L, Rt: |c| L(c.int()), |c, x, r| { let w = x.0.rem_euclid(5) as u32; Rt(c.below(1000) as u32 * 7 + if r { w } else { (w + 1 + c.below(6) as u32) % 7 }) };
    PMixBack Rt, L: |c| Rt(c.below(1 << 30) as u32), |c, x, r| { let w = (x.0 % 3) as i64; L(c.small(1000) * 4 + if r { w } else { (w + 1 + c.below(3) as i64) % 4 }) };
    PNever Never, Never: |c| Never(c.below(9) as u8), |_c, x, _r| Never(x.0);
    PPart Part, Part: |c| Part { seen: c.small(3) as i16, hidden: c.below(1 << 16) as u16 }, |c, x, r| Part { seen: if r { x.seen } else { x.seen + 1 }, hidden: if r { c.below(1 << 16) as u16 } else { x.hidden } };
    PUnit (), (): |_c| (), |_c, _x, _r| ();
}

/// Positions whose pair is unrelated: mostly none or a single one, anywhere.
fn odd_ones(c: &mut Case, n: usize) -> Vec<bool> {
    let mut m = vec![false; n];
    if n > 0 {
        match c.below(6) {
            0 | 1 => (),
            2 | 3 | 4 => { let i = c.index(n); m[i] = true }
            _ => for _ in 0..1 + c.below(5) { let i = c.index(n); m[i] = true },
        }
    }
    m
}
fn sides<P: Pair>(c: &mut Case, n: usize) -> (Vec<P::A>, Vec<P::B>, bool) {
    let odd = odd_ones(c, n);
    let a: Vec<P::A> = list(n, &mut |_| P::gen(c));
    let b: Vec<P::B> = list(n, &mut |i| P::partner(c, &a[i], !odd[i]));
    let want = a.iter().zip(&b).all(|(x, y)| x == y);
    (a, b, want)
}
fn eq_judge(c: &mut Case, what: &str, n: usize, a: &dyn Debug, b: &dyn Debug, want: bool, got: bool, ne: bool) -> R {
    c.nontrivial_if(n > 1);
    c.label(if want { "equal" } else { "different" });
    c.note(|| format!("{} {:?} == {:?}: {}", what, a, b, want));
    ensure_eq!(got, want, "{} {:?} == {:?}", what, a, b);
    ensure_eq!(ne, !want, "{} {:?} != {:?}", what, a, b);
    Ok(())
}
fn vec_eq<P: Pair, N: ArrayLen<P::A> + ArrayLen<P::B>>(c: &mut Case) -> R {
    track::reset();
    let n = <N as Unsigned>::to_usize();
    {
        let (a, b, want) = sides::<P>(c, n);
        let (da, db) = if c.want_note { (format!("{:?}", a), format!("{:?}", b)) } else { Default::default() };
        let (a, b): (Vector<P::A, N>, Vector<P::B, N>) = (vof(a), vof(b));
        eq_judge(c, "vectors", n, &da, &db, want, a == b, a != b).map_err(|e| format!("{} ({:?} and {:?})", e, a.as_slice(), b.as_slice()))?;
    }
    track::finish(false)
}
fn rows<T>(v: Vec<T>, r: usize, k: usize) -> Vec<Vec<T>> {
    let mut it = v.into_iter();
    grid(r, k, &mut |_, _| it.next().unwrap())
}
fn mat_eq<P: Pair<A = T, B = T>, T: PartialEq + Debug + 'static, Ro: ArrayLen<Vector<T, Co>>, Co: ArrayLen<T>>(c: &mut Case) -> R {
    track::reset();
    let (r, k) = (Ro::to_usize(), Co::to_usize());
    {
        let (a, b, want) = sides::<P>(c, r * k);
        let (da, db) = (format!("{:?}", a), format!("{:?}", b));
        let (a, b): (Matrix<T, Ro, Co>, Matrix<T, Ro, Co>) = (mof(rows(a, r, k)), mof(rows(b, r, k)));
        eq_judge(c, "matrices", r * k, &da, &db, want, a == b, a != b)?;
        let want = a.rows_iter_ref().all(|row| row.iter().all(|x| x == x));
        eq_judge(c, "a matrix and itself", r * k, &da, &"itself", want, a == a, a != a)?;
    }
    track::finish(false)
}
/// One object on both sides: it need not be equal to itself.
fn vec_self<P: Pair<A = T>, T: PartialEq + Debug + 'static, N: ArrayLen<T>>(c: &mut Case) -> R {
    track::reset();
    let n = <N as Unsigned>::to_usize();
    {
        let a: Vector<T, N> = vof(list(n, &mut |_| P::gen(c)));
        let want = a.iter().all(|x| x == x);
        let da = if c.want_note { format!("{:?}", a.as_slice()) } else { String::new() };
        eq_judge(c, "a vector and itself", n, &da, &"itself", want, a == a, a != a)?;
    }
    track::finish(false)
}
fn vself_f<N: ArrayLen<f64>>(c: &mut Case) -> R { vec_self::<PF, f64, N>(c) }
fn vself_never<N: ArrayLen<Never>>(c: &mut Case) -> R { vec_self::<PNever, Never, N>(c) }
fn vself_tk<N: ArrayLen<Tk<Int>>>(c: &mut Case) -> R { vec_self::<PTk, Tk<Int>, N>(c) }
macro_rules! alias { ($($n:ident $p:ty, $t:ty;)*) => { $( fn $n<Ro: ArrayLen<Vector<$t, Co>>, Co: ArrayLen<$t>>(c: &mut Case) -> R { mat_eq::<$p, $t, Ro, Co>(c) } )* } }
alias! { meq_int PInt, i64; meq_tk PTk, Tk<Int>; meq_f PF, f64; meq_str PStr, String; meq_part PPart, Part; meq_never PNever, Never; meq_u8 PU8, u8; }
macro_rules! valias { ($($n:ident $p:ty;)*) => { $( fn $n<N: ArrayLen<<$p as Pair>::A> + ArrayLen<<$p as Pair>::B>>(c: &mut Case) -> R { vec_eq::<$p, N>(c) } )* } }
valias! { veq_int PInt; veq_u8 PU8; veq_f PF; veq_str PStr; veq_mixstr PMixStr; veq_tk PTk; veq_mix PMix; veq_mixback PMixBack; veq_never PNever; veq_part PPart; veq_unit PUnit; }

/// Clones: same elements, and neither sees changes of the other.
fn clone_judge<K: PartialEq + Clone + Debug>(model: &[K], fresh: Vec<K>, orig: Vec<K>, orig_after: Vec<K>, clone_after: Vec<K>, p: Option<usize>, new: &K, which: bool) -> R {
    ensure_eq!(fresh, model, "clone of {:?}", model);
    ensure_eq!(orig, model, "{:?} after being cloned", model);
    let mut m = model.to_vec();
    if let Some(p) = p { m[p] = new.clone(); }
    let (w, o) = if which { (&clone_after, &orig_after) } else { (&orig_after, &clone_after) };
    ensure_eq!(*w, m, "writing element {:?} of {}", p, if which { "the clone" } else { "the original" });
    ensure_eq!(*o, model, "the other one after writing element {:?} of {}", p, if which { "the clone" } else { "the original" });
    Ok(())
}
fn vec_clone<T: Elem, N: ArrayLen<T>>(c: &mut Case) -> R {
    track::reset();
    let n = N::to_usize();
    {
        let mut a: Vector<T, N> = vgen(c);
        let model = vkeys(&a);
        let from = c.bool();
        let mut b = if from { let mut b: Vector<T, N> = vgen(c); b.clone_from(&a); b } else { a.clone() };
        let (fresh, orig) = (vkeys(&b), vkeys(&a));
        let x = T::gen(c);
        let kx = x.key();
        let (p, which) = (if n > 0 { Some(c.index(n)) } else { None }, c.bool());
        if let Some(p) = p { if which { b[p] = x } else { a[p] = x } }
        clone_judge(&model, fresh, orig, vkeys(&a), vkeys(&b), p, &kx, which)?;
        let want = if which { vkeys(&b) } else { vkeys(&a) };
        let left = if which { drop(a); vkeys(&b) } else { drop(b); vkeys(&a) };
        ensure_eq!(left, want, "one copy after the other is gone");
        c.nontrivial_if(n > 1);
        c.note(|| format!("cloning {:?} and writing element {:?} of {}", model, p, if which { "the clone" } else { "the original" }));
    }
    track::finish(false)
}
fn mat_clone<T: Elem, Ro: ArrayLen<Vector<T, Co>>, Co: ArrayLen<T>>(c: &mut Case) -> R {
    track::reset();
    let (r, k) = (Ro::to_usize(), Co::to_usize());
    {
        let mut a: Matrix<T, Ro, Co> = mgen(c);
        let flat = |m: &Matrix<T, Ro, Co>| -> Vec<T::Key> { mkeys(m).into_iter().flatten().collect() };
        let model = flat(&a);
        let from = c.bool();
        let mut b = if from { let mut b: Matrix<T, Ro, Co> = mgen(c); b.clone_from(&a); b } else { a.clone() };
        let (fresh, orig) = (flat(&b), flat(&a));
        let x = T::gen(c);
        let kx = x.key();
        let (p, which) = (if r * k > 0 { Some(c.index(r * k)) } else { None }, c.bool());
        if let Some(p) = p { let ij = (p / k, p % k); if which { b[ij] = x } else { a[ij] = x } }
        clone_judge(&model, fresh, orig, flat(&a), flat(&b), p, &kx, which)?;
        let want = if which { flat(&b) } else { flat(&a) };
        let left = if which { drop(a); flat(&b) } else { drop(b); flat(&a) };
        ensure_eq!(left, want, "one copy after the other is gone");
        c.nontrivial_if(r * k > 1);
        c.note(|| format!("cloning {}x{} {:?} and writing entry {:?} of {}", r, k, model, p, if which { "the clone" } else { "the original" }));
    }
    track::finish(false)
}

/// An element type with tolerances of its own (not `Copy`) and defaults unlike any float's.
#[derive(Clone, Debug)]
struct Ap(i64);
#[derive(Clone, Debug, PartialEq)]
struct Tol(Box<i64>);
impl ApproxEq for Ap {
    type Epsilon = Tol;
    fn default_epsilon() -> Tol { Tol(Box::new(3)) }
    fn default_max_relative() -> Tol { Tol(Box::new(11)) }
    fn default_max_ulps() -> u32 { 17 }
    fn relative_eq(&self, o: &Ap, e: Tol, m: Tol) -> bool { let d = (self.0 - o.0).abs(); d <= *e.0 || (d % 32 == 0 && d <= 32 * *m.0) }
    fn ulps_eq(&self, o: &Ap, e: Tol, u: u32) -> bool { let d = (self.0 - o.0).abs(); d <= *e.0 || (d % 64 == 0 && d <= 64 * u as i64) }
}
trait Close: ApproxEq + Clone + Debug + 'static where Self::Epsilon: Clone + PartialEq + Debug {
    fn gen(c: &mut Case) -> Self;
    fn near(&self, c: &mut Case, far: bool) -> Self;
    fn tol(c: &mut Case) -> Self::Epsilon;
}
impl Close for Ap {
    fn gen(c: &mut Case) -> Ap { Ap(c.small(100000)) }
    fn near(&self, c: &mut Case, far: bool) -> Ap {
        let d = if far { *c.pick(&[4, 12, 18, 13 * 32, 18 * 64, 5, 33, 999]) } else { *c.pick(&[0, 0, 1, 2, 3, 32, 64, 11 * 32, 17 * 64]) };
        Ap(self.0 + if c.bool() { d } else { -d })
    }
    fn tol(c: &mut Case) -> Tol { Tol(Box::new(*c.pick(&[3, 0, 11, 1, 17, 5, 100]))) }
}
macro_rules! close_float { ($t:ident, $u:ident) => {
    impl Close for $t {
        fn gen(c: &mut Case) -> $t { c.float() as $t }
        fn near(&self, c: &mut Case, far: bool) -> $t {
            let x = *self;
            if !x.is_finite() { return if far { *c.pick(&[0.0, $t::INFINITY, $t::NEG_INFINITY, $t::NAN, 1.0]) } else { x } }
            let step = |k: u64| { let b = x.to_bits(); let y = $t::from_bits(if c_bool(k) { b.wrapping_add(k as $u) } else { b.wrapping_sub(k as $u) }); if y.is_nan() { x } else { y } };
            if far { match c.below(5) { 0 => -x, 1 => x * 1.001 + 0.001, 2 => x + 1.0, 3 => step(5 + c.below(40)), _ => *c.pick(&[$t::NAN, $t::INFINITY, 0.0]) } }
            else { match c.below(4) { 0 | 1 => x, 2 => step(c.below(5)), _ => x + $t::EPSILON / 4.0 } }
        }
        fn tol(c: &mut Case) -> $t { match c.below(6) { 0 => $t::EPSILON, 1 => 0.0, 2 => 1e-3, 3 => 1.0, 4 => $t::EPSILON * 64.0, _ => $t::EPSILON / 2.0 } }
    }
} }
fn c_bool(k: u64) -> bool { k & 1 == 0 }
close_float!(f64, u64);
close_float!(f32, u32);

struct Query<E> { kind: u64, eps: E, rel: E, ulps: u32 }
fn query<T: Close>(c: &mut Case) -> Query<T::Epsilon> where T::Epsilon: Clone + PartialEq + Debug {
    Query { kind: c.below(8), eps: T::tol(c), rel: T::tol(c), ulps: *c.pick(&[4, 0, 1, 17, 2, 50, 3, 5]) }
}
fn close_items<T: Close>(c: &mut Case, n: usize) -> (Vec<T>, Vec<T>) where T::Epsilon: Clone + PartialEq + Debug {
    let odd = odd_ones(c, n);
    let same = c.chance(1, 4);
    let a: Vec<T> = list(n, &mut |_| T::gen(c));
    let b = list(n, &mut |i| if same && !odd[i] { a[i].clone() } else { a[i].near(c, odd[i]) });
    (a, b)
}
fn elementwise<T: Close>(q: &Query<T::Epsilon>, a: &[T], b: &[T]) -> bool where T::Epsilon: Clone + PartialEq + Debug {
    a.iter().zip(b).all(|(x, y)| match q.kind {
        0 | 1 => x.relative_eq(y, q.eps.clone(), q.rel.clone()),
        2 | 3 => x.ulps_eq(y, q.eps.clone(), q.ulps),
        4 => x.relative_eq(y, T::default_epsilon(), T::default_max_relative()),
        5 => x.ulps_eq(y, T::default_epsilon(), T::default_max_ulps()),
        6 => x.relative_eq(y, q.eps.clone(), T::default_max_relative()),
        _ => x.ulps_eq(y, T::default_epsilon(), q.ulps),
    })
}
fn approx_judge<T: Close>(c: &mut Case, q: &Query<T::Epsilon>, a: &[T], b: &[T], got: bool) -> R where T::Epsilon: Clone + PartialEq + Debug {
    let want = elementwise(q, a, b);
    c.nontrivial_if(a.len() > 1);
    c.label(if want { "close" } else { "apart" });
    let what = || format!("query {} (eps {:?}, max_relative {:?}, max_ulps {}) of entries {:?} and {:?}", q.kind, q.eps, q.rel, q.ulps, a, b);
    c.note(|| what());
    ensure_eq!(got, want, "approximate equality, {}", what());
    Ok(())
}
fn close<T: Close, Ro: ArrayLen<Vector<T, Co>>, Co: ArrayLen<T>>(c: &mut Case) -> R where T::Epsilon: Clone + PartialEq + Debug {
    let (r, k) = (Ro::to_usize(), Co::to_usize());
    let (a, b) = close_items::<T>(c, r * k);
    let q = query::<T>(c);
    let itself = c.chance(1, 10);
    let b = if itself { a.clone() } else { b };
    let (ma, mb): (Matrix<T, Ro, Co>, Matrix<T, Ro, Co>) = (mof(rows(a.clone(), r, k)), mof(rows(b.clone(), r, k)));
    // one object on both sides: its entries need not be close to themselves
    let mb = if itself { &ma } else { &mb };
    let got = match q.kind {
        0 => ma.relative_eq(mb, q.eps.clone(), q.rel.clone()),
        1 => !ma.relative_ne(mb, q.eps.clone(), q.rel.clone()),
        2 => ma.ulps_eq(mb, q.eps.clone(), q.ulps),
        3 => !ma.ulps_ne(mb, q.eps.clone(), q.ulps),
        4 => approx::Relative::new(&ma, mb).eq(),
        5 => approx::Ulps::new(&ma, mb).eq(),
        6 => approx::Relative::new(&ma, mb).epsilon(q.eps.clone()).eq(),
        _ => approx::Ulps::new(&ma, mb).max_ulps(q.ulps).eq(),
    };
    type M<T, Ro, Co> = Matrix<T, Ro, Co>;
    ensure_eq!(<M<T, Ro, Co> as ApproxEq>::default_epsilon(), T::default_epsilon(), "default epsilon");
    ensure_eq!(<M<T, Ro, Co> as ApproxEq>::default_max_relative(), T::default_max_relative(), "default relative tolerance");
    ensure_eq!(<M<T, Ro, Co> as ApproxEq>::default_max_ulps(), T::default_max_ulps(), "default ulps");
    approx_judge(c, &q, &a, &b, got)
}

fn main() {
    let mut u = Units::default();
    u.add_all("== i64", 40, kit::dims_n!(veq_int));
    u.add_all("== u8", 20, kit::dims_n!(veq_u8));
    u.add_all("== f64", 40, kit::dims_n!(veq_f));
    u.add_all("== String", 20, kit::dims_n!(veq_str));
    u.add_all("== String/&str", 20, kit::dims_n!(veq_mixstr));
    u.add_all("== Tk", 20, kit::dims_n!(veq_tk));
    u.add_all("== mixed", 40, kit::dims_n!(veq_mix));
    u.add_all("== mixed reversed", 40, kit::dims_n!(veq_mixback));
    u.add_all("== never equal", 5, kit::dims_n!(veq_never));
    u.add_all("same f64", 20, kit::dims_n!(vself_f));
    u.add_all("same never equal", 3, kit::dims_n!(vself_never));
    u.add_all("same Tk", 5, kit::dims_n!(vself_tk));
    u.add_all("== partial", 30, kit::dims_n!(veq_part));
    u.add_all("== ()", 1, kit::dims_n!(veq_unit));
    u.add_all("matrix == i64", 30, dims_shapes!(meq_int));
    u.add_all("matrix == u8", 20, kit::dims_few_pairs!(meq_u8));
    u.add_all("matrix == Tk", 20, kit::dims_few_pairs!(meq_tk));
    u.add_all("matrix == f64", 20, kit::dims_few_pairs!(meq_f));
    u.add_all("matrix == String", 20, kit::dims_small_pairs!(meq_str));
    u.add_all("matrix == partial", 20, kit::dims_few_pairs!(meq_part));
    u.add_all("matrix == never equal", 5, kit::dims_small_pairs!(meq_never));
    type E = Tk<Int>;
    u.add_all("clone Tk", 30, kit::dims_n!(vec_clone, E));
    u.add_all("clone String", 20, kit::dims_n!(vec_clone, String));
    u.add_all("clone f64", 20, kit::dims_n!(vec_clone, f64));
    u.add_all("clone Option<Box>", 20, kit::dims_n!(vec_clone, Option<Box<u32>>));
    u.add_all("matrix clone Tk", 20, dims_shapes!(mat_clone, E));
    u.add_all("matrix clone String", 20, kit::dims_few_pairs!(mat_clone, String));
    u.add_all("matrix clone f32", 20, kit::dims_few_pairs!(mat_clone, f32));
    u.add_all("approximately f64", 40, dims_shapes!(close, f64));
    u.add_all("approximately f32", 40, kit::dims_few_pairs!(close, f32));
    u.add_all("approximately own tolerance", 80, kit::dims_few_pairs!(close, Ap));
    kit::main(u)
}
