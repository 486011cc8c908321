use harness::*;
use kit::track::{self, Op, Payload, Sym, Tk};
use std::ops::*;

type E = Tk<Sym>;
type G = Vec<Vec<Sym>>;

#[derive(Debug, PartialEq)]
struct B(E);
impl Clone for B { fn clone(&self) -> B { B(self.0.clone()) } }
impl Elem for B { type Key = Sym; fn gen(c: &mut Case) -> B { B(E::gen(c)) } fn key(&self) -> Sym { self.0.key() } }
fn mixval(op: Op, a: Sym, b: Sym) -> Sym { Sym::bin(op, Sym(a.0 ^ 5 << 40), b) }
#[derive(Debug, PartialEq)]
struct A(E);
impl Clone for A { fn clone(&self) -> A { A(self.0.clone()) } }
impl Elem for A { type Key = Sym; fn gen(c: &mut Case) -> A { A(E::gen(c)) } fn key(&self) -> Sym { self.0.key() } }
impl AddAssign<B> for A { fn add_assign(&mut self, b: B) { self.0 = Tk::new(mixval(Op::Add, self.0.get(), b.0.get())) } }
impl SubAssign<B> for A { fn sub_assign(&mut self, b: B) { self.0 = Tk::new(mixval(Op::Sub, self.0.get(), b.0.get())) } }
/// An output type that differs from the operand type.
#[derive(Debug, PartialEq)]
struct O(E);
impl Clone for O { fn clone(&self) -> O { O(self.0.clone()) } }
impl Elem for O { type Key = Sym; fn gen(c: &mut Case) -> O { O(E::gen(c)) } fn key(&self) -> Sym { self.0.key() } }
fn other(op: Op, v: u64, a: &A, b: &A) -> O { O(Tk::new(Sym::bin(op, Sym(a.0.get().0 ^ v << 40), b.0.get()))) }
macro_rules! ops { ($($t:ident $f:ident;)*) => { $(
    impl $t<A> for A { type Output = O; fn $f(self, b: A) -> O { other(Op::$t, 0, &self, &b) } }
    impl<'a> $t<&'a A> for A { type Output = O; fn $f(self, b: &'a A) -> O { other(Op::$t, 1, &self, b) } }
    impl<'a> $t<A> for &'a A { type Output = O; fn $f(self, b: A) -> O { other(Op::$t, 2, self, &b) } }
    impl<'a, 'b> $t<&'a A> for &'b A { type Output = O; fn $f(self, b: &'a A) -> O { other(Op::$t, 3, self, b) } }
)* } }
ops! { Add add; Sub sub; }
impl Neg for A { type Output = O; fn neg(self) -> O { O(Tk::new(Sym::neg(self.0.get()))) } }

enum Want { Neg, Mixed(Op), Var(Op, u64) }

fn want(w: &Want, a: &G, b: &G) -> G {
    grid(a.len(), if a.len() == 0 { 0 } else { a[0].len() }, &mut |i, j| match *w {
        Want::Neg => Sym::neg(a[i][j]),
        Want::Mixed(op) => mixval(op, a[i][j], b[i][j]),
        Want::Var(op, v) => Sym::bin(op, Sym(a[i][j].0 ^ v << 40), b[i][j]),
    })
}
fn judge(c: &mut Case, what: &'static str, w: Want, a: &G, b: &G, s: Sym, got: G, after: (Option<G>, Option<G>)) -> R {
    c.label(what);
    c.nontrivial_if(a.len() > 0 && a.len() * a[0].len() > 1);
    c.note(|| format!("{} of {:?} and {:?}, s = {:?}", what, a, b, s));
    ensure_eq!(got, want(&w, a, b), "{} of {:?} and {:?}, s = {:?}", what, a, b, s);
    if let Some(x) = after.0 { ensure_eq!(x, *a, "{}: left operand afterwards", what) }
    if let Some(x) = after.1 { ensure_eq!(x, *b, "{}: right operand afterwards", what) }
    track::check()
}


struct Got(&'static str, Want, G, Option<G>, Option<G>);

fn mixed<Ro, Co>(c: &mut Case) -> R
where Ro: ArrayLen<Vector<A, Co>> + ArrayLen<Vector<B, Co>> + ArrayLen<Vector<O, Co>>, Co: ArrayLen<A> + ArrayLen<B> + ArrayLen<O> {
    track::reset();
    let mut a: Matrix<A, Ro, Co> = mgen(c);
    let b: Matrix<B, Ro, Co> = mgen(c);
    let a2: Matrix<A, Ro, Co> = mgen(c);
    let (ka, kb, k2) = (mkeys(&a), mkeys(&b), mkeys(&a2));
    let g = |what, w, m: Matrix<O, Ro, Co>, a: Option<&Matrix<A, Ro, Co>>, b: Option<&Matrix<A, Ro, Co>>| Got(what, w, mkeys(&m), a.map(mkeys), b.map(mkeys));
    let op = c.below(11);
    let r = match op {
        0 => { a += b; Got("A a += B b", Want::Mixed(Op::Add), mkeys(&a), None, None) }
        1 => { a -= b; Got("A a -= B b", Want::Mixed(Op::Sub), mkeys(&a), None, None) }
        2 => g("A a + A b", Want::Var(Op::Add, 0), a + a2, None, None),
        3 => g("A a + A &b", Want::Var(Op::Add, 1), a + &a2, None, Some(&a2)),
        4 => g("A &a + A b", Want::Var(Op::Add, 2), &a + a2, Some(&a), None),
        5 => g("A &a + A &b", Want::Var(Op::Add, 3), &a + &a2, Some(&a), Some(&a2)),
        6 => g("A a - A b", Want::Var(Op::Sub, 0), a - a2, None, None),
        7 => g("A a - A &b", Want::Var(Op::Sub, 1), a - &a2, None, Some(&a2)),
        8 => g("A &a - A b", Want::Var(Op::Sub, 2), &a - a2, Some(&a), None),
        9 => g("A &a - A &b", Want::Var(Op::Sub, 3), &a - &a2, Some(&a), Some(&a2)),
        _ => g("-A a", Want::Neg, -a, None, None),
    };
    judge(c, r.0, r.1, &ka, if op < 2 { &kb } else { &k2 }, Sym(0), r.2, (r.3, r.4))
}

fn num_judge(c: &mut Case, op: u64, form: u64, a: &[Vec<f64>], b: &[Vec<f64>], s: f64, got: Vec<Vec<f64>>) -> R {
    c.nontrivial_if(a.len() > 0 && a.len() * a[0].len() > 1);
    let canon = |x: f64| if x.is_nan() { 1 << 63 | 1 } else { x.to_bits() };
    let want = grid(a.len(), if a.len() == 0 { 0 } else { a[0].len() }, &mut |i, j| canon(match op {
        0 => a[i][j] + b[i][j],
        1 => a[i][j] - b[i][j],
        2 => a[i][j] * s,
        3 => a[i][j] / s,
        _ => -a[i][j],
    }));
    let got: Vec<Vec<u64>> = got.iter().map(|r| r.iter().map(|x| canon(*x)).collect()).collect();
    ensure_eq!(got, want, "f64 op {} form {} of {:?} and {:?} / {:?}", op, form, a, b, s);
    Ok(())
}

fn nums<Ro: ArrayLen<Vector<f64, Co>>, Co: ArrayLen<f64>>(c: &mut Case) -> R {
    let (r, k) = (Ro::to_usize(), Co::to_usize());
    let (la, lb) = (grid(r, k, &mut |_, _| c.float()), grid(r, k, &mut |_, _| c.float()));
    let s = c.float();
    let (mut a, b): (Matrix<f64, Ro, Co>, Matrix<f64, Ro, Co>) = (mof(la.clone()), mof(lb.clone()));
    let (op, form) = (c.below(5), c.below(5));
    let got = match (op, form) {
        (0, 0) => a + b,
        (0, 1) => &a + b,
        (0, 2) => a + &b,
        (0, 3) => &a + &b,
        (0, _) => { a += b; a }
        (1, 0) => a - b,
        (1, 1) => &a - b,
        (1, 2) => a - &b,
        (1, 3) => &a - &b,
        (1, _) => { a -= b; a }
        (2, 0) => a * s,
        (2, 1) | (2, 2) => a * &s,
        (2, _) => { a *= s; a }
        (3, 0) => a / s,
        (3, 1) | (3, 2) => a / &s,
        (3, _) => { a /= s; a }
        _ => -a,
    };
    num_judge(c, op, form, &la, &lb, s, grid(r, k, &mut |i, j| got[(i, j)]))
}

fn main() {
    let mut u = Units::default();
    u.add_all("mixed types", 100, dims_few_pairs!(mixed));
    u.add_all("f64", 60, dims_few_pairs!(nums));
    kit::main(u)
}
