use harness::*;
use kit::track::{self, Op, Payload, Sym, Tk};

type E = Tk<Sym>;
type G = Vec<Vec<Sym>>;

enum Want { Zip(Op), All(Op), Neg, WithSelf(Op) }

fn want(w: &Want, a: &G, b: &G, s: Sym) -> G {
    grid(a.len(), if a.len() == 0 { 0 } else { a[0].len() }, &mut |i, j| match *w {
        Want::Zip(op) => Sym::bin(op, a[i][j], b[i][j]),
        Want::All(op) => Sym::bin(op, a[i][j], s),
        Want::Neg => Sym::neg(a[i][j]),
        Want::WithSelf(op) => Sym::bin(op, a[i][j], a[i][j]),
    })
}
fn judge(c: &mut Case, what: &'static str, w: Want, a: &G, b: &G, s: Sym, got: G, after: (Option<G>, Option<G>)) -> R {
    c.label(what);
    c.nontrivial_if(a.len() > 0 && a.len() * a[0].len() > 1);
    c.note(|| format!("{} of {:?} and {:?}, s = {:?}", what, a, b, s));
    ensure_eq!(got, want(&w, a, b, s), "{} of {:?} and {:?}, s = {:?}", what, a, b, s);
    if let Some(x) = after.0 { ensure_eq!(x, *a, "{}: left operand afterwards", what) }
    if let Some(x) = after.1 { ensure_eq!(x, *b, "{}: right operand afterwards", what) }
    track::check()
}


struct Got(&'static str, Want, G, Option<G>, Option<G>);

fn unit<Ro: ArrayLen<Vector<E, Co>>, Co: ArrayLen<E>>(c: &mut Case) -> R {
    track::reset();
    let (mut a, b): (Matrix<E, Ro, Co>, Matrix<E, Ro, Co>) = (mgen(c), mgen(c));
    let (ka, kb) = (mkeys(&a), mkeys(&b));
    let s = E::gen(c);
    let ks = s.get();
    let g = |what, w, m: Matrix<E, Ro, Co>, a: Option<&Matrix<E, Ro, Co>>, b: Option<&Matrix<E, Ro, Co>>| Got(what, w, mkeys(&m), a.map(mkeys), b.map(mkeys));
    let r = match c.below(19) {
        0 => g("&a + b", Want::Zip(Op::Add), &a + b, Some(&a), None),
        1 => g("a + &b", Want::Zip(Op::Add), a + &b, None, Some(&b)),
        2 => g("&a + &b", Want::Zip(Op::Add), &a + &b, Some(&a), Some(&b)),
        3 => g("&a - b", Want::Zip(Op::Sub), &a - b, Some(&a), None),
        4 => g("a - &b", Want::Zip(Op::Sub), a - &b, None, Some(&b)),
        5 => g("&a - &b", Want::Zip(Op::Sub), &a - &b, Some(&a), Some(&b)),
        6 => g("&a - &a", Want::WithSelf(Op::Sub), &a - &a, Some(&a), None),
        17 => g("&a + &a", Want::WithSelf(Op::Add), &a + &a, Some(&a), None),
        7 => { a += b; g("a += b", Want::Zip(Op::Add), a, None, None) }
        8 => { a -= b; g("a -= b", Want::Zip(Op::Sub), a, None, None) }
        9 => { a *= s; g("a *= s", Want::All(Op::Mul), a, None, None) }
        10 => { a /= s; g("a /= s", Want::All(Op::Div), a, None, None) }
        11 => g("a * s", Want::All(Op::Mul), a * s, None, None),
        12 => g("a * &s", Want::All(Op::Mul), a * &s, None, None),
        13 => g("a / s", Want::All(Op::Div), a / s, None, None),
        14 => g("a / &s", Want::All(Op::Div), a / &s, None, None),
        15 => g("-a", Want::Neg, -a, None, None),
        16 => g("a + b", Want::Zip(Op::Add), a + b, None, None),
        _ => g("a - b", Want::Zip(Op::Sub), a - b, None, None),
    };
    judge(c, r.0, r.1, &ka, &kb, ks, r.2, (r.3, r.4))
}

fn main() {
    let mut u = Units::default();
    u.add_all("same type", 100, dims_shapes!(unit));
    kit::main(u)
}
