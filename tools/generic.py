"""Generated generic programs: which element types an operation is offered for (C26)."""
import os, random
from programs import rustc, parallel, libs

HEAD = """#![allow(warnings)]
extern crate rowcol; extern crate num;
use rowcol::prelude::*;
use rowcol::vector::ArrayLen;
use std::ops::*;
use std::fmt::{Debug, Display};
use std::cmp::Ordering;
use num::{Zero, One, Bounded, Float, Signed, Complex, Num};
fn is_clone<X: Clone>() {} fn is_copy<X: Copy>() {} fn is_default<X: Default>() {} fn is_eq<X: Eq>() {} fn is_debug<X: Debug>() {} fn is_display<X: Display>() {} fn is_zero<X: Zero>() {}
fn is_one<X: One>() {} fn is_bounded<X: Bounded>() {} fn is_partial_eq<X: PartialEq<Y>, Y>() {}
"""


def V(t, n): return "Vector<%s, U%d>" % (t, n)
def M(t, r, c): return "Matrix<%s, U%d, U%d>" % (t, r, c)


# name, type parameters and what is known of them, arguments, body, whether dimensions of zero are allowed.
# {v} is a vector of T, {m} a matrix of T, {s} a square one, {w} a vector of U, {x} a matrix of U, {vO} ... of another type O
OPS = [
    ("hold", "T", "", "a: {v}, b: {m}", "let n = a.len() + b.dim().0; let e = a.is_empty();"),
    ("generate", "T", "", "f: fn(usize) -> T, g: fn((usize, usize)) -> T", "let a: {v} = Vector::generate(f); let b: {m} = Matrix::generate(g);"),
    ("new", "T", "", "a: [T; {n}], b: [[T; {c}]; {r}]", "let v: {v} = Vector::new(a); let m: {m} = Matrix::new(b); let i: [T; {n}] = v.into_inner();"),
    ("read a vector", "T", "", "a: {v}, i: usize", "let x: &T = &a[i]; let y: &[T] = a.as_slice(); let z: &[T] = a.as_ref(); let w = a.iter(); let d: &[T; {n}] = &*a; let q: Option<&T> = a.get(i);"),
    ("write a vector", "T", "", "mut a: {v}, i: usize, x: T", "a[i] = x; let y: &mut [T] = a.as_slice_mut(); let w = a.iter_mut(); let z: &mut [T] = a.as_mut();"),
    ("read a matrix", "T", "", "a: {m}, i: (usize, usize)", "let x: &T = &a[i]; let y = a.rows() + a.cols(); let z = unsafe {{ a.get_unchecked(i) }};"),
    ("write a matrix", "T", "", "mut a: {m}, i: (usize, usize), x: T", "a[i] = x; let z = unsafe {{ a.get_unchecked_mut(i) }};"),
    ("read by type", "T", "", "a: {v1}, m: {m1}", "let x: &T = &a[U0::new()]; let y: &T = &m[(U0::new(), U0::new())];"),
    ("write by type", "T", "", "mut a: {v1}, mut m: {m1}, x: T, y: T", "a[U0::new()] = x; m[(U0::new(), U0::new())] = y;"),
    ("take apart", "T", "", "a: {v}", "let mut i = a.into_iter(); let x: Option<T> = i.next(); let y: Option<T> = i.next_back(); let n = i.len(); let z: Option<T> = i.nth(2); let l: Option<T> = i.last();"),
    ("collect", "T", "", "a: Vec<T>", "let v: {v} = a.into_iter().collect();"),
    ("chunks", "T", "", "a: {v}", "let mut i = a.into_chunks::<U{n1}>(); let x: Option<Vector<T, U{n1}>> = i.next(); let y: Option<Vector<T, U{n1}>> = i.next_back(); let n = i.len();"),
    ("from a vector", "T", "", "a: Vector<T, U{rc}>", "let m: {mrc} = a.into();"),
    ("rows and columns by reference", "T", "", "a: {m}", "let x: Option<&[T]> = a.rows_iter_ref().next_back(); let y: Option<&T> = a.cols_iter_ref().next().unwrap().last(); let n = a.rows_iter_ref().len() + a.cols_iter_ref().len();"),
    ("rows and columns", "T", "T: Clone", "a: {m}", "let x: Option<Vector<T, U{c}>> = a.rows_iter().next(); let y: Option<Vector<T, U{r}>> = a.cols_iter().next_back(); let n = a.rows_iter().len() + a.cols_iter().len();"),
    ("map", "T, O", "", "a: {m}, f: fn((usize, usize), T) -> O", "let b: {mO} = a.map(f);"),
    ("all and any", "T", "", "a: {m}, f: fn((usize, usize), &T) -> bool", "let b = a.all(f) || a.any(f);"),
    ("clone", "T", "T: Clone", "", "is_clone::<{v}>(); is_clone::<{m}>();"),
    ("copy", "T", "T: Copy", "", "is_copy::<{v}>(); is_copy::<{m}>();"),
    ("default", "T", "T: Default", "", "is_default::<{v}>(); is_default::<{m}>();"),
    ("debug", "T", "T: Debug", "", "is_debug::<{v}>(); is_debug::<{m}>();"),
    ("display", "T", "T: Display", "", "is_display::<{m}>();"),
    ("eq", "T", "T: Eq", "", "is_eq::<{v}>(); is_eq::<{m}>();"),
    ("partial eq", "T", "T: PartialEq", "a: {m}, b: {m}", "let x = a == b || a != b;"),
    ("vector partial eq", "T, U", "T: PartialEq<U>", "a: {v}, b: {w}", "let x = a == b || a != b; is_partial_eq::<{v}, {w}>();"),
    ("zero of a vector", "T", "T: Zero + Clone", "a: {v}", "is_zero::<{v0}>(); let z = Zero::is_zero(&a);"),
    ("zero of a matrix", "T", "T: Zero", "a: {m}", "let b: {m} = Zero::zero(); let z = Zero::is_zero(&a); is_zero::<{m}>();"),
    ("bounded", "T", "T: Bounded", "", "is_bounded::<{v}>(); is_bounded::<{m}>();"),
    ("one", "T", "T: Zero + One + Clone", "", "is_one::<{s}>(); let a: {s} = One::one(); "),
    ("identity", "T", "T: Zero + One + Clone", "", "let a: {s} = Matrix::identity();"),
    ("diag", "T", "T: Zero", "a: [T; {min}]", "let m: {m} = Matrix::diag(a);"),
    ("transposed", "T", "T: Clone", "a: {m}", "let b: Matrix<T, U{c}, U{r}> = a.transposed();"),
    ("transpose", "T", "T: Clone", "mut a: {s}", "a.transpose();"),
    ("pow", "T", "T: Zero + One + Clone", "a: {s}", "let b: {s} = a.pow(3);"),
    ("conjugate", "T", "T: Num + Neg<Output = T> + Clone", "a: Matrix<Complex<T>, U{r}, U{c}>", "let b: Matrix<Complex<T>, U{r}, U{c}> = a.conjugate();"),
    ("sum", "T", "T: Zero + Clone", "a: {v}, b: {m}", "let x: T = a.sum(); let y: T = b.sum();"),
    ("dot", "T", "T: Zero + Mul<Output = T> + Clone", "a: {v}, b: {v}", "let x: T = a.dot(&b);"),
    ("cross", "T", "T: Sub<Output = T> + Mul<Output = T> + Clone", "a: Vector<T, U3>, b: Vector<T, U3>", "let x: Vector<T, U3> = a.cross(&b);"),
    ("norm", "T", "T: Float", "a: {v}", "let x: T = a.norm(); let y: {v} = a.normalized();"),
    ("max", "T", "T: Ord + Clone", "a: {v1}, b: {s1}", "let x: [T; 4] = [a.max(), a.min(), b.max(), b.min()];"),
    ("max_by", "T", "T: Clone", "a: {v1}, b: {s1}, f: fn(&T, &T) -> Ordering", "let x: [T; 4] = [a.max_by(f), a.min_by(f), b.max_by(f), b.min_by(f)];"),
    ("clamp", "T", "T: Ord + Clone", "mut a: {v}, mut b: {m}, x: T", "let p: {v} = a.clamped(x.clone(), x.clone()); let q: {m} = b.clamped(x.clone(), x.clone()); a.clamp(x.clone(), x.clone()); b.clamp(x.clone(), x);"),
    ("neg", "T, O", "T: Neg<Output = O>", "a: {v}, b: {m}", "let x: {vO} = -a; let y: {mO} = -b;"),
    ("add", "T, U, O", "T: Add<U, Output = O>", "a: {v}, b: {w}", "let x: {vO} = a + b;"),
    ("sub", "T, U, O", "T: Sub<U, Output = O>", "a: {v}, b: {w}", "let x: {vO} = a - b;"),
    ("add to a reference", "T, U, O", "for<'a> T: Add<&'a U, Output = O>", "a: {v}, b: {w}", "let x: {vO} = a + &b;"),
    ("sub a reference", "T, U, O", "for<'a> T: Sub<&'a U, Output = O>", "a: {v}, b: {w}", "let x: {vO} = a - &b;"),
    ("add to what is borrowed", "T, U, O", "for<'a> &'a T: Add<U, Output = O>", "a: {v}, b: {w}", "let x: {vO} = &a + b;"),
    ("sub from what is borrowed", "T, U, O", "for<'a> &'a T: Sub<U, Output = O>", "a: {v}, b: {w}", "let x: {vO} = &a - b;"),
    ("add borrowed", "T, U, O", "for<'a, 'b> &'a T: Add<&'b U, Output = O>", "a: {v}, b: {w}", "let x: {vO} = &a + &b;"),
    ("sub borrowed", "T, U, O", "for<'a, 'b> &'a T: Sub<&'b U, Output = O>", "a: {v}, b: {w}", "let x: {vO} = &a - &b;"),
    ("add assign", "T, U", "T: AddAssign<U>", "mut a: {v}, b: {w}, mut c: {m}, d: {x}", "a += b; c += d;"),
    ("sub assign", "T, U", "T: SubAssign<U>", "mut a: {v}, b: {w}, mut c: {m}, d: {x}", "a -= b; c -= d;"),
    ("scale", "T, U, O", "T: Mul<U, Output = O>, U: Clone", "a: {v}, b: U", "let x: {vO} = a * b;"),
    ("divide", "T, U, O", "T: Div<U, Output = O>, U: Clone", "a: {v}, b: U", "let x: {vO} = a / b;"),
    ("scale in place", "T, U", "T: MulAssign<U>, U: Clone", "mut a: {v}, b: U", "a *= b;"),
    ("divide in place", "T, U", "T: DivAssign<U>, U: Clone", "mut a: {v}, b: U", "a /= b;"),
    ("matrix add", "T, O", "T: Add<Output = O>", "a: {m}, b: {m}", "let x: {mO} = a + b;"),
    ("matrix sub", "T, O", "T: Sub<Output = O>", "a: {m}, b: {m}", "let x: {mO} = a - b;"),
    ("matrix add a reference", "T, O", "for<'a> T: Add<&'a T, Output = O>", "a: {m}, b: {m}", "let x: {mO} = a + &b;"),
    ("matrix sub borrowed", "T, O", "for<'a, 'b> &'a T: Sub<&'b T, Output = O>", "a: {m}, b: {m}", "let x: {mO} = &a - &b;"),
    ("matrix add borrowed", "T, O", "for<'a, 'b> &'a T: Add<&'b T, Output = O>", "a: {m}, b: {m}", "let x: {mO} = &a + &b;"),
    ("matrix sub from what is borrowed", "T, O", "for<'a> &'a T: Sub<T, Output = O>", "a: {m}, b: {m}", "let x: {mO} = &a - b;"),
    ("matrix scale", "T", "T: Mul<Output = T> + Clone", "a: {m}, b: T", "let x: {m} = a * b;"),
    ("matrix scale by a reference", "T", "for<'a> T: Mul<&'a T, Output = T>", "a: {m}, b: T", "let x: {m} = a * &b;"),
    ("matrix divide", "T", "T: Div<Output = T> + Clone", "a: {m}, b: T", "let x: {m} = a / b;"),
    ("matrix divide by a reference", "T", "for<'a> T: Div<&'a T, Output = T>", "a: {m}, b: T", "let x: {m} = a / &b;"),
    ("matrix scale in place", "T", "T: MulAssign + Clone", "mut a: {m}, b: T", "a *= b;"),
    ("product", "T", "T: Zero + Mul<Output = T> + Clone", "a: {m}, b: Matrix<T, U{c}, U{k}>", "let x: Matrix<T, U{r}, U{k}> = a * b;"),
    ("product with what is borrowed", "T", "for<'a> T: Zero + Mul<&'a T, Output = T> + Clone", "a: {m}, b: Matrix<T, U{c}, U{k}>", "let x: Matrix<T, U{r}, U{k}> = &a * &b; let y: Matrix<T, U{r}, U{k}> = a * &b;"),
    ("product of what is borrowed", "T", "T: Zero + Mul<Output = T> + Clone", "a: {m}, b: Matrix<T, U{c}, U{k}>", "let x: Matrix<T, U{r}, U{k}> = &a * b;"),
    ("product in place", "T", "T: Zero + Mul<Output = T> + Clone", "mut a: {s}, b: {s}", "a *= b;"),
    ("matrix times vector", "T", "T: Zero + Mul<Output = T> + Clone", "a: {m}, b: Vector<T, U{c}>", "let x: Vector<T, U{r}> = a * b;"),
    ("matrix times borrowed vector", "T", "for<'a> T: Zero + Mul<&'a T, Output = T>", "a: {m}, b: Vector<T, U{c}>", "let x: Vector<T, U{r}> = a * &b;"),
    ("determinant 1", "T", "T: Clone", "a: Matrix<T, U1, U1>", "let x: T = a.determinant();"),
    ("determinant 2", "T", "T: Clone + Sub<Output = T> + Mul<Output = T>", "a: Matrix<T, U2, U2>", "let x: T = a.determinant();"),
    ("determinant 3", "T", "T: Clone + Sub<Output = T> + Mul<Output = T> + Add<Output = T>", "a: Matrix<T, U3, U3>", "let x: T = a.determinant();"),
    ("determinant", "T", "T: Clone + Signed", "a: {big}", "let x: T = a.determinant();"),
    ("cofactor", "T", "T: Clone + Signed", "a: {big}, b: Matrix<T, U2, U2>, c: Matrix<T, U3, U3>", "let x: [T; 3] = [a.cofactor((0, 1)), b.cofactor((1, 1)), c.cofactor((2, 0))];"),
    ("inverse 1", "T", "T: Clone + Zero + One + Div<Output = T>", "a: Matrix<T, U1, U1>", "let x: Option<Matrix<T, U1, U1>> = a.inverse();"),
    ("inverse 2", "T", "T: Clone + Zero + Sub<Output = T> + Mul<Output = T> + Div<Output = T> + Neg<Output = T>", "a: Matrix<T, U2, U2>", "let x: Option<Matrix<T, U2, U2>> = a.inverse();"),
    ("inverse 3", "T", "T: Clone + Zero + Sub<Output = T> + Mul<Output = T> + Add<Output = T> + Div<Output = T>", "a: Matrix<T, U3, U3>", "let x: Option<Matrix<T, U3, U3>> = a.inverse();"),
    ("inverse", "T", "T: Clone + Signed", "a: {big}", "let x: Option<{big}> = a.inverse();"),
]

# what a container may have only if its elements do: trait test and an element type without, with
CLAIMS = [("is_eq", ("f64", "f32", "Option<f64>", "(u8, f32)"), ("i32", "String", "()", "char")),
          ("is_copy", ("String", "Vec<u8>", "&'static mut u8"), ("i32", "f64", "&'static str")),
          ("is_clone", ("std::sync::Mutex<u8>", "&'static mut u8", "Box<dyn Fn()>"), ("String", "f32", "Box<u8>")),
          ("is_default", ("&'static u8", "fn()", "Ordering", "std::rc::Weak<u8>, 1 as bad"), ("i32", "String", "Option<f64>")),
          ("is_debug", ("fn(Opaque)", "Opaque", "Option<Opaque>"), ("i32", "String", "f64"))]


class Prog:
    def __init__(s, label, good, text): s.label, s.good, s.text, s.kind = label, good, text, "generic"
    def line(s, i): return s.text.replace("@", "f%d" % i)
    def source(s): return HEAD + s.line(0) + "\n"


# element types to go with generic parameters: nothing is known of them but what the operation needs
def subst(g, params, bounds):
    """The parameters themselves, or something built of them where nothing is needed of it."""
    return {}


def fill(g, text, d):
    t = {"v": V("T", d["n"]), "m": M("T", d["r"], d["c"]), "s": M("T", d["q"], d["q"]), "w": V("U", d["n"]), "x": M("U", d["r"], d["c"]), "vO": V("O", d["n"]), "mO": M("O", d["r"], d["c"]),
         "v0": V("T", d["n"]), "v1": V("T", max(1, d["n"])), "m1": M("T", max(1, d["r"]), max(1, d["c"])), "s1": M("T", max(1, d["q"]), max(1, d["q"])), "big": M("T", max(4, d["q"]), max(4, d["q"])),
         "mrc": M("T", d["a"], d["b"]), "rc": d["a"] * d["b"], "min": min(d["r"], d["c"]), "n1": d["n1"]}
    t.update({k: d[k] for k in "nrck"})
    return text.format(**t)


def dims(g, big):
    z = lambda lo=0: g.choice((g.randint(lo, 4), g.randint(lo, 9), g.randint(lo, 32)))
    n = z()
    b = g.randint(1, 8)
    divs = [k for k in range(1, n + 1) if n % k == 0] or [1]
    return dict(n=n, r=z(), c=z(), k=z(), q=g.randint(4, 10) if big else z(), a=g.randint(0, 32 // b), b=b, n1=g.choice(divs))


def generate(seed, rounds):
    g = random.Random("C26 %d" % seed)
    out = []
    for _ in range(rounds):
        for name, params, where, args, body in OPS:
            d = dims(g, "big" in args)
            ps = [p.strip() for p in params.split(",")]
            # the operands may be the same type, or the result one of them
            sub = {}
            if "U" in ps and g.random() < 0.25: sub["U"] = "T"
            if "O" in ps and g.random() < 0.25: sub["O"] = g.choice(("T", "Vec<T>", "(T, T)", "()", "Box<T>", "String"))
            if not where and g.random() < 0.5: sub["T"] = g.choice(("&'z T", "Option<T>", "Box<T>", "(T, T)", "*const T", "std::rc::Rc<T>", "std::cell::Cell<T>", "fn(T) -> T", "&'z mut T", "Vec<T>", "Box<dyn Fn(T)>", "dyn_"))
            if sub.get("T") == "dyn_": del sub["T"]
            rep = {"lt": ""}

            def s(t):
                import re
                for p, q in sub.items():
                    t = re.sub(r"(?<![A-Za-z0-9_])%s(?![A-Za-z0-9_])" % p, q, t)
                return t
            life = "'z, " if "'z" in "".join(sub.values()) else ""
            where2 = s(where)
            gen = [p for p in ps if p not in sub or p == "T"]
            if "T" in sub and life: where2 = "T: 'z"
            text = "pub fn @<%s%s>(%s) %s{ %s }" % (life, ", ".join(gen), s(fill(g, args, d)), "where %s " % where2 if where2 else "", s(fill(g, body, d)))
            out.append(Prog(name, True, text))
        for test, without, has in CLAIMS:
            n, r, c = g.randint(1, 9), g.randint(1, 9), g.randint(1, 9)
            for ts, good in ((without, False), (has, True)):
                t = g.choice([x for x in ts if " as bad" not in x])
                for ty in (V(t, n), M(t, r, c), V(V(t, n), r), M(V(t, n), r, c)):
                    out.append(Prog("%s of %s" % (test, "what has it" if good else "what has it not"), good, "pub fn @() { %s::<%s>(); }" % (test, ty)))
            w = {"is_eq": "PartialEq", "is_copy": "Clone", "is_clone": "Debug", "is_default": "Clone", "is_debug": "Display"}[test]
            out.append(Prog("%s of what need not have it" % test, False, "pub fn @<T: %s>() { %s::<%s>(); }" % (w, test, g.choice((V("T", n), M("T", r, c))))))
    seen, uniq = set(), []
    for p in out:
        if p.text not in seen:
            seen.add(p.text)
            uniq.append(p)
    return uniq


def judge(ck, p, path):
    ok, errors, raw = rustc(ck, p.source(), path)
    if p.good and not ok:
        return "an operation is not offered although the elements have what it needs: %s: %s" % (p.line(0), "; ".join(m for _, m in errors[:3])[:600])
    if not p.good and ok:
        return "a container claims what its elements do not have: %s" % p.line(0)
    return None


def c26(ck, run, rounds):
    libs(ck)
    uniq = generate(run.seed, rounds)
    size = 80
    groups = {}
    for p in uniq: groups.setdefault(p.good, []).append(p)
    jobs = [ps[i:i + size] for k, ps in sorted(groups.items()) for i in range(0, len(ps), size)]
    first = HEAD.count("\n") + 1

    def batch(j):
        n, ps = j
        ok, errors, raw = rustc(ck, HEAD + "\n".join(p.line(i) for i, p in enumerate(ps)) + "\n", os.path.join(run.work, "b%d.rs" % n), timeout=600)
        hit = {l - first for l, _ in errors}
        if ps[0].good:
            return [] if ok else [p for i, p in enumerate(ps) if i in hit] or ps
        return [p for i, p in enumerate(ps) if i not in hit]
    suspects = [p for r in parallel(batch, list(enumerate(jobs))) for p in r]
    ck.log("%d programs, %d to be compiled on their own" % (len(uniq), len(suspects)))
    by = {}
    for p in suspects: by.setdefault((p.label, p.good), []).append(p)
    # the shortest of each kind first
    suspects = [p for ps in by.values() for p in sorted(ps, key=lambda p: len(p.text))[:8]]

    def alone(j):
        return judge(ck, j[1], os.path.join(run.work, "one%d.rs" % j[0]))
    wrong = [(p, m) for p, m in zip(suspects, parallel(alone, list(enumerate(suspects)))) if m]
    labels = {}
    for p in uniq: labels[p.label] = labels.get(p.label, 0) + 1
    nt = [p for p in uniq if not p.good or "<T>" not in p.text.split("(")[0] or "where" in p.text]
    run.add("rustc", dict(evaluations=len(uniq), nontrivial=len(nt), distinct_nontrivial=len(nt), units=len(labels), labels=labels,
                          samples=["%s: %s" % ("compiles" if p.good else "rejected", p.line(0)) for p in nt[::max(1, len(nt) // 12)]]))
    done = set()
    for p, m in wrong:
        if (p.label, p.good) in done or len(done) >= 6: continue
        done.add((p.label, p.good))
        run.violate(dict(program=True, good=p.good, source=p.source(), unit=p.label, edition="2021"), m)
