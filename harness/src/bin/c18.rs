use harness::*;
use kit::track::{self, Int, Tk};
use std::cmp::Ordering;
use std::fmt::Debug;
use typenum::Unsigned;

/// Ordered by `key` alone; `tag` tells equal elements apart.
#[derive(Clone, Copy, Debug)]
struct P { key: i64, tag: u16 }
impl PartialEq for P { fn eq(&self, o: &P) -> bool { self.key == o.key } }
impl Eq for P {}
impl PartialOrd for P { fn partial_cmp(&self, o: &P) -> Option<Ordering> { Some(self.cmp(o)) } }
impl Ord for P { fn cmp(&self, o: &P) -> Ordering { self.key.cmp(&o.key) } }
impl Elem for P {
    type Key = (i64, u16);
    fn gen(c: &mut Case) -> P { P { key: c.int(), tag: c.below(1 << 16) as u16 } }
    fn key(&self) -> (i64, u16) { (self.key, self.tag) }
}

/// Elements with an order that the reference can look at.
trait Ranked: Elem + Ord { fn make(c: &mut Case, spread: u64) -> Self; }
impl Ranked for P { fn make(c: &mut Case, s: u64) -> P { P { key: rank(c, s), tag: c.below(1 << 16) as u16 } } }
impl Ranked for Tk<Int> { fn make(c: &mut Case, s: u64) -> Tk<Int> { Tk::new(Int(rank(c, s))) } }
impl Ranked for i64 { fn make(c: &mut Case, s: u64) -> i64 { rank(c, s) } }
impl Ranked for u8 { fn make(c: &mut Case, s: u64) -> u8 { rank(c, s) as u8 } }
impl Ranked for String { fn make(c: &mut Case, s: u64) -> String { let n = c.below(4); format!("{}{}", "a".repeat(n as usize), rank(c, s)) } }
fn rank(c: &mut Case, spread: u64) -> i64 {
    match spread {
        0 => c.small(1),
        1 => c.small(8),
        2 => c.int(),
        _ => *c.pick(&[i64::MIN, i64::MAX, 0, -1, 1]),
    }
}
/// Elements with an extreme one placed anywhere.
fn items<T: Ranked>(c: &mut Case, n: usize) -> Vec<T> {
    let s = c.below(4);
    let mut v: Vec<T> = list(n, &mut |_| T::make(c, s));
    match c.below(4) {
        0 => v.sort(),
        1 => { v.sort(); v.reverse() }
        2 => {
            // sorted, then one moved elsewhere
            v.sort();
            if n > 1 { let (i, j) = (c.index(n), c.index(n)); let x = v.remove(i); v.insert(j, x) }
        }
        _ => (),
    }
    v
}

/// Comparison functions, total preorders.
fn compare<T: Ord>(kind: u64, a: &T, b: &T, code: &dyn Fn(&T) -> i64) -> Ordering {
    match kind {
        0 => a.cmp(b),
        1 => b.cmp(a),
        2 => code(a).unsigned_abs().cmp(&code(b).unsigned_abs()),
        3 => (code(a) & 3).cmp(&(code(b) & 3)),
        4 => Ordering::Equal,
        _ => code(b).rem_euclid(7).cmp(&code(a).rem_euclid(7)),
    }
}
fn code_of<K: Debug>(k: &K) -> i64 { kit::case::hash_str(&format!("{:?}", k)) as i64 }

#[derive(Clone, Copy, Debug)]
enum Query { Max, Min, MaxBy(u64), MinBy(u64) }
fn query(c: &mut Case) -> Query {
    match c.below(4) { 0 => Query::Max, 1 => Query::Min, 2 => Query::MaxBy(c.below(6)), _ => Query::MinBy(c.below(6)) }
}
fn judge<T: Ranked>(c: &mut Case, q: Query, v: &[T], got: T, after: Vec<T::Key>) -> R {
    let ks = keys(v);
    c.label(match q { Query::Max => "max", Query::Min => "min", Query::MaxBy(_) => "max_by", Query::MinBy(_) => "min_by" });
    c.nontrivial_if(v.len() > 1);
    c.note(|| format!("{:?} of {:?}", q, ks));
    ensure!(ks.contains(&got.key()), "{:?} of {:?} is {:?}, not among them", q, ks, got);
    let code = |x: &T| code_of(&x.key());
    for x in v {
        let bad = match q {
            Query::Max => *x > got,
            Query::Min => *x < got,
            Query::MaxBy(k) => compare(k, x, &got, &code) == Ordering::Greater,
            Query::MinBy(k) => compare(k, x, &got, &code) == Ordering::Less,
        };
        ensure!(!bad, "{:?} of {:?} is {:?} although there is {:?}", q, ks, got, x);
    }
    ensure_eq!(after, ks, "the container afterwards");
    track::check()
}
fn clamp_judge<T: Ranked>(c: &mut Case, (r, k): (usize, usize), lo: &T, hi: &T, v: &[T], clamped: Vec<T>, in_place: Vec<T>, after: Vec<T::Key>) -> R {
    let want: Vec<T> = v.iter().map(|x| if x < lo { lo.clone() } else if x > hi { hi.clone() } else { x.clone() }).collect();
    c.nontrivial_if(v.len() > 1);
    c.label("clamp");
    c.note(|| format!("clamping {}x{} {:?} to [{:?}, {:?}]", r, k, v, lo, hi));
    // elements that compare equal are equal
    ensure_eq!(clamped, want, "clamped({:?}, {:?}) of {:?}", lo, hi, v);
    ensure_eq!(in_place, want, "clamp({:?}, {:?}) of {:?}", lo, hi, v);
    ensure_eq!(after, keys(v), "the container after clamped");
    track::check()
}

fn bounds<T: Ranked>(c: &mut Case, v: &[T]) -> (T, T) {
    let s = c.below(4);
    let mut g = |c: &mut Case| if !v.is_empty() && c.chance(1, 3) { c.pick(v).clone() } else { T::make(c, s) };
    let (a, b) = (g(c), if c.chance(1, 8) { None } else { Some(g(c)) });
    match b { None => (a.clone(), a), Some(b) => if a <= b { (a, b) } else { (b, a) } }
}

macro_rules! find { ($x:ident, $q:ident, $T:ident) => {{
    let code = |x: &$T| code_of(&x.key());
    match $q {
        Query::Max => $x.max(),
        Query::Min => $x.min(),
        Query::MaxBy(k) => $x.max_by(|a, b| compare(k, a, b, &code)),
        Query::MinBy(k) => $x.min_by(|a, b| compare(k, a, b, &code)),
    }
}} }

fn vec_of<T: Ranked, N: ArrayLen<T>>(v: &[T]) -> Vector<T, N> { let mut i = v.iter(); Vector::generate(|_| i.next().unwrap().clone()) }
fn mat_of<T: Ranked, Ro: ArrayLen<Vector<T, Co>>, Co: ArrayLen<T>>(v: &[T]) -> Matrix<T, Ro, Co> { let mut i = v.iter(); Matrix::generate(|_| i.next().unwrap().clone()) }
fn flat<T: Clone>(r: usize, k: usize, f: &mut dyn FnMut(usize, usize) -> T) -> Vec<T> { grid(r, k, f).into_iter().flatten().collect() }

fn vec_clamp<T: Ranked, N: ArrayLen<T>>(c: &mut Case) -> R {
    track::reset();
    let n = N::to_usize();
    let v = items::<T>(c, n);
    let x: Vector<T, N> = vec_of(&v);
    let (lo, hi) = bounds(c, &v);
    let mut y: Vector<T, N> = vec_of(&v);
    y.clamp(lo.clone(), hi.clone());
    let z = x.clamped(lo.clone(), hi.clone());
    clamp_judge(c, (1, n), &lo, &hi, &v, z.as_slice().to_vec(), y.as_slice().to_vec(), vkeys(&x))
}
fn mat_clamp<T: Ranked, Ro: ArrayLen<Vector<T, Co>>, Co: ArrayLen<T>>(c: &mut Case) -> R {
    track::reset();
    let (r, k) = (Ro::to_usize(), Co::to_usize());
    let v = items::<T>(c, r * k);
    let x: Matrix<T, Ro, Co> = mat_of(&v);
    let (lo, hi) = bounds(c, &v);
    let mut y: Matrix<T, Ro, Co> = mat_of(&v);
    y.clamp(lo.clone(), hi.clone());
    let z = x.clamped(lo.clone(), hi.clone());
    clamp_judge(c, (r, k), &lo, &hi, &v, flat(r, k, &mut |i, j| z[(i, j)].clone()), flat(r, k, &mut |i, j| y[(i, j)].clone()), mkeys(&x).concat())
}

// max and friends exist for non-zero sizes only, which generic code cannot say: concrete functions
macro_rules! vec_query { ($t:ty; $n:ident) => {{
    type T = $t;
    fn f(c: &mut Case) -> R {
        track::reset();
        let v = items::<T>(c, $n::to_usize());
        let x: Vector<T, $n> = vec_of(&v);
        let q = query(c);
        let got = find!(x, q, T);
        judge(c, q, &v, got, vkeys(&x))
    }
    f as kit::runner::UnitFn
}} }
macro_rules! mat_query { ($t:ty; $n:ident) => {{
    type T = $t;
    fn f(c: &mut Case) -> R {
        track::reset();
        let n = $n::to_usize();
        let v = items::<T>(c, n * n);
        let x: Matrix<T, $n, $n> = mat_of(&v);
        let q = query(c);
        let got = find!(x, q, T);
        judge(c, q, &v, got, mkeys(&x).concat())
    }
    f as kit::runner::UnitFn
}} }
macro_rules! v_p { ($n:ident; $k:expr) => { vec_query!(P; $n) }; }
macro_rules! v_tk { ($n:ident; $k:expr) => { vec_query!(Tk<Int>; $n) }; }
macro_rules! v_u8 { ($n:ident; $k:expr) => { vec_query!(u8; $n) }; }
macro_rules! v_string { ($n:ident; $k:expr) => { vec_query!(String; $n) }; }
macro_rules! m_p { ($n:ident; $k:expr) => { mat_query!(P; $n) }; }
macro_rules! m_tk { ($n:ident; $k:expr) => { mat_query!(Tk<Int>; $n) }; }
macro_rules! m_i64 { ($n:ident; $k:expr) => { mat_query!(i64; $n) }; }


fn main() {
    let mut u = Units::default();
    u.add_all("vector", 150, kit::cb_n1!(v_p));
    u.add_all("vector, tracked", 60, kit::cb_n1!(v_tk));
    u.add_all("vector u8", 60, kit::cb_n1!(v_u8));
    u.add_all("vector String", 40, kit::cb_n1!(v_string));
    u.add_all("matrix", 100, kit::cb_n1!(m_p));
    u.add_all("matrix, tracked", 40, kit::cb_n1!(m_tk));
    u.add_all("matrix i64", 60, kit::cb_n1!(m_i64));
    u.add_all("vector clamp", 100, kit::dims_n!(vec_clamp, P));
    u.add_all("vector clamp, tracked", 60, kit::dims_n!(vec_clamp, Tk<Int>));
    u.add_all("vector clamp String", 40, kit::dims_few!(vec_clamp, String));
    u.add_all("vector clamp u8", 40, kit::dims_few!(vec_clamp, u8));
    u.add_all("matrix clamp", 40, dims_shapes!(mat_clamp, P));
    u.add_all("matrix clamp, tracked", 40, kit::dims_small_pairs!(mat_clamp, Tk<Int>));
    u.add_all("matrix clamp u8", 40, kit::dims_few_pairs!(mat_clamp, u8));
    kit::main(u)
}
