use harness::*;
use kit::runner::UnitFn;
use kit::track::{self, Sym, Tk, Zt};

fn outside(c: &mut Case, n: usize) -> usize {
    match c.below(4) {
        0 => n,
        1 => n + 1 + c.index(40),
        2 => *c.pick(&[usize::MAX, usize::MAX - 1, 1 << 63, 1 << 32, 256, 65536]),
        _ => n + c.index(3),
    }
}

struct VObs<K> { what: &'static str, keys: Vec<K> }

fn vjudge<K: Clone + PartialEq + std::fmt::Debug>(what: &str, model: &[K], len: usize, empty: bool, obs: Vec<VObs<K>>) -> R {
    ensure_eq!(len, model.len(), "{} len", what);
    ensure_eq!(empty, model.len() == 0, "{} is_empty", what);
    for o in obs {
        let mut k = o.keys;
        if o.what == "iter rev" { k.reverse() }
        ensure_eq!(k, model, "{} {}", what, o.what);
    }
    Ok(())
}

/// Room around a value, so that what an unchecked access overwrites is nothing else's.
#[repr(C)]
struct Padded<X> { _before: [u64; 640], x: X, _after: [u64; 640] }
fn padded<X>(x: X) -> Padded<X> { Padded { _before: [0; 640], x, _after: [0; 640] } }

/// Every reading path of a vector against the model.
fn vread<T: Elem, N: ArrayLen<T>>(v: &Vector<T, N>, model: &[T::Key], what: &str) -> R {
    let n = N::to_usize();
    let arr: &N::Array = &**v;
    vjudge(what, model, v.len(), v.is_empty(), vec![
        VObs { what: "as_slice", keys: keys(v.as_slice()) },
        VObs { what: "as_ref", keys: keys(AsRef::<[T]>::as_ref(v)) },
        VObs { what: "deref", keys: keys(arr.as_ref()) },
        VObs { what: "iter", keys: refs_keys(&mut v.iter(), n + 1) },
        VObs { what: "iter rev", keys: refs_keys(&mut v.iter().rev(), n + 1) },
        VObs { what: "index", keys: list(n, &mut |i| v[i].key()) },
        VObs { what: "get_unchecked", keys: list(n, &mut |i| unsafe { v.get_unchecked(i) }.key()) },
    ])
}

fn order(n: usize, seen: Vec<usize>) -> R {
    ensure_eq!(seen, (0..n).collect::<Vec<_>>(), "positions passed to generate");
    Ok(())
}

fn vec_body<T: Elem, N: ArrayLen<T>>(c: &mut Case, make: fn(Vec<T>) -> Vector<T, N>) -> R {
    track::reset();
    {
        let n = N::to_usize();
        let items: Vec<T> = list(n, &mut |_| T::gen(c));
        let mut model: Vec<T::Key> = keys(&items);
        let mut p = padded(match c.below(3) {
            0 => make(items),
            1 => Vector::new(make(items).into_inner()),
            _ => {
                // the generator is called once per position, in order
                let mut it = items.into_iter();
                let mut seen = Vec::new();
                let v = Vector::generate(|i| { seen.push(i); it.next().expect("generator called too often") });
                order(n, seen)?;
                v
            }
        });
        let v = &mut p.x;
        vread(v, &model, "fresh")?;
        let mut log = format!("len {}:", n);
        for step in 0..c.below(4) {
            let out = c.chance(1, 3) || n == 0;
            if out {
                let i = outside(c, n);
                let w = c.bool();
                log += &format!(" {}[{}]", if w { "write " } else { "" }, i);
                let mut x = Some(T::gen(c));
                let r = panics_dyn(&mut || if w { v[i] = x.take().unwrap() } else { let _ = v[i].key(); });
                ensure!(r.is_some(), "{} did not panic", log);
                c.label("out of range");
            } else {
                let i = c.index(n);
                let x = T::gen(c);
                let key = x.key();
                let path = c.below(7);
                log += &format!(" path{}[{}] = {:?}", path, i, key);
                match path {
                    0 => v[i] = x,
                    1 => v.as_slice_mut()[i] = x,
                    2 => AsMut::<[T]>::as_mut(v)[i] = x,
                    3 => { let a: &mut N::Array = &mut **v; a.as_mut()[i] = x }
                    4 => *v.iter_mut().nth(i).unwrap() = x,
                    5 => unsafe { *v.get_unchecked_mut(i) = x },
                    _ => *v.iter_mut().rev().nth(n - 1 - i).unwrap() = x,
                }
                model[i] = key;
                c.nontrivial_if(n > 1);
            }
            vread(v, &model, &format!("{} step {}:", log, step))?;
        }
        let arr = p.x.into_inner();
        ensure_eq!(keys(arr.as_ref()), model, "{} into_inner", log);
        let v: Vector<T, N> = Vector::new(arr);
        let mut got = Vec::new();
        for x in v { if got.len() <= n { got.push(x.key()) } }
        ensure_eq!(got, model, "{} into_iter", log);
        c.note(|| log);
    }
    track::finish(false)
}

fn mread<T: Elem, Ro, Co>(m: &Matrix<T, Ro, Co>, model: &[Vec<T::Key>], what: &str) -> R
where Ro: ArrayLen<Vector<T, Co>>, Co: ArrayLen<T> {
    let (r, k) = (Ro::to_usize(), Co::to_usize());
    let mut cols = Vec::new();
    for mut col in m.cols_iter_ref() { if cols.len() <= k { cols.push(refs_keys(&mut col, r + 1)) } }
    judge(what, model, (r, k), m.dim(), (m.rows(), m.cols()), mkeys(m),
        grid(r, k, &mut |i, j| unsafe { m.get_unchecked((i, j)) }.key()),
        rows_keys(&mut m.rows_iter_ref(), r + 1), cols)
}

fn judge<K: Clone + PartialEq + std::fmt::Debug>(what: &str, model: &[Vec<K>], (r, k): (usize, usize), dim: (usize, usize), rc: (usize, usize),
    idx: Vec<Vec<K>>, unchecked: Vec<Vec<K>>, rows: Vec<Vec<K>>, cols: Vec<Vec<K>>) -> R {
    ensure_eq!(dim, (r, k), "{} dim", what);
    ensure_eq!(rc, (r, k), "{} rows, cols", what);
    ensure_eq!(idx, model, "{} index", what);
    ensure_eq!(unchecked, model, "{} get_unchecked", what);
    ensure_eq!(rows, model, "{} rows_iter_ref", what);
    ensure_eq!(cols, columns(model, k), "{} cols_iter_ref", what);
    Ok(())
}

fn order2(r: usize, k: usize, seen: Vec<(usize, usize)>) -> R {
    ensure_eq!(seen, (0..r).flat_map(|i| (0..k).map(move |j| (i, j))).collect::<Vec<_>>(), "positions passed to generate");
    Ok(())
}

fn outside2(c: &mut Case, r: usize, k: usize) -> (usize, usize) {
    match c.below(4) {
        // stays inside the storage
        0 if r > 0 && k > 0 => (c.index(r), k + c.index(k)),
        1 if r > 0 => (c.index(r), outside(c, k)),
        2 if k > 0 => (outside(c, r), c.index(k)),
        _ => (outside(c, r), outside(c, k)),
    }
}

fn mat_body<T: Elem, Ro, Co>(c: &mut Case, make: fn(Vec<Vec<T>>) -> Matrix<T, Ro, Co>) -> R
where Ro: ArrayLen<Vector<T, Co>>, Co: ArrayLen<T> {
    track::reset();
    {
        let (r, k) = (Ro::to_usize(), Co::to_usize());
        let items: Vec<Vec<T>> = gen_grid(c, r, k);
        let mut model: Vec<Vec<T::Key>> = grid_keys(&items);
        let mut p = padded(if c.bool() { make(items) } else {
            let mut it = items.into_iter().flatten();
            let mut seen = Vec::new();
            let m = Matrix::generate(|p| { seen.push(p); it.next().expect("generator called too often") });
            order2(r, k, seen)?;
            m
        });
        let m = &mut p.x;
        mread(m, &model, "fresh")?;
        let mut log = format!("{}x{}:", r, k);
        for step in 0..c.below(4) {
            let out = c.chance(1, 3) || r * k == 0;
            if out {
                let (i, j) = outside2(c, r, k);
                let w = c.bool();
                log += &format!(" {}[({}, {})]", if w { "write " } else { "" }, i, j);
                let mut x = Some(T::gen(c));
                let res = panics_dyn(&mut || if w { m[(i, j)] = x.take().unwrap() } else { let _ = m[(i, j)].key(); });
                ensure!(res.is_some(), "{} did not panic", log);
                c.label("out of range");
                if i < r && i.wrapping_mul(k).wrapping_add(j) < r * k { c.label("overshoot inside the storage") }
            } else {
                let (i, j) = (c.index(r), c.index(k));
                let x = T::gen(c);
                let key = x.key();
                let path = c.below(2);
                log += &format!(" path{}[({}, {})] = {:?}", path, i, j, key);
                match path {
                    0 => m[(i, j)] = x,
                    _ => unsafe { *m.get_unchecked_mut((i, j)) = x },
                }
                model[i][j] = key;
                c.nontrivial_if(r * k > 1);
            }
            mread(m, &model, &format!("{} step {}:", log, step))?;
        }
        c.note(|| log);
    }
    track::finish(false)
}

fn arr<T, const K: usize>(v: Vec<T>) -> [T; K] {
    v.try_into().ok().expect("harness: wrong number of items")
}

type E = Tk<Sym>;
macro_rules! vec_unit {
    ($t:ty; $n:ident; $k:expr) => {{
        fn f(c: &mut Case) -> R { vec_body::<$t, $n>(c, |v| Vector::new(arr::<_, { $k }>(v))) }
        f as UnitFn
    }};
}
macro_rules! v_tk { ($n:ident; $k:expr) => { vec_unit!(E; $n; $k) }; }
macro_rules! v_u8 { ($n:ident; $k:expr) => { vec_unit!(u8; $n; $k) }; }
macro_rules! v_u128 { ($n:ident; $k:expr) => { vec_unit!(u128; $n; $k) }; }
macro_rules! v_string { ($n:ident; $k:expr) => { vec_unit!(String; $n; $k) }; }
macro_rules! v_three { ($n:ident; $k:expr) => { vec_unit!(elem::Three; $n; $k) }; }
macro_rules! v_wide { ($n:ident; $k:expr) => { vec_unit!(elem::Wide; $n; $k) }; }
macro_rules! v_zt { ($n:ident; $k:expr) => { vec_unit!(Zt; $n; $k) }; }
macro_rules! mat_unit {
    ($t:ty; $r:ident, $c:ident; $rk:expr, $ck:expr) => {{
        fn f(c: &mut Case) -> R {
            mat_body::<$t, $r, $c>(c, |v| Matrix::new(arr::<_, { $rk }>(v.into_iter().map(|row| arr::<_, { $ck }>(row)).collect())))
        }
        f as UnitFn
    }};
}
macro_rules! m_tk { ($r:ident, $c:ident; $rk:expr, $ck:expr) => { mat_unit!(E; $r, $c; $rk, $ck) }; }
macro_rules! m_zt { ($r:ident, $c:ident; $rk:expr, $ck:expr) => { mat_unit!(Zt; $r, $c; $rk, $ck) }; }
macro_rules! m_wide { ($r:ident, $c:ident; $rk:expr, $ck:expr) => { mat_unit!(elem::Wide; $r, $c; $rk, $ck) }; }
macro_rules! m_u8 { ($r:ident, $c:ident; $rk:expr, $ck:expr) => { mat_unit!(u8; $r, $c; $rk, $ck) }; }
macro_rules! m_string { ($r:ident, $c:ident; $rk:expr, $ck:expr) => { mat_unit!(String; $r, $c; $rk, $ck) }; }
macro_rules! m_three { ($r:ident, $c:ident; $rk:expr, $ck:expr) => { mat_unit!(elem::Three; $r, $c; $rk, $ck) }; }

fn typed_judge((n, m, ik, jk): (usize, usize, usize, usize), got: u32, x: u32, after: Vec<Vec<u32>>) -> R {
    let what = format!("{}x{} [(U{}, U{})]", n, m, ik, jk);
    ensure_eq!(got, (ik * 100 + jk) as u32, "{}", what);
    let want: Vec<Vec<u32>> = (0..n).map(|i| (0..m).map(|j| if i == ik && j == jk { x } else { (i * 100 + j) as u32 }).collect()).collect();
    ensure_eq!(after, want, "{} after writing", what);
    Ok(())
}
fn typed_judge_v((n, ik): (usize, usize), got: u32, x: u32, after: &[u32]) -> R {
    ensure_eq!(got, ik as u32 * 7 + 1, "len {} [U{}]", n, ik);
    ensure_eq!(after, &(0..n).map(|i| if i == ik { x } else { i as u32 * 7 + 1 }).collect::<Vec<u32>>()[..], "len {} after writing [U{}]", n, ik);
    Ok(())
}

// type-level indices: (length, index) and (rows, columns, row, column)
macro_rules! typed_v {
    ($n:ident, $i:ident; $nk:expr, $ik:expr) => {{
        fn f(c: &mut Case) -> R {
            let mut v: Vector<u32, $n> = Vector::generate(|i| i as u32 * 7 + 1);
            let got = v[$i::new()];
            let x = c.below(1 << 30) as u32 | 1 << 31;
            v[$i::new()] = x;
            typed_judge_v(($nk, $ik), got, x, v.as_slice())?;
            c.nontrivial_if($nk > 1);
            Ok(())
        }
        f as UnitFn
    }};
}
macro_rules! typed_m {
    ($n:ident, $m:ident, $i:ident, $j:ident; $nk:expr, $mk:expr, $ik:expr, $jk:expr) => {{
        fn f(c: &mut Case) -> R {
            let mut m: Matrix<u32, $n, $m> = Matrix::generate(|(i, j)| i as u32 * 100 + j as u32);
            let got = m[($i::new(), $j::new())];
            let x = c.below(1 << 30) as u32 | 1 << 31;
            m[($i::new(), $j::new())] = x;
            typed_judge(($nk, $mk, $ik, $jk), got, x, rows_keys(&mut m.rows_iter_ref(), $nk + 1))?;
            c.nontrivial_if($nk * $mk > 1);
            Ok(())
        }
        f as UnitFn
    }};
}

fn main() {
    let mut u = Units::default();
    u.add_all("vector Tk", 300, kit::cb_n!(v_tk));
    u.add_all("vector u8", 60, kit::cb_n!(v_u8));
    u.add_all("vector u128", 60, kit::cb_n!(v_u128));
    u.add_all("vector String", 60, kit::cb_n!(v_string));
    u.add_all("vector [u8; 3]", 60, kit::cb_n!(v_three));
    u.add_all("vector align64", 60, kit::cb_n!(v_wide));
    u.add_all("vector Zt", 20, kit::cb_n!(v_zt));
    u.add_all("matrix Tk", 40, cb_shapes!(m_tk));
    u.add_all("matrix u8", 20, kit::cb_few_pairs!(m_u8));
    u.add_all("matrix String", 20, kit::cb_few_pairs!(m_string));
    u.add_all("matrix [u8; 3]", 20, kit::cb_few_pairs!(m_three));
    u.add_all("matrix Zt", 20, &[("0x2", m_zt!(U0, U2; 0, 2)), ("2x0", m_zt!(U2, U0; 2, 0)), ("1x1", m_zt!(U1, U1; 1, 1)), ("2x1", m_zt!(U2, U1; 2, 1)), ("3x4", m_zt!(U3, U4; 3, 4)), ("4x3", m_zt!(U4, U3; 4, 3))]);
    u.add_all("matrix align64", 20, &[("1x2", m_wide!(U1, U2; 1, 2)), ("2x1", m_wide!(U2, U1; 2, 1)), ("3x4", m_wide!(U3, U4; 3, 4)), ("4x3", m_wide!(U4, U3; 4, 3))]);
    u.add_all("vector typed", 2, kit::cb_index!(typed_v));
    u.add_all("matrix typed", 2, kit::cb_index2!(typed_m));
    kit::main(u)
}
