use harness::*;
use kit::track::{self, Sym, Tk, Zt};
use std::fmt::Debug;

fn flip<K: Clone>(g: &[Vec<K>], k: usize) -> Vec<Vec<K>> { columns(g, k) }

fn trans_judge<K: Clone + PartialEq + Debug>(c: &mut Case, (r, k): (usize, usize), model: &[Vec<K>], t: Vec<Vec<K>>, orig: Vec<Vec<K>>, tt: Vec<Vec<K>>) -> R {
    c.nontrivial_if(r * k > 1);
    c.note(|| format!("transposing {:?}", model));
    ensure_eq!(t, flip(model, k), "transpose of {:?}", model);
    ensure_eq!(orig, model, "the original after transposed()");
    ensure_eq!(tt, model, "transposing twice {:?}", model);
    Ok(())
}

fn transposed<T: Elem, Ro, Co>(c: &mut Case) -> R
where Ro: ArrayLen<T> + ArrayLen<Vector<T, Co>>, Co: ArrayLen<T> + ArrayLen<Vector<T, Ro>> {
    track::reset();
    let d = (<Ro as typenum::Unsigned>::to_usize(), <Co as typenum::Unsigned>::to_usize());
    {
        let items = gen_grid::<T>(c, d.0, d.1);
        let model = grid_keys(&items);
        let m: Matrix<T, Ro, Co> = mof(items);
        let t: Matrix<T, Co, Ro> = m.transposed();
        let tt: Matrix<T, Ro, Co> = t.transposed();
        trans_judge(c, d, &model, mkeys(&t), mkeys(&m), mkeys(&tt))?;
    }
    track::finish(false)
}

fn in_place<T: Elem, N: ArrayLen<T> + ArrayLen<Vector<T, N>>>(c: &mut Case) -> R {
    track::reset();
    let n = <N as typenum::Unsigned>::to_usize();
    {
        let items = gen_grid::<T>(c, n, n);
        let model = grid_keys(&items);
        let mut m: Matrix<T, N, N> = mof(items);
        let orig = mkeys(&m);
        m.transpose();
        let t = mkeys(&m);
        m.transpose();
        trans_judge(c, (n, n), &model, t, orig, mkeys(&m))?;
    }
    track::finish(false)
}

fn map_judge<K: Clone + PartialEq + Debug>(c: &mut Case, (r, k): (usize, usize), model: &[Vec<K>], visits: Vec<((usize, usize), K)>, got: Vec<Vec<u64>>) -> R {
    c.nontrivial_if(r * k > 1);
    c.note(|| format!("mapping {:?}", model));
    let want: Vec<((usize, usize), K)> = (0..r).flat_map(|i| (0..k).map(move |j| (i, j))).map(|(i, j)| ((i, j), model[i][j].clone())).collect();
    ensure_eq!(visits, want, "calls of the mapping function");
    ensure_eq!(got, grid(r, k, &mut |i, j| 1000 + (i * k + j) as u64), "results of mapping {:?}", model);
    Ok(())
}

fn map<T: Elem, Ro, Co>(c: &mut Case) -> R
where Ro: ArrayLen<Vector<T, Co>> + ArrayLen<Vector<Box<u64>, Co>>, Co: ArrayLen<T> + ArrayLen<Box<u64>> {
    track::reset();
    let (r, k) = (<Ro as typenum::Unsigned>::to_usize(), <Co as typenum::Unsigned>::to_usize());
    {
        let items = gen_grid::<T>(c, r, k);
        let model = grid_keys(&items);
        let m: Matrix<T, Ro, Co> = mof(items);
        let mut visits = Vec::new();
        let mut results = 1000u64;
        let u: Matrix<Box<u64>, Ro, Co> = m.map(|p, x| {
            visits.push((p, x.key()));
            results += 1;
            Box::new(results - 1)
        });
        map_judge(c, (r, k), &model, visits, grid(r, k, &mut |i, j| *u[(i, j)]))?;
    }
    track::finish(false)
}

/// Which entries satisfy the predicate: generated as a few exceptions to "none" or "all".
fn marks(c: &mut Case, n: usize) -> Vec<bool> {
    let base = c.bool();
    let mut m = vec![base; n];
    if n > 0 {
        match c.below(4) {
            0 => (),
            1 => { let i = c.index(n); m[i] = !base }
            2 => for _ in 0..c.below(5) { let i = c.index(n); m[i] = !base },
            _ => for i in 0..n { m[i] = c.bool() },
        }
    }
    m
}

fn query_judge<K: Clone + PartialEq + Debug>(c: &mut Case, (r, k): (usize, usize), model: &[Vec<K>], marks: &[bool], all: bool, got: bool, visits: Vec<((usize, usize), K)>) -> R {
    let what = format!("{} over {}x{} with satisfying positions {:?}", if all { "all" } else { "any" }, r, k,
        (0..r * k).filter(|&p| marks[p]).map(|p| (p / k, p % k)).collect::<Vec<_>>());
    let want = if all { marks.iter().all(|&b| b) } else { marks.iter().any(|&b| b) };
    let visited = marks.iter().position(|&b| b != all).map_or(r * k, |p| p + 1);
    c.nontrivial_if(r * k > 1);
    c.label(if all { if want { "all: yes" } else { "all: no" } } else { if want { "any: yes" } else { "any: no" } });
    c.note(|| what.clone());
    ensure_eq!(got, want, "{}", what);
    let w: Vec<((usize, usize), K)> = (0..visited).map(|p| ((p / k, p % k), model[p / k][p % k].clone())).collect();
    ensure_eq!(visits, w, "{}: calls of the predicate", what);
    Ok(())
}

fn query<T: Elem, Ro, Co>(c: &mut Case) -> R
where Ro: ArrayLen<Vector<T, Co>>, Co: ArrayLen<T> {
    track::reset();
    let (r, k) = (Ro::to_usize(), <Co as typenum::Unsigned>::to_usize());
    {
        let items = gen_grid::<T>(c, r, k);
        let model = grid_keys(&items);
        let m: Matrix<T, Ro, Co> = mof(items);
        let marks = marks(c, r * k);
        let all = c.bool();
        let mut visits = Vec::new();
        let mut n = 0;
        let mut pred = |p: (usize, usize), x: &T| {
            visits.push((p, x.key()));
            n += 1;
            marks.get(n - 1).map_or(false, |&b| b)
        };
        let got = if all { m.all(&mut pred) } else { m.any(&mut pred) };
        query_judge(c, (r, k), &model, &marks, all, got, visits)?;
    }
    track::finish(false)
}

fn main() {
    type E = Tk<Sym>;
    let mut u = Units::default();
    u.add_all("transposed", 20, dims_shapes!(transposed, E));
    u.add_all("transposed u8", 10, kit::dims_few_pairs!(transposed, u8));
    u.add_all("transposed String", 10, kit::dims_small_pairs!(transposed, String));
    u.add_all("transpose in place", 40, kit::dims_n!(in_place, E));
    u.add_all("transpose in place f64", 20, kit::dims_n!(in_place, f64));
    u.add_all("transpose in place u8", 20, kit::dims_n!(in_place, u8));
    u.add_all("map", 20, dims_shapes!(map, E));
    u.add_all("map ()", 5, kit::dims_small_pairs!(map, ()));
    u.add_all("map Zt", 5, kit::dims_small_pairs!(map, Zt));
    u.add_all("map i64", 5, kit::dims_few_pairs!(map, i64));
    u.add_all("all/any", 100, dims_shapes!(query, E));
    u.add_all("all/any u8", 40, kit::dims_few_pairs!(query, u8));
    u.add_all("all/any ()", 20, &[("0x0", query::<(), U0, U0> as kit::runner::UnitFn), ("0x2", query::<(), U0, U2>), ("2x0", query::<(), U2, U0>), ("1x1", query::<(), U1, U1>), ("2x3", query::<(), U2, U3>), ("5x2", query::<(), U5, U2>)]);
    u.add_all("transposed Zt", 20, &[("0x2", transposed::<Zt, U0, U2> as kit::runner::UnitFn), ("1x1", transposed::<Zt, U1, U1>), ("2x3", transposed::<Zt, U2, U3>), ("5x2", transposed::<Zt, U5, U2>)]);
    u.add_all("transposed align64", 20, &[("1x2", transposed::<elem::Wide, U1, U2> as kit::runner::UnitFn), ("2x3", transposed::<elem::Wide, U2, U3>), ("5x2", transposed::<elem::Wide, U5, U2>)]);
    u.add_all("transpose in place [u64; 5]", 20, &[("1", in_place::<[u64; 5], U1> as kit::runner::UnitFn), ("2", in_place::<[u64; 5], U2>), ("3", in_place::<[u64; 5], U3>), ("6", in_place::<[u64; 5], U6>)]);
    u.add_all("transpose in place [u8; 3]", 20, &[("2", in_place::<elem::Three, U2> as kit::runner::UnitFn), ("3", in_place::<elem::Three, U3>), ("7", in_place::<elem::Three, U7>)]);
    kit::main(u)
}
