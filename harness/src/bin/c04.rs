use harness::*;
use kit::hist::{self, seek, Basic, Full, It};
use kit::track::{self, Sym, Tk, Zt};
use std::ops::{Mul, Rem};
use typenum::{Mod, Prod, Same};

fn chunks<T: Elem, N, I>(c: &mut Case) -> R
where N: ArrayLen<T> + Rem<I>, I: ArrayLen<T>, Mod<N, I>: Same<U0> {
    body::<T, N, I>(c, |v| Box::new(Basic(v.into_chunks::<I>(), |x: Vector<T, I>| vkeys(&x))))
}
fn chunks_full<T: Elem, N, I>(c: &mut Case) -> R
where N: ArrayLen<T> + Rem<I>, I: ArrayLen<T>, Mod<N, I>: Same<U0> {
    body::<T, N, I>(c, |v| Box::new(Full(v.into_chunks::<I>(), |x: Vector<T, I>| vkeys(&x))))
}

fn chunks_seek<T: Elem, N, I>(c: &mut Case) -> R
where N: ArrayLen<T> + Rem<I>, I: ArrayLen<T>, Mod<N, I>: Same<U0> {
    body::<T, N, I>(c, |v| Box::new(seek(v.into_chunks::<I>(), |x: Vector<T, I>| vkeys(&x))))
}

fn body<T: Elem, N, I>(c: &mut Case, make: fn(Vector<T, N>) -> Box<dyn It<Vec<T::Key>>>) -> R
where N: ArrayLen<T> + Rem<I>, I: ArrayLen<T>, Mod<N, I>: Same<U0> {
    track::reset();
    {
        let (n, i) = (N::to_usize(), I::to_usize());
        let v: Vector<T, N> = vgen(c);
        let keys = vkeys(&v);
        let model: Vec<Vec<T::Key>> = keys.chunks(i).map(|x| x.to_vec()).collect();
        let mut log = format!("{} in chunks of {}:", n, i);
        let st = hist::run(c, make(v), model, &mut log)?;
        c.nontrivial_if(n > i && (st.nontrivial() || st.fwd + st.back > 1));
        if st.fwd > 0 && st.back > 0 { c.label("both ends") }
        c.label("chunks");
        c.note(|| log);
    }
    track::finish(false)
}

fn flat<T: Elem, Ro, Co>(c: &mut Case) -> R
where
    Ro: ArrayLen<Vector<T, Co>> + Mul<Co>,
    Co: ArrayLen<T>,
    Prod<Ro, Co>: ArrayLen<T> + Rem<Co>,
    Mod<Prod<Ro, Co>, Co>: Same<U0>,
{
    track::reset();
    {
        let (r, k) = (Ro::to_usize(), Co::to_usize());
        let v: Vector<T, Prod<Ro, Co>> = vgen(c);
        let keys = vkeys(&v);
        let m: Matrix<T, Ro, Co> = if c.bool() { Matrix::from(v) } else { v.into() };
        let want: Vec<Vec<T::Key>> = (0..r).map(|i| (0..k).map(|j| keys[i * k + j].clone()).collect()).collect();
        ensure_eq!(mkeys(&m), want, "matrix {}x{} from {:?}", r, k, keys);
        c.nontrivial_if(r > 1 && k > 1);
        c.label("reshape");
        c.note(|| format!("{}x{} from {:?}", r, k, keys));
    }
    track::finish(false)
}

fn main() {
    let mut u = Units::default();
    u.add_all("chunks Tk", 500, dims_div!(chunks_full, Tk<Sym>));
    u.add_all("chunks i64", 100, dims_div!(chunks, i64));
    u.add_all("chunks String", 50, dims_div!(chunks, String));
    u.add_all("chunks Zt", 20, dims_div!(chunks, Zt));
    u.add("searches i64 U6 U1", 3000, chunks_seek::<i64, U6, U1>);
    u.add("searches i64 U9 U3", 3000, chunks_seek::<i64, U9, U3>);
    u.add("searches i64 U20 U4", 3000, chunks_seek::<i64, U20, U4>);
    u.add("searches Tk U8 U2", 3000, chunks_seek::<Tk<Sym>, U8, U2>);
    u.add("searches Tk U32 U1", 3000, chunks_seek::<Tk<Sym>, U32, U1>);
    u.add_all("flat Tk", 100, dims_flat!(flat, Tk<Sym>));
    u.add_all("flat u8", 50, dims_flat!(flat, u8));
    u.add_all("flat u128", 50, dims_flat!(flat, u128));
    u.add_all("flat String", 50, dims_flat!(flat, String));
    u.add_all("flat ()", 5, dims_flat!(flat, ()));
    kit::main(u)
}
