use harness::*;
use kit::hist::{self, seek, Basic, Full, It};
use kit::track::{self, Sym, Tk};
use rowcol::matrix::iter::ColsIterRefInner;


/// One history on one of the five iterators of a matrix.
macro_rules! histories { ($name:ident $wrap:ident) => {
fn $name<T: Elem, Ro, Co>(c: &mut Case) -> R
where Ro: ArrayLen<Vector<T, Co>> + ArrayLen<T>, Co: ArrayLen<T> {
    track::reset();
    let (r, k) = (Ro::to_usize(), Co::to_usize());
    {
        let m: Matrix<T, Ro, Co> = mgen(c);
        let rows = mkeys(&m);
        let cols = columns(&rows, k);
        let kind = if k == 0 { c.below(4) } else { c.below(5) };
        let vk = |x: Vector<T, Co>| vkeys(&x);
        let ck = |x: Vector<T, Ro>| vkeys(&x);
        let rk = |x: &[T]| keys(x);
        let names = ["rows_iter", "cols_iter", "rows_iter_ref", "cols_iter_ref", "column"];
        let mut log = format!("{}x{} {}:", r, k, names[kind as usize]);
        // a by-reference column is drained in generated order, so nested histories are covered too
        let col = |mut x: ColsIterRefInner<T, Ro, Co>| refs_keys(&mut x, r + 1);
        let st = match kind {
            0 => { let it: Box<dyn It<_>> = Box::new($wrap(m.rows_iter(), vk)); hist::run(c, it, rows, &mut log)? }
            1 => { let it: Box<dyn It<_>> = Box::new($wrap(m.cols_iter(), ck)); hist::run(c, it, cols, &mut log)? }
            2 => { let it: Box<dyn It<_>> = Box::new($wrap(m.rows_iter_ref(), rk)); hist::run(c, it, rows, &mut log)? }
            3 => { let it: Box<dyn It<_>> = Box::new($wrap(m.cols_iter_ref(), col)); hist::run(c, it, cols, &mut log)? }
            _ => {
                let j = c.index(k);
                let mut it = m.cols_iter_ref();
                let x = if c.bool() { it.nth(j) } else { it.nth_back(k - 1 - j) };
                let x = match x { Some(x) => x, None => return Err(format!("{} has no column {}", log, j)) };
                let it: Box<dyn It<_>> = Box::new($wrap(x, |e: &T| e.key()));
                hist::run(c, it, cols[j].clone(), &mut log)?
            }
        };
        c.label(names[kind as usize]);
        c.nontrivial_if(st.nontrivial());
        if st.past > 0 { c.label("past the end") }
        c.note(|| log);
    }
    track::finish(false)
}
} }
histories! { unit Basic }
// with the methods usually inherited from the iterator traits
histories! { unit_full Full }
histories! { unit_seek seek }

/// A column asked for by number: the one of that number, and none where the matrix has no such column.
fn by_number<Ro, Co>(c: &mut Case) -> R
where Ro: ArrayLen<Vector<i64, Co>>, Co: ArrayLen<i64> {
    let (r, k) = (Ro::to_usize(), Co::to_usize());
    let v: Vector<Vector<i64, Co>, Ro> = Vector::generate(|i| Vector::generate(|j| (i * 100 + j) as i64));
    let far = c.below(6) as usize;
    let j = match far { 0 => k, 1 => k + 1, 2 => usize::MAX, 3 => k + c.index(40), _ => c.index(k + 1) };
    c.nontrivial_if(j >= k && r > 0);
    c.note(|| format!("{}x{}: column {}", r, k, j));
    if j < k {
        let got: Vec<i64> = ColsIterRefInner::new(&v, j).cloned().collect();
        let want: Vec<i64> = (0..r).map(|i| (i * 100 + j) as i64).collect();
        return if got == want { Ok(()) } else { Err(format!("column {} of {}x{} is {:?}, not {:?}", j, r, k, want, got)) };
    }
    // not reading what it may give: there is no such element
    let mut given = 0;
    panics_dyn(&mut || {
        let mut it = ColsIterRefInner::new(&v, j);
        if it.next().is_some() { given += 1 }
        if it.next_back().is_some() { given += 1 }
    });
    if given == 0 { Ok(()) } else { Err(format!("column {} of a {}x{} matrix gives elements", j, r, k)) }
}

fn main() {
    let mut u = Units::default();
    u.add_all("Tk", 600, dims_shapes!(unit, Tk<Sym>));
    macro_rules! numbers { ($(($r:ident, $k:ident))*) => { $( u.add(concat!("column by number ", stringify!($r), " ", stringify!($k)), 300, by_number::<$r, $k>); )* } }
    numbers! { (U0, U0) (U0, U3) (U1, U0) (U1, U1) (U1, U4) (U2, U2) (U2, U3) (U3, U1) (U3, U2) (U4, U4) (U5, U7) (U7, U5) (U8, U1) (U32, U3) (U3, U32) (U32, U32) }
    macro_rules! full { ($(($r:ident, $k:ident))*) => { $( u.add(concat!("inherited methods ", stringify!($r), " ", stringify!($k)), 6000, unit_seek::<i64, $r, $k>); )* } }
    full! { (U0, U3) (U3, U0) (U1, U1) (U1, U4) (U3, U1) (U2, U3) (U4, U2) (U5, U5) (U9, U6) (U6, U9) }
    u.add("searches Tk U3 U2", 2000, unit_seek::<Tk<Sym>, U3, U2>);
    u.add("searches Tk U2 U9", 2000, unit_seek::<Tk<Sym>, U2, U9>);
    // other sizes of elements, none at all, some with padding
    macro_rules! sized { ($f:ident $name:expr, $t:ty: $(($r:ident, $k:ident))*) => { $( u.add(concat!($name, " ", stringify!($r), " ", stringify!($k)), 300, $f::<$t, $r, $k>); )* } }
    sized! { unit_full "()", (): (U0, U2) (U2, U0) (U1, U1) (U2, U1) (U1, U3) (U3, U4) (U20, U9) }
    sized! { unit_full "[u8; 3]", elem::Three: (U1, U2) (U2, U3) (U5, U2) (U7, U18) }
    sized! { unit "Zt", kit::track::Zt: (U1, U1) (U2, U1) (U1, U3) (U3, U4) (U17, U2) }
    sized! { unit "u8", u8: (U1, U5) (U4, U3) (U6, U7) (U18, U20) }
    sized! { unit "String", String: (U2, U3) (U3, U1) (U4, U5) }
    sized! { unit "align64", elem::Wide: (U2, U3) (U5, U2) }
    sized! { unit "[u64; 5]", [u64; 5]: (U3, U2) (U2, U6) }
    kit::main(u)
}
