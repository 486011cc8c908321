use harness::*;
use kit::hist::{self, seek, Full};
use kit::track::{self, Sym, Tk, Zt};

macro_rules! histories { ($name:ident $wrap:ident) => {
fn $name<T: Elem, N: ArrayLen<T>>(c: &mut Case) -> R {
    track::reset();
    let n = N::to_usize();
    let v: Vector<T, N> = vgen(c);
    let keys = vkeys(&v);
    ensure_eq!(keys.len(), n, "length");
    let mut log = format!("len {}:", n);
    let st = hist::run(c, Box::new($wrap(v.into_iter(), |x: T| x.key())), keys, &mut log)?;
    c.nontrivial_if(n >= 2 && st.nontrivial());
    if st.past > 0 { c.label("past the end") }
    if st.fwd > 0 && st.back > 0 { c.label("both ends") }
    c.note(|| log);
    track::finish(false)
}
} }
histories! { unit Full }
histories! { unit_seek seek }

fn main() {
    let mut u = Units::default();
    u.add_all("Tk", 600, dims_n!(unit, Tk<Sym>));
    u.add_all("i64", 200, dims_n!(unit, i64));
    u.add_all("String", 100, dims_n!(unit, String));
    u.add_all("searches i64", 200, dims_n!(unit_seek, i64));
    u.add_all("searches Tk", 400, dims_few!(unit_seek, Tk<Sym>));
    u.add_all("()", 60, dims_n!(unit, ()));
    u.add_all("Zt", 60, dims_few!(unit, Zt));
    u.add_all("u8", 100, dims_few!(unit, u8));
    u.add_all("u128", 60, dims_few!(unit, u128));
    u.add_all("f64", 60, dims_few!(unit, f64));
    u.add_all("bool", 60, dims_few!(unit, bool));
    u.add_all("char", 60, dims_few!(unit, char));
    u.add_all("[u64; 5]", 60, dims_few!(unit, [u64; 5]));
    u.add_all("Option<Box>", 60, dims_few!(unit, Option<Box<u32>>));
    u.add_all("NonZeroU16", 60, dims_few!(unit, std::num::NonZeroU16));
    u.add_all("&str", 60, dims_few!(unit, &'static str));
    u.add_all("align64", 60, dims_few!(unit, elem::Wide));
    u.add_all("[u8; 3]", 60, dims_few!(unit, elem::Three));
    u.add_all("Rc", 60, dims_few!(unit, std::rc::Rc<u32>));
    kit::main(u)
}
