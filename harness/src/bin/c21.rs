use harness::*;
use kit::track::{self, Sym, Tk, Zt};
use std::fmt::{self, Debug, Write};

/// An element whose debug text is whatever it holds: empty, quotes, brackets, several lines.
#[derive(Clone, PartialEq)]
struct Raw(String);
impl Debug for Raw { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str(&self.0) } }
impl Elem for Raw {
    type Key = String;
    fn gen(c: &mut Case) -> Raw {
        let n = c.below(4);
        Raw((0..n).map(|_| *c.pick(&["a", "", ", ", "]", "[", "\n", "Vector", "\"", "\u{4e00}", "{}", " "])).collect())
    }
    fn key(&self) -> String { self.0.clone() }
}
/// Shows which formatting options reached it.
#[derive(Clone, PartialEq)]
struct Flags(u8);
impl Debug for Flags {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { write!(f, "{}#{:?}.{:?}{}{}", self.0, f.width(), f.precision(), if f.alternate() { "#" } else { "" }, if f.sign_plus() { "+" } else { "" }) }
}
impl Elem for Flags {
    type Key = u8;
    fn gen(c: &mut Case) -> Flags { Flags(c.below(10) as u8) }
    fn key(&self) -> u8 { self.0 }
}

/// A sink that fails once it is full.
struct Small { left: usize, got: String }
impl Write for Small {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        if s.len() > self.left { return Err(fmt::Error) }
        self.left -= s.len();
        self.got.push_str(s);
        Ok(())
    }
}

/// The text under one of several format strings.
#[inline(never)]
fn text(style: u64, d: &dyn Debug) -> String {
    match style {
        0 => format!("{:?}", d),
        1 => format!("{:#?}", d),
        2 => format!("{:4?}", d),
        3 => format!("{:.1?}", d),
        4 => format!("{:02x?}", d),
        5 => format!("{:+?}", d),
        _ => format!("{:#08?}", d),
    }
}
const STYLES: u64 = 7;
/// What the elements look like, in the standard library's own list notation.
#[inline(never)]
fn list_text<T: Debug>(style: u64, s: &[T]) -> String { text(style, &s) }

fn judge(c: &mut Case, n: usize, what: &str, style: u64, want: String, d: &dyn Debug) -> R {
    c.nontrivial_if(n > 1);
    let got = text(style, d);
    c.note(|| format!("{} in style {}: {:?}", what, style, got));
    ensure_eq!(got, want, "debug text (style {}) of {}", style, what);
    let room = c.upto(want.len());
    let mut sink = Small { left: room, got: String::new() };
    let _ = match style { 1 => write!(sink, "{:#?}", d), _ => write!(sink, "{:?}", d) };
    Ok(())
}
/// For `{:?}` the text is also assembled from nothing but the elements' own texts.
#[inline(never)]
fn plain_list<T: Debug>(s: &[T]) -> String {
    let mut o = String::from("[");
    for (i, x) in s.iter().enumerate() {
        if i > 0 { o.push_str(", ") }
        o.push_str(&format!("{:?}", x));
    }
    o.push(']');
    o
}
fn vector<T: Elem, N: ArrayLen<T>>(c: &mut Case) -> R {
    track::reset();
    {
        let v: Vector<T, N> = vgen(c);
        let style = if c.bool() { 0 } else { c.below(STYLES) };
        if style == 0 { ensure_eq!(format!("{:?}", v), format!("Vector{}", plain_list(v.as_slice())), "debug text of the vector of {:?}", v.as_slice()); }
        judge(c, N::to_usize(), "a vector", style, format!("Vector{}", list_text(style, v.as_slice())), &v)?;
    }
    track::finish(false)
}
fn join(style: u64, rows: Vec<String>, plain: Vec<String>) -> Result<String, String> {
    if style == 0 && rows != plain { return Err(format!("harness: {:?} {:?}", rows, plain)) }
    Ok(format!("Matrix[{}]", rows.join(", ")))
}
fn matrix<T: Elem, Ro: ArrayLen<Vector<T, Co>>, Co: ArrayLen<T>>(c: &mut Case) -> R {
    track::reset();
    let (r, k) = (Ro::to_usize(), Co::to_usize());
    {
        let items = gen_grid::<T>(c, r, k);
        let style = if c.bool() { 0 } else { c.below(STYLES) };
        let want = join(style, list(r, &mut |i| list_text(style, &items[i])), if style == 0 { list(r, &mut |i| plain_list(&items[i])) } else { vec![] })?;
        let what = if c.want_note { format!("a {}x{} matrix", r, k) } else { String::from("a matrix") };
        let m: Matrix<T, Ro, Co> = mof(items);
        judge(c, r * k, &what, style, want, &m)?;
    }
    track::finish(false)
}
/// Containers as elements of containers.
fn nested<Ro: ArrayLen<Vector<i32, Co>>, Co: ArrayLen<i32>>(c: &mut Case) -> R {
    let (r, k) = (Ro::to_usize(), Co::to_usize());
    let mut texts = Vec::new();
    let v: Vector<Option<Matrix<i32, Ro, Co>>, U3> = Vector::generate(|_| {
        let items = gen_grid::<i32>(c, r, k);
        let rows: Vec<String> = items.iter().map(|x| plain_list(x)).collect();
        texts.push(format!("Some(Matrix[{}])", rows.join(", ")));
        Some(mof(items))
    });
    judge(c, 3, "a vector of matrices", 0, format!("Vector[{}]", texts.join(", ")), &v)?;
    let mut texts = Vec::new();
    let m: Matrix<Vector<i32, Co>, U2, U2> = Matrix::generate(|_| {
        let items = list(k, &mut |_| i32::gen(c));
        texts.push(format!("Vector{}", plain_list(&items)));
        vof(items)
    });
    judge(c, 4, "a matrix of vectors", 0, format!("Matrix[[{}], [{}]]", texts[..2].join(", "), texts[2..].join(", ")), &m)
}

fn main() {
    type E = Tk<Sym>;
    let mut u = Units::default();
    u.add_all("vector i64", 20, kit::dims_n!(vector, i64));
    u.add_all("vector f64", 20, kit::dims_n!(vector, f64));
    u.add_all("vector String", 20, kit::dims_n!(vector, String));
    u.add_all("vector any text", 40, kit::dims_n!(vector, Raw));
    u.add_all("vector options", 40, kit::dims_n!(vector, Flags));
    u.add_all("vector Tk", 10, kit::dims_n!(vector, E));
    u.add_all("vector ()", 3, kit::dims_n!(vector, ()));
    u.add_all("vector Zt", 3, kit::dims_n!(vector, Zt));
    u.add_all("matrix i64", 20, dims_shapes!(matrix, i64));
    u.add_all("matrix any text", 20, kit::dims_few_pairs!(matrix, Raw));
    u.add_all("matrix options", 20, kit::dims_few_pairs!(matrix, Flags));
    u.add_all("matrix Tk", 10, kit::dims_few_pairs!(matrix, E));
    u.add_all("matrix ()", 3, kit::dims_few_pairs!(matrix, ()));
    u.add_all("nested", 10, kit::dims_few_pairs!(nested));
    kit::main(u)
}
