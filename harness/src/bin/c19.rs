use harness::*;
use std::fmt::{self, Display, Write};
use unicode_width::UnicodeWidthStr;

/// An entry: some text.
#[derive(Clone, Debug, PartialEq)]
struct Txt(String);
impl Display for Txt {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        // in pieces, as user types do
        let mid = self.0.char_indices().nth(self.0.chars().count() / 2).map_or(0, |(i, _)| i);
        f.write_str(&self.0[..mid])?;
        write!(f, "{}", &self.0[mid..])
    }
}

const WORDS: [&str; 22] = ["1", "-42", "3.25", "a", "xy", "hello world", "\u{6f22}", "\u{6f22}\u{5b57}", "e\u{301}", "\u{e9}", "\u{1f600}",
    "\u{200b}", "\u{ff21}", " ", "  x", "\u{1f468}\u{200d}\u{1f469}\u{200d}\u{1f467}", "\u{2764}\u{fe0f}", "0000000000000000000000000", "\u{5d0}\u{5d1}", "\u{1100}\u{1161}", "\u{301}", "\u{23a1}"];

fn line(c: &mut Case) -> String {
    match c.below(6) {
        0 => String::new(),
        1..=3 => c.pick(&WORDS).to_string(),
        _ => { let n = c.below(4); (0..n).map(|_| *c.pick(&WORDS)).collect() }
    }
}
fn text(c: &mut Case, style: u64) -> String {
    match style {
        0 => format!("{}", c.small(1000)),
        1 => c.pick(&WORDS).to_string(),
        2 => line(c),
        _ => {
            let n = if c.chance(1, 2) { 1 } else { c.below(4) };
            let mut v: Vec<String> = (0..n).map(|_| line(c)).collect();
            // text does not end in a line break; blank lines elsewhere are fine
            if v.last().map_or(false, |l| l.is_empty()) { v.pop(); while v.last().map_or(false, |l| l.is_empty()) { v.pop(); } }
            v.join(if c.chance(1, 6) { "\r\n" } else { "\n" })
        }
    }
}

/// The lines between the brackets.
fn render(t: &[Vec<String>], k: usize) -> Vec<String> {
    let lines: Vec<Vec<Vec<&str>>> = t.iter().map(|r| r.iter().map(|e| e.lines().collect()).collect()).collect();
    let width = |e: &Vec<&str>| e.iter().map(|l| l.width()).max().unwrap_or(0);
    let ws: Vec<usize> = (0..k).map(|j| lines.iter().map(|r| width(&r[j])).max().unwrap_or(0)).collect();
    let mut out = Vec::new();
    for row in &lines {
        for n in 0..row.iter().map(|e| e.len()).max().unwrap_or(0).max(1) {
            let mut s = String::new();
            for (j, e) in row.iter().enumerate() {
                if j > 0 { s.push(' ') }
                let left = (ws[j] - width(e)) / 2;
                let l = e.get(n).map_or("", |l| *l);
                s.push_str(&" ".repeat(left));
                s.push_str(l);
                s.push_str(&" ".repeat(ws[j] - left - l.width()));
            }
            out.push(s);
        }
    }
    out
}
/// The same with brackets; a grid of a single line may be bracketed in several ways.
fn check(t: &[Vec<String>], k: usize, got: &str) -> R {
    let body = render(t, k);
    let lines: Vec<&str> = got.lines().collect();
    ensure_eq!(lines.len(), body.len(), "number of lines of\n{}\nof {:?}", got, t);
    let n = lines.len();
    for (i, (l, b)) in lines.iter().zip(&body).enumerate() {
        let pairs: &[(char, char)] = if n == 1 { &[('\u{23a1}', '\u{23a4}'), ('\u{23a3}', '\u{23a6}'), ('[', ']'), ('\u{23a2}', '\u{23a5}')] }
            else if i == 0 { &[('\u{23a1}', '\u{23a4}')] } else if i == n - 1 { &[('\u{23a3}', '\u{23a6}')] } else { &[('\u{23a2}', '\u{23a5}')] };
        ensure!(pairs.iter().any(|&(a, z)| **l == format!("{}{}{}", a, b, z)), "line {} of\n{}\nis {:?}, expected {:?} bracketed by one of {:?} (entries {:?})", i, got, l, b, pairs, t);
    }
    Ok(())
}

/// Accepts so many writes, then fails.
struct Limited { left: usize, out: String, failed: bool }
impl Write for Limited {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        if self.left == 0 { self.failed = true; return Err(fmt::Error) }
        self.left -= 1;
        self.out.push_str(s);
        Ok(())
    }
}

fn judge(c: &mut Case, r: usize, k: usize, t: &[Vec<String>], m: &dyn Display) -> R {
    c.note(|| format!("{}x{} {:?}", r, k, t));
    let mut got = None;
    let p = panics_dyn(&mut || { got = Some(format!("{}", m)) });
    ensure!(p.is_none(), "displaying {:?} panicked: {}", t, p.unwrap());
    let got = got.unwrap();
    if r > 0 && k > 0 {
        c.nontrivial_if(t.iter().flatten().any(|e| e.width() != e.len() || e.contains('\n') || e.is_empty()) || r * k > 1);
        if t.iter().flatten().any(|e| e.contains('\n')) { c.label("multi-line") }
        if t.iter().flatten().any(|e| !e.is_ascii()) { c.label("not ASCII") }
        if t.iter().flatten().any(|e| e.is_empty()) { c.label("empty entry") }
        check(t, k, &got)?;
    } else { c.label("empty matrix") }
    if c.chance(1, 4) {
        let mut w = Limited { left: c.index(40), out: String::new(), failed: false };
        let mut res = Ok(());
        let p = panics_dyn(&mut || res = write!(w, "{}", m));
        ensure!(p.is_none(), "displaying {:?} into a failing writer panicked: {}", t, p.unwrap());
        if w.failed { c.label("writer fails") }
        ensure_eq!(res.is_err(), w.failed, "whether displaying {:?} reports the writer's failure", t);
        ensure!(got.starts_with(&w.out), "text written before the failure: {:?} of {:?}", w.out, got);
    }
    Ok(())
}
fn texts<T: Display, Ro: ArrayLen<Vector<T, Co>>, Co: ArrayLen<T>>(m: &Matrix<T, Ro, Co>) -> Vec<Vec<String>> {
    grid(Ro::to_usize(), Co::to_usize(), &mut |i, j| format!("{}", m[(i, j)]))
}

fn unit<Ro, Co>(c: &mut Case) -> R
where
    Ro: ArrayLen<Vector<Txt, Co>>,
    Co: ArrayLen<Txt>,
    Matrix<Txt, Ro, Co>: Display,
{
    let (r, k) = (<Ro as typenum::Unsigned>::to_usize(), <Co as typenum::Unsigned>::to_usize());
    let style = c.below(4);
    let t = grid(r, k, &mut |_, _| text(c, style));
    let m: Matrix<Txt, Ro, Co> = mof(t.iter().map(|r| r.iter().map(|s| Txt(s.clone())).collect()).collect());
    judge(c, r, k, &t, &m)
}
fn num<T: Elem + Display, Ro, Co>(c: &mut Case) -> R
where
    Ro: ArrayLen<Vector<T, Co>>,
    Co: ArrayLen<T>,
    Matrix<T, Ro, Co>: Display,
{
    let m: Matrix<T, Ro, Co> = mgen(c);
    let t = texts(&m);
    judge(c, <Ro as typenum::Unsigned>::to_usize(), <Co as typenum::Unsigned>::to_usize(), &t, &m)
}
/// Matrices of matrices.
fn nested<Ro, Co>(c: &mut Case) -> R
where
    Ro: ArrayLen<Vector<Matrix<Txt, U2, U3>, Co>> + ArrayLen<Vector<Matrix<i32, U1, U2>, Co>> + ArrayLen<Vector<Matrix<Txt, U3, U1>, Co>>,
    Co: ArrayLen<Matrix<Txt, U2, U3>> + ArrayLen<Matrix<i32, U1, U2>> + ArrayLen<Matrix<Txt, U3, U1>>,
    Matrix<Matrix<Txt, U2, U3>, Ro, Co>: Display,
    Matrix<Matrix<i32, U1, U2>, Ro, Co>: Display,
    Matrix<Matrix<Txt, U3, U1>, Ro, Co>: Display,
{
    let (r, k) = (<Ro as typenum::Unsigned>::to_usize(), <Co as typenum::Unsigned>::to_usize());
    let style = c.below(4);
    match c.below(3) {
        0 => { let m: Matrix<Matrix<Txt, U2, U3>, Ro, Co> = Matrix::generate(|_| Matrix::generate(|_| Txt(text(c, style)))); let t = texts(&m); judge(c, r, k, &t, &m) }
        1 => { let m: Matrix<Matrix<i32, U1, U2>, Ro, Co> = Matrix::generate(|_| Matrix::generate(|_| c.small(500) as i32)); let t = texts(&m); judge(c, r, k, &t, &m) }
        _ => { let m: Matrix<Matrix<Txt, U3, U1>, Ro, Co> = Matrix::generate(|_| Matrix::generate(|_| Txt(text(c, style)))); let t = texts(&m); judge(c, r, k, &t, &m) }
    }
}

fn main() {
    let mut u = Units::default();
    u.add_all("text", 100, dims_shapes!(unit));
    u.add_all("text, small", 400, kit::dims_small_pairs!(unit));
    u.add_all("i64", 40, kit::dims_small_pairs!(num, i64));
    u.add_all("f64", 40, kit::dims_small_pairs!(num, f64));
    u.add_all("char", 40, kit::dims_small_pairs!(num, char));
    u.add_all("nested", 60, kit::dims_small_pairs!(nested));
    kit::main(u)
}
