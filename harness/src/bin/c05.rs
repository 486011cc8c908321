use harness::*;
use kit::track::{self, Sym, Tk, Zt};

/// Iterators of several kinds over the same items; only the last kind gives those of `after`.
fn feed<T: 'static>(kind: u64, items: Vec<T>, after: Vec<T>) -> Box<dyn Iterator<Item = T>> {
    struct Lying<I>(I, (usize, Option<usize>));
    impl<I: Iterator> Iterator for Lying<I> {
        type Item = I::Item;
        fn next(&mut self) -> Option<I::Item> { self.0.next() }
        fn size_hint(&self) -> (usize, Option<usize>) { self.1 }
    }
    let n = items.len();
    match kind {
        0 => Box::new(items.into_iter()),
        1 => { let mut it = items.into_iter(); Box::new(std::iter::from_fn(move || it.next())) }
        2 => Box::new(items.into_iter().rev().collect::<Vec<_>>().into_iter().rev()),
        3 => {
            let mut a = items;
            let b = a.split_off(n / 2);
            Box::new(a.into_iter().chain(b))
        }
        4 => Box::new(items.into_iter().map(|x| x).filter(|_| true)),
        5 => Box::new(Lying(items.into_iter(), (0, None))),
        6 => Box::new(Lying(items.into_iter(), (n + 5, Some(n + 9)))),
        7 => Box::new(Lying(items.into_iter(), (0, Some(n / 2)))),
        8 => Box::new(items.into_iter().collect::<std::collections::VecDeque<_>>().into_iter()),
        // not fused: where it ends early, it goes on after its end
        _ => {
            let mut more = after.into_iter();
            let mut it = items.into_iter();
            let mut ended = false;
            Box::new(std::iter::from_fn(move || {
                if ended { return more.next() }
                let r = it.next();
                ended = r.is_none();
                r
            }))
        }
    }
}

fn unit<T: Elem, N: ArrayLen<T>>(c: &mut Case) -> R {
    track::reset();
    let n = N::to_usize();
    let count = match c.below(4) {
        0 => n,
        1 => c.index(n + 1),
        2 => n + 1 + c.index(4),
        _ => c.index(n + 40),
    };
    let kind = c.below(11).min(9);
    let by_ref = c.below(3);
    let items: Vec<T> = (0..count).map(|_| T::gen(c)).collect();
    let keys: Vec<T::Key> = items.iter().map(|x| x.key()).collect();
    let what = format!("collecting {} items (source {}, mode {}) into length {}", count, kind, by_ref, n);
    c.note(|| what.clone());
    let after: Vec<T> = if kind == 9 && count < n { (0..n - count + c.index(3)).map(|_| T::gen(c)).collect() } else { Vec::new() };
    let debug = cfg!(debug_assertions);
    let src = feed(kind, items, after);
    let got: Result<Vector<T, N>, String> = panics(move || match by_ref {
        0 => src.collect(),
        1 => { let mut src = src; (&mut src).collect() }
        _ => <Vector<T, N> as std::iter::FromIterator<T>>::from_iter(src),
    });
    c.nontrivial_if(count != n || n > 1);
    if count < n {
        c.label("too few");
        ensure!(got.is_err(), "{} succeeded", what);
        track::finish(false).map_err(|e| format!("{}: {}", what, e))
    } else if count == n {
        c.label("exact");
        match got {
            Ok(v) => {
                ensure_eq!(v.as_slice().len(), n, "{}: length", what);
                ensure_eq!(vkeys(&v), keys, "{}", what);
                drop(v);
                track::finish(false).map_err(|e| format!("{}: {}", what, e))
            }
            Err(m) => Err(format!("{} panicked: {}", what, m)),
        }
    } else {
        c.label("too many");
        match got {
            Ok(v) => {
                ensure!(!debug, "{} was accepted although debug assertions are on", what);
                ensure_eq!(v.as_slice().len(), n, "{}: length", what);
                ensure_eq!(vkeys(&v)[..], keys[..n], "{}", what);
                drop(v);
                track::finish(false).map_err(|e| format!("{}: {}", what, e))
            }
            // the elements of a vector that is rejected may leak
            Err(_) => track::finish(true).map_err(|e| format!("{}: {}", what, e)),
        }
    }
}

fn main() {
    let mut u = Units::default();
    u.add_all("Tk", 800, dims_n!(unit, Tk<Sym>));
    u.add_all("i64", 200, dims_n!(unit, i64));
    u.add_all("String", 200, dims_n!(unit, String));
    u.add_all("Zt", 100, dims_n!(unit, Zt));
    u.add_all("()", 60, dims_n!(unit, ()));
    u.add_all("u8", 100, dims_few!(unit, u8));
    u.add_all("u128", 60, dims_few!(unit, u128));
    u.add_all("Option<Box>", 60, dims_few!(unit, Option<Box<u32>>));
    u.add_all("[u64; 5]", 60, dims_few!(unit, [u64; 5]));
    u.add_all("align64", 60, dims_few!(unit, elem::Wide));
    u.add_all("&str", 60, dims_few!(unit, &'static str));
    u.add_all("Vec", 60, dims_few!(unit, Vec<u8>));
    kit::main(u)
}
