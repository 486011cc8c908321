//! Histories of calls on a double-ended exact-size iterator, compared with a deque of the items it
//! still has to yield.
use crate::case::Case;
use std::collections::VecDeque;
use std::cmp::Ordering;
use std::fmt::Debug;

/// Object-safe view of the iterator under test; `K` identifies an item.
pub trait It<K> {
    fn next(&mut self) -> Option<K>;
    fn next_back(&mut self) -> Option<K>;
    fn nth(&mut self, n: usize) -> Option<K>;
    fn len(&self) -> usize;
    fn size_hint(&self) -> (usize, Option<usize>);
    fn count(self: Box<Self>) -> usize;
    fn last(self: Box<Self>) -> Option<K>;
    /// Methods a type usually inherits from the iterator traits; false if not wired up.
    fn nth_back(&mut self, _n: usize) -> Option<Option<K>> { None }
    fn extra(self: Box<Self>, _kind: u64, _limit: usize) -> Option<Vec<K>> { None }
    fn by_ref_take(&mut self, _n: usize, _rev: bool) -> Option<Vec<K>> { None }
    /// A search that stops at the item number `at` it visits: the items visited, and the answer.
    fn search(&mut self, _kind: u64, _at: usize, _limit: usize) -> Option<(Vec<K>, Found<K>)> { None }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Found<K> { Item(Option<K>), Index(Option<usize>), Yes(bool) }

pub struct Basic<I, F>(pub I, pub F);
impl<K, I: DoubleEndedIterator + ExactSizeIterator, F: FnMut(I::Item) -> K> It<K> for Basic<I, F> {
    fn next(&mut self) -> Option<K> { self.0.next().map(&mut self.1) }
    fn next_back(&mut self) -> Option<K> { self.0.next_back().map(&mut self.1) }
    fn nth(&mut self, n: usize) -> Option<K> { self.0.nth(n).map(&mut self.1) }
    fn len(&self) -> usize { self.0.len() }
    fn size_hint(&self) -> (usize, Option<usize>) { self.0.size_hint() }
    fn count(self: Box<Self>) -> usize { self.0.count() }
    fn last(self: Box<Self>) -> Option<K> { let mut s = *self; s.0.last().map(&mut s.1) }
    fn nth_back(&mut self, n: usize) -> Option<Option<K>> { Some(self.0.nth_back(n).map(&mut self.1)) }
}

/// As `Basic`, with the inherited methods too.
pub struct Full<I, F>(pub I, pub F);
impl<K, I: DoubleEndedIterator + ExactSizeIterator, F: FnMut(I::Item) -> K> It<K> for Full<I, F> {
    fn next(&mut self) -> Option<K> { self.0.next().map(&mut self.1) }
    fn next_back(&mut self) -> Option<K> { self.0.next_back().map(&mut self.1) }
    fn nth(&mut self, n: usize) -> Option<K> { self.0.nth(n).map(&mut self.1) }
    fn len(&self) -> usize { self.0.len() }
    fn size_hint(&self) -> (usize, Option<usize>) { self.0.size_hint() }
    fn count(self: Box<Self>) -> usize { self.0.count() }
    fn last(self: Box<Self>) -> Option<K> { let mut s = *self; s.0.last().map(&mut s.1) }
    fn nth_back(&mut self, n: usize) -> Option<Option<K>> { Some(self.0.nth_back(n).map(&mut self.1)) }
    fn extra(self: Box<Self>, kind: u64, limit: usize) -> Option<Vec<K>> {
        let Full(it, mut f) = *self;
        let mut out = Vec::new();
        let mut put = |x: I::Item| { if out.len() > limit { panic!("more items than the iterator had left") } out.push(f(x)) };
        match kind {
            0 => it.fold((), |_, x| put(x)),
            1 => it.rfold((), |_, x| put(x)),
            2 => it.for_each(put),
            3 => { let mut it = it; let _: Option<()> = it.try_fold((), |_, x| { put(x); Some(()) }); }
            4 => { let mut it = it; let _: Option<()> = it.try_rfold((), |_, x| { put(x); Some(()) }); }
            5 => it.rev().for_each(put),
            6 => it.take(limit + 2).collect::<Vec<_>>().into_iter().for_each(put),
            7 => it.enumerate().skip(1).step_by(2).for_each(|(_, x)| put(x)),
            8 => it.rev().skip(1).for_each(put),
            10 => { let mut yes = false; let (a, b): (Vec<_>, Vec<_>) = it.take(limit + 2).partition(|_| { yes = !yes; yes }); a.into_iter().chain(b).for_each(put) }
            // of equal items, the last is the greatest and the first the least
            11 => it.max_by(|_, _| Ordering::Equal).into_iter().for_each(put),
            12 => it.min_by(|_, _| Ordering::Equal).into_iter().for_each(put),
            13 => { let mut it = it; let mut it2 = it.by_ref().chain(None); it2.next_back(); it2.for_each(put) }
            _ => { let mut it = it.peekable(); it.peek(); it.for_each(put) }
        }
        Some(out)
    }
    fn by_ref_take(&mut self, n: usize, rev: bool) -> Option<Vec<K>> {
        let f = &mut self.1;
        Some(if rev { self.0.by_ref().rev().take(n).map(f).collect() } else { self.0.by_ref().take(n).map(f).collect() })
    }
}

/// As `Full`, with searches.
pub struct Seek<I, F>(pub Full<I, F>);
pub fn seek<I, F>(it: I, f: F) -> Seek<I, F> { Seek(Full(it, f)) }
impl<K, I: DoubleEndedIterator + ExactSizeIterator, F: FnMut(I::Item) -> K> It<K> for Seek<I, F> {
    fn next(&mut self) -> Option<K> { self.0.next() }
    fn next_back(&mut self) -> Option<K> { self.0.next_back() }
    fn nth(&mut self, n: usize) -> Option<K> { self.0.nth(n) }
    fn len(&self) -> usize { It::len(&self.0) }
    fn size_hint(&self) -> (usize, Option<usize>) { self.0.size_hint() }
    fn count(self: Box<Self>) -> usize { Box::new(self.0).count() }
    fn last(self: Box<Self>) -> Option<K> { Box::new(self.0).last() }
    fn nth_back(&mut self, n: usize) -> Option<Option<K>> { self.0.nth_back(n) }
    fn extra(self: Box<Self>, kind: u64, limit: usize) -> Option<Vec<K>> { Box::new(self.0).extra(kind, limit) }
    fn by_ref_take(&mut self, n: usize, rev: bool) -> Option<Vec<K>> { self.0.by_ref_take(n, rev) }
    fn search(&mut self, kind: u64, at: usize, limit: usize) -> Option<(Vec<K>, Found<K>)> {
        let Full(it, f) = &mut self.0;
        let mut seen = 0;
        let mut out = Vec::new();
        let mut hit = || { if seen > limit { panic!("more items than the iterator had left") } seen += 1; seen == at + 1 };
        let found = match kind {
            0 => Found::Index(it.position(|x| { out.push(f(x)); hit() })),
            1 => Found::Index(it.rposition(|x| { out.push(f(x)); hit() })),
            2 => { let x = it.find(|_| hit()); Found::Item(x.map(f)) }
            3 => { let x = it.rfind(|_| hit()); Found::Item(x.map(f)) }
            4 => Found::Yes(it.any(|x| { out.push(f(x)); hit() })),
            5 => Found::Yes(it.all(|x| { out.push(f(x)); !hit() })),
            6 => Found::Item(it.find_map(|x| if hit() { Some(f(x)) } else { out.push(f(x)); None })),
            7 => Found::Yes(it.try_fold((), |_, x| { out.push(f(x)); if hit() { None } else { Some(()) } }).is_none()),
            8 => Found::Yes(it.try_rfold((), |_, x| { out.push(f(x)); if hit() { None } else { Some(()) } }).is_none()),
            _ => Found::Yes(it.try_for_each(|x| { out.push(f(x)); if hit() { Err(()) } else { Ok(()) } }).is_err()),
        };
        Some((out, found))
    }
}
pub const EXTRAS: u64 = 14;
pub const SEARCHES: u64 = 10;

/// What `search` gives, and how many items it takes from the end it starts at.
fn search_model<K: Clone>(kind: u64, at: usize, m: &VecDeque<K>) -> (Vec<K>, Found<K>, usize, bool) {
    let rev = kind == 1 || kind == 3 || kind == 8;
    let seq: Vec<K> = if rev { m.iter().rev().cloned().collect() } else { m.iter().cloned().collect() };
    let taken = seq.len().min(at.saturating_add(1));
    let hit = at < seq.len();
    let mut seen = seq[..taken].to_vec();
    let found = match kind {
        0 => Found::Index(if hit { Some(at) } else { None }),
        1 => Found::Index(if hit { Some(seq.len() - 1 - at) } else { None }),
        2 | 3 | 6 => Found::Item(if hit { Some(seq[at].clone()) } else { None }),
        5 => Found::Yes(!hit),
        _ => Found::Yes(hit),
    };
    match kind { 2 | 3 => seen.clear(), 6 if hit => { seen.pop(); } _ => {} }
    (seen, found, taken, rev)
}

fn extra_model<K: Clone>(kind: u64, m: &VecDeque<K>) -> Vec<K> {
    let v: Vec<K> = m.iter().cloned().collect();
    match kind {
        1 | 4 | 5 => v.into_iter().rev().collect(),
        7 => v.into_iter().skip(1).step_by(2).collect(),
        8 => v.into_iter().rev().skip(1).collect(),
        10 => v.iter().step_by(2).chain(v.iter().skip(1).step_by(2)).cloned().collect(),
        11 => v.into_iter().last().into_iter().collect(),
        12 => v.into_iter().take(1).collect(),
        13 => { let mut v = v; v.pop(); v }
        _ => v,
    }
}

/// Skip distance for a sequence with `left` items left: inside, at the end, past it, far past it.
pub fn distance(c: &mut Case, left: usize) -> usize {
    match c.below(8) {
        0..=3 => c.upto(left.min(3)),
        4 => left,
        5 => left.saturating_sub(1),
        6 => left + 1 + c.index(4),
        _ => far(c, left),
    }
}

/// Far past the end, in particular where narrower or multiplied counters wrap around.
fn far(c: &mut Case, left: usize) -> usize {
    let near = c.upto(left + 1);
    match c.below(5) {
        0 => left + 64,
        1 => usize::MAX - near,
        2 => (1usize << (8 + c.index(usize::BITS as usize - 8))) + near,
        3 => (usize::MAX / (1 + c.index(32))).saturating_add(near),
        _ => usize::MAX,
    }
}

pub struct Stats { pub fwd: usize, pub back: usize, pub past: usize, pub skips: usize }

pub fn run<'a, K: Clone + PartialEq + Debug>(c: &mut Case, mut it: Box<dyn It<K> + 'a>, model: Vec<K>, log: &mut String) -> Result<Stats, String> {
    let mut m: VecDeque<K> = model.into();
    let total = m.len();
    let mut st = Stats { fwd: 0, back: 0, past: 0, skips: 0 };
    let steps = match c.below(4) { 0 => c.index(4), 1 | 2 => c.index(10), _ => c.index(total + 6) };
    use std::fmt::Write;
    macro_rules! same {
        ($a:expr, $b:expr, $what:expr) => {{
            let (a, b) = ($a, $b);
            if a != b { return Err(format!("{}: {} gave {:?}, expected {:?}", log, $what, a, b)); }
        }}
    }
    macro_rules! lens {
        () => {{
            same!(it.size_hint(), (m.len(), Some(m.len())), "size_hint");
            same!(it.len(), m.len(), "len");
        }}
    }
    lens!();
    for _ in 0..steps {
        match c.below(12) {
            0..=2 => { let _ = write!(log, " next"); same!(it.next(), m.pop_front(), "next"); st.fwd += 1; }
            3..=5 => { let _ = write!(log, " next_back"); same!(it.next_back(), m.pop_back(), "next_back"); st.back += 1; }
            6..=8 => {
                let n = distance(c, m.len());
                let _ = write!(log, " nth({})", n);
                if n > m.len() { st.past += 1 }
                st.skips += 1;
                let drop = n.min(m.len());
                m.drain(..drop);
                same!(it.nth(n), m.pop_front(), "nth");
            }
            9 => {
                let n = distance(c, m.len());
                let keep = m.len() - n.min(m.len());
                let mut m2: VecDeque<K> = m.iter().take(keep).cloned().collect();
                let e = m2.pop_back();
                if let Some(g) = it.nth_back(n) {
                    let _ = write!(log, " nth_back({})", n);
                    m = m2;
                    same!(g, e, "nth_back");
                }
            }
            10 => {
                let n = c.upto(m.len() + 1);
                let rev = c.bool();
                let e: Vec<K> = if rev { m.iter().rev().take(n).cloned().collect() } else { m.iter().take(n).cloned().collect() };
                if let Some(g) = it.by_ref_take(n, rev) {
                    let _ = write!(log, " by_ref{}.take({})", if rev { ".rev" } else { "" }, n);
                    for _ in 0..e.len() { if rev { m.pop_back(); } else { m.pop_front(); } }
                    same!(g, e, "take");
                }
            }
            _ => {
                let kind = c.below(SEARCHES);
                let at = c.upto(m.len());
                if let Some((seen, found)) = it.search(kind, at, m.len()) {
                    let _ = write!(log, " search#{}({})", kind, at);
                    let (s, f, taken, rev) = search_model(kind, at, &m);
                    same!(found, f, "search");
                    same!(seen, s, "the items searched");
                    for _ in 0..taken { if rev { m.pop_back(); } else { m.pop_front(); } }
                    st.skips += 1;
                }
            }
        }
        lens!();
    }
    match c.below(8) {
        0 => { let _ = write!(log, " count"); same!(it.count(), m.len(), "count"); return Ok(st); }
        1 => { let _ = write!(log, " last"); same!(it.last(), m.pop_back(), "last"); return Ok(st); }
        2 | 3 => {
            let kind = c.below(EXTRAS);
            let _ = write!(log, " terminal#{}", kind);
            if let Some(g) = it.extra(kind, m.len()) { same!(g, extra_model(kind, &m), "terminal operation"); }
            return Ok(st);
        }
        4 => { let _ = write!(log, " drop"); return Ok(st); }
        _ => {
            let both = c.below(3);
            let _ = write!(log, " drain");
            while !m.is_empty() {
                let front = match both { 0 => true, 1 => false, _ => c.bool() };
                if front { same!(it.next(), m.pop_front(), "next"); } else { same!(it.next_back(), m.pop_back(), "next_back"); }
                lens!();
            }
        }
    }
    let _ = write!(log, " then past the end:");
    for _ in 0..c.index(5) {
        match c.below(4) {
            0 => same!(it.next(), None, "next"),
            1 => same!(it.next_back(), None, "next_back"),
            2 => { let n = distance(c, 0); same!(it.nth(n), None, "nth") }
            _ => { let n = distance(c, 0); if let Some(g) = it.nth_back(n) { same!(g, None, "nth_back") } }
        }
        st.past += 1;
        lens!();
    }
    match c.below(3) {
        0 => same!(it.count(), 0, "count"),
        1 => same!(it.last(), None, "last"),
        _ => {}
    }
    Ok(st)
}

impl Stats {
    /// The rule for a non-trivial history: both ends were used, or it went past the end after a step.
    pub fn nontrivial(&self) -> bool {
        (self.fwd + self.skips > 0 && self.back > 0) || (self.past > 0 && self.fwd + self.back + self.skips > 1)
    }
}

