"""Generated programs about borrowing, ownership and threads: what safe code can and cannot do (C25)."""
import os, random
from programs import rustc, parallel, libs

HEAD = """#![allow(warnings)]
extern crate rowcol; extern crate num;
use rowcol::prelude::*;
use std::{rc::Rc, sync::Arc, cell::{Cell, RefCell}, sync::{Mutex, MutexGuard}};
fn mk<X>() -> X { loop {} }
fn touch<X: ?Sized>(_: &X) {}
fn send<X: Send>(_: X) {}
fn sync<X: Sync>(_: X) {}
#[derive(PartialEq, Eq, PartialOrd, Ord, Debug)] pub struct Solo(u8);
"""


def V(t, n): return "Vector<%s, U%d>" % (t, n)
def M(t, r, c): return "Matrix<%s, U%d, U%d>" % (t, r, c)


# ---------------------------------------------------------------- histories of owners and borrowers
#
# A program is a list of steps over numbered variables. What is known of each variable: what kind of thing it is, and which loans it holds.
# A step is in conflict when it writes or moves (or, against an exclusive loan, reads) something on loan to a variable that is used later,
# when it uses something moved away, or when a block ends with one of its variables on loan to something used later.

ELEMS = {"i32": dict(copy=True, num=True), "String": dict(copy=False, num=False), "Box<i32>": dict(copy=False, num=False), "f64": dict(copy=True, num=True), "(u8, char)": dict(copy=True, num=False),
         "Vec<String>": dict(copy=False, num=False), "REF": dict(copy=True, num=False)}

# expression, exclusive?, what it gives
BORROWS = {
    "v": [("&{c}", 0, "ref"), ("{c}.iter()", 0, "iter"), ("&{c}[0]", 0, "elem"), ("&{c}[U0::new()]", 0, "elem"), ("{c}.as_slice()", 0, "slice"), ("&(*{c})[..]", 0, "slice"),
          ("AsRef::<[_]>::as_ref(&{c})", 0, "slice"), ("{c}.get(0).unwrap()", 0, "elem"), ("unsafe {{ {c}.get_unchecked(0) }}", 0, "elem"), ("{c}.iter().rev()", 0, "iter"), ("&*{c}", 0, "array"),
          ("{c}.first().unwrap()", 0, "elem"), ("{c}.windows(1)", 0, "slices"), ("{c}.split_at(0).1", 0, "slice"), ("&{c}[{hi}]", 0, "elem"), ("&{c}[U{hi}::new()]", 0, "elem"),
          ("&mut {c}", 1, "mref"), ("{c}.iter_mut()", 1, "miter"), ("&mut {c}[0]", 1, "melem"), ("&mut {c}[U0::new()]", 1, "melem"), ("{c}.as_slice_mut()", 1, "mslice"),
          ("AsMut::<[_]>::as_mut(&mut {c})", 1, "mslice"), ("unsafe {{ {c}.get_unchecked_mut(0) }}", 1, "melem"), ("{c}.last_mut().unwrap()", 1, "melem"), ("&mut *{c}", 1, "marray"),
          ("&mut {c}[{hi}]", 1, "melem"), ("&mut {c}[U{hi}::new()]", 1, "melem")],
    "m": [("&{c}", 0, "ref"), ("{c}.rows_iter()", 0, "owned"), ("{c}.cols_iter()", 0, "owned"), ("{c}.rows_iter_ref()", 0, "slices"), ("{c}.cols_iter_ref()", 0, "cols"),
          ("&{c}[(0, 0)]", 0, "elem"), ("&{c}[(U0::new(), U0::new())]", 0, "elem"), ("unsafe {{ {c}.get_unchecked((0, 0)) }}", 0, "elem"), ("{c}.rows_iter_ref().rev()", 0, "slices"),
          ("{c}.cols_iter_ref().rev()", 0, "cols"), ("{c}.cols_iter_ref().next_back().unwrap()", 0, "iter"), ("{c}.rows_iter_ref().last().unwrap()", 0, "slice"),
          ("{c}.rows_iter_ref().nth(0).unwrap()", 0, "slice"), ("{c}.cols_iter_ref().nth(0).unwrap()", 0, "iter"), ("&{c}[({hi}, {hj})]", 0, "elem"), ("&{c}[(U{hi}::new(), U{hj}::new())]", 0, "elem"),
          ("&{c}[(U0::new(), U{hj}::new())]", 0, "elem"), ("&{c}[(U{hi}::new(), U0::new())]", 0, "elem"), ("{c}.rows_iter_ref().zip({c}.cols_iter_ref()).next().unwrap().1", 0, "iter"),
          ("{c}.cols_iter_ref().next().unwrap().next().unwrap()", 0, "elem"), ("{c}.cols_iter_ref().flat_map(|x| x).last().unwrap()", 0, "elem"),
          ("&mut {c}", 1, "mref"), ("&mut {c}[(0, 0)]", 1, "melem"), ("&mut {c}[(U0::new(), U0::new())]", 1, "melem"), ("unsafe {{ {c}.get_unchecked_mut((0, 0)) }}", 1, "melem"),
          ("&mut {c}[({hi}, {hj})]", 1, "melem"), ("&mut {c}[(U{hi}::new(), U{hj}::new())]", 1, "melem"), ("&mut {c}[(U0::new(), U{hj}::new())]", 1, "melem"), ("&mut {c}[(U{hi}::new(), U0::new())]", 1, "melem")],
    "o": [("&{c}", 0, "ref"), ("{c}.by_ref()", 1, "mref"), ("{c}.by_ref().take(1)", 1, "mref")],
    "s": [],
}
# from a borrower: expression, what it gives ('own' things hold no loan on the container)
DERIVE = {
    "iter": [("{r}.next().unwrap()", "elem"), ("{r}.next_back().unwrap()", "elem"), ("{r}.nth(0).unwrap()", "elem"), ("{r}.by_ref().last().unwrap()", "elem"), ("{r}.by_ref().skip(1).next().unwrap()", "elem")],
    "slices": [("{r}.next().unwrap()", "slice"), ("{r}.next_back().unwrap()", "slice"), ("{r}.nth(0).unwrap()", "slice"), ("{r}.by_ref().last().unwrap()", "slice")],
    "cols": [("{r}.next().unwrap()", "iter"), ("{r}.next_back().unwrap()", "iter"), ("{r}.nth(0).unwrap()", "iter"), ("{r}.by_ref().last().unwrap()", "iter"), ("{r}.next().unwrap().last().unwrap()", "elem"),
             ("{r}.next().unwrap().next_back().unwrap()", "elem")],
    "owned": [("{r}.next().unwrap()", "val"), ("{r}.next_back().unwrap()", "val"), ("{r}.nth(0).unwrap()", "val"), ("{r}.len()", "val"), ("{r}.by_ref().collect::<Vec<_>>()", "val")],
    "slice": [("&{r}[0]", "elem"), ("{r}.iter()", "iter")],
    "array": [("&{r}[0]", "elem"), ("{r}.iter()", "iter")],
    "miter": [("{r}.next().unwrap()", "melem"), ("{r}.next_back().unwrap()", "melem")],
    "elem": [("{r}.clone()", "own")], "ref": [("{r}.clone()", "own")],
}


class Var:
    def __init__(s, name, kind, elem=None, dims=(), loans=(), depth=0):
        s.name, s.kind, s.elem, s.dims, s.loans, s.depth = name, kind, elem, dims, frozenset(loans), depth

    def copy(s):
        return s.kind in "vm" and ELEMS[s.elem]["copy"]


class Step:
    """op: new, borrow, derive, use, read, write, assign, move, into, open, close"""
    def __init__(s, op, **k):
        s.op = op
        s.__dict__.update(k)


class History:
    """Steps, the text of each, and where it conflicts."""
    def __init__(s, steps):
        s.steps = steps

    def text(s):
        ups = [st.var.name for st in s.steps if st.op in ("borrow", "derive")]
        return " ".join("let mut %s;" % u for u in ups) + " " + " ".join(st.text for st in s.steps)

    def conflicts(s, implicit=False):
        """Pairs (step number, reason). With implicit, owning iterators count as used when their scope ends."""
        last = {}
        ended = {}
        stack, declared = [[]], {}
        for n, st in enumerate(s.steps):
            if st.op == "open": stack.append([])
            elif st.op == "close":
                for v in stack.pop(): ended[v] = n
            elif st.op in ("new", "into"): stack[-1].append(st.var)
            for v in st.uses: last[v] = n
        for v in stack.pop(): ended[v] = len(s.steps)
        if implicit:
            for v in ended:
                if v.kind == "o" and v.loans: last[v] = max(last.get(v, -1), ended[v])
        bad, born, moved = [], {}, set()
        holders = []

        def held(c, n, exclusive_only, but=None):
            for h in holders:
                if h is but or last.get(h, -1) <= n: continue
                for (x, ex) in h.loans:
                    if x is c and (ex or not exclusive_only):
                        bad.append((n, "%s on loan to %s" % (c.name, h.name)))
                        break
        scope = [[]]
        for n, st in enumerate(s.steps):
            c = getattr(st, "on", None)
            for x in [c] * (c is not None and st.op != "assign") + list(st.uses if st.op == "new" else ()):
                if x in moved: bad.append((n, x.name + " is gone"))
            if st.op in ("read", "borrow"): held(c, n, not (st.op == "borrow" and st.exclusive))
            elif st.op in ("write", "assign"): held(c, n, False)
            elif st.op in ("move", "into"):
                held(c, n, c.copy())
                if not c.copy(): moved.add(c)
            elif st.op == "close":
                for v in scope[-1]: held(v, n, False)
                scope.pop()
            elif st.op == "open": scope.append([])
            if st.op == "assign": moved.discard(c)
            if st.op in ("new", "into"): scope[-1].append(st.var)
            if st.op in ("new", "into", "borrow", "derive"): holders.append(st.var)
        return bad


def history(g):
    """Random steps, in scope but otherwise unchecked."""
    n = [0]

    def name(p):
        n[0] += 1
        return "%s%d" % (p, n[0])
    steps, owners, refs, depth = [], [[]], [[]], 0

    def add(op, text, uses=(), **k):
        steps.append(Step(op, text=text, uses=tuple(uses), **k))
    vis = lambda lists: [v for l in lists for v in l]

    def new():
        k = g.choice("vvm")
        e = g.choice(sorted(ELEMS))
        loans = []
        if e == "REF":
            src = [o for o in vis(owners) if o.kind == "s"]
            if not src or g.random() < 0.4:
                s = Var(name("s"), "s", "String")
                add("new", "let mut %s: String = mk();" % s.name, var=s)
                owners[-1].append(s)
                src = [s]
            src = g.sample(src, min(len(src), 2))
            # every element a reference to a variable
            loans = [(x, 0) for x in src]
            d = (g.randint(1, 3),) if k == "v" else (g.randint(1, 3), g.randint(1, 3))
            el = lambda m: "[%s]" % ", ".join("&%s" % (src[0] if i == 0 else g.choice(src) if i < m - 1 else src[-1]).name for i in range(m))
            if d[0] * (d[1] if k == "m" else 1) < len(src): loans = [(src[0], 0)]; src = src[:1]
            if k == "v":
                texts = el(d[0])
            else:
                flat = [src[0], *[g.choice(src) for _ in range(d[0] * d[1] - 2)], src[-1]][:d[0] * d[1]] if d[0] * d[1] > 1 else [src[0]]
                texts = "[%s]" % ", ".join("[%s]" % ", ".join("&" + flat[i * d[1] + j].name for j in range(d[1])) for i in range(d[0]))
            v = Var(name(k), k, e, d, loans)
            # one borrowing step after another, each a read of the variable
            for x in {id(y): y for y, _ in loans}.values():
                add("read", "touch(&%s);" % x.name, [x], on=x)
            ty = "Vector::<_, U%d>" % d if k == "v" else "Matrix::<_, U%d, U%d>" % d
            add("new", "let mut %s = %s::new(%s);" % (v.name, ty, texts), [x for x, _ in loans], var=v)
        else:
            d = (g.randint(1, 4),) if k == "v" else (g.randint(1, 3), g.randint(1, 3))
            v = Var(name(k), k, e, d)
            add("new", "let mut %s: %s = mk();" % (v.name, V(e, *d) if k == "v" else M(e, *d)), var=v)
        owners[-1].append(v)

    def fill(t, c):
        return t.format(c=c.name, hi=c.dims[0] - 1 if c.dims else 0, hj=c.dims[-1] - 1 if c.dims else 0)

    def borrow():
        cs = [o for o in vis(owners) if BORROWS[o.kind]]
        if not cs: return new()
        c = g.choice(cs)
        t, ex, gives = g.choice(BORROWS[c.kind])
        if ex and c.elem == "REF" and c.kind != "o": return read()
        v = Var(name("r"), gives, c.elem, (), {(c, ex)} | c.loans)
        v.cont = c
        add("borrow", "%s = %s;" % (v.name, fill(t, c)), [c], var=v, on=c, exclusive=bool(ex))
        refs[-1].append(v)

    def derive():
        rs = [r for r in vis(refs) if r.kind in DERIVE]
        rs = [r for r in rs if not (r.kind == "ref" and r.cont.kind == "o")]
        if not rs: return borrow()
        r = g.choice(rs)
        t, gives = g.choice(DERIVE[r.kind])
        if gives in ("own", "val"):
            # a value of its own: holds what the container's elements hold
            v = Var(name("r"), "val", r.elem, (), r.cont.loans)
        else:
            v = Var(name("r"), gives, r.elem, (), r.loans)
        v.cont = r.cont
        add("derive", "%s = %s;" % (v.name, t.format(r=r.name)), [r], var=v)
        refs[-1].append(v)

    def use():
        rs = vis(refs)
        if not rs: return borrow()
        r = g.choice(rs[-4:] + [g.choice(rs)])
        t = ["touch(&{r});"]
        if r.kind in ("iter", "slices", "cols", "owned", "miter"): t += ["{r}.next();", "touch(&{r}.size_hint());", "for _ in {r}.by_ref() {{}}"]
        if r.kind == "melem": t += ["*{r} = mk();"]
        if r.kind == "mslice": t += ["{r}[0] = mk();", "{r}.reverse();"]
        if r.kind in ("elem", "melem"): t += ["touch({r});"]
        if r.kind == "mref" and r.cont.kind in "vm": t += ["*{r} = mk();"]
        if r.kind == "ref" and r.cont.kind in "vm" : t += ["touch({r});"]
        add("use", g.choice(t).format(r=r.name), [r])

    def read():
        cs = [o for o in vis(owners)]
        if not cs: return new()
        c = g.choice(cs)
        t = ["touch(&{c});"]
        if c.kind == "v": t += ["touch(&{c}[0]);", "{c}.len();", "{c}.is_empty();", "touch(&({c} == {c}));", "format!(\"{{:?}}\", {c});", "touch(&{c}.clone());", "for x in {c}.iter() {{ touch(x); }}"]
        if c.kind == "m": t += ["touch(&{c}[(0, 0)]);", "{c}.dim();", "{c}.rows();", "touch(&({c} == {c}));", "format!(\"{{:?}}\", {c});", "touch(&{c}.clone());", "{c}.all(|_, x| {{ touch(x); true }});",
                                "touch(&{c}.transposed());", "for x in {c}.cols_iter() {{ touch(&x); }}", "for x in {c}.rows_iter_ref() {{ touch(x); }}"]
        if c.kind in "vm" and ELEMS[c.elem]["num"]: t += ["{c}.sum();", "touch(&(&{c} + &{c}));", "touch(&(&{c} - &{c}));"] + (["{c}.dot(&{c});"] if c.kind == "v" else [])
        if c.kind == "o": t = ["touch(&{c});", "touch(&{c}.len());", "touch(&{c}.size_hint());"]
        add("read", g.choice(t).format(c=c.name), [c], on=c)

    def write():
        cs = [o for o in vis(owners) if not (o.loans and o.kind in "vm")]
        if not cs: return new()
        c = g.choice(cs)
        t = []
        if c.kind == "v": t += ["{c}[0] = mk();", "{c}[U0::new()] = mk();", "{c}.as_slice_mut()[0] = mk();", "for x in {c}.iter_mut() {{ *x = mk(); }}", "{c}.reverse();", "std::mem::swap(&mut {c}, &mut mk());"]
        if c.kind == "m": t += ["{c}[(0, 0)] = mk();", "{c}[(U0::new(), U0::new())] = mk();", "std::mem::swap(&mut {c}, &mut mk());"] + (["{c}.transpose();"] if c.dims[0] == c.dims[1] else [])
        if c.kind in "vm" and ELEMS[c.elem]["num"]: t += ["{c} *= mk::<%s>();" % c.elem, "{c} += mk::<%s>();" % (V(c.elem, *c.dims) if c.kind == "v" else M(c.elem, *c.dims)), "{c} -= {c}.clone();", ] + (["{c}.clamp(mk(), mk());"] if c.elem == "i32" else [])
        if c.kind == "o": t += ["{c}.next();", "{c}.next_back();", "for _ in {c}.by_ref() {{}}"]
        if c.kind == "s": t += ["{c}.push('x');"]
        if c.kind in "vm" and not c.loans and g.random() < 0.3 or c.kind == "s" and g.random() < 0.4:
            add("assign", "%s = mk();" % c.name, on=c)
        elif t:
            add("write", g.choice(t).format(c=c.name), [c], on=c)

    def move():
        cs = [o for o in vis(owners)]
        if not cs: return new()
        c = g.choice(cs)
        t = ["drop({c});", "let _x = {c};", "touch(&Some({c}));"]
        if c.kind == "v": t += ["touch(&{c}.into_inner());", "{c}.into_iter().next();", "touch(&{c}.into_iter().collect::<Vec<_>>());"]
        if c.kind == "m": t += ["touch(&{c}.map(|_, x| Some(x)));"]
        if c.kind in "vm" and ELEMS[c.elem]["num"]: t += ["touch(&(-{c}));", "touch(&({c} * mk::<%s>()));" % c.elem, "touch(&({c} + mk::<%s>()));" % (V(c.elem, *c.dims) if c.kind == "v" else M(c.elem, *c.dims))]
        if c.kind == "o": t += ["{c}.count();", "{c}.last();", "{c}.rev().next();", "touch(&{c}.collect::<Vec<_>>());"]
        if c.kind == "v" and g.random() < 0.5:
            d = c.dims[0]
            v = Var(name("o"), "o", c.elem, c.dims, c.loans)
            k = g.choice([x for x in range(1, d + 1) if d % x == 0])
            e = g.choice(("{c}.into_iter()", "{c}.into_iter()", "{c}.into_chunks::<U%d>()" % k))
            add("into", "let mut %s = %s;" % (v.name, e.format(c=c.name)), [c], var=v, on=c)
            owners[-1].append(v)
            return
        add("move", g.choice(t).format(c=c.name), [c], on=c)

    def block():
        nonlocal depth
        if depth and g.random() < 0.5:
            add("close", "}")
            depth -= 1
            owners.pop(); gone = refs.pop()
            # references live on outside of the block
            refs[-1] += gone
        elif depth < 2:
            add("open", "{")
            depth += 1
            owners.append([]); refs.append([])
    new()
    for _ in range(g.choice((3, 5, 8, 12, 18))):
        g.choice((new, borrow, borrow, borrow, derive, derive, derive, use, use, use, read, write, write, move, block, block))()
    while depth:
        add("close", "}")
        depth -= 1
        owners.pop(); refs[-2] += refs[-1]; refs.pop()
    for r in g.sample(refs[0], min(len(refs[0]), 3)):
        add("use", "touch(&%s);" % r.name, [r])
    return History(steps)


def depends(a, b):
    """Does step b mention the variable step a declares?"""
    v = getattr(a, "var", None)
    return v is not None and (v in b.uses or v is getattr(b, "on", None))


def without(h, n):
    """The history less a step and whatever depends on it."""
    out, gone = [], [h.steps[n]]
    if h.steps[n].op in ("open", "close"):
        return None
    for k, s in enumerate(h.steps):
        if k == n: continue
        if any(depends(x, s) for x in gone):
            gone.append(s)
            continue
        # variables named in the loans of a removed one do not matter
        out.append(s)
    return History(out)


def repair(h, want, g, limit=200):
    """Remove steps until the history has want conflicts (0 or 1), or None."""
    for _ in range(limit):
        bad = h.conflicts()
        if len(bad) <= want: break
        n, _ = g.choice(bad)
        # drop the offending step, or a later one
        k = n if h.steps[n].op not in ("open", "close") and g.random() < 0.5 else g.choice([i for i in range(len(h.steps)) if h.steps[i].op not in ("open", "close")])
        h = without(h, k) or h
    bad, imp = h.conflicts(), h.conflicts(True)
    if want == 0: return h if not imp else None
    return h if len(bad) == 1 else None


def fn(i, body):
    return "pub fn f%d() { %s }" % (i, body)


class Prog:
    def __init__(s, kind, label, good, text, hist=None):
        s.kind, s.label, s.good, s.text, s.hist = kind, label, good, text, hist

    def line(s, i):
        return s.text.replace("@", "f%d" % i)

    def source(s):
        return HEAD + s.line(0) + "\n"


def of_history(h, good):
    bad = h.conflicts()
    return Prog("history", "history" if good else "history: " + ("moved" if bad and bad[0][1].endswith("gone") else "on loan at the end of a block" if bad and h.steps[bad[0][0]].op == "close" else "on loan"),
                good, "pub fn @() { %s }" % h.text(), h)


# ---------------------------------------------------------------- lifetimes in signatures

# body over x: &'a container of T, the type it gives ('a is replaced)
SIG = {
    "v": [("x.iter().next().unwrap()", "&'a T"), ("&x[0]", "&'a T"), ("&x[U0::new()]", "&'a T"), ("x.as_slice()", "&'a [T]"), ("x.as_ref()", "&'a [T]"), ("x.first().unwrap()", "&'a T"),
          ("unsafe { x.get_unchecked(0) }", "&'a T"), ("Box::new(x.iter())", "Box<dyn Iterator<Item = &'a T> + 'a>"), ("&(**x)[..]", "&'a [T]"), ("x", "&'a C"), ("x.iter().rev().last().unwrap()", "&'a T")],
    "v mut": [("x.iter_mut().next().unwrap()", "&'a mut T"), ("&mut x[0]", "&'a mut T"), ("&mut x[U0::new()]", "&'a mut T"), ("x.as_slice_mut()", "&'a mut [T]"), ("x.as_mut()", "&'a mut [T]"),
              ("unsafe { x.get_unchecked_mut(0) }", "&'a mut T"), ("Box::new(x.iter_mut())", "Box<dyn Iterator<Item = &'a mut T> + 'a>"), ("x", "&'a mut C")],
    "m": [("x.rows_iter_ref().next().unwrap()", "&'a [T]"), ("x.rows_iter_ref().next_back().unwrap()", "&'a [T]"), ("x.rows_iter_ref().nth(0).unwrap()", "&'a [T]"), ("x.rows_iter_ref().last().unwrap()", "&'a [T]"),
          ("x.cols_iter_ref().next().unwrap().next().unwrap()", "&'a T"), ("x.cols_iter_ref().next_back().unwrap().next_back().unwrap()", "&'a T"), ("x.cols_iter_ref().last().unwrap().last().unwrap()", "&'a T"),
          ("x.cols_iter_ref().nth(0).unwrap().nth(0).unwrap()", "&'a T"), ("&x[(0, 0)]", "&'a T"), ("&x[(U0::new(), U0::new())]", "&'a T"), ("&x[(U1::new(), U1::new())]", "&'a T"),
          ("&x[(U0::new(), U1::new())]", "&'a T"), ("&x[(U1::new(), U0::new())]", "&'a T"), ("unsafe { x.get_unchecked((0, 0)) }", "&'a T"), ("Box::new(x.rows_iter_ref())", "Box<dyn Iterator<Item = &'a [T]> + 'a>"),
          ("Box::new(x.cols_iter_ref().flat_map(|c| c))", "Box<dyn Iterator<Item = &'a T> + 'a>"), ("Box::new(x.cols_iter_ref().next().unwrap())", "Box<dyn DoubleEndedIterator<Item = &'a T> + 'a>"),
          ("Box::new(x.cols_iter())", "Box<dyn Iterator<Item = Vector<T, U2>> + 'a>"), ("Box::new(x.rows_iter())", "Box<dyn DoubleEndedIterator<Item = Vector<T, U2>> + 'a>"), ("x", "&'a C")],
    "m mut": [("&mut x[(0, 0)]", "&'a mut T"), ("&mut x[(U0::new(), U0::new())]", "&'a mut T"), ("&mut x[(U1::new(), U1::new())]", "&'a mut T"), ("&mut x[(U0::new(), U1::new())]", "&'a mut T"),
              ("&mut x[(U1::new(), U0::new())]", "&'a mut T"), ("unsafe { x.get_unchecked_mut((0, 0)) }", "&'a mut T"), ("x", "&'a mut C")],
}
# body over x: &'a container of references &'x str, by way of which a reference &'x str is got
ELEMSIG = {"v": ["x[0]", "x[U0::new()]", "*x.iter().next().unwrap()", "x.clone().into_iter().next().unwrap()", "x.max()", "x.min()", "x.max_by(|a, b| a.cmp(b))", "x.into_chunks::<U1>().next().unwrap()[0]", "x.into_inner()[1]",
                 "x.as_slice()[1]", "x.into_iter().collect::<Vector<_, U2>>()[0]", "x.clamped(x[0], x[1])[0]", "Vector::<_, U2>::generate(|i| x[i])[0]", "x.into_iter().rev().nth(1).unwrap()", "*unsafe { x.get_unchecked(0) }"],
           "m": ["x[(0, 0)]", "x[(U1::new(), U0::new())]", "x.rows_iter_ref().next().unwrap()[0]", "x.cols_iter_ref().next().unwrap().next().unwrap()", "x.rows_iter().next().unwrap()[0]", "x.cols_iter().last().unwrap()[1]",
                 "x.transposed()[(0, 1)]", "x.map(|_, e| (e, 1))[(0, 0)].0", "x.clone()[(0, 0)]", "x.max()", "x.min()", "x.min_by(|a, b| a.cmp(b))", "x.clamped(x[(0, 0)], x[(0, 1)])[(1, 1)]", "Matrix::<_, U2, U2>::generate(|i| x[i])[(0, 0)]",
                 "*unsafe { x.get_unchecked((0, 0)) }", "{ let mut y = *x; y.transpose(); y[(0, 0)] }"]}


def signatures(g):
    out = []
    for k, l in SIG.items():
        c = lambda t: V(t, 2) if k[0] == "v" else M(t, 2, 2)
        for body, ty in l:
            t = g.choice(("String", "i32", "Vec<u8>", "(u8, char)"))
            ref = "mut " if "mut" in k else ""
            r = ty.replace("C", c(t)).replace("T>", t + ">").replace("T]", t + "]").replace(" T", " " + t).replace("<T,", "<%s," % t) if ty[-1] != "C" else ty.replace("C", c(t))
            sig = lambda gen, args, ret, b=body: "pub fn @%s(%s) -> %s { %s }" % (gen, args, ret, b)
            arg = "x: &'a %s%s" % (ref, c(t))
            out.append(Prog("signature", k, True, sig("<'a>", arg, r)))
            out.append(Prog("signature", k, True, sig("<'a: 'b, 'b>", arg, r.replace("'a", "'b"))))
            out.append(Prog("signature", k, True, sig("", arg.replace("'a ", "").replace("'a", ""), r.replace("+ 'a", "+ '_").replace("'a ", ""))))
            out.append(Prog("signature", k + ": another lifetime", False, sig("<'a, 'b>", arg, r.replace("'a", "'b"))))
            out.append(Prog("signature", k + ": another lifetime", False, sig("<'a, 'b: 'a>", arg, r.replace("'a", "'b"))))
            out.append(Prog("signature", k + ": static", False, sig("<'a>", arg, r.replace("'a", "'static"))))
            out.append(Prog("signature", k + ": of a local", False, sig("<'a>", "", r, "let mut y: %s = mk(); let x = &%sy; %s" % (c(t), ref, body))))
            out.append(Prog("signature", k + ": of an argument", False, sig("<'a>", "mut y: " + c(t), r, "let x = &%sy; %s" % (ref, body))))
            out.append(Prog("signature", k + ": of another argument", False, sig("<'a>", "mut y: %s, z: &'a %s%s" % (c(t), ref, c(t)), r, "let x = &%sy; %s" % (ref, body))))
    for k, l in ELEMSIG.items():
        c = lambda t: V(t, 2) if k[0] == "v" else M(t, 2, 2)
        for body in l:
            sig = lambda gen, arg, ret: "pub fn @%s(%s) -> %s { %s }" % (gen, arg, ret, body)
            out.append(Prog("signature", k + ": an element that is a reference", True, sig("<'a, 'x>", "x: &'a " + c("&'x str"), "&'x str")))
            out.append(Prog("signature", k + ": an element that is a reference", True, sig("<'a>", "x: &'a " + c("&'static str"), "&'static str")))
            out.append(Prog("signature", k + ": an element that is a reference, too long", False, sig("<'a, 'x>", "x: &'a " + c("&'x str"), "&'static str")))
            out.append(Prog("signature", k + ": an element that is a reference, too long", False, sig("<'a, 'x, 'y>", "x: &'a " + c("&'x str"), "&'y str")))
    for k, l in SIG.items():
        c = lambda t: V(t, 2) if k[0] == "v" else M(t, 2, 2)
        for body, ty in l:
            if "T" not in ty or "mut" in k: continue
            r = lambda a, x: ty.replace("'a", a).replace("T>", "&%s str>" % x).replace("T]", "&%s str]" % x).replace(" T", " &%s str" % x).replace("<T,", "<&%s str," % x)
            if "dyn" in ty: continue
            out.append(Prog("signature", k + ": a reference to a reference", True, "pub fn @<'a, 'x>(x: &'a %s) -> %s { %s }" % (c("&'x str"), r("'a", "'x"), body)))
            out.append(Prog("signature", k + ": a reference to a reference, too long", False, "pub fn @<'a, 'x>(x: &'a %s) -> %s { %s }" % (c("&'x str"), r("'x", "'x"), body)))
            out.append(Prog("signature", k + ": a reference to a reference, too long", False, "pub fn @<'a, 'x>(x: &'a %s) -> %s { %s }" % (c("&'x str"), r("'a", "'static"), body)))
    # the borrowing iterators by their names: what borrows for long can stand in for what borrows for less, not the other way round
    for ty, make in NAMED:
        t = g.choice(("String", "i32", "Vec<u8>", "(u8, char)"))
        life = lambda a: "rowcol::matrix::iter::%s<%s, %s, U2, U2>" % (ty, a, t)
        m = M(t, 2, 2)
        out.append(Prog("signature", "an iterator by name", True, "pub fn @<'a>(x: &'a %s) -> %s { %s }" % (m, life("'a"), make)))
        out.append(Prog("signature", "an iterator by name", True, "pub fn @<'a: 'b, 'b>(x: &'a %s) -> %s { %s }" % (m, life("'b"), make)))
        out.append(Prog("signature", "an iterator for less long", True, "pub fn @<'a: 'b, 'b>(x: %s) -> %s { x }" % (life("'a"), life("'b"))))
        out.append(Prog("signature", "an iterator for less long", True, "pub fn @<'a: 'b, 'b, 'z>(x: &'z %s) -> &'z %s { x }" % (life("'a"), life("'b"))))
        out.append(Prog("signature", "an iterator for less long", True, "pub fn @<'a>(x: %s, y: &'a %s, c: bool) -> Vec<%s> { vec![{ let x = y; %s }, x] }" % (life("'static"), m, life("'a"), make)))
        out.append(Prog("signature", "an iterator for less long", True, "pub fn @<'a>(x: &'a %s) { let mut i = %s; { let z: %s = mk(); let x = &z; i = %s; touch(&i); } }" % (m, make, m, make)))
        out.append(Prog("signature", "an iterator for longer", False, "pub fn @<'a: 'b, 'b>(x: %s) -> %s { x }" % (life("'b"), life("'a"))))
        out.append(Prog("signature", "an iterator for longer", False, "pub fn @<'a>(x: %s) -> %s { x }" % (life("'a"), life("'static"))))
        out.append(Prog("signature", "an iterator for longer", False, "pub fn @<'a>(x: &'a %s) -> %s { %s }" % (m, life("'static"), make)))
        out.append(Prog("signature", "an iterator for longer", False, "pub fn @<'a>(x: &'a %s) -> %s { let z: %s = mk(); let x = &z; %s }" % (m, life("'a"), m, make)))
        out.append(Prog("signature", "an iterator for longer", False, "pub fn @<'a>(x: &'a %s) { let mut i = %s; { let z: %s = mk(); let x = &z; i = %s; } touch(&i); }" % (m, make, m, make)))
    return out


NAMED = [("RowsIter", "x.rows_iter()"), ("ColsIter", "x.cols_iter()"), ("RowsIterRef", "x.rows_iter_ref()"), ("ColsIterRef", "x.cols_iter_ref()"), ("ColsIterRefInner", "x.cols_iter_ref().next().unwrap()")]

# ---------------------------------------------------------------- threads

# element type: may it be sent, may it be shared, can it be cloned
THREAD = {"i32": (1, 1, 1), "String": (1, 1, 1), "Arc<i32>": (1, 1, 1), "fn(Rc<u8>)": (1, 1, 1), "Rc<u8>": (0, 0, 1), "Cell<i32>": (1, 0, 1), "RefCell<String>": (1, 0, 1), "MutexGuard<'static, i32>": (0, 1, 0),
          "Mutex<i32>": (1, 1, 0), "*const u8": (0, 0, 1), "*mut i32": (0, 0, 1), "&'static Cell<i32>": (0, 0, 1), "&'static str": (1, 1, 1), "Arc<Cell<u8>>": (0, 0, 1), "Box<dyn Fn()>": (0, 0, 0),
          "Box<dyn Fn() + Send>": (1, 0, 0), "Box<dyn Fn() + Send + Sync>": (1, 1, 0), "Option<Rc<u8>>": (0, 0, 1), "(i32, Cell<u8>)": (1, 0, 1), "&'static mut i32": (1, 1, 0), "Vec<Rc<u8>>": (0, 0, 1),
          "std::marker::PhantomData<*const u8>": (0, 0, 1), "std::sync::mpsc::Receiver<i32>": (1, 0, 0)}
# what is sent, and by what it owns its elements: 'o' owns, 'r' shared reference, 'm' exclusive reference; needs clones
CARRIERS = [("v", "o", 0), ("v.into_iter()", "o", 0), ("v.into_chunks::<U2>()", "o", 0), ("v.into_iter().rev()", "o", 0), ("{ let mut i = v.into_iter(); i.next(); i }", "o", 0), ("m", "o", 0), ("Some(m)", "o", 0),
            ("v.into_chunks::<U1>().next()", "o", 0), ("{ let mut i = v.into_chunks::<U2>(); i.next_back(); i }", "o", 0), ("v.into_iter().by_ref()", "m", 0), ("v.into_inner()", "o", 0),
            ("&v", "r", 0), ("v.iter()", "r", 0), ("v.as_slice()", "r", 0), ("&v[0]", "r", 0), ("&v[U0::new()]", "r", 0), ("&v.into_iter()", "r", 0), ("&v.into_chunks::<U2>()", "r", 0), ("&m", "r", 0), ("&m[(0, 1)]", "r", 0),
            ("m.rows_iter()", "r", 1), ("m.cols_iter()", "r", 1), ("m.rows_iter_ref()", "r", 0), ("m.cols_iter_ref()", "r", 0), ("m.cols_iter_ref().next().unwrap()", "r", 0), ("m.rows_iter_ref().rev()", "r", 0),
            ("m.rows_iter_ref().next()", "r", 0), ("m.cols_iter_ref().next_back().unwrap().rev()", "r", 0), ("&m.rows_iter_ref()", "r", 0), ("&m.cols_iter_ref()", "r", 0), ("&m.rows_iter()", "r", 1),
            ("m.cols_iter_ref().enumerate()", "r", 0), ("m.rows_iter().next()", "o", 1), ("m.cols_iter().next()", "o", 1), ("m.transposed()", "o", 1), ("m.map(|_, x| x)", "o", 0),
            ("&mut v", "m", 0), ("v.iter_mut()", "m", 0), ("v.as_slice_mut()", "m", 0), ("&mut v[0]", "m", 0), ("&mut m", "m", 0), ("&mut m[(0, 0)]", "m", 0), ("&mut m[(U1::new(), U1::new())]", "m", 0)]


def threads(g, count):
    out = []
    for _ in range(count):
        t, e = g.choice(sorted(THREAD)), g.choice(CARRIERS)
        s, y, cl = THREAD[t]
        if e[2] and not cl: continue
        if e[0].startswith("&m.transposed") or "transposed" in e[0] and not cl: continue
        what = g.choice(("send", "sync"))
        fits = bool(y if what == "sync" or e[1] == "r" else s)
        arg = "mut v: %s, mut m: %s" % (V(t, 4), M(t, 2, 2))
        how = g.choice((0, 0, 1)) if what == "send" else 0
        if how == 0:
            text = "pub fn @(%s) { %s(%s); }" % (arg, what, e[0])
        else:
            text = "pub fn @(%s) { std::thread::scope(|s| { let x = %s; s.spawn(move || { let y = x; }); }); }" % (arg, e[0] if e[0] not in ("v.into_iter().by_ref()", "&v.into_iter()", "&v.into_chunks::<U2>()", "&m.rows_iter_ref()", "&m.cols_iter_ref()", "&m.rows_iter()") else "v")
            if e[1] != "o" and ("by_ref" in e[0] or e[0].startswith("&v.into") or e[0].startswith("&m.rows") or e[0].startswith("&m.cols")): fits = bool(s)
            # a local of the scope is not borrowed for the whole of it
            if e[1] != "o" and not ("by_ref" in e[0] or e[0].startswith("&v.into") or e[0].startswith("&m.rows") or e[0].startswith("&m.cols")):
                text = "pub fn @(%s) { let x = %s; std::thread::scope(|s| { s.spawn(move || { let y = x; }); }); }" % (arg, e[0])
        out.append(Prog("thread", "%s %s" % ("sent" if what == "send" else "shared", "" if fits else "though its elements cannot be"), fits, text))
    return out


# ---------------------------------------------------------------- what needs Clone, mutability or unsafe

# bodies over v: Vector<T, U2> and m: Matrix<T, U2, U2> (by reference), with an element type that cannot be cloned: all would duplicate an element
DUPLICATE = ["let x: Vector<T, U2> = v.clone();", "let x: Vector<T, U2> = *v;", "let x: Matrix<T, U2, U2> = m.clone();", "let x: Matrix<T, U2, U2> = *m;", "let x: Option<Vector<T, U2>> = m.rows_iter().next();", "let x: Option<Vector<T, U2>> = m.cols_iter().next();",
             "let x: Option<Vector<T, U2>> = m.rows_iter().next_back();", "let x: Option<Vector<T, U2>> = m.cols_iter().last();", "let x: Matrix<T, U2, U2> = m.transposed();", "let x: T = v[0];", "let x: T = v[U0::new()];",
             "let x: T = m[(0, 0)];", "let x: T = m[(U1::new(), U0::new())];", "let x: T = *v.iter().next().unwrap();", "let x: T = *m.cols_iter_ref().next().unwrap().next().unwrap();", "let x: T = m.rows_iter_ref().next().unwrap()[0];",
             "let x: T = v.max();", "let x: T = v.min();", "let x: T = v.max_by(|a, b| a.cmp(b));", "let x: T = v.min_by(|a, b| a.cmp(b));", "let x: T = m.max();", "let x: T = m.min_by(|a, b| a.cmp(b));", "let x: [T; 2] = v.into_inner();",
             "let x: Option<T> = v.into_iter().next();", "let x: Option<Vector<T, U1>> = v.into_chunks::<U1>().next();", "let x = m.map(|_, e| e);", "let x: T = v.as_slice()[1];", "let x: [T; 2] = **v;",
             "let x: Vector<T, U2> = v.clamped(mk(), mk());", "let x: Matrix<T, U2, U2> = m.clamped(mk(), mk());"]
NOCLONE = ("Solo", "&'static mut i32", "Option<Solo>", "Box<Solo>", "(u8, Solo)", "[Solo; 1]")
CLONED = {"let x: Vector<T, U2> = *v;", "let x: Matrix<T, U2, U2> = *m;", "let x: T = v[0];", "let x: T = v[U0::new()];", "let x: T = m[(0, 0)];", "let x: T = m[(U1::new(), U0::new())];", "let x: T = *v.iter().next().unwrap();",
          "let x: T = *m.cols_iter_ref().next().unwrap().next().unwrap();", "let x: T = m.rows_iter_ref().next().unwrap()[0];", "let x: [T; 2] = v.into_inner();", "let x: Option<T> = v.into_iter().next();",
          "let x: Option<Vector<T, U1>> = v.into_chunks::<U1>().next();", "let x = m.map(|_, e| e);", "let x: T = v.as_slice()[1];", "let x: [T; 2] = **v;"}
# through a shared reference nothing is changed
MUTATE = ["v[0] = mk();", "v[U0::new()] = mk();", "v.as_slice_mut()[0] = mk();", "*v.iter_mut().next().unwrap() = mk();", "*v = mk();", "m[(0, 0)] = mk();", "m[(U0::new(), U0::new())] = mk();", "m[(U1::new(), U0::new())] = mk();",
          "m[(U0::new(), U1::new())] = mk();", "m[(U1::new(), U1::new())] = mk();", "v[U1::new()] = mk();",
          "*m = mk();", "*v += mk::<Vector<T, U2>>();", "*v -= mk::<Vector<T, U2>>();", "*v *= mk::<T>();", "*v /= mk::<T>();", "*m += mk::<Matrix<T, U2, U2>>();", "*m -= mk::<Matrix<T, U2, U2>>();", "*m *= mk::<T>();",
          "*m *= mk::<Matrix<T, U2, U2>>();", "v.clamp(mk(), mk());", "m.clamp(mk(), mk());", "m.transpose();", "v.reverse();", "v.swap(0, 1);", "AsMut::<[T]>::as_mut(v)[0] = mk();", "unsafe { *v.get_unchecked_mut(0) = mk(); }",
          "unsafe { *m.get_unchecked_mut((0, 0)) = mk(); }", "let x: &mut [T; 2] = &mut **v;", "*v.last_mut().unwrap() = mk();", "let (a, b) = v.split_at_mut(1); a[0] = mk();"]
SHAREDITEMS = ["*v.iter().next().unwrap() = mk();", "m.rows_iter_ref().next().unwrap()[0] = mk();", "*m.cols_iter_ref().next().unwrap().next().unwrap() = mk();", "v.as_slice()[0] = mk();", "AsRef::<[T]>::as_ref(v)[0] = mk();",
               "unsafe { *v.get_unchecked(0) = mk(); }", "unsafe { *m.get_unchecked((0, 0)) = mk(); }"]
UNSAFE = ["touch(v.get_unchecked(0));", "*v.get_unchecked_mut(0) = mk();", "touch(m.get_unchecked((0, 0)));", "*m.get_unchecked_mut((0, 0)) = mk();"]


def rights(g):
    out = []
    f = lambda sig, t, body, good: Prog("rights", "", good, "pub fn @(%s) { %s }" % (sig, body.replace("T,", t + ",").replace("T;", t + ";").replace(": T ", ": %s " % t).replace("<T>", "<%s>" % t).replace("[T]", "[%s]" % t)))
    shared = lambda t: "v: &%s, m: &%s" % (V(t, 2), M(t, 2, 2))
    excl = lambda t: "v: &mut %s, m: &mut %s" % (V(t, 2), M(t, 2, 2))
    for b in DUPLICATE:
        for t in g.sample(NOCLONE, 2):
            p = f(shared(t), t, b, False)
            p.label = "duplicating what cannot be cloned"
            out.append(p)
        t = g.choice(("i32", "u8", "char"))
        p = f(shared(t), t, b, True)
        p.label = "duplicating what can be copied"
        out.append(p)
        t = g.choice(("String", "Vec<u8>", "Box<i32>"))
        p = f(shared(t), t, b, b not in CLONED)
        p.label = "duplicating by cloning" if p.good else "duplicating without cloning"
        out.append(p)
    for b in MUTATE + SHAREDITEMS:
        t = g.choice(("i32", "u64"))
        p = f(shared(t), t, b, False)
        p.label = "changing through a shared reference"
        out.append(p)
        if b in MUTATE:
            p = f(excl(t), t, b, True)
            p.label = "changing through an exclusive reference"
            out.append(p)
            p = f("v: %s, m: %s" % (V(t, 2), M(t, 2, 2)), t, b.replace("*v ", "v ").replace("*m ", "m ").replace("as_mut(v)", "as_mut(&mut v)").replace("**v", "*v"), False)
            p.label = "changing what is not mutable"
            out.append(p)
    for b in UNSAFE:
        for t in ("i32", "String"):
            p = f(excl(t), t, b, False)
            p.label = "unchecked access outside of unsafe"
            out.append(p)
            p = f(excl(t), t, "unsafe { %s }" % b, True)
            p.label = "unchecked access in unsafe"
            out.append(p)
    # a type of one's own can be given a length the crate has no arrays for, but not by safe code: nothing could be relied on
    for n, a in ((33, "[%s; 5]"), (40, "Vec<%s>"), (64, "[%s; 64]"), (33, "Box<[%s]>"), (100, "[%s; 0]")):
        t = "L"
        body = "struct L(u64); %simpl rowcol::vector::ArrayLen<L> for U%d { type Array = " + a % t + "; }"
        out.append(Prog("rights", "storage of one's own, in safe code", False, "pub mod @ { use rowcol::prelude::*; %s }" % (body % ("", n))))
    return out


# ---------------------------------------------------------------- running

def kinds(ps):
    return {"history": 0, "signature": 1, "thread": 2, "rights": 3}[ps.kind]


def judge(ck, p, path):
    ok, errors, raw = rustc(ck, p.source(), path)
    if p.good and not ok:
        return "a program that respects the rules does not compile: %s: %s" % (p.line(0), "; ".join(m for _, m in errors[:3])[:600])
    if not p.good and ok:
        return "%s compiles: %s" % ({"history": "a program that keeps using what was mutated, moved or dropped", "signature": "a program with a reference outliving what it refers to",
                                     "thread": "a program sending or sharing what its elements do not allow", "rights": "a program " + p.label}[p.kind], p.line(0))
    return None


def simplify(ck, p, path, budget=60):
    m = judge(ck, p, path)
    if not m or p.hist is None:
        return p, m
    again = True
    while again and budget > 0:
        again = False
        for n in range(len(p.hist.steps)):
            h = without(p.hist, n)
            if h is None or (len(h.conflicts()) != 1 if not p.good else h.conflicts(True)):
                continue
            if budget <= 0: break
            budget -= 1
            q = of_history(h, p.good)
            x = judge(ck, q, path)
            if x:
                p, m, again = q, x, True
                break
    return p, m


def generate(seed, count):
    g = random.Random("C25 %d" % seed)
    progs = []
    for _ in range(count):
        h = history(g)
        a = repair(h, 0, g)
        if a is not None and len(a.steps) > 2: progs.append(of_history(a, True))
        for _ in range(2):
            b = repair(h, 1, g)
            if b is not None and b.conflicts(): progs.append(of_history(b, False))
    for _ in range(max(1, count // 2000)):
        progs += signatures(g) + rights(g)
    progs += threads(g, max(700, count // 3))
    seen, uniq = set(), []
    for p in progs:
        if p.text not in seen:
            seen.add(p.text)
            uniq.append(p)
    return uniq


def c25(ck, run, count):
    libs(ck)
    uniq = generate(run.seed, count)
    size = 80
    groups = {}
    for p in uniq: groups.setdefault((p.kind, p.good), []).append(p)
    jobs = [ps[i:i + size] for k, ps in sorted(groups.items()) for i in range(0, len(ps), size)]
    first = HEAD.count("\n") + 1

    def batch(j):
        n, ps = j
        path = os.path.join(run.work, "b%d.rs" % n)
        ok, errors, raw = rustc(ck, HEAD + "\n".join(p.line(i) for i, p in enumerate(ps)) + "\n", path, timeout=600)
        hit = {l - first for l, _ in errors}
        if ps[0].good:
            return [] if ok else [p for i, p in enumerate(ps) if i in hit] or ps
        return [p for i, p in enumerate(ps) if i not in hit]
    suspects = [p for r in parallel(batch, list(enumerate(jobs))) for p in r]
    ck.log("%d programs, %d to be compiled on their own" % (len(uniq), len(suspects)))
    if len(suspects) > 400:
        by = {}
        for p in suspects: by.setdefault((p.kind, p.label, p.good), []).append(p)
        suspects = [p for ps in by.values() for p in ps[:40]]

    def alone(j):
        n, p = j
        return judge(ck, p, os.path.join(run.work, "one%d.rs" % n))
    wrong = [p for p, m in zip(suspects, parallel(alone, list(enumerate(suspects)))) if m]
    labels = {}
    for p in uniq:
        k = "%s, %s (%s)" % (p.kind, p.label, "compiles" if p.good else "rejected") if p.label != p.kind else "%s (%s)" % (p.kind, "compiles" if p.good else "rejected")
        labels[k] = labels.get(k, 0) + 1
    nt = [p for p in uniq if not p.good or p.hist is None or len({s.op for s in p.hist.steps} & {"borrow", "derive", "write", "assign", "move", "into", "close"}) >= 2]
    run.add("rustc", dict(evaluations=len(uniq), nontrivial=len(nt), distinct_nontrivial=len(nt), units=len(labels), labels=labels,
                          samples=["%s: %s" % ("compiles" if p.good else "rejected", p.line(0)) for p in nt[::max(1, len(nt) // 12)]]))
    done = set()
    for p in wrong:
        k = (p.kind, p.label, p.good)
        if k in done or len(done) >= 6: continue
        done.add(k)
        q, m = simplify(ck, p, os.path.join(run.work, "shrink.rs"))
        if m:
            run.violate(dict(program=True, good=q.good, source=q.source(), unit=q.kind, edition="2021"), m)
