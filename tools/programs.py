"""Generated programs: what compiles, what does not, and what compiled programs say (C07, C22)."""
import concurrent.futures, json, os, random, re, subprocess, sys

EDITIONS = ("2015", "2018", "2021")
_libs = {}


def libs(ck):
    """Build rowcol as a user would (default features) and return rustc's arguments to link against it."""
    if _libs:
        return _libs
    cfg = ck.Config("prog", "dev")
    stamp, now = cfg.freshen()
    p = subprocess.run(["cargo", "build", "--offline", "--locked", "--quiet", "--message-format=json"], cwd=os.path.join(ck.VERIF, "programs"), env=cfg.env(),
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=600)
    if p.returncode:
        raise ck.NoAnswer("rowcol does not build: %s" % p.stderr[-3000:])
    with open(stamp, "w") as f:
        f.write(now)
    for l in p.stdout.splitlines():
        m = json.loads(l)
        if m.get("reason") == "compiler-artifact":
            for f in m["filenames"]:
                if f.endswith(".rlib"):
                    _libs[m["target"]["name"]] = f
    _libs["deps"] = os.path.join(cfg.dir(), "debug", "deps")
    _libs["env"] = cfg.env()
    return _libs


def rustc(ck, source, path, edition="2021", emit="metadata", kind="lib", out=None, externs=("rowcol", "num"), timeout=300):
    """Compile one file; returns (accepted, [(line, message)], raw stderr)."""
    L = libs(ck)
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as f:
        f.write(source)
    cmd = ["rustc", "--edition", edition, "--crate-type", kind, "--crate-name", "p", "--error-format=json", "--cap-lints", "allow", "-C", "opt-level=0", "-C", "debuginfo=0",
           "-L", "dependency=" + L["deps"], "--emit", emit, "-o", out or path + ".out"]
    for e in externs:
        cmd += ["--extern", "%s=%s" % (e.split("=")[0], L[e.split("=")[-1]])]
    try:
        p = subprocess.run(cmd + [path], env=L["env"], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=timeout)
    except subprocess.TimeoutExpired:
        raise ck.NoAnswer("rustc did not end within %d s on %s" % (timeout, path))
    errors = []
    for l in p.stderr.splitlines():
        try:
            m = json.loads(l)
        except ValueError:
            continue
        if m.get("level") in ("error", "error: internal compiler error"):
            lines = set()
            for s in m.get("spans", []):
                while s.get("expansion"):
                    if s["file_name"] == path:
                        lines.add(s["line_start"])
                    s = s["expansion"]["span"]
                if s["file_name"] == path and (s.get("is_primary") or not lines):
                    lines.add(s["line_start"])
            for n in lines or [0]:
                errors.append((n, m["message"]))
    if p.returncode not in (0, 1):
        raise ck.NoAnswer("rustc ended with %d on %s: %s" % (p.returncode, path, p.stderr[-2000:]))
    return p.returncode == 0, errors, p.stderr


def parallel(f, items):
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        return list(ex.map(f, items))


# ---------------------------------------------------------------- C07

HEAD = "#![allow(warnings)]\nuse rowcol::prelude::*;\nuse num::{Complex, One, Zero};\nfn need_copy<X: Copy>() {}\n"
V = lambda t, n: "Vector<%s, U%d>" % (t, n)
M = lambda t, r, c: "Matrix<%s, U%d, U%d>" % (t, r, c)
NUMS = ("f64", "i32", "f32", "i64", "u8")
ORDS = ("i32", "u8", "char", "String", "u64")
REFS = (("", ""), ("&", ""), ("", "&"), ("&", "&"))
COPY = ("i32", "f64", "&'static str", "(u8, char)", "Option<i32>", "[u8; 3]", "fn()", "()", "Complex<f64>", "&'static String")
MOVE = ("String", "Vec<u8>", "Box<i32>", "&'static mut i32", "Option<String>", "std::rc::Rc<u8>", "std::cell::Cell<i32>", "(u8, String)")

TEMPLATES = {}


def dim(rng, lo=0):
    """A dimension, small ones more often."""
    return rng.choice((rng.randint(lo, 4), rng.randint(lo, 4), rng.randint(lo, 9), rng.randint(lo, 32)))


def template(name, weight=1):
    def deco(cls):
        TEMPLATES[name] = (cls(), weight)
        return cls
    return deco


class T:
    """dims(rng): well-fitting dimensions; fits(p): do they fit (None: not judged); code(p): signature and body."""
    vary = None

    def choices(self, rng):
        return {}


@template("vector + vector", 3)
class _(T):
    def dims(s, g): n = dim(g); return dict(n=n, m=n, q=n)
    def choices(s, g): return dict(op=g.choice("+-"), t=g.choice(("f64", "i32", "f32", "i64")), r=g.choice(REFS))
    def fits(s, p): return p["n"] == p["m"] == p["q"]
    def code(s, p): return "(a: %s, b: %s)" % (V(p["t"], p["n"]), V(p["t"], p["m"])), "let r: %s = %sa %s %sb;" % (V(p["t"], p["q"]), p["r"][0], p["op"], p["r"][1])


@template("vector += vector")
class _(T):
    def dims(s, g): n = dim(g); return dict(n=n, m=n)
    def choices(s, g): return dict(op=g.choice("+-"), t=g.choice(NUMS))
    def fits(s, p): return p["n"] == p["m"]
    def code(s, p): return "(mut a: %s, b: %s)" % (V(p["t"], p["n"]), V(p["t"], p["m"])), "a %s= b;" % p["op"]


@template("vector == vector")
class _(T):
    def dims(s, g): n = dim(g); return dict(n=n, m=n)
    def choices(s, g): return dict(op=g.choice(("==", "!=")), t=g.choice((("f64", "f64"), ("String", "&'static str"), ("u8", "u8"), ("String", "String"))))
    def fits(s, p): return p["n"] == p["m"]
    def code(s, p): return "(a: %s, b: %s)" % (V(p["t"][0], p["n"]), V(p["t"][1], p["m"])), "let r: bool = a %s b;" % p["op"]


@template("vector by scalar")
class _(T):
    def dims(s, g): n = dim(g); return dict(n=n, q=n)
    def choices(s, g): return dict(e=g.choice(("a * s", "a / s", "-a", "a.clone()", "{ let mut a = a; a *= s; a }", "{ let mut a = a; a /= s; a }", "a.normalized()", "Vector::default()", "Zero::zero()", "a.into_iter().collect()")), t=g.choice(("f64", "f32")))
    # the length of a default or a collected vector is chosen by the context, not by an operand
    def fits(s, p): return True if p["n"] == p["q"] else None if "()" in p["e"] and p["e"] not in ("a.clone()", "a.normalized()") else False
    def code(s, p): return "(a: %s, s: %s)" % (V(p["t"], p["n"]), p["t"]), "let r: %s = %s;" % (V(p["t"], p["q"]), p["e"])


@template("dot")
class _(T):
    def dims(s, g): n = dim(g); return dict(n=n, m=n)
    def choices(s, g): return dict(t=g.choice(NUMS))
    def fits(s, p): return p["n"] == p["m"]
    def code(s, p): return "(a: %s, b: %s)" % (V(p["t"], p["n"]), V(p["t"], p["m"])), "let r: %s = a.dot(&b);" % p["t"]


@template("cross", 2)
class _(T):
    def dims(s, g): return dict(n=3, m=3, q=3)
    def choices(s, g): return dict(t=g.choice(NUMS))
    def fits(s, p): return p["n"] == p["m"] == p["q"] == 3
    def code(s, p): return "(a: %s, b: %s)" % (V(p["t"], p["n"]), V(p["t"], p["m"])), "let r: %s = a.cross(&b);" % V(p["t"], p["q"])

    def mutate(s, p, g):
        # also all of another length
        n = g.choice((0, 1, 2, 4, 5, dim(g)))
        return dict(p, **g.choice((dict(n=n), dict(m=n), dict(q=n), dict(n=n, m=n, q=n), dict(n=n, m=n))))


@template("vector[type-level index]", 4)
class _(T):
    def dims(s, g): n = dim(g, 1); return dict(n=n, i=g.choice((0, n - 1, g.randint(0, n - 1))))
    def choices(s, g): return dict(t=g.choice(("f64", "u8")), w=g.choice((0, 1)))
    def fits(s, p): return p["i"] < p["n"]
    def code(s, p): return "(mut a: %s)" % V(p["t"], p["n"]), ("a[U%d::new()] = 1 as %s;" % (p["i"], p["t"])) if p["w"] else "let r: %s = a[U%d::new()];" % (p["t"], p["i"])

    def mutate(s, p, g):
        n = p["n"]
        return dict(p, **g.choice((dict(i=n), dict(i=n + 1), dict(i=g.randint(n, 40)), dict(n=0, i=0), dict(n=0, i=g.randint(0, 3)), dict(n=p["i"]))))


@template("Vector::new")
class _(T):
    def dims(s, g): n = dim(g); return dict(n=n, k=n)
    def choices(s, g): return dict(t=g.choice(("f64", "String")), e=g.choice((0, 1, 2)))
    def fits(s, p): return p["n"] == p["k"]
    def code(s, p):
        if p["e"] == 0: return "(a: [%s; %d])" % (p["t"], p["k"]), "let r = Vector::<_, U%d>::new(a);" % p["n"]
        if p["e"] == 1: return "(a: %s)" % V(p["t"], p["n"]), "let r: [%s; %d] = a.into_inner();" % (p["t"], p["k"])
        return "(a: %s)" % V(p["t"], p["n"]), "let r: &[%s; %d] = &*a;" % (p["t"], p["k"])


@template("chunks", 4)
class _(T):
    def dims(s, g): k = dim(g, 1); return dict(n=k * g.randint(0, 32 // k), k=k, q=k)
    def choices(s, g): return dict(t=g.choice(("f64", "String")), back=g.choice(("next", "next_back", "last", None, None, "drop", "len")))
    def fits(s, p): return p["k"] > 0 and p["n"] % p["k"] == 0 and (p["q"] == p["k"] or p["back"] in (None, "drop", "len"))
    def code(s, p):
        if p["back"] in (None, "drop", "len"):
            # never iterated
            return "(a: %s)" % V(p["t"], p["n"]), "let r = a.into_chunks::<U%d>();" % p["k"] + {None: "", "drop": " drop(r);", "len": " let n: usize = r.len();"}[p["back"]]
        return "(a: %s)" % V(p["t"], p["n"]), "let mut i = a.into_chunks::<U%d>(); let r: Option<%s> = i.%s();" % (p["k"], V(p["t"], p["q"]), p["back"])

    def mutate(s, p, g):
        k = dim(g)
        return dict(p, **g.choice((dict(n=dim(g)), dict(k=k, q=k), dict(k=0, q=0), dict(q=k))))


@template("extreme of a vector", 2)
class _(T):
    def dims(s, g): return dict(n=dim(g, 1))
    def choices(s, g): return dict(t=g.choice(ORDS), e=g.choice(("max()", "min()", "max_by(|x, y| x.cmp(y))", "min_by(|x, y| y.cmp(x))")))
    def fits(s, p): return p["n"] > 0
    def code(s, p): return "(a: %s)" % V(p["t"], p["n"]), "let r: %s = a.%s;" % (p["t"], p["e"])
    def mutate(s, p, g): return dict(p, n=0)


@template("copy", 4)
class _(T):
    def dims(s, g): return dict(n=dim(g), m=dim(g))
    def choices(s, g): return dict(t=g.choice(COPY), kind=g.choice((0, 1, 2)))
    def fits(s, p): return p["t"] in COPY
    def code(s, p): return "()", "need_copy::<%s>();" % (V(p["t"], p["n"]) if p["kind"] == 0 else M(p["t"], p["n"], p["m"]) if p["kind"] == 1 else V(V(p["t"], p["n"]), p["m"]))
    def mutate(s, p, g): return dict(p, t=g.choice(MOVE), n=g.choice((p["n"], 0)), m=g.choice((p["m"], 0)))


@template("matrix + matrix", 3)
class _(T):
    def dims(s, g): r, c = dim(g), dim(g); return dict(r=r, c=c, r2=r, c2=c, rq=r, cq=c)
    def choices(s, g): return dict(op=g.choice("+-"), t=g.choice(("f64", "i32")), r_=g.choice(REFS))
    def fits(s, p): return p["r"] == p["r2"] == p["rq"] and p["c"] == p["c2"] == p["cq"]
    def code(s, p): return "(a: %s, b: %s)" % (M(p["t"], p["r"], p["c"]), M(p["t"], p["r2"], p["c2"])), "let r: %s = %sa %s %sb;" % (M(p["t"], p["rq"], p["cq"]), p["r_"][0], p["op"], p["r_"][1])


@template("matrix += matrix")
class _(T):
    def dims(s, g): r, c = dim(g), dim(g); return dict(r=r, c=c, r2=r, c2=c)
    def choices(s, g): return dict(op=g.choice("+-"), t=g.choice(NUMS))
    def fits(s, p): return p["r"] == p["r2"] and p["c"] == p["c2"]
    def code(s, p): return "(mut a: %s, b: %s)" % (M(p["t"], p["r"], p["c"]), M(p["t"], p["r2"], p["c2"])), "a %s= b;" % p["op"]


@template("matrix == matrix")
class _(T):
    def dims(s, g): r, c = dim(g), dim(g); return dict(r=r, c=c, r2=r, c2=c)
    def choices(s, g): return dict(op=g.choice(("==", "!=")), t=g.choice(("f64", "String")))
    def fits(s, p): return p["r"] == p["r2"] and p["c"] == p["c2"]
    def code(s, p): return "(a: %s, b: %s)" % (M(p["t"], p["r"], p["c"]), M(p["t"], p["r2"], p["c2"])), "let r: bool = a %s b;" % p["op"]


@template("matrix keeping its shape", 2)
class _(T):
    def dims(s, g): r, c = dim(g), dim(g); return dict(r=r, c=c, rq=r, cq=c)
    def choices(s, g): return dict(e=g.choice(("-a", "a * s", "a.clone()", "{ let mut a = a; a *= s; a }", "a.map(|_, x| x)", "a.clamped(s, s)", "a.transposed().transposed()")))
    def fits(s, p): return p["r"] == p["rq"] and p["c"] == p["cq"]
    def code(s, p): return "(a: %s, s: i32)" % M("i32", p["r"], p["c"]), "let r: %s = %s;" % (M("i32", p["rq"], p["cq"]), p["e"])


@template("conjugate")
class _(T):
    def dims(s, g): r, c = dim(g), dim(g); return dict(r=r, c=c, rq=r, cq=c)
    def fits(s, p): return p["r"] == p["rq"] and p["c"] == p["cq"]
    def code(s, p): return "(a: %s)" % M("Complex<f64>", p["r"], p["c"]), "let r: %s = a.conjugate();" % M("Complex<f64>", p["rq"], p["cq"])


@template("matrix * matrix", 5)
class _(T):
    def dims(s, g): l, n, k = dim(g), dim(g), dim(g); return dict(l=l, n=n, n2=n, k=k, rl=l, rk=k)
    def choices(s, g): return dict(t=g.choice(NUMS), r=g.choice(REFS))
    def fits(s, p): return p["n"] == p["n2"] and p["l"] == p["rl"] and p["k"] == p["rk"]
    def code(s, p): return "(a: %s, b: %s)" % (M(p["t"], p["l"], p["n"]), M(p["t"], p["n2"], p["k"])), "let r: %s = %sa * %sb;" % (M(p["t"], p["rl"], p["rk"]), p["r"][0], p["r"][1])


@template("matrix *= matrix", 2)
class _(T):
    def dims(s, g): n = dim(g); return dict(r=n, c=n, r2=n, c2=n)
    def choices(s, g): return dict(t=g.choice(NUMS))
    # whether a product of the same but not square shape could be assigned is not judged
    def fits(s, p): return True if p["r"] == p["c"] == p["r2"] == p["c2"] else False if p["c"] != p["r2"] or p["c2"] != p["c"] else None
    def code(s, p): return "(mut a: %s, b: %s)" % (M(p["t"], p["r"], p["c"]), M(p["t"], p["r2"], p["c2"])), "a *= b;"


@template("matrix * vector", 3)
class _(T):
    def dims(s, g): r, c = dim(g), dim(g); return dict(r=r, c=c, n=c, q=r)
    def choices(s, g): return dict(t=g.choice(NUMS), v=g.choice(("", "&")))
    def fits(s, p): return p["c"] == p["n"] and p["q"] == p["r"]
    def code(s, p): return "(a: %s, v: %s)" % (M(p["t"], p["r"], p["c"]), V(p["t"], p["n"])), "let r: %s = a * %sv;" % (V(p["t"], p["q"]), p["v"])


@template("matrix from vector", 2)
class _(T):
    def dims(s, g): c = dim(g, 1); r = g.randint(0, 32 // c); return dict(r=r, c=c, n=r * c)
    def choices(s, g): return dict(t=g.choice(("f64", "String")), e=g.choice((0, 1)))
    def fits(s, p): return (p["n"] == p["r"] * p["c"]) if p["c"] > 0 else None
    def code(s, p): return "(v: %s)" % V(p["t"], p["n"]), "let r: %s = %s;" % (M(p["t"], p["r"], p["c"]), "v.into()" if p["e"] else "Matrix::from(v)")


@template("matrix[type-level indices]", 5)
class _(T):
    def dims(s, g):
        r, c = dim(g, 1), dim(g, 1)
        return dict(r=r, c=c, i=g.choice((0, r - 1, g.randint(0, r - 1))), j=g.choice((0, c - 1, g.randint(0, c - 1))))
    def choices(s, g): return dict(t=g.choice(("f64", "u8")), w=g.choice((0, 1)))
    def fits(s, p): return p["i"] < p["r"] and p["j"] < p["c"]
    def code(s, p):
        at = "a[(U%d::new(), U%d::new())]" % (p["i"], p["j"])
        return "(mut a: %s)" % M(p["t"], p["r"], p["c"]), ("%s = 1 as %s;" % (at, p["t"])) if p["w"] else "let r: %s = %s;" % (p["t"], at)

    def mutate(s, p, g):
        r, c = p["r"], p["c"]
        return dict(p, **g.choice((dict(i=r), dict(j=c), dict(i=g.randint(r, 40)), dict(j=g.randint(c, 40)), dict(r=0, i=0), dict(c=0, j=0), dict(r=0, c=0, i=0, j=0),
                                   dict(i=p["j"], j=p["i"]), dict(r=p["i"]), dict(c=p["j"]), dict(r=c, c=r))))


@template("Matrix::new")
class _(T):
    def dims(s, g): r, c = dim(g), dim(g); return dict(r=r, c=c, k=r, l=c)
    def choices(s, g): return dict(t=g.choice(("f64", "String")))
    def fits(s, p): return p["r"] == p["k"] and p["c"] == p["l"]
    def code(s, p): return "(a: [[%s; %d]; %d])" % (p["t"], p["l"], p["k"]), "let r = Matrix::<_, U%d, U%d>::new(a);" % (p["r"], p["c"])


@template("diag", 2)
class _(T):
    def dims(s, g): r, c = dim(g), dim(g); return dict(r=r, c=c, k=min(r, c))
    def choices(s, g): return dict(t=g.choice(("f64", "i32")))
    def fits(s, p): return p["k"] == min(p["r"], p["c"])
    def code(s, p): return "(a: [%s; %d])" % (p["t"], p["k"]), "let r = Matrix::<_, U%d, U%d>::diag(a);" % (p["r"], p["c"])


@template("square only", 8)
class _(T):
    OPS = {"determinant": "let r: f64 = a.determinant();", "inverse": "let r: Option<{M}> = a.inverse();", "pow": "let r: {M} = a.pow(3);", "identity": "let r: {M} = Matrix::identity();",
           "one": "let r: {M} = One::one();", "transpose": "a.transpose();", "cofactor": "let r: f64 = a.cofactor((0, 1));", "product with itself": "let r: {M} = &a * &a;"}
    def dims(s, g): n = g.choice((2, 3, 4, 5, 6, 7, 8, g.randint(2, 12))); return dict(r=n, c=n)
    def choices(s, g): return dict(op=g.choice(sorted(s.OPS)))
    def fits(s, p): return p["r"] == p["c"] and (p["r"] >= (2 if p["op"] == "cofactor" else 1) or None)
    def code(s, p): return "(mut a: %s)" % M("f64", p["r"], p["c"]), s.OPS[p["op"]].replace("{M}", M("f64", p["r"], p["c"]))

    def mutate(s, p, g):
        n = dim(g)
        return dict(p, **g.choice((dict(r=n), dict(c=n), dict(r=p["c"] + 1), dict(c=p["r"] + 1), dict(r=p["r"] * 2), dict(c=p["c"] + 8))))


@template("extreme of a matrix", 2)
class _(T):
    def dims(s, g): n = dim(g, 1); return dict(r=n, c=n)
    def choices(s, g): return dict(t=g.choice(ORDS), e=g.choice(("max()", "min()", "max_by(|x, y| x.cmp(y))", "min_by(|x, y| y.cmp(x))")))
    # whether the extreme of a matrix that is not square is offered is not judged
    def fits(s, p): return False if p["r"] * p["c"] == 0 else True if p["r"] == p["c"] else None
    def code(s, p): return "(a: %s)" % M(p["t"], p["r"], p["c"]), "let r: %s = a.%s;" % (p["t"], p["e"])
    def mutate(s, p, g): return dict(p, **g.choice((dict(r=0), dict(c=0), dict(r=0, c=0))))


@template("transposed", 2)
class _(T):
    def dims(s, g): r, c = dim(g), dim(g); return dict(r=r, c=c, rq=c, cq=r)
    def choices(s, g): return dict(t=g.choice(("f64", "String")))
    def fits(s, p): return p["r"] == p["cq"] and p["c"] == p["rq"]
    def code(s, p): return "(a: %s)" % M(p["t"], p["r"], p["c"]), "let r: %s = a.transposed();" % M(p["t"], p["rq"], p["cq"])


@template("rows and columns", 2)
class _(T):
    def dims(s, g): r, c = dim(g), dim(g); return dict(r=r, c=c, q=c, p=r)
    def choices(s, g): return dict(t=g.choice(("f64", "String")), e=g.choice(("next", "next_back", "last")))
    def fits(s, p): return p["q"] == p["c"] and p["p"] == p["r"]
    def code(s, p): return "(a: %s)" % M(p["t"], p["r"], p["c"]), "let r: Option<%s> = a.rows_iter().%s(); let c: Option<%s> = a.cols_iter().%s();" % (V(p["t"], p["q"]), p["e"], V(p["t"], p["p"]), p["e"])


# ---- whole expressions

def expr(g, shape, depth, leaves):
    """A random well-fitting expression of a shape: ('m', r, c), ('v', n) or ('s',), as a tree."""
    if depth == 0 or g.random() < 0.15:
        leaves.append(shape)
        return ("leaf", len(leaves) - 1)
    e = lambda sh: expr(g, sh, depth - 1, leaves)
    d = lambda: g.choice((1, 2, 3, 4, g.randint(1, 8)))
    if shape[0] == "m":
        r, c = shape[1:]
        k = g.choice(["add", "sub", "mul", "mul", "mul", "tr", "neg", "scale", "clone"] + (["inv", "pow", "sq"] if r == c and r <= 6 else []))
        if k in ("add", "sub"): return (k, g.choice(REFS), e(shape), e(shape))
        if k == "mul":
            n = d()
            return (k, g.choice(REFS), e(("m", r, n)), e(("m", n, c)))
        if k == "tr": return (k, e(("m", c, r)))
        if k == "scale": return (k, e(shape), e(("s",)))
        return (k, e(shape))
    if shape[0] == "v":
        n = shape[1]
        k = g.choice(["add", "sub", "mv", "mv", "neg", "scale", "row", "col"] + (["cross"] if n == 3 else []))
        if k in ("add", "sub"): return (k, g.choice(REFS), e(shape), e(shape))
        if k == "mv":
            c = d()
            return (k, g.choice(("", "&")), e(("m", n, c)), e(("v", c)))
        if k == "cross": return (k, e(shape), e(shape))
        if k == "scale": return (k, e(shape), e(("s",)))
        if k == "row": return (k, e(("m", d(), n)))
        if k == "col": return (k, e(("m", n, d())))
        return (k, e(shape))
    k = g.choice(("dot", "det", "msum", "vsum", "norm"))
    if k == "dot":
        n = d()
        return (k, e(("v", n)), e(("v", n)))
    if k == "det":
        n = g.choice((1, 2, 3, 4, 5))
        return (k, e(("m", n, n)))
    if k == "msum": return (k, e(("m", d(), d())))
    return (k, e(("v", d())))


class Misfit(Exception):
    pass


def shape_of(t, leaves):
    """The shape of an expression, or Misfit."""
    k = t[0]
    if k == "leaf": return leaves[t[1]]
    s = lambda x: shape_of(x, leaves)

    def need(b):
        if not b: raise Misfit
    if k in ("add", "sub"):
        a, b = s(t[2]), s(t[3]); need(a == b and a[0] in "mv"); return a
    if k == "mul":
        a, b = s(t[2]), s(t[3]); need(a[2] == b[1]); return ("m", a[1], b[2])
    if k == "mv":
        a, b = s(t[2]), s(t[3]); need(a[2] == b[1]); return ("v", a[1])
    if k == "tr": a = s(t[1]); return ("m", a[2], a[1])
    if k in ("inv", "pow", "sq", "det"):
        a = s(t[1]); need(a[1] == a[2]); return ("s",) if k == "det" else a
    if k == "cross":
        a, b = s(t[1]), s(t[2]); need(a == b == ("v", 3)); return a
    if k == "dot":
        a, b = s(t[1]), s(t[2]); need(a == b); return ("s",)
    if k == "scale": s(t[2]); return s(t[1])
    if k in ("neg", "clone"): return s(t[1])
    if k == "row": return ("v", s(t[1])[2])
    if k == "col": return ("v", s(t[1])[1])
    s(t[1])
    return ("s",)


def show(t):
    k = t[0]
    if k == "leaf": return "x%d.clone()" % t[1]
    if k in ("add", "sub", "mul"): return "(%s(%s) %s %s(%s))" % (t[1][0], show(t[2]), {"add": "+", "sub": "-", "mul": "*"}[k], t[1][1], show(t[3]))
    if k == "mv": return "((%s) * %s(%s))" % (show(t[2]), t[1], show(t[3]))
    if k == "cross": return "(%s).cross(&(%s))" % (show(t[1]), show(t[2]))
    if k == "dot": return "(%s).dot(&(%s))" % (show(t[1]), show(t[2]))
    if k == "scale": return "((%s) * (%s))" % (show(t[1]), show(t[2]))
    return {"tr": "(%s).transposed()", "inv": "(%s).inverse().unwrap()", "pow": "(%s).pow(2)", "sq": "{ let mut w = %s; w.transpose(); w }", "det": "(%s).determinant()", "neg": "(-(%s))",
            "clone": "(%s).clone()", "row": "(%s).rows_iter().next().unwrap()", "col": "(%s).cols_iter().next_back().unwrap()", "msum": "(%s).sum()", "vsum": "(%s).sum()", "norm": "(%s).norm()"}[k] % show(t[1])


def rtype(s):
    return M("f64", *s[1:]) if s[0] == "m" else V("f64", s[1]) if s[0] == "v" else "f64"


@template("expression", 12)
class _(T):
    def dims(s, g):
        leaves = []
        d = lambda: g.choice((1, 2, 3, 4, g.randint(1, 8)))
        shape = g.choice((("m", d(), d()), ("v", d()), ("s",)))
        tree = expr(g, shape, g.choice((2, 3, 4)), leaves)
        # nothing says what the result is until something is done with it
        return dict(tree=tree, leaves=leaves, shape=shape, late=g.random() < 0.5)

    def fits(s, p):
        try:
            return shape_of(p["tree"], p["leaves"]) == tuple(p["shape"])
        except Misfit:
            return False

    def code(s, p):
        return "(%s)" % ", ".join("x%d: %s" % (i, rtype(l)) for i, l in enumerate(p["leaves"])), ("let r = %s; let _ = %s; let r: %s = r;" % (show(p["tree"]), "r.abs()" if p["shape"][0] == "s" else "r.sum().abs()", rtype(p["shape"])) if p.get("late") else
                                                                                              "let r: %s = %s;" % (rtype(p["shape"]), show(p["tree"])))

    def mutate(s, p, g):
        ls = list(p["leaves"])
        cand = [i for i, l in enumerate(ls) if l[0] != "s"]
        if not cand: return p
        i = g.choice(cand)
        l = list(ls[i])
        l[g.randrange(1, len(l))] = g.randint(1, 8)
        ls[i] = tuple(l)
        return dict(p, leaves=ls)


def mutate(t, p, g):
    """The same program with a dimension that does not fit."""
    for _ in range(60):
        if hasattr(t, "mutate"):
            q = t.mutate(p, g)
        else:
            k = g.choice([k for k in p if isinstance(p[k], int) and not isinstance(p[k], bool) and k not in ("w", "e", "kind")])
            q = dict(p)
            q[k] = g.choice((dim(g), max(0, p[k] - 1), min(32, p[k] + 1), 0, p[k] * 2 if p[k] < 17 else 3))
        if t.fits(q) is False:
            return q
    return None


class Program:
    def __init__(self, name, p, good):
        self.name, self.p, self.good = name, p, good

    def fn(self, i):
        sig, body = TEMPLATES[self.name][0].code(self.p)
        return "pub fn f%d%s { %s }" % (i, sig, body)

    def source(self):
        return HEAD + self.fn(0) + "\n"


def judge(ck, prog, path):
    """None if the program is treated as it should be, else what is wrong."""
    ok, errors, raw = rustc(ck, prog.source(), path)
    if ok and not prog.good:
        # some rejections come only with code generation
        ok, errors, raw = rustc(ck, prog.source(), path, emit="obj")
    if prog.good and not ok:
        return "a well-dimensioned program does not compile: %s: %s" % (prog.fn(0), "; ".join(m for _, m in errors[:3])[:600])
    if not prog.good and ok:
        return "a program whose dimensions do not fit compiles: %s" % prog.fn(0)
    return None


def simplify(ck, prog, path, budget=60):
    """Lower the dimensions while the program is still treated wrongly."""
    t = TEMPLATES[prog.name][0]
    best, msg = prog, judge(ck, prog, path)
    if msg is None:
        return prog, None
    again = True
    while again and budget > 0:
        again = False
        for k in sorted(best.p):
            v = best.p[k]
            cands = []
            if isinstance(v, int) and not isinstance(v, bool):
                cands = [dict(best.p, **{k: x}) for x in (0, 1, v // 2, v - 1) if 0 <= x < v]
                cands += [{a: (b - 1 if b == v and isinstance(b, int) and not isinstance(b, bool) else b) for a, b in best.p.items()}] if v > 0 else []
            elif k == "leaves":
                for i, l in enumerate(v):
                    for j in range(1, len(l)):
                        if l[j] > 1:
                            cands.append(dict(best.p, leaves=v[:i] + [l[:j] + (l[j] - 1,) + l[j + 1:]] + v[i + 1:]))
            for q in cands:
                if budget <= 0:
                    break
                if t.fits(q) is not best.good:
                    continue
                budget -= 1
                n = Program(best.name, q, best.good)
                m = judge(ck, n, path)
                if m:
                    best, msg, again = n, m, True
                    break
    return best, msg


def c07(ck, run, count):
    g = random.Random("C07 %d" % run.seed)
    libs(ck)
    names = [n for n, (t, w) in TEMPLATES.items() for _ in range(w)]
    progs = []
    # every operation at least a few times, then by weight
    order = [n for n in TEMPLATES for _ in range(6)]
    order += [g.choice(names) for _ in range(max(0, count - len(order)))]
    for n in order:
        t = TEMPLATES[n][0]
        for _ in range(20):
            p = dict(t.dims(g), **t.choices(g))
            if t.fits(p) is True:
                break
        else:
            continue
        progs.append(Program(n, p, True))
        for _ in range(2):
            q = mutate(t, p, g)
            if q is not None:
                progs.append(Program(n, q, False))
    seen, uniq = set(), []
    for p in progs:
        s = p.source()
        if s not in seen:
            seen.add(s)
            uniq.append(p)
    good, bad = [p for p in uniq if p.good], [p for p in uniq if not p.good]
    size = 60
    jobs = [(True, good[i:i + size]) for i in range(0, len(good), size)] + [(False, bad[i:i + size]) for i in range(0, len(bad), size)]
    first = HEAD.count("\n") + 1

    def batch(j):
        n, (ok, ps) = j
        path = os.path.join(run.work, "%s%d.rs" % ("good" if ok else "bad", n))
        accepted, errors, raw = rustc(ck, HEAD + "\n".join(p.fn(i) for i, p in enumerate(ps)) + "\n", path, timeout=600)
        hit = {l - first for l, _ in errors}
        # a file that compiles as a whole, or every function with an error of its own
        if ok:
            return [] if accepted else [p for i, p in enumerate(ps) if i in hit] or ps
        return [p for i, p in enumerate(ps) if i not in hit]

    suspects = [p for r in parallel(batch, list(enumerate(jobs))) for p in r]
    ck.log("%d programs, %d to be compiled on their own" % (len(uniq), len(suspects)))

    def alone(j):
        n, p = j
        return judge(ck, p, os.path.join(run.work, "one%d.rs" % n))
    wrong, kinds = [], set()
    for p, m in zip(suspects, parallel(alone, list(enumerate(suspects)))):
        if m:
            wrong.append(p)
    labels = {}
    for p in uniq:
        k = "%s (%s)" % (p.name, "fits" if p.good else "does not fit")
        labels[k] = labels.get(k, 0) + 1
    nt = [p for p in uniq if not p.good or len({v for v in p.p.values() if isinstance(v, int)}) > 1 or p.name == "expression"]
    run.add("rustc", dict(evaluations=len(uniq), nontrivial=len(nt), distinct_nontrivial=len(nt), units=len(TEMPLATES), labels=labels,
                          samples=["%s: %s" % ("compiles" if p.good else "rejected", p.fn(0)) for p in nt[::max(1, len(nt) // 10)]]))
    for p in wrong:
        if (p.name, p.good) in kinds or len(kinds) >= 6:
            continue
        kinds.add((p.name, p.good))
        q, m = simplify(ck, p, os.path.join(run.work, "shrink.rs"))
        if m:
            run.violate(dict(program=True, good=q.good, source=q.source(), unit=q.name, edition="2021"), m)


def replay(ck, r):
    path = os.path.join(ck.VERIF, "work", "replay", "p.rs")
    libs(ck)
    if r.get("run"):
        return 1 if run_one(ck, r["source"], path, r["edition"], r.get("externs", ["rowcol"]), r.get("kind", "bin")) else 0
    ok, errors, raw = rustc(ck, r["source"], path, edition=r["edition"])
    if ok and not r["good"]:
        ok = rustc(ck, r["source"], path, emit="obj")[0]
    for l, m in errors[:5]:
        print("line %d: %s" % (l, m))
    return 1 if ok != r["good"] else 0


# ---------------------------------------------------------------- C22

SUP = r'''
#[allow(warnings)]
mod sup {
    extern crate std as mystd;
    use self::mystd::prelude::v1::*;
    use self::mystd::{cell::RefCell, fmt::Debug, panic, thread_local, println, assert};
    thread_local!(static LOG: RefCell<Vec<u32>> = RefCell::new(Vec::new()));
    pub fn t<X>(k: u32, x: X) -> X { LOG.with(|l| l.borrow_mut().push(k)); x }
    pub fn id<X>(x: X) -> X { x }
    pub fn two<X, Y>(x: X, _: Y) -> X { x }
    pub trait Me: Sized { fn me(self) -> Self { self } }
    impl<X> Me for X {}
    pub struct S<X> { pub f: X, pub g: u8 }
    pub fn fail(case: u32, what: String) { println!("FAIL {} {}", case, what.replace("\n", " ")); }
    pub fn vector<T: PartialEq + Debug>(case: u32, len: usize, got: &[T], want: &[T], log: &[u32]) {
        let seen = LOG.with(|l| l.borrow().clone());
        if len != want.len() || got.len() != want.len() { fail(case, mystd::format!("{} elements were written, the vector has {} (its slice {})", want.len(), len, got.len())) }
        else if got != want { fail(case, mystd::format!("written {:?}, the vector holds {:?}", want, got)) }
        else if &seen[..] != log { fail(case, mystd::format!("the element expressions are evaluated in the order {:?} rather than {:?}", seen, log)) }
    }
    pub fn matrix<T: PartialEq + Debug>(case: u32, dim: (usize, usize), got: &[&T], want: &[T], shape: (usize, usize), log: &[u32]) {
        let seen = LOG.with(|l| l.borrow().clone());
        if dim != shape { fail(case, mystd::format!("a matrix of shape {:?} was written, this has shape {:?}", shape, dim)) }
        else if got.len() != want.len() || got.iter().zip(want).any(|(a, b)| *a != b) { fail(case, mystd::format!("written {:?}, the matrix holds {:?}", want, got)) }
        else if &seen[..] != log { fail(case, mystd::format!("the element expressions are evaluated in the order {:?} rather than {:?}", seen, log)) }
    }
    pub fn early(case: u32, none: bool, log: &[u32]) {
        let seen = LOG.with(|l| l.borrow().clone());
        if !none { fail(case, "an early return inside an element does not leave the function".to_string()) }
        else if &seen[..] != log { fail(case, mystd::format!("up to the early return {:?} are evaluated rather than {:?}", seen, log)) }
    }
    pub fn sizes(case: u32, a: usize, b: usize) { if a != b { fail(case, mystd::format!("{} bytes rather than {}", a, b)) } }
    pub fn case(n: u32, f: fn()) {
        LOG.with(|l| l.borrow_mut().clear());
        if panic::catch_unwind(f).is_err() { fail(n, "panicked".to_string()) }
    }
    pub fn done() { println!("DONE") }
    pub use self::mystd::{string::String, option::Option, boxed::Box, vec::Vec, convert::From, mem::size_of, clone::Clone, iter::{IntoIterator, Iterator}};
    pub use self::mystd::option::Option::{Some, None};
    /// Names of the library and its helpers, here the user's own: elements that use them mean these.
    pub mod own { @OWN@ }
}
'''
OWN = ["U%d" % n for n in range(13)] + ["U16", "U24", "U32", "UTerm", "UInt", "B0", "B1", "Vector", "Matrix", "ArrayLen", "Sum", "Add", "Sub1", "Same", "Unsigned", "typenum", "vector", "matrix", "consts",
                                       "macros", "prelude", "util", "core", "std", "alloc", "ops", "count", "array", "N", "M", "Row", "Col", "ROWS", "COLS", "LEN", "T", "new", "from", "rows", "cols", "elems", "temp", "tmp"]
SUP = SUP.replace("@OWN@", "".join("pub struct %s<X>(pub X); impl<X> %s<X> { pub fn get(x: X) -> X { x } }" % (n, n) for n in OWN))

# name: (editions, crate attributes, crate-level items, items of the module holding the cases, vector!, matrix!, extern name)
STYLES = {
    "macro_use": (("2015", "2018", "2021"), "", "#[macro_use] extern crate rowcol;", "", "vector!", "matrix!", "rowcol"),
    "macro_use of names": (("2015", "2018", "2021"), "", "#[macro_use(vector, matrix)] extern crate rowcol;", "", "vector!", "matrix!", "rowcol"),
    "use": (("2018", "2021"), "", "", "use rowcol::{vector, matrix};", "vector!", "matrix!", "rowcol"),
    "use, global path": (("2018", "2021"), "", "", "use ::rowcol::{vector, matrix};", "vector!", "matrix!", "rowcol"),
    "path": (("2018", "2021"), "", "", "", "rowcol::vector!", "rowcol::matrix!", "rowcol"),
    "global path": (("2018", "2021"), "", "", "", "::rowcol::vector!", "::rowcol::matrix!", "rowcol"),
    "glob": (("2018", "2021"), "", "", "use rowcol::*;", "vector!", "matrix!", "rowcol"),
    "renamed macros": (("2018", "2021"), "", "", "use rowcol::{vector as row, matrix as grid};", "row!", "grid!", "rowcol"),
    "renamed crate, macro_use": (("2015", "2018", "2021"), "", "#[macro_use] extern crate rowcol as linear;", "", "vector!", "matrix!", "linear"),
    "renamed crate, use": (("2018", "2021"), "", "extern crate rowcol as linear;", "use linear::{vector, matrix};", "vector!", "matrix!", "linear"),
    "crate under another name": (("2018", "2021"), "", "", "use other::{vector, matrix};", "vector!", "matrix!", "other"),
    "re-export": (("2018", "2021"), "", "mod inner { pub use rowcol::{vector as v, matrix}; pub use rowcol::*; }", "use crate::inner::{v, matrix};", "v!", "matrix!", "rowcol"),
    "only one macro in scope": (("2018", "2021"), "", "", "use rowcol::vector;", "vector!", "rowcol::matrix!", "rowcol"),
    "only the other macro in scope": (("2018", "2021"), "", "", "use rowcol::matrix;", "rowcol::vector!", "matrix!", "rowcol"),
}
# crate attributes and items that must not matter: (editions, crate attributes, module attributes, items next to the cases, only with macros spelled by a path)
SHADOWS = {
    "": (EDITIONS, "", "", "", False),
    "no_std": (EDITIONS, "#![no_std]", "", "", False),
    "forbid unsafe": (EDITIONS, "#![forbid(unsafe_code)]", "", "", False),
    "deny warnings": (EDITIONS, "#![deny(missing_docs, unused_qualifications, clippy::all)]", "", "", False),
    "prelude": (EDITIONS, "", "", "use {C}::prelude::*;", False),
    "shadowed types": (EDITIONS, "", "", "struct Vector; struct Matrix; struct U0; struct U1; struct U2; struct UTerm; struct UInt; struct Sum; struct Add; struct B0; struct B1;", False),
    "shadowed modules": (EDITIONS, "", "", "mod typenum { pub mod consts { pub struct U0; pub struct U1; } } mod vector {} mod matrix {} mod consts {} mod core {} mod ops {}", False),
    "shadowed names": (EDITIONS, "", "", "fn new() {} fn count() {} const N: u8 = 0; static ROW: u8 = 0; fn array() {} enum Col {} trait ArrayLen {} fn from_iter() {}", False),
    "shadowed prelude types": (EDITIONS, "", "", "enum Option {} enum Result {} struct Vec; struct Box; trait Iterator {} trait IntoIterator {} trait Default {} trait Clone {} trait Into {} trait From {} enum Some_ {}", False),
    "no_implicit_prelude": (("2018", "2021"), "", "#[no_implicit_prelude]", "use super::sup::{From as _, Clone as _, IntoIterator as _, Iterator as _};", True),
    "own macros": (EDITIONS, "", "", "macro_rules! count { ($($x:tt)*) => { compile_error!(\"not this\") } } macro_rules! vec { ($($x:tt)*) => { compile_error!(\"not this\") } } macro_rules! array { ($($x:tt)*) => { compile_error!(\"not this\") } }", False),
    "own macros of the same names": (("2018", "2021"), "", "", "macro_rules! vector { ($($x:tt)*) => { compile_error!(\"not this\") } } macro_rules! matrix { ($($x:tt)*) => { compile_error!(\"not this\") } }", True),
}

CTYPES = {
    # name: (type, literal of v)
    "i32": ("i32", lambda v: "%di32" % v), "bare i32": ("i32", lambda v: "%d" % v), "u8": ("u8", lambda v: "%du8" % (v % 256)), "f64": ("f64", lambda v: "%d.5f64" % v),
    "bool": ("bool", lambda v: "true" if v % 2 else "false"), "char": ("char", lambda v: "'%s'" % chr(97 + v % 26)), "str": ("&'static str", lambda v: '"s%d, [x"' % v),
    "String": ("sup::String", lambda v: 'sup::String::from("%d")' % v), "Option": ("sup::Option<i32>", lambda v: "sup::Some(%d)" % v if v % 3 else "sup::None"), "unit": ("()", lambda v: "()"),
    "tuple": ("(i32, u8)", lambda v: "(%d, %d)" % (v, v % 256)), "array": ("[i32; 2]", lambda v: "[%d, %d]" % (v, v + 1)), "Box": ("sup::Box<i32>", lambda v: "sup::Box::new(%d)" % v),
    "i64 below zero": ("i64", lambda v: "-%di64" % v), "empty array": ("[u8; 0]", lambda v: "[]"),
}
COPYT = ("i32", "bare i32", "u8", "f64", "bool", "char", "str", "Option", "unit", "tuple", "array", "i64 below zero", "empty array")
INTS = ("i32", "u8")
NUMT = ("i32", "bare i32", "u8", "f64", "i64 below zero")

# name: (types or None for all, text with @ for the inner expression and {T} for the type)
FORMS = {
    "block": (None, "{ @ }"), "let": (None, "{ let x = @; x }"), "parentheses": (None, "(@)"), "if": (None, "if true { @ } else { loop {} }"), "match": (None, "match @ { x => x }"),
    "match with commas": (None, "match (@, 1, 2) { (x, 1, _) => x, (_, _, _) => loop {} }"), "closure": (None, "(|x| x)(@)"), "closure, no argument": (None, "(|| sup::Some(@))()?"),
    "two arguments": (None, "sup::two(@, 1)"), "generic call": (None, "sup::two::<{T}, u8>(@, 1)"), "unsafe": (None, "unsafe { @ }"), "loop": (None, "loop { break @ }"),
    "label": (None, "('a: loop { break 'a @; })"), "tuple field": (None, "(@, 0).0"), "struct field": (None, "(sup::S { f: @, g: 1 }).f"), "method": (None, "sup::Me::me(@)"),
    "macro": (None, "id!(@)"), "macro, brackets": (None, "id![@]"), "macro, commas": (None, "fst!(@, 1, 2)"), "inner function": (None, "{ fn g<X>(x: X) -> X { x } g(@) }"),
    "try": (None, "sup::Some(@)?"), "if let": (None, "if let sup::Some(x) = sup::Some(@) { x } else { loop {} }"), "from": (None, "<{T} as sup::From<{T}>>::from(@)"),
    "index": (COPYT, "[@][0]"), "dereference": (COPYT, "*&@"), "reference of reference": (COPYT, "**&&@"), "repeat": (COPYT, "[@; 3][2]"), "boxed": (None, "*sup::Box::new(@)"),
    "own type": (None, "{O}::<{T}>::get(@)"), "own value": (None, "{O}(@).0"), "own function": (None, "sup::Some(@).map({O}).unwrap().0"), "own pattern": (None, "match {O}(@) { {O}(x) => x }"),
    "plus": (("i32", "bare i32", "u8"), "@ + 0"), "plus before": (("i32", "bare i32", "u8"), "0 + @"), "times": (("i32", "u8"), "@ * 1"), "cast": (("i32", "u8"), "@ as {T}"),
    "cast twice": (("i32", "u8"), "@ as u64 as {T}"), "twice negated": (("i32", "f64", "i64 below zero"), "-(-(@))"), "shift": (("i32", "u8"), "(@) << 0"), "or": (("i32", "u8"), "@ | 0"),
    "not not": (("i32", "u8", "bool"), "!(!(@))"), "and": (("bool",), "@ && true"), "equals": (("bool",), "(@) == true"), "less": (("bool",), "!((@) < true)"), "differs": (("bool",), "(@) != false"),
    "local called": (None, "{ let first = @; let rest = (); let elem = rest; first }"), "nested vector": (None, "sup::id({V}(@)).into_iter().next().unwrap()"),
}
CONTEXTS = {
    "annotated": "let x: {T} = {L};", "by itself": "let x = {L}; let x: {T} = x;", "argument": "let x = take_{n}({L}); fn take_{n}(x: {T}) -> {T} { x }", "tuple": "let x: {T} = ({L}, 0).0;",
    "block": "let x: {T} = { {L} };", "match": "let x: {T} = match {L} { x => x };", "parentheses": "let x: {T} = ({L});", "reference": "let x: &{T} = &{L};", "clone": "let x: {T} = {L}.clone();",
    "function result": "fn make_{n}() -> sup::Option<{T}> { sup::Some({L}) } let x: {T} = make_{n}()?;", "closure result": "let x: {T} = (|| sup::Some({L}))()?;", "second of two": "let (y, x): ((), {T}) = ((), {L});",
    "in a macro": "let x: {T} = id!({L});", "passed through a macro": "macro_rules! make_{n} { ({P}) => { {Q} } } let x: {T} = make_{n}!({A});", "assigned": "let mut x: {T}; x = {L};",
    "struct field": "let x: {T} = sup::S { f: {L}, g: 0 }.f;", "conditional": "let x: {T} = if true { {L} } else { loop {} };",
}


class Literal:
    """A literal: rows is None for a vector; elems are (forms, value), or None for an element that returns early."""

    def __init__(self, ty, elems, shape, context, delim):
        self.ty, self.elems, self.shape, self.context, self.delim = ty, elems, shape, context, delim

    def copy(self, **k):
        n = Literal(self.ty, list(self.elems), self.shape, self.context, self.delim)
        n.__dict__.update(k)
        return n

    def elem(self, k, style):
        e = self.elems[k]
        t, lit = CTYPES[self.ty]
        if e is None:
            return "sup::id::<sup::Option<%s>>(sup::None)?" % t
        forms, v = e
        if forms == "literal":
            return lit(v)
        x = "sup::t(%d, %s)" % (k, lit(v))
        for f in forms:
            if f == "nested vector" and not style[4]:
                continue
            x = FORMS[f][1].replace("{O}", OWN[v % len(OWN)]).replace("{T}", t).replace("{V}", style[4]).replace("{M}", style[5]).replace("@", x)
        return x

    def text(self, style, elems):
        o, c = self.delim if style[4] else "[]"
        if len(self.shape) == 1:
            return style[4] + o + ", ".join(elems) + c
        r, n = self.shape
        return style[5] + o + ", ".join("[%s]" % ", ".join(elems[i * n:(i + 1) * n]) for i in range(r)) + c

    def type(self, c):
        t = CTYPES[self.ty][0]
        if len(self.shape) == 1:
            return "%s::vector::Vector<%s, %s::typenum::consts::U%d>" % (c, t, c, self.shape[0])
        return "%s::matrix::Matrix<%s, %s::typenum::consts::U%d, %s::typenum::consts::U%d>" % (c, t, c, self.shape[0], c, self.shape[1])

    def fn(self, n, style, control=False):
        """The case as a function; with control the same with a plain array in the place of the literal."""
        es = [self.elem(k, style) for k in range(len(self.elems))]
        ty = self.type("rc")
        own = sorted({OWN[e[1] % len(OWN)] for e in self.elems if e and e[0] != "literal" and any(f.startswith("own ") for f in e[0])})
        if control:
            style = style[:4] + ("", "") + style[6:]
            ty = "[%s; %d]" % (CTYPES[self.ty][0], self.shape[0]) if len(self.shape) == 1 else "[[%s; %d]; %d]" % (CTYPES[self.ty][0], self.shape[1], self.shape[0])
        log = []
        stop = False
        for k, e in enumerate(self.elems):
            if e is None:
                stop = True
                break
            if e[0] != "literal":
                log.append(k)
        names = ["$a%d:expr" % k for k in range(len(es))]
        body = CONTEXTS[self.context].replace("{T}", ty).replace("{L}", self.text(style, es)).replace("{n}", str(n)).replace("{P}", ", ".join(names)).replace("{A}", ", ".join(es))
        if own:
            body = "use sup::own::{%s}; " % ", ".join(own) + body
        body = body.replace("{Q}", self.text(style, ["$a%d" % k for k in range(len(es))]))
        logs = "&[%s]" % ", ".join(map(str, log))
        t, lit = CTYPES[self.ty]
        if stop:
            return "fn case_%d() { fn f() -> sup::Option<()> { %s let _ = &x; sup::Some(()) } sup::early(%d, match f() { sup::None => true, _ => false }, %s) }" % (n, body, n, logs)
        want = "&[%s]" % ", ".join(lit(e[1]) for e in self.elems)
        if len(self.shape) == 1:
            chk = "sup::vector::<%s>(%d, x.len(), x.as_slice(), %s, %s);" % (t, n, want, logs)
        else:
            r, c = self.shape
            ent = ", ".join(("&x[%d][%d]" if control else "&x[(%d, %d)]") % (i, j) for i in range(r) for j in range(c))
            chk = "sup::matrix::<%s>(%d, %s, &[%s], %s, (%d, %d), %s);" % (t, n, "(%d, %d)" % (r, c) if control else "x.dim()", ent, want, r, c, logs)
        return "fn case_%d() { fn f() -> sup::Option<()> { %s %s sup::Some(()) } match f() { sup::Some(()) => (), _ => sup::fail(%d, sup::String::from(\"the function returned early\")) } }" % (n, body, chk, n)

    def simpler(self):
        """Simpler literals to try when shrinking."""
        if len(self.shape) == 1:
            n = self.shape[0]
            for cut in (n // 2, 1):
                if 0 < cut <= n:
                    for k in range(0, n, cut):
                        es = self.elems[:k] + self.elems[k + cut:]
                        yield self.copy(elems=es, shape=(len(es),))
        else:
            r, c = self.shape
            for nr, nc in ((r // 2, c), (r, c // 2), (r - 1, c), (r, c - 1)):
                if 0 <= nr and 0 <= nc and (nr, nc) != (r, c) and (nr == 0) <= (c == 0 or nc == 0):
                    yield self.copy(elems=[self.elems[i * c + j] for i in range(nr) for j in range(nc)], shape=(nr, nc))
        if self.context != "annotated":
            yield self.copy(context="annotated")
        if self.delim != "[]":
            yield self.copy(delim="[]")
        if any(e and e[0] for e in self.elems):
            yield self.copy(elems=[e and ([] if e[0] != "literal" else e[0], e[1]) for e in self.elems])
            for k, e in enumerate(self.elems):
                if e and e[0] and e[0] != "literal":
                    yield self.copy(elems=self.elems[:k] + [([], e[1])] + self.elems[k + 1:])


class Alias:
    def __init__(self, name, kind, dims, t):
        self.name, self.kind, self.dims, self.t = name, kind, dims, t

    def fn(self, n, style, control=False):
        full = "rc::%s::%s<%s, %s>" % (self.kind.lower(), self.kind, self.t, ", ".join("rc::typenum::consts::U%d" % d for d in self.dims))
        size = 1
        for d in self.dims:
            size *= d
        return "fn case_%d() { fn f(x: rc::prelude::%s) -> %s { x } fn g(x: %s) -> rc::prelude::%s { x } sup::sizes(%d, sup::size_of::<rc::prelude::%s>(), %d * sup::size_of::<%s>()); }" % (
            n, self.name, full, full, self.name, n, self.name, size, self.t)

    def simpler(self):
        return ()


def program(cases, style, shadow, edition, control=False):
    """The whole text of a program, and the first line of the cases."""
    st, sh = STYLES[style], SHADOWS[shadow]
    head = sh[1] + "\n#![allow(warnings)]\n" + st[2] + "\n"
    head += SUP + "fn main() { cases::main() }\n" + sh[2] + " mod cases {\n"
    ext = st[6]
    head += "use super::sup;" + " use ::%s as rc;\n" % ext + st[3] + "\n" + sh[3].replace("{C}", "::" + ext) + "\n"
    head += "macro_rules! id { ($x:expr) => { $x } }\nmacro_rules! fst { ($x:expr, $($y:expr),*) => { $x } }\n"
    first = head.count("\n") + 1
    body = "\n".join(c.fn(i, st, control) for i, c in enumerate(cases)) + "\n"
    tail = "pub fn main() { %s sup::done(); }\n}\n" % " ".join("sup::case(%d, case_%d);" % (i, i) for i in range(len(cases)))
    return head + body + tail, first


def compile_run(ck, source, path, edition, externs, run=True):
    """(None, [lines of output]) or (what went wrong, error lines)."""
    exe = path[:-3]
    ok, errors, raw = rustc(ck, source, path, edition=edition, emit="link" if run else "metadata", kind="bin", out=exe, externs=externs, timeout=600)
    if not ok:
        return "does not compile: " + "; ".join(m for _, m in errors[:3])[:600], errors
    if not run:
        return None, []
    try:
        p = subprocess.run([exe], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=120)
    except subprocess.TimeoutExpired:
        return "does not end", []
    finally:
        os.remove(exe)
    out = p.stdout.splitlines()
    if p.returncode or not out or out[-1] != "DONE":
        return "ends with %d: %s" % (p.returncode, p.stderr[-300:]), out
    return None, out[:-1]


def run_one(ck, source, path, edition, externs, kind):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    m, out = compile_run(ck, source, path, edition, externs)
    if m or out:
        print(m or "\n".join(out))
    return bool(m or out)


def gen_literal(g, style, shadow):
    ty = g.choice(sorted(CTYPES))
    if g.random() < 0.5:
        n = g.choice((dim(g), dim(g), dim(g), g.randint(0, 32)))
        shape = (n,)
        k = n
    else:
        r = g.choice((dim(g), g.randint(0, 6)))
        c = g.choice((g.randint(0, 6), dim(g))) if r else 0
        if r * c > 200:
            r, c = (r, 200 // r) if g.random() < 0.5 else (200 // c, c)
        shape = (r, c)
        k = r * c
    pool = [f for f, (ts, _) in FORMS.items() if ts is None or ty in ts]
    if "forbid" in shadow:
        pool.remove("unsafe")
    if "deny" in shadow or g.random() < 0.15:
        pool = [f for f in pool if f in ("block", "parentheses", "macro", "closure", "two arguments")]
    elems = []
    for _ in range(k):
        v = g.randint(0, 999)
        x = g.random()
        elems.append((("literal" if x < 0.15 else [g.choice(pool) for _ in range(1 if x < 0.7 else 2 if x < 0.9 else 0)]), v))
    if k > 1 and g.random() < 0.06:
        elems[g.randrange(k)] = None
    ctx = sorted(CONTEXTS)
    # an inference variable needs an element; a function's own scope has no early return to the case; a repetition of no fragments is no pattern worth writing
    if not k:
        ctx = [c for c in ctx if c not in ("by itself", "clone", "passed through a macro")]
    return Literal(ty, elems, shape, g.choice(ctx), g.choice(("[]", "[]", "()", "{}")))


ALIASES = [("Vector%d%s" % (n, t), "Vector", (n,), t) for n in range(1, 11) for t in ("f32", "f64")] + [("Matrix%d%s" % (n, t), "Matrix", (n, n), t) for n in (2, 3, 4) for t in ("f32", "f64")]


def aliases(ck):
    """The aliases known, and others of the same form of name should there be some."""
    have = {a[0]: a for a in ALIASES}
    d = os.path.join(ck.REPO, "src")
    for base, _, fs in os.walk(d):
        for f in fs:
            if os.path.basename(f) == "prelude.rs":
                for m in re.finditer(r"pub type ((Vector|Matrix)(\d+)(?:x(\d+))?(f32|f64|[iu](?:8|16|32|64)))\b", open(os.path.join(base, f)).read()):
                    n, c = int(m.group(3)), m.group(4)
                    if m.group(2) == "Vector" and c:
                        continue
                    have.setdefault(m.group(1), (m.group(1), m.group(2), (n,) if m.group(2) == "Vector" else (n, int(c or n)), m.group(5)))
    return [Alias(*a) for a in sorted(have.values())]


def c22(ck, run, batches, per):
    g = random.Random("C22 %d" % run.seed)
    L = libs(ck)
    jobs = []
    combos = [(s, h, e) for s in STYLES for h in SHADOWS for e in EDITIONS if e in STYLES[s][0] and e in SHADOWS[h][0] and (not SHADOWS[h][4] or "::" in STYLES[s][4] and STYLES[s][4].startswith("::") and STYLES[s][5].startswith("::"))
              # importing a macro by name imports the module of that name too
              and (h != "shadowed modules" or "macro_use" in s or "path" in s and "use" not in s or s in ("glob", "renamed macros"))]
    # every style and every shadowing first
    order = []
    for s in STYLES:
        order.append(g.choice([c for c in combos if c[0] == s]))
    for h in SHADOWS:
        order.append(g.choice([c for c in combos if c[1] == h]))
    order += [g.choice(combos) for _ in range(max(0, batches - len(order)))]
    for style, shadow, ed in order:
        jobs.append((style, shadow, ed, [gen_literal(g, style, shadow) for _ in range(per)]))
    # every length and a spread of shapes, plainly
    plain = [Literal("bare i32", [([], g.randint(0, 999)) for _ in range(n)], (n,), "annotated", "[]") for n in range(33)]
    shapes = [(r, c) for r in range(1, 33) for c in range(33)]
    pick = shapes if run.thorough else [(r, g.choice((0, 1, 2, 32, g.randint(0, 32)))) for r in range(1, 33)] + [(g.randint(1, 32), c) for c in range(33)]
    plain += [Literal("bare i32", [("literal", g.randint(0, 999)) for _ in range(r * c)], (r, c), "annotated", "[]") for r, c in [(0, 0)] + pick if r * c <= 400 or g.random() < 0.3]
    for k in range(0, len(plain), 12):
        jobs.append(("macro_use", "", g.choice(EDITIONS), plain[k:k + 12]))
    al = aliases(ck)
    jobs.append(("macro_use", "", "2015", al))
    ck.log("%d programs with %d cases" % (len(jobs), sum(len(j[3]) for j in jobs)))

    def externs(style):
        return ["other=rowcol"] if STYLES[style][6] == "other" else ["rowcol"]

    def batch(j):
        n, (style, shadow, ed, cases) = j
        src, first = program(cases, style, shadow, ed)
        m, out = compile_run(ck, src, os.path.join(run.work, "b%d.rs" % n), ed, externs(style))
        if m is None and not out:
            return []
        if m is None:
            return [(style, shadow, ed, cases[int(l.split()[1])]) for l in out if l.startswith("FAIL")]
        hit = {l - first for l, _ in out if 0 <= l - first < len(cases)} if m.startswith("does not compile") else set()
        return [(style, shadow, ed, c) for i, c in enumerate(cases) if not hit or i in hit]

    suspects = [x for r in parallel(batch, list(enumerate(jobs))) for x in r]

    def alone(x, path):
        style, shadow, ed, c = x
        src, _ = program([c], style, shadow, ed)
        m, out = compile_run(ck, src, path, ed, externs(style))
        if (m or out) and isinstance(c, Literal):
            # the same elements in a plain array: should that fail, the fault is in the case
            n, o = compile_run(ck, program([c], style, shadow, ed, True)[0], path, ed, externs(style))
            if n or o:
                ck.log("unsuitable case:", c.fn(0, STYLES[style])[:300], str(n or o)[:200])
                return None
        return m if m else out[0].split(" ", 2)[2] if out else None

    # literals that have no shape
    ragged = []
    for _ in range(60 if not run.thorough else 600):
        r, c = g.randint(2, 8), g.randint(0, 8)
        widths = [c] * r
        k = g.randrange(r)
        widths[k] = g.choice([w for w in (c - 1, c + 1, 0, c * 2, 1) if w >= 0 and w != c])
        ragged.append(("matrix![%s]" % ", ".join("[%s]" % ", ".join(str(g.randint(0, 9)) for _ in range(w)) for w in widths), "Matrix<i32, _, _>"))
    for _ in range(40 if not run.thorough else 400):
        n = dim(g)
        m = g.choice([x for x in (n - 1, n + 1, 0, n * 2, n // 2) if 0 <= x <= 32 and x != n] or [1])
        ragged.append(("vector![%s]" % ", ".join(str(g.randint(0, 9)) for _ in range(n)), "Vector<i32, U%d>" % m))
    rhead = "#![allow(warnings)]\nuse rowcol::{vector, matrix};\nuse rowcol::prelude::*;\n"

    def rag(ps, path):
        ok, errors, raw = rustc(ck, rhead + "\n".join("pub fn f%d() { let x: %s = %s; }" % (i, t, l) for i, (l, t) in enumerate(ps)) + "\n", path)
        hit = {l - 4 for l, _ in errors}
        return [p for i, p in enumerate(ps) if i not in hit]
    loose = [p for p in rag(ragged, os.path.join(run.work, "ragged.rs")) if rag([p], os.path.join(run.work, "ragged1.rs"))]

    lits = [c for j in jobs for c in j[3] if isinstance(c, Literal)]
    labels = {"aliases": len(al), "ragged or miscounted": len(ragged)}
    for j in jobs:
        for k in ("style: " + j[0], "scope: " + (j[1] or "plain"), "edition " + j[2]):
            labels[k] = labels.get(k, 0) + len(j[3])
    nt = [c for c in lits if len(c.elems) > 1]
    texts = [c.text(STYLES["macro_use"], [c.elem(k, STYLES["macro_use"]) for k in range(len(c.elems))]) for c in nt]
    small = sorted(set(texts), key=len)
    run.add("rustc", dict(evaluations=len(lits) + len(al) + len(ragged), nontrivial=len(nt) + len(ragged), distinct_nontrivial=len(small) + len(set(ragged)), units=len(FORMS) + len(CONTEXTS) + len(STYLES) + len(SHADOWS),
                          labels=labels, samples=[t[:400] for t in small[len(small) // 4::max(1, len(small) // 8)][:6]]))
    kinds = set()
    for l, t in loose[:3]:
        run.violate(dict(program=True, good=False, source=rhead + "pub fn f0() { let x: %s = %s; }\n" % (t, l), unit="ragged", edition="2021"), "compiles, but should not: let x: %s = %s;" % (t, l))
    for x in suspects[:40]:
        path = os.path.join(run.work, "one.rs")
        m = alone(x, path)
        if not m:
            continue
        kind = re.sub(r"[\d\[\], ]+", "", m)[:40] + (x[3].name if isinstance(x[3], Alias) else "")
        if kind in kinds or len(kinds) >= 5:
            continue
        kinds.add(kind)
        budget = 80
        if (x[0], x[1]) != ("macro_use", ""):
            for y in (("macro_use", "", x[2], x[3]), (x[0], "", x[2], x[3])):
                n = alone(y, path)
                if n:
                    x, m = y, n
                    break
        again = True
        while again and budget > 0:
            again = False
            for c in x[3].simpler():
                if budget <= 0:
                    break
                budget -= 1
                y = (x[0], x[1], x[2], c)
                n = alone(y, path)
                if n:
                    x, m, again = y, n, True
                    break
        src, _ = program([x[3]], x[0], x[1], x[2])
        body = x[3].fn(0, STYLES[x[0]])
        run.violate(dict(program=True, run=True, source=src, unit=x[0] + ("; " + x[1] if x[1] else ""), edition=x[2], externs=externs(x[0]), kind="bin"), "%s: %s" % (body[:900], m))
