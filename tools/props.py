"""What each check runs. Used by check.py."""

ASSUMPTIONS = [
    "rustc, the standard library, num, typenum, approx and unicode-width behave as documented",
    "behaviour depends on dimensions, element type and values only as sampled by the generators described in DESIGN.md",
]
CHECKS, RULES = {}, {}


def check(id, rule):
    RULES[id] = rule

    def deco(f):
        CHECKS[id] = f
        return f
    return deco


@check("C01", "A case is a shape, an element type (tracked field elements, zero-sized, heap-owning) and a random history of constructions, iterator calls, arithmetic, "
       "linear algebra, formatting and drops, in which one clone, element operation, callback or destructor may panic; non-trivial: at least 3 steps.")
def c01(ck, run):
    t = run.thorough
    m, few = ck.CONFIGS["miri"], ck.CONFIGS["opt"]
    main = ["dbg", "rel"] + (["opt"] if t else [])
    ck.build_all(run, [(ck.CONFIGS[c], ["c01"]) for c in main if c != "opt"] + [(few, ["c01", "c01m"] if t else ["c01m"]), (m, ["c01m"])] + ([(ck.CONFIGS["asan"], ["c01"])] if t else []))
    ck.side_by_side(run, m, "c01m", 40 if t else 0.25, timeout=20000 if t else 400)
    ck.run_bin(run, few, "c01m", 2000 if t else 100, timeout=20000 if t else 200)
    for c in main:
        ck.run_bin(run, ck.CONFIGS[c], "c01", 60 if t else 2, timeout=20000 if t else 300)
    if t:
        ck.run_bin(run, ck.CONFIGS["asan"], "c01", 10, timeout=20000)


@check("C02", "A case is a vector (length 0..=32, 17 element types) and a random history of iterator calls and a terminal operation; "
       "non-trivial: at least 2 elements and the history uses both ends, or goes past the end after at least two calls. Distinct: by generated choices.")
def c02(ck, run):
    ck.standard(run, ["c02"], 20, 400)


@check("C03", "A case is a matrix shape, its entries, one of the five iterators and a random history of calls; non-trivial: the history uses both ends, "
       "or goes past the end after at least two calls. Distinct: by generated choices.")
def c03(ck, run):
    ck.standard(run, ["c03"], 1, 20)


TECH_DEFAULT = "property-based testing: generated cases against an explicit oracle, with shrinking"
NOTE_DEFAULT = ("Randomised search over generated cases; finds violations within the generated distribution, never proves absence. "
                "Trusts the oracle in the harness, rustc and the dependencies.")
TECHNIQUE, NOTES, NOT_APPLICABLE = {}, {}, {}


@check("C04", "A case is a length and dividing chunk length (all 151 pairs up to 32) with a random call history on the chunk iterator, or a shape with at most "
       "32 elements filled from a flat vector; non-trivial: several chunks and a history using both ends or past the end, or a shape with several rows and columns.")
def c04(ck, run):
    ck.standard(run, ["c04"], 6, 100)


@check("C05", "A case is a vector length 0..=32, a number of supplied items (below, at, above), a kind of iterator (exact, unsized, chained, lying size hint, "
       "by reference, ...) and an element type; non-trivial: the count differs from the length, or the length exceeds 1.")
def c05(ck, run):
    ck.standard(run, ["c05"], 20, 300)


@check("C06", "A case is a vector or matrix built by one of the construction paths, followed by random writes through random mutable paths and accesses out of "
       "range, all reading paths compared with a model after each step; or one type-level index read and written. Non-trivial: more than one element and a write.")
def c06(ck, run):
    ck.standard(run, ["c06"], 4, 60)


@check("C08", "A case is a vector length 0..=32, an element type (mixed-type operators whose result depends on side and order, free symbols, a non-commutative ring, "
       "integers, floats, tracked elements) and two generated operands, put through every owned/borrowed/assigning form; non-trivial: more than one element.")
def c08(ck, run):
    ck.standard(run, ["c08"], 15, 400, features=["all_shapes"] if run.thorough else ())


@check("C09", "A case is a matrix shape, an element type and generated operands, put through every owned/borrowed/assigning form; non-trivial: more than one entry.")
def c09(ck, run):
    ck.standard(run, ["c09", "c09b"], 8, 100, features=["all_shapes"] if run.thorough else ())


@check("C10", "A case is a triple of inner and outer dimensions, an element type and two (three for the algebraic laws) generated operands, all operand forms compared "
       "with the defining sums; non-trivial: a non-empty result whose sums have more than one term.")
def c10(ck, run):
    ck.standard(run, ["c10"], 6, 80, features=["all_shapes"] if run.thorough else ())


@check("C11", "A case is a shape or size, an element type and generated entries (for powers an exponent, all below 70 and random larger ones) for one of the "
       "constructors, queries, powers, diagonals or conjugates; non-trivial: more than one entry (a non-zero exponent above 1 for powers).")
def c11(ck, run):
    ck.standard(run, ["c11"], 8, 100, features=["all_shapes"] if run.thorough else ())


@check("C12", "A case is a shape, generated distinct-looking entries and an operation (transposes, maps, all/any queries with a random accepted set); "
       "non-trivial: more than one entry.")
def c12(ck, run):
    ck.standard(run, ["c12"], 10, 150, features=["all_shapes"] if run.thorough else ())


@check("C13", "A case is a size 1..=32, an exact field (rationals, GF(2^61-1), GF(3), GF(7), GF(101)) and a matrix drawn from structured families (dense, sparse, "
       "singular, permuted triangular, zero leading minors, ...); the determinant is compared with an independent fraction-free or pivoted elimination and with "
       "the algebraic laws. Non-trivial: size above 1.")
def c13(ck, run):
    ck.standard(run, ["c13"], 5, 80)


@check("C14", "A case is a size, an exact field and a structured matrix; every position's cofactor is compared with the signed minor, rows and columns are expanded, "
       "and positions outside must panic; non-trivial: size above 2.")
def c14(ck, run):
    ck.standard(run, ["c14"], 5, 60)


@check("C15", "A case is a size 1..=32, an exact field and a structured matrix (zero pivots at every step, permutations, singular ones, ...); inversion must succeed "
       "exactly for non-zero reference determinant and multiply to the identity on both sides. Non-trivial: size above 1.")
def c15(ck, run):
    ck.standard(run, ["c15"], 4, 60)


@check("C16", "A case is a size and a row diagonally dominant f64 or f32 matrix (true determinant computed exactly in rationals or to high precision), or a small "
       "integer matrix whose elimination stays exact; non-trivial: size above 1.")
def c16(ck, run):
    ck.standard(run, ["c16"], 4, 60)


@check("C17", "A case is a length or shape, an element type (free symbols, non-commutative ring, integers, floats, ...) and generated elements, for sum, dot, norm, "
       "normalize and cross; non-trivial: more than one element (a non-zero norm for normalize).")
def c17(ck, run):
    ck.standard(run, ["c17"], 15, 300, features=["all_shapes"] if run.thorough else ())


@check("C18", "A case is a non-empty vector or square matrix of elements ordered by a key with ties and tags (or floats, integers) and an operation (max, min, max_by, "
       "min_by, clamp, clamped with random bounds); non-trivial: more than one element.")
def c18(ck, run):
    ck.standard(run, ["c18"], 10, 150)


@check("C19", "A case is a shape and entries with texts of random widths, several lines, wide, zero-width and empty pieces, or nested matrices; the drawing is parsed "
       "and compared with the grid rules. Non-trivial: more than one entry or an entry that is empty, multi-line or not one column per byte.")
def c19(ck, run):
    ck.standard(run, ["c19"], 3, 40)


@check("C20", "A case is a length or shape, a pair of element types (also mixed, never equal, equal in part, floats with NaN and signed zero) and two containers that "
       "differ at no, one random or several random positions; or a clone and a write to one of the copies; or a pair of nearby matrices with tolerances. "
       "Non-trivial: more than one element.")
def c20(ck, run):
    ck.standard(run, ["c20"], 10, 200, features=["all_shapes"] if run.thorough else ())


@check("C21", "A case is a length or shape, elements (with arbitrary debug texts, or showing the options that reach them, or nested containers) and a format style; "
       "non-trivial: more than one element.")
def c21(ck, run):
    ck.standard(run, ["c21"], 10, 200, features=["all_shapes"] if run.thorough else ())


@check("C23", "A case is a length or shape and an element type (sizes, addresses of all elements), or plain operands put through every operation under an allocator "
       "that counts; non-trivial: more than one element.")
def c23(ck, run):
    ck.standard(run, ["c23"], 6, 100, features=["all_shapes"] if run.thorough else ())


C24_FEATURES = ["", "std", "unicode_width", "use_needs_drop", "std+unicode_width", "std+use_needs_drop", "unicode_width+use_needs_drop", "std+unicode_width+use_needs_drop"]


def digests(ck, cfg, args, timeout=150):
    import subprocess
    try:
        p = subprocess.run(cfg.cmd("c24") + args, env=cfg.env(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=timeout, preexec_fn=ck.limits(cfg))
    except subprocess.TimeoutExpired:
        return "did not end within %d s" % timeout, None
    if p.returncode:
        return ck.how(p), None
    return None, [l.split("\t") for l in p.stdout.splitlines()]


def tape_digest(ck, cfg, unit, tape, path):
    """What a case observes in one configuration: its digest, or how the process died."""
    open(path, "w").write(" ".join(map(str, tape)))
    err, lines = digests(ck, cfg, ["digest-tape", "--unit", unit, "--tape", path], timeout=60)
    return ("died", err) if err else (lines[-1][0], None)


def shorten(tape, fails, seconds=40):
    """Delete and lower parts of a tape while it still fails."""
    import time
    end, best = time.time() + seconds, list(tape)
    size = max(1, len(best) // 2)
    while time.time() < end:
        k, done = 0, False
        while k < len(best) and time.time() < end:
            for cand in (best[:k] + best[k + size:], best[:k] + [0] * len(best[k:k + size]) + best[k + size:]) + ((best[:k] + [best[k] // 2] + best[k + 1:],) if size == 1 else ()):
                if cand != best and fails(cand):
                    best, done = cand, True
                    break
            else:
                k += size
        if size == 1 and not done:
            break
        size = max(1, size // 2)
    return best


@check("C24", "A case is a generated history or set of operands put through every kind of operation (tracked elements with drop order, floats, integers, formatting, "
       "panicking accesses, panicking clones and destructors); everything it observes is hashed, and the hash must be the same in every build configuration. "
       "Non-trivial: more than one element or at least three steps. Cases are counted once per configuration.")
def c24(ck, run):
    import os
    from concurrent.futures import ThreadPoolExecutor
    ref = ck.CONFIGS["dbg-[std+unicode_width]"]
    cfgs = [ck.CONFIGS["%s-[%s]" % (p, f or "none")] for p in ("dbg", "opt") for f in C24_FEATURES]
    res = ck.build_all(run, [(c, ["c24"]) for c in cfgs], allow_fail=True)
    if res[ref.name]:
        raise ck.NoAnswer("the default configuration does not build:\n" + res[ref.name][:4000])
    work = os.path.join(run.work, "c24.tape")
    for c in cfgs:
        e = res[c.name]
        if e and "build did not run" in e:
            raise ck.NoAnswer(e)
        if e:
            run.violate(dict(transcript=True, config=c.name, build=True), "with the default features it builds, in configuration %s it does not: %s" % (c.name, e[:1500]))
    built = [c for c in cfgs if not res[c.name]]
    rounds = [(run.seed * 1000 + k, 100) for k in range(40)] if run.thorough else [(run.seed * 1000, 20)]
    for seed, scale in rounds:
        seen, died = {}, {}
        with ThreadPoolExecutor(8) as pool:
            ends = list(pool.map(lambda c: digests(ck, c, ["digest", "--seed", str(seed), "--scale", str(scale)], timeout=240), built))
        for c, (err, lines) in zip(built, ends):
            if err:
                died[c.name] = err
                continue
            seen[c.name] = {l[0]: l[1] for l in lines}
            n, nt, d = (sum(int(l[k]) for l in lines) for k in (2, 3, 4))
            run.add("%s/c24" % c.name, dict(evaluations=n, nontrivial=nt, distinct_nontrivial=d if c is ref and (seed, scale) == rounds[0] else 0, units=len(lines),
                                            samples=["%s: %s" % (l[0], l[5][:300]) for l in lines[::17]] if c is ref else []))
        if died and not seen:
            # it may be the profile: a run that ends in one of them is enough
            for c in [c for c in built if c.name not in died and c.name.startswith("opt")][:1]:
                err, lines = digests(ck, c, ["digest", "--seed", str(seed), "--scale", str(scale)])
                if not err:
                    seen[c.name] = {l[0]: l[1] for l in lines}
            if not seen:
                raise ck.NoAnswer("; ".join("%s: %s" % x for x in died.items()))
        for name, err in died.items():
            other = ref.name if ref.name in seen else sorted(seen)[0]
            run.violate(dict(transcript=True, config=name, reference=other, seed=seed, scale=scale), "in configuration %s the run does not get through (%s), in %s it does" % (name, err, other))
        if died:
            return
        for c in built:
            if c.name not in seen:
                continue
            # units without a counterpart are those displaying; wide texts need unicode-width on both sides
            for unit in sorted(set(seen[c.name]) & set(seen[ref.name])):
                if seen[c.name][unit] != seen[ref.name][unit]:
                    differs(ck, run, c, ref, unit, seed, scale, work)
                    if len(run.violations) >= 8:
                        return


def differs(ck, run, c, ref, unit, seed, scale, work):
    a, b = (digests(ck, x, ["digest", "--seed", str(seed), "--scale", str(scale), "--unit", unit]) for x in (c, ref))
    if a[0] or b[0]:
        raise ck.NoAnswer("%s: %s %s" % (unit, a[0], b[0]))
    a, b = ({l[0]: l[1] for l in x[1]} for x in (a, b))
    for i in sorted(a, key=int):
        if a[i] != b.get(i):
            dump = work + ".dump"
            err, _ = digests(ck, ref, ["case", "--unit", unit, "--index", i, "--seed", str(seed), "--dump", dump], timeout=60)
            tape = [int(x) for x in open(dump).read().split()]
            f = lambda t: tape_digest(ck, c, unit, t, work) != tape_digest(ck, ref, unit, t, work)
            if f(tape):
                tape = shorten(tape, f)
            run.violate(dict(transcript=True, config=c.name, reference=ref.name, unit=unit, tape=tape, seed=seed, index=int(i)),
                        "the case gives one result in configuration %s and another in %s" % (c.name, ref.name))
            return
    raise ck.NoAnswer("%s: digests differ once and not again" % unit)


def replay_transcript(ck, r):
    import os
    c = ck.CONFIGS[r["config"]]
    ref = ck.CONFIGS[r.get("reference", "dbg-[std+unicode_width]")]
    if ref.build(["c24"]):
        raise ck.NoAnswer("the default configuration does not build")
    e = c.build(["c24"])
    if e:
        print(e[:2000])
        return 1
    if r.get("build"):
        return 0
    if "tape" not in r:
        args = ["digest", "--seed", str(r["seed"]), "--scale", str(r["scale"])]
        err = digests(ck, c, args)[0]
        print(err or "it ends")
        return 1 if err else 0
    work = os.path.join(ck.VERIF, "work")
    os.makedirs(work, exist_ok=True)
    a, b = (tape_digest(ck, x, r["unit"], r["tape"], os.path.join(work, "c24.tape")) for x in (c, ref))
    print("%s: %s\n%s: %s" % (c.name, a, ref.name, b))
    return 1 if a != b else 0


@check("C07", "A case is a program: one operation with generated dimensions and element type, or a whole expression over vectors and matrices, once with dimensions that fit "
       "(it must compile with the annotated result type) and with one that does not (it must be rejected). Non-trivial: ill-dimensioned, an expression, or with at least "
       "two different dimensions. Distinct: by text.")
def c07(ck, run):
    import programs
    programs.c07(ck, run, 40000 if run.thorough else 3000)


@check("C22", "A case is a literal written with vector! or matrix! (any size, 15 element types, elements in 40 forms of expression, 17 places to stand in), in a program importing "
       "the macros in one of 14 styles with one of 12 kinds of shadowing scope in editions 2015 to 2021, compiled and run; or a ragged or miscounted literal, to be rejected; or an alias. "
       "Non-trivial: more than one element, or to be rejected. Distinct: by text.")
def c22(ck, run):
    import programs
    t = run.thorough
    programs.c22(ck, run, 3000 if t else 120, 16)


@check("C25", "A case is a program: a random history of steps over vectors, matrices, iterators and references to them (constructing, borrowing in 55 ways, deriving items from borrowed iterators, using, "
       "mutating, moving, blocks that end), free of conflicts by a model of loans (it must compile) or with exactly one (it must be rejected); a function signature relating lifetimes; a container or iterator "
       "sent to or shared with another thread; or a use that needs Clone, mutability or unsafe. Non-trivial: to be rejected, or with at least two kinds of step besides construction and use. Distinct: by text.")
def c25(ck, run):
    import borrow
    borrow.c25(ck, run, 30000 if run.thorough else 4000)


@check("C26", "A case is a generic function over element types of which only what an operation is defined by is known (other operand and result types, references, containers of them), applying "
       "that operation to vectors and matrices of generated dimensions: it must compile; or a claim (Eq, Copy, Clone, Default, Debug) of a container whose elements have it or not. "
       "Non-trivial: with bounds, several types, or to be rejected. Distinct: by text.")
def c26(ck, run):
    import generic
    generic.c26(ck, run, 400 if run.thorough else 40)


@check("C27", "A case is an operation on a vector, matrix, square matrix, power or nested container of a generated shape (all lengths and square sizes up to 32, rectangular and product shapes) with generated values: "
       "constant, increasing, decreasing, two-valued, all alike but the ends, sparse, singular, with zero pivots, or random. Every clone, comparison, arithmetic operation, formatting and callback of an element is "
       "counted; the count must stay within eight times what the operation's definition needs for the shape (a row and a column to spare, plus sixty-four). Non-trivial: more than one element. Distinct: by what is generated.")
def c27(ck, run):
    ck.standard(run, ["c27"], 5, 100)


@check("C28", "A case is two to five operations (of one kind mostly, with different operands and shapes) whose results when run by themselves are recorded first; they are then repeated in any order, also in new threads; "
       "begun inside one another by an element, a given function or a writer, up to 21 deep; cut short by a panic at an element operation, once or 1500 times; run in two or three threads that change over at "
       "element operations as a seed says; or in two to four threads freely. Every result must be the recorded one and operands must stay as they were. Non-trivial: an operation was nested, cut short, interleaved or repeated.")
def c28(ck, run):
    t = run.thorough
    cfgs, m = [ck.CONFIGS["dbg"], ck.CONFIGS["rel"]], ck.CONFIGS["miri"]
    ck.build_all(run, [(c, ["c28"]) for c in cfgs + [m]])
    # one thread in each process: what one case leaves behind is not to disturb another one
    for c in cfgs:
        ck.side_by_side(run, c, "c28", 100 if t else 2, timeout=20000 if t else 300)
    if not run.violations:
        ck.side_by_side(run, m, "c28", 1 if t else 0.02, timeout=20000 if t else 400)
