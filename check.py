#!/usr/bin/env python3
"""check.py <property> [--replay FILE]    decide one property on /repo's working tree.

Exit 0: held on everything explored. Exit 1: VIOLATION line(s) printed. Exit 2: no answer (build error,
time-out, internal error). Environment: VERIF_SEED (default 1), VERIF_TIER=quick|thorough."""
import hashlib, json, os, re, signal, subprocess, sys, threading, time, traceback

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
TARGET = os.path.join(VERIF, "target")
sys.path.insert(0, os.path.join(VERIF, "tools"))
os.umask(0o022)

T0 = time.time()
ENV = dict(os.environ)
for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "RUSTDOCFLAGS", "CARGO_TARGET_DIR", "CARGO_BUILD_TARGET", "RUSTC_WRAPPER", "CARGO_BUILD_RUSTFLAGS"):
    ENV.pop(k, None)
ENV.update(HOME="/root", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", RUST_BACKTRACE="0", CARGO_INCREMENTAL="0",
           PATH="/root/.cargo/bin:" + ENV.get("PATH", "/usr/local/bin:/usr/bin:/bin"))
ENV.setdefault("RUSTUP_TOOLCHAIN", "stable-x86_64-unknown-linux-gnu")


class NoAnswer(Exception):
    pass


def log(*a):
    print("[%6.1fs]" % (time.time() - T0), *a, file=sys.stderr, flush=True)


def tree_hash():
    h = hashlib.sha256()
    for base, sub in ((REPO, "src"), (VERIF, "kit"), (VERIF, "harness")):
        for d, ds, fs in os.walk(os.path.join(base, sub)):
            ds[:] = sorted(x for x in ds if x != "target")
            for f in sorted(fs):
                p = os.path.join(d, f)
                h.update(p.encode() + b"\0")
                h.update(open(p, "rb").read())
    h.update(open(os.path.join(REPO, "Cargo.toml"), "rb").read())
    return h.hexdigest()


class Config:
    """One way of building the harness."""

    def __init__(self, name, profile, features=None, default=True, toolchain=None, rustflags=None, extra=()):
        self.name, self.profile, self.features, self.default = name, profile, features, default
        self.toolchain, self.rustflags, self.extra = toolchain, rustflags, list(extra)

    def dir(self):
        return os.path.join(TARGET, self.name)

    def env(self):
        e = dict(ENV, CARGO_TARGET_DIR=self.dir())
        if self.toolchain:
            e["RUSTUP_TOOLCHAIN"] = self.toolchain
        if self.rustflags:
            e["RUSTFLAGS"] = self.rustflags
        if self.profile == "miri":
            # tree borrows is the laxer of the two aliasing models; leaks are judged by the harness, which knows when they are allowed
            e["MIRIFLAGS"] = "-Zmiri-disable-isolation -Zmiri-tree-borrows -Zmiri-ignore-leaks"
        return e

    def cmd(self, b):
        """How to start a harness binary."""
        if self.profile == "miri":
            return ["cargo", "miri", "run", "--offline", "--locked", "--quiet", "--manifest-path", os.path.join(VERIF, "harness", "Cargo.toml"), "--bin", b, "--"]
        return [self.exe(b)]

    def freshen(self):
        """cargo trusts modification times, which copies do not keep: compare contents instead."""
        stamp = os.path.join(self.dir(), "stamp")
        now = tree_hash()
        old = open(stamp).read() if os.path.exists(stamp) else None
        if old != now and os.path.isdir(self.dir()):
            import glob, shutil
            for pat in ("rowcol", "harness", "kit"):
                for p in glob.glob(os.path.join(self.dir(), "**", ".fingerprint", pat + "-*"), recursive=True):
                    shutil.rmtree(p, ignore_errors=True)
        os.makedirs(self.dir(), exist_ok=True)
        if old != now:
            if os.path.exists(stamp):
                os.remove(stamp)
        return stamp, now

    def build(self, bins, extra_features=()):
        stamp, now = self.freshen()
        if self.profile == "miri":
            # Miri interprets: listing the units compiles everything it needs
            for b in bins:
                p = subprocess.run(self.cmd(b) + ["list"], cwd=os.path.join(VERIF, "harness"), env=self.env(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=850)
                if p.returncode != 0:
                    return p.stderr[-4000:]
            with open(stamp, "w") as f:
                f.write(now)
            return None
        cmd = ["cargo", "build", "--offline", "--locked", "--profile", self.profile, "--quiet"]
        for b in bins:
            cmd += ["--bin", b]
        cmd += self.extra
        if not self.default:
            cmd.append("--no-default-features")
        fs = list(self.features or []) + list(extra_features)
        if fs:
            cmd += ["--features", ",".join(fs)]
        p = subprocess.run(cmd, cwd=os.path.join(VERIF, "harness"), env=self.env(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=850)
        if p.returncode != 0:
            errs = "\n".join(b for b in re.split(r"\n(?=error|warning)", p.stderr) if b.startswith("error"))
            return errs or p.stderr[-4000:]
        with open(stamp, "w") as f:
            f.write(now)
        return None

    def exe(self, b):
        sub = {"dev": "debug"}.get(self.profile, self.profile)
        if "--target" in self.extra:
            return os.path.join(self.dir(), self.extra[self.extra.index("--target") + 1], sub, b)
        return os.path.join(self.dir(), sub, b)


NIGHTLY = "nightly-x86_64-unknown-linux-gnu"
CONFIGS = {c.name: c for c in [
    Config("dbg", "dbg"),
    Config("rel", "rel"),
    Config("opt", "opt"),
    Config("miri", "miri", toolchain=NIGHTLY),
    Config("asan", "dbg", toolchain=NIGHTLY, rustflags="-Zsanitizer=address", extra=["--target", "x86_64-unknown-linux-gnu"]),
]}
for p in ("dbg", "opt"):
    for fs in ("", "std", "unicode_width", "use_needs_drop", "std,use_needs_drop", "std,unicode_width,use_needs_drop", "std,unicode_width", "unicode_width,use_needs_drop"):
        n = "%s-[%s]" % (p, fs.replace(",", "+") or "none")
        CONFIGS[n] = Config(n, p, features=fs.split(",") if fs else None, default=False)


class Run:
    """State of one check: collected statistics and violations."""

    def __init__(self, prop):
        self.prop = prop
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.thorough = self.tier == "thorough"
        self.seed = int(os.environ.get("VERIF_SEED") or 1)
        self.ev = dict(evaluations=0, nontrivial=0, distinct_nontrivial=0, units=0, labels={}, samples=[], runs=[])
        self.violations = []
        self.rule = None
        self.lock = threading.Lock()
        self.work = os.path.join(VERIF, "work", prop)
        os.makedirs(self.work, exist_ok=True)

    def violate(self, replay, message):
        with self.lock:
            name = hashlib.sha256(json.dumps(replay, sort_keys=True).encode()).hexdigest()[:10]
            d = os.path.join(VERIF, "replays")
            os.makedirs(d, exist_ok=True)
            path = os.path.join(d, "%s-%s.json" % (self.prop, name))
            replay = dict(property=self.prop, message=message, **replay)
            with open(path, "w") as f:
                json.dump(replay, f, indent=1, ensure_ascii=True)
            self.violations.append((path, message, replay))

    def add(self, name, out, seconds=None):
        with self.lock:
            e = self.ev
            for k in ("evaluations", "nontrivial", "distinct_nontrivial", "units"):
                e[k] += out.get(k, 0)
            for k, v in out.get("labels", {}).items():
                e["labels"][k] = e["labels"].get(k, 0) + v
            if len(e["samples"]) < 12:
                e["samples"] += ["%s: %s" % (name, s) for s in out.get("samples", [])[:4]]
            e["runs"].append(dict(config=name, evaluations=out.get("evaluations", 0), distinct_nontrivial=out.get("distinct_nontrivial", 0),
                                  units=out.get("units", 0), wall_s=out.get("wall_s", seconds)))


def limits(cfg, case=False):
    return None if cfg.name in ("asan", "miri") else limit_case if case else limit_memory


def bad(q):
    """The process died rather than reporting: by a signal, an abort or a detector."""
    return q.returncode not in (0, 1) or b"AddressSanitizer" in q.stderr or b"Undefined Behavior" in q.stderr


def run_bin(run, cfg, b, scale, threads=8, timeout=600, extra=(), filter=None, salt=""):
    """Run one harness binary in one configuration and collect what it reports."""
    name = cfg.name + "/" + b + (("/" + salt) if salt else "")
    safe = re.sub(r"[^A-Za-z0-9_.+-]", "_", name)
    outp = os.path.join(run.work, safe + ".json")
    slots = os.path.join(run.work, safe + ".slots")
    for p in (outp, slots):
        if os.path.exists(p):
            os.remove(p)
    seed = int(hashlib.sha256(("%d %s" % (run.seed, name)).encode()).hexdigest()[:15], 16)
    cmd = cfg.cmd(b) + ["run", "--seed", str(seed), "--scale", repr(scale), "--threads", str(threads), "--out", outp, "--slots", slots] + list(extra)
    if filter:
        cmd += ["--filter", filter]
    e = cfg.env()
    try:
        p = subprocess.run(cmd, env=e, cwd=run.work, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout,
                           preexec_fn=limits(cfg))
    except subprocess.TimeoutExpired:
        raise NoAnswer("%s did not finish within %d s (cases being run: %s)" % (name, timeout, read_slots(slots)))
    if p.returncode in (0, 1) and os.path.exists(outp):
        out = json.load(open(outp))
        run.add(name, out)
        for f in out["failures"]:
            run.violate(dict(config=cfg.name, bin=b, unit=f["unit"], tape=f["tape"], seed=seed, index=f["index"]), f["message"])
        return out
    if p.returncode == 4 and hung(run, cfg, b, name, seed, slots, e):
        return
    if p.returncode >= 0:
        if p.returncode != 134 and b"AddressSanitizer" not in p.stderr and b"Undefined Behavior" not in p.stderr:
            raise NoAnswer("%s ended with exit code %d: %s" % (name, p.returncode, p.stderr.decode(errors="replace")[-2000:]))
    if p.returncode == -signal.SIGKILL:
        raise NoAnswer("%s was killed" % name)
    crashed(run, cfg, b, name, seed, slots, p, threads, scale, e)


def limit_memory():
    """A run-away allocation must end the case, not the sandbox."""
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))


def limit_case():
    """The same for a single case."""
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))


def hung(run, cfg, b, name, seed, slots, env):
    """A case ran for more than a minute (they take milliseconds): confirm that on its own it does not end either."""
    base = cfg.cmd(b)
    units = [l.split("\t")[0] for l in subprocess.run(base + ["list"], env=env, stdout=subprocess.PIPE, text=True, timeout=60).stdout.splitlines()]
    for u, i in read_slots(slots)[:8]:
        dump = slots + ".dump"
        q = None
        try:
            q = subprocess.run(base + ["case", "--unit", units[u], "--index", str(i), "--seed", str(seed), "--dump", dump], env=env, cwd=run.work,
                               stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60, preexec_fn=limits(cfg, True))
        except subprocess.TimeoutExpired:
            pass
        if q is None or q.returncode:
            tape = [int(x) for x in open(dump).read().split()][:5000]
            run.add(name, dict(evaluations=1, nontrivial=1, distinct_nontrivial=1, units=1, samples=["%s tape %s" % (units[u], tape[:50])]))
            run.violate(dict(config=cfg.name, bin=b, unit=units[u], tape=tape, seed=seed, index=i, hang=q is None),
                        "the case does not end (60 s)" if q is None else "the case fails: %s" % how(q))
            return True
    return False


def read_slots(slots, threads=0):
    """The cases being run, after those that had failed if the number of slots is given."""
    r = []
    if os.path.exists(slots):
        d = open(slots, "rb").read()
        for i in list(range(24 * threads, len(d) - 23, 24)) + list(range(0, min(24 * threads, len(d) - 23), 24)):
            u = int.from_bytes(d[i:i + 8], "little")
            if u:
                r.append((u - 1, int.from_bytes(d[i + 8:i + 16], "little")))
    return r


def how(p):
    err = p.stderr if isinstance(p.stderr, str) else p.stderr.decode(errors="replace")
    m = re.search(r"ERROR: AddressSanitizer: ([^\n]*)", err)
    if m:
        return "AddressSanitizer: " + m.group(1)[:200]
    m = re.search(r"Undefined Behavior: ([^\n]*)", err)
    if m:
        at = re.search(r"-->\s*(\S+)", err[m.end():])
        return "Miri: undefined behaviour: %s%s" % (m.group(1)[:300], " at " + at.group(1) if at else "")
    if p.returncode < 0:
        return "killed by signal %d %s" % (-p.returncode, err.strip()[-300:])
    return "exit code %d %s" % (p.returncode, err.strip()[-300:])


def crashed(run, cfg, b, name, seed, slots, p, threads, scale, env):
    """The process died: find the case, shrink its tape in child processes."""
    base = cfg.cmd(b)
    log("%s died (%s), looking for the case" % (name, how(p)))
    units = [l.split("\t")[0] for l in subprocess.run(base + ["list"], env=env, stdout=subprocess.PIPE, text=True, timeout=60).stdout.splitlines()]
    tapef = slots + ".tape"

    def dies(cmd, whole=False):
        try:
            q = subprocess.run(base + cmd, env=env, cwd=run.work, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=200 if whole else 60,
                               preexec_fn=limits(cfg, not whole))
        except subprocess.TimeoutExpired:
            # cases take milliseconds (seconds under Miri)
            return None if whole else "the case does not end (60 s)"
        if bad(q):
            return "the process died: " + how(q)
        m = re.search(rb"^FAILS: (.*)", q.stdout, re.M | re.S) if q.returncode else None
        return m.group(1).decode(errors="replace").strip()[:1500] if m else None

    for u, i in read_slots(slots, threads)[:40]:
        dump = slots + ".dump"
        q = dies(["case", "--unit", units[u], "--index", str(i), "--seed", str(seed), "--dump", dump])
        if not q:
            continue
        tape = [int(x) for x in open(dump).read().split()]
        best = tape
        end = time.time() + 30

        def fails(t):
            open(tapef, "w").write(" ".join(map(str, t)))
            return dies(["replay", "--unit", units[u], "--tape", tapef]) is not None

        if fails(tape):
            size = max(1, len(best) // 2)
            while size >= 1 and time.time() < end:
                k = 0
                while k < len(best) and time.time() < end:
                    for cand in (best[:k] + best[k + size:], best[:k] + [0] * len(best[k:k + size]) + best[k + size:]):
                        if cand != best and fails(cand):
                            best = cand
                            break
                    else:
                        k += size
                size //= 2
        run.add(name, dict(evaluations=1, nontrivial=1, distinct_nontrivial=1, units=1, samples=["%s tape %s" % (units[u], best[:50])]))
        run.violate(dict(config=cfg.name, bin=b, unit=units[u], tape=best, seed=seed, index=i, crash=True), q)
        return
    # not reproducible on its own: does the whole run die again?
    outp = slots + ".json"
    q = dies(["run", "--seed", str(seed), "--scale", repr(scale), "--threads", "1", "--out", outp], True)
    if not q and os.path.exists(outp):
        q = "; ".join(f["message"] for f in json.load(open(outp))["failures"][:1])
    if q:
        run.violate(dict(config=cfg.name, bin=b, seed=seed, scale=scale, whole_run=True, crash=True), q)
        return
    raise NoAnswer("%s died once (%s) and not again" % (name, how(p)))


def build_all(run, jobs, allow_fail=False):
    """jobs: [(Config, [bins], [features])] built side by side."""
    res = {}

    def one(j):
        try:
            res[j[0].name] = j[0].build(j[1], j[2] if len(j) > 2 else ())
        except Exception as ex:
            res[j[0].name] = "build did not run: %s" % ex

    ts = [threading.Thread(target=one, args=(j,)) for j in jobs]
    for t in ts: t.start()
    for t in ts: t.join()
    if not allow_fail:
        for n, e in res.items():
            if e:
                raise NoAnswer("build of configuration %s failed:\n%s" % (n, e[:6000]))
    log("built", ", ".join(c[0].name for c in jobs))
    return res


def standard(run, bins, quick, thorough, configs=("dbg", "rel"), features=(), threads=8, timeout=780):
    """The usual check: the same binaries in several configurations. `quick`/`thorough` scale the number of cases."""
    cfgs = [CONFIGS[c] for c in configs]
    build_all(run, [(c, bins, features) for c in cfgs])
    for c in cfgs:
        if run.violations:
            return
        for b in bins:
            run_bin(run, c, b, thorough if run.thorough else quick, threads=threads, timeout=20000 if run.thorough else timeout)


def side_by_side(run, cfg, b, scale, processes=8, timeout=600):
    """The same binary in several processes with different seeds, one thread each (Miri runs on one core)."""
    errors = []

    def one(i):
        try:
            run_bin(run, cfg, b, scale, threads=1, timeout=timeout, salt=str(i))
        except NoAnswer as ex:
            errors.append(ex)

    ts = [threading.Thread(target=one, args=(i,)) for i in range(processes)]
    for t in ts: t.start()
    for t in ts: t.join()
    if errors and not run.violations:
        raise errors[0]


def known_findings(prop):
    """Lines 'finding: property=<id> signature=<regex over unit and message> :: <description>'."""
    r = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) signature=(.*?) :: (.*)", l)
            if m and m.group(1) == prop:
                r.append((m.group(2), m.group(3).strip()))
    return r


def replay(path):
    r = json.load(open(path))
    if r.get("program") or r.get("source"):
        import programs
        return programs.replay(sys.modules[__name__], r)
    if r.get("transcript"):
        import props
        return props.replay_transcript(sys.modules[__name__], r)
    cfg = CONFIGS[r["config"]]
    e = cfg.build([r["bin"]])
    if e:
        raise NoAnswer(e)
    if r.get("whole_run"):
        p = subprocess.run(cfg.cmd(r["bin"]) + ["run", "--seed", str(r["seed"]), "--scale", repr(r["scale"]), "--threads", "1"], env=cfg.env())
    else:
        os.makedirs(os.path.join(VERIF, "work"), exist_ok=True)
        t = os.path.join(VERIF, "work", "replay.tape")
        open(t, "w").write(" ".join(map(str, r["tape"])))
        try:
            p = subprocess.run(cfg.cmd(r["bin"]) + ["replay", "--unit", r["unit"], "--tape", t], env=cfg.env(), timeout=120)
        except subprocess.TimeoutExpired:
            print("the case does not end")
            return 1
    return 1 if p.returncode else 0


def main():
    if len(sys.argv) < 2:
        print(__doc__)
        return 2
    prop = sys.argv[1]
    try:
        if "--replay" in sys.argv:
            rc = replay(sys.argv[sys.argv.index("--replay") + 1])
            print("REPLAY property=%s %s" % (prop, "fails" if rc else "holds"))
            return rc
        import props
        run = Run(prop)
        try:
            props.CHECKS[prop](sys.modules[__name__], run)
        except NoAnswer as ex:
            # what was found before counts
            if not run.violations:
                raise
            log("stopped: %s" % ex)
        listed = known_findings(prop)
        reported = []
        for sig, desc in listed:
            print("KNOWN-FINDING: property=%s %s" % (prop, desc))
        for path, message, rep in run.violations:
            text = "%s %s" % (rep.get("unit", ""), message)
            if any(re.fullmatch(sig, text, re.S) for sig, _ in listed):
                continue
            reported.append((path, message, rep))
        e = run.ev
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        cov = dict(evaluations=e["evaluations"], distinct_nontrivial=e["distinct_nontrivial"], nontrivial=e["nontrivial"],
                   rule=props.RULES[prop], samples=e["samples"] or ["none"], classes=e["labels"], runs=e["runs"])
        ev = dict(property=prop, tier=run.tier, seed=run.seed, level="exploration", coverage=cov,
                  assumptions=props.ASSUMPTIONS, wall_s=round(time.time() - T0, 1), violations=len(reported))
        with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for path, message, rep in reported:
            print("%s [%s] %s" % (rep.get("config", ""), rep.get("unit", ""), message[:1500]))
            print("VIOLATION property=%s replay=%s" % (prop, path))
        print("%s %s: %d cases, %d distinct non-trivial, %d violation(s), %.1f s" % (prop, run.tier, e["evaluations"], e["distinct_nontrivial"], len(reported), time.time() - T0))
        return 1 if reported else 0
    except NoAnswer as ex:
        print("NO ANSWER property=%s: %s" % (prop, ex))
        return 2
    except Exception:
        traceback.print_exc()
        return 2


if __name__ == "__main__":
    sys.exit(main())
