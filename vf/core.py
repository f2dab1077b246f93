"""Machinery shared by all checks.

A check runs the Quint specification (simulator, and for state machines the model checker),
replays the generated behaviours into the real pyBSM package and/or records executions of the
package and has the specification judge them.  pyBSM is imported from a scratch copy of
/repo/src, made afresh by every run, so that synthetic atmosphere files can be placed beside it.
"""
import atexit
import hashlib
import json
import math
import os
import re
import shutil
import signal
import socket
import subprocess
import sys
import tempfile
import time
import traceback
import zlib
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
ONE = 10**60


class MachineryError(Exception):
    """The framework itself failed: neither a pass nor a violation."""


class Ctx:
    def __init__(self, prop, level):
        self.prop = prop
        self.level = level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.t0 = time.time()
        self.violations = []      # (key, message, replay payload)
        self.known = load_known(prop)
        self.known_hit = {}
        self.cov = {"samples": []}
        self.assumptions = []
        self.n_eval = 0
        self.seen = set()
        self.rules = []
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.scratch = tempfile.mkdtemp(prefix="vf_%s_" % prop)
        atexit.register(shutil.rmtree, self.scratch, ignore_errors=True)

    @property
    def thorough(self):
        return self.tier == "thorough"

    def size(self, quick, thorough):
        return thorough if self.thorough else quick

    # ------------------------------------------------------------ reporting
    def violate(self, key, message, payload=None):
        if key in self.known:
            self.known_hit.setdefault(key, message)
            return
        self.violations.append((key, message, payload))

    def count(self, ident, n=1):
        """One evaluated case; `ident` identifies it (distinctness)."""
        self.n_eval += n
        self.seen.add(hashlib.sha1(repr(ident).encode()).hexdigest())

    def sample(self, obj):
        if len(self.cov["samples"]) < 3:
            self.cov["samples"].append(obj)

    def finish(self):
        if self.level == "model_checking":
            self.cov.setdefault("states", self.states)
            self.cov.setdefault("transitions", self.transitions)
            self.cov.setdefault("traces_validated_against_impl", self.traces)
            self.cov["evaluations"] = self.n_eval
        else:
            self.cov.setdefault("evaluations", self.n_eval)
            self.cov.setdefault("distinct_nontrivial", len(self.seen))
        if self.rules:
            self.cov["rule"] = " ".join(self.rules)
        if not self.cov["samples"]:
            self.cov["samples"] = ["no case was produced"]
        ev = {"property": self.prop, "tier": "thorough" if self.thorough else "quick", "seed": self.seed,
              "level": self.level, "coverage": self.cov, "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as fh:
            json.dump(ev, fh, indent=1, default=str)
        for key, message in sorted(self.known_hit.items()):
            print("KNOWN-FINDING: property=%s %s" % (self.prop, self.known[key]))
        if self.violations:
            os.makedirs(os.path.join(VERIF, "out"), exist_ok=True)
            path = os.path.join(VERIF, "out", "replay_%s.json" % self.prop)
            with open(path, "w") as fh:
                json.dump([{"key": k, "message": m, "case": p} for k, m, p in self.violations[:20]], fh,
                          indent=1, default=str)
            for k, m, _ in self.violations[:5]:
                print("  violated clause %s: %s" % (k, m))
            if len(self.violations) > 5:
                print("  ... %d violations in all" % len(self.violations))
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
            return 1
        print("OK property=%s evaluations=%d distinct=%d states=%d wall=%.1fs" % (
            self.prop, self.n_eval, len(self.seen), self.states, time.time() - self.t0))
        return 0


def load_known(prop):
    """known-findings.txt: `known: property=<id> key=<clause/input> <what fails>` suppresses exactly
    that key; `fixed:` lines are a record and suppress nothing."""
    out = {}
    path = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line)
            if m and m.group(1) == prop:
                out[m.group(2)] = m.group(3)
    return out


# ---------------------------------------------------------------- package
def copy_package(dest, block_cv2=False):
    """Scratch copy of the package from the current tree, without the (LFS stub) data files."""
    src = os.path.join(REPO, "src", "pybsm")
    shutil.copytree(src, os.path.join(dest, "pybsm"),
                    ignore=lambda d, names: [n for n in names if n.endswith(".bin") or n == "__pycache__"])
    os.makedirs(os.path.join(dest, "pybsm", "atms"), exist_ok=True)
    return dest


def load_package(ctx):
    """Import pyBSM from a scratch copy; returns the directory for atmosphere files."""
    dest = os.path.join(ctx.scratch, "pkg")
    copy_package(dest)
    sys.dont_write_bytecode = True
    os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
    for v in ("OPENBLAS_NUM_THREADS", "OMP_NUM_THREADS", "MKL_NUM_THREADS"):
        os.environ.setdefault(v, "1")
    os.environ["MPLBACKEND"] = "Agg"
    os.environ["MPLCONFIGDIR"] = os.path.join(ctx.scratch, "mpl")
    sys.path.insert(0, dest)
    warnings.simplefilter("ignore")
    try:
        import pybsm  # noqa: F401
        import pybsm.otf, pybsm.radiance, pybsm.simulation, pybsm.metrics  # noqa: F401,E401
    except Exception as ex:  # the package does not even import
        ctx.violate("import", "package import failed: %r" % ex, traceback.format_exc())
        sys.exit(ctx.finish())
    warnings.simplefilter("ignore")
    assert os.path.abspath(pybsm.__file__).startswith(dest), pybsm.__file__
    return os.path.join(dest, "pybsm", "atms")


# ------------------------------------------------------------------- quint
def decode(v):
    """ITF value to Python."""
    if isinstance(v, dict):
        if "#bigint" in v:
            return int(v["#bigint"])
        if "#map" in v:
            return {freeze(decode(k)): decode(x) for k, x in v["#map"]}
        if "#set" in v:
            return [decode(x) for x in v["#set"]]
        if "#tup" in v:
            return tuple(decode(x) for x in v["#tup"])
        return {k: decode(x) for k, x in v.items() if k != "#meta"}
    if isinstance(v, list):
        return [decode(x) for x in v]
    return v


def freeze(v):
    return tuple(v) if isinstance(v, list) else v


def quint_run(ctx, spec, step="step", init="init", steps=50, traces=1, procs=1, invariants=(), seed_salt=0,
              main=None, mbt=False, timeout=600, specdir=SPEC):
    """Simulate `spec`; returns the decoded traces (lists of states).  A violated invariant means the
    specification contradicts itself: a machinery error, independent of the code under test."""
    jobs = []
    for p in range(procs):
        out = os.path.join(ctx.scratch, "itf_%s_%s_%d_%d" % (os.path.basename(spec), step, seed_salt, p))
        os.makedirs(out, exist_ok=True)
        seed = int(hashlib.sha256(("%d/%s/%s/%d/%d" % (ctx.seed, spec, step, seed_salt, p)).encode()).hexdigest()[:12], 16)
        cmd = ["quint", "run", spec, "--init", init, "--step", step, "--max-samples", str(traces), "--n-traces",
               str(traces), "--max-steps", str(steps), "--seed", str(seed), "--verbosity", "1",
               "--out-itf", os.path.join(out, "t_{seq}.itf.json")]
        if invariants:
            cmd += ["--invariants"] + list(invariants)
        if main:
            cmd += ["--main", main]
        if mbt:
            cmd += ["--mbt"]
        log = open(os.path.join(out, "log"), "w")
        jobs.append((subprocess.Popen(cmd, cwd=specdir, stdout=log, stderr=subprocess.STDOUT), out, cmd))
    result = []
    for proc, out, cmd in jobs:
        try:
            rc = proc.wait(timeout=timeout)
        except subprocess.TimeoutExpired:
            proc.kill()
            raise MachineryError("quint timed out: %s" % " ".join(cmd))
        text = open(os.path.join(out, "log")).read()
        if rc != 0 or "[ok]" not in text:
            raise MachineryError("quint failed (rc %s): %s\n%s" % (rc, " ".join(cmd), text[-3000:]))
        files = sorted(f for f in os.listdir(out) if f.startswith("t_"))
        for f in files:
            with open(os.path.join(out, f)) as fh:
                data = json.load(fh)
            # variables of instantiated modules carry the instance's path
            result.append([{k.split("::")[-1]: v for k, v in decode(s).items()} for s in data["states"]])
        shutil.rmtree(out, ignore_errors=True)
    return result


def quint_check(ctx, spec, invariant, backend="tlc", main=None, init="init", step="step", timeout=600, extra=()):
    """Model-check an invariant of a state machine.  Returns (states generated, distinct states)."""
    work = tempfile.mkdtemp(dir=ctx.scratch)
    cmd = ["quint", "verify", "--invariant", invariant, "--init", init, "--step", step]
    if backend == "tlc":
        cmd += ["--backend", "tlc"]
    if main:
        cmd += ["--main", main]
    # each check its own Apalache server, so that checks can run side by side
    with socket.socket() as sock:
        sock.bind(("localhost", 0))
        port = sock.getsockname()[1]
    cmd += ["--server-endpoint", "localhost:%d" % port] + list(extra)
    for f in os.listdir(SPEC):
        if f.endswith(".qnt"):
            shutil.copy(os.path.join(SPEC, f), work)
    cmd.append(spec)
    try:
        p = subprocess.run(cmd, cwd=work, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise MachineryError("quint verify timed out: " + " ".join(cmd))
    if p.returncode != 0 or ("[ok]" not in p.stdout and "No violation" not in p.stdout):
        raise MachineryError("quint verify failed: %s\n%s" % (" ".join(cmd), p.stdout[-3000:]))
    shutil.rmtree(work, ignore_errors=True)
    gen = re.findall(r"(\d[\d,]*) states generated", p.stdout)
    dist = re.findall(r"(\d[\d,]*) distinct states found", p.stdout)
    num = lambda xs: int(xs[-1].replace(",", "")) if xs else 0  # noqa: E731
    return num(gen), num(dist)


def cases(ctx, spec, step, n, invariants=(), procs=None, salt=0):
    """n states `c` of a generator machine, in `procs` independent simulations."""
    procs = procs or (8 if ctx.thorough else 3)
    per = -(-n // procs)
    out = []
    for tr in quint_run(ctx, spec, step=step, steps=per, procs=procs, invariants=invariants, seed_salt=salt,
                        timeout=800 if not ctx.thorough else 7200):
        out += [s["c"] for s in tr if s["c"]["op"] != "none"]
    if len(out) < n // 2:
        raise MachineryError("generator %s/%s produced only %d cases" % (spec, step, len(out)))
    return out


# -------------------------------------------------------------- conversion
def fl(x):
    """Fixed-point integer to the nearest double."""
    return x / ONE      # Python's int/int division is correctly rounded


def arr(xs):
    import numpy as np
    return np.array([x / ONE for x in xs], dtype=float)


def laid_out(x, h):
    """The array x: most of the time contiguous; else a view with gaps, transposed or reversed."""
    import numpy as np
    kind = h // 7 % 8
    if x.size < 2 or kind > 3:
        return x.copy()
    if kind == 0 and x.ndim > 1:
        return np.asfortranarray(x)
    if kind == 1:
        return x[(slice(None, None, -1),) * x.ndim].copy()[(slice(None, None, -1),) * x.ndim]
    big = np.full(tuple(2 * n + 1 for n in x.shape), 77, dtype=x.dtype)
    view = big[(slice(1, None, 2),) * x.ndim]
    view[...] = x
    return view


class F:
    """Real arguments of a case as doubles.  `cells`, if given, holds the caller's arrays: the same array
    objects are handed out again, with the current values written into them."""
    def __init__(self, case, cells=None):
        self.f = case["f"]
        self.k = case["k"]
        self.cells = cells
        self.handed = []        # (name, array, what it held)
        self.n = {}
        self.mark = None

    def s(self, name):
        """A real argument: a float, a numpy double, or an integer where the value is one."""
        v = self.f[name][0]
        # recurring values come in different types
        if self.mark is None:
            self.mark = zlib.crc32(repr(sorted((n, x) for n, x in self.f.items() if len(x) < 9)).encode())
        h = zlib.crc32(repr((name, v, self.mark)).encode())
        if v % ONE == 0 and abs(v) < 10 ** 9 * ONE and h % 2:
            return v // ONE
        if h % 5 == 0:
            import numpy as np
            return np.float64(fl(v))
        return fl(v)

    def ints(self, name, *shape):
        """An array argument, in the narrowest integer type where all its values are integers."""
        import numpy as np
        v = self.f[name]
        if all(x % ONE == 0 for x in v) and max(abs(x) for x in v) <= 30000 * ONE and zlib.crc32(repr(v).encode()) % 4:
            w = np.array([x // ONE for x in v], dtype=np.int64)
            t = np.uint8 if w.min() >= 0 and w.max() < 256 else np.int8 if w.min() >= -128 and w.max() < 128 else np.int16
            w = w.astype(t).reshape(shape if len(shape) == 2 else shape + (-1,))
            w = laid_out(w, zlib.crc32(repr(v).encode()))
            self.handed.append((name, w, w.copy()))
            return w
        return self.m(name, *shape) if shape else self.a(name)

    WHOLE = {"v", "qe", "optics_transmission", "L", "other", "target_radiance", "background_radiance", "y", "t", "h", "z", "u"}

    def a(self, name):
        v = self.f[name]
        if name in self.WHOLE and self.cells is None and len(v) and all(x % ONE == 0 and abs(x) < 10 ** 9 * ONE for x in v) \
                and zlib.crc32(repr((name, v)).encode()) % 2:
            import numpy as np      # whole numbers: an array of integers
            w = np.array([x // ONE for x in v], dtype=np.int64)
            self.handed.append((name, w, w.copy()))
            return w
        return self.give(name, arr(v))

    def m(self, name, rows, cols=-1):
        """An array argument as a matrix."""
        return self.give(name, arr(self.f[name]).reshape(rows, cols))

    def give(self, name, x):
        """The caller's array with the values x: one the caller used before, or a new one in some layout."""
        i = self.n[name] = self.n.get(name, -1) + 1
        old = self.cells.get((name, i)) if self.cells is not None else None
        if old is not None and old.shape == x.shape:
            old[...] = x
        else:
            old = laid_out(x, zlib.crc32(repr((name, self.f[name])).encode()))
            if self.cells is not None:
                self.cells[name, i] = old
        self.handed.append((name, old, x))
        return old

    def i(self, name):
        return self.k[name]

    def has(self, name):
        return name in self.f


class Mismatch(Exception):
    def __init__(self, clause, message):
        super().__init__(message)
        self.clause = clause


HELD = None       # the results themselves, and what they held when returned
RECORD = None     # instead of comparing: the results themselves, in order


def compare(name, got, want, rtol=1e-8, atol=None, vscale=1e-12):
    """Element-wise comparison of an implementation result with the specification's (fixed point)."""
    import numpy as np
    if HELD is not None and isinstance(got, np.ndarray):
        HELD.append((name, got, got.copy()))
    if RECORD is not None:
        RECORD.append((name, np.array(got)))
        return
    try:
        g = np.asarray(got)
        if g.dtype == object or g.dtype.kind in "US":
            raise TypeError(g.dtype)
        if g.dtype.kind == "c":
            raise TypeError("complex")
        g = g.astype(float).ravel()
    except (TypeError, ValueError) as ex:
        raise Mismatch(name, "%s is not numeric: %r (%s)" % (name, got, ex))
    w = np.array([x / ONE for x in want], dtype=float)
    if g.shape != w.shape:
        raise Mismatch(name, "%s has %d values, expected %d" % (name, g.size, w.size))
    if w.size == 0:
        return
    a = (vscale * float(np.max(np.abs(w))) + 1e-25) if atol is None else atol
    bad = ~(np.abs(g - w) <= rtol * np.abs(w) + a)
    if bad.any():
        j = int(np.argmax(bad))
        raise Mismatch(name, "%s[%d] = %r, specification says %r" % (name, j, float(g[j]), float(w[j])))


class _Alarm(Exception):
    pass


def _on_alarm(signum, frame):
    raise _Alarm()


def neighbour(case, i):
    """The case with one of its real arguments changed: all of it or one element scaled, or two elements
    exchanged.  What it should give is not known."""
    names = sorted(n for n, v in case["f"].items() if any(v))
    if not names:
        return None
    h = int(hashlib.sha1(repr((i, case["op"], sorted(case["f"].items()))).encode()).hexdigest(), 16)
    if h % 4 == 0:
        # the same values in an array of transposed shape
        if "kernel_rows" in case["k"] and len(case["f"]["filter_kernel"]) > 1:
            return dict(case, k=dict(case["k"], kernel_rows=len(case["f"]["filter_kernel"]) // case["k"]["kernel_rows"]))
        if "rows" in case["k"] and "cols" in case["k"]:
            return dict(case, k=dict(case["k"], rows=case["k"]["cols"], cols=case["k"]["rows"]))
    h //= 4
    name = names[h % len(names)]
    v = list(case["f"][name])
    h //= 1000003
    kind = h % 3 if len(v) > 1 else 0
    h //= 3
    j = h % len(v)
    up = (5, 4) if h // 64 % 2 else (4, 5)
    if kind == 0:
        v = [x * up[0] // up[1] for x in v]
    elif kind == 1:
        v[j] = v[j] * up[0] // up[1]
    else:
        k = (j + 1) % len(v)
        v[j], v[k] = v[k], v[j]
    return dict(case, f=dict(case["f"], **{name: v}))


def decoy_call(case, drv, spent, limit, nth):
    """A call with another argument before the one that counts: it must not matter.  At most as much time
    as the calls that count.  Returns the caller's arrays, which the real call uses again."""
    import numpy as np
    global RECORD
    cells = {}
    other = neighbour(case, nth)
    if other is None or spent[1] > 0.9 * spent[0] + 0.5:
        return cells
    t = time.time()
    signal.alarm(limit)
    RECORD = []
    try:
        with np.errstate(all="ignore"):
            drv(F(other, cells), other)
    except (Exception, _Alarm):
        pass
    finally:
        signal.alarm(0)
        RECORD = None
        spent[1] += time.time() - t
    return cells


def replay(ctx, case_list, drivers, limit=60, decoy=True):
    """Replay generated cases into the implementation.  drivers[op](F, case) performs the call and
    raises Mismatch where the result differs from the specification.  With `decoy`, calls with slightly
    different arguments come between."""
    import numpy as np
    signal.signal(signal.SIGALRM, _on_alarm)
    spent = [0.0, 0.0]
    for nth, case in enumerate(case_list):
        drv = drivers.get(case["op"])
        if drv is None:
            raise MachineryError("no driver for " + case["op"])
        cells = decoy_call(case, drv, spent, limit, nth) if decoy and nth % 4 else None
        t = time.time()
        ctx.count((case["op"], sorted(case["k"].items()), sorted((k, tuple(v)) for k, v in case["f"].items())))
        signal.alarm(limit)
        try:
            with np.errstate(all="ignore"):
                drv(F(case, cells), case)
        except Mismatch as ex:
            ctx.violate(case["op"] + "." + ex.clause, str(ex), brief(case))
        except _Alarm:
            ctx.violate(case["op"] + ".hang", "call did not return within %d s" % limit, brief(case))
        except MachineryError:
            raise
        except Exception as ex:
            tb = traceback.extract_tb(ex.__traceback__)
            if not any("pybsm" in fr.filename and "/vf_" in fr.filename for fr in tb) and not _from_call(tb):
                raise
            ctx.violate(case["op"] + ".raised", "raised %s: %s" % (type(ex).__name__, ex), brief(case))
        finally:
            signal.alarm(0)
            spent[0] += time.time() - t
    if case_list:
        ctx.sample(brief(case_list[0]))
        ctx.sample(brief(case_list[-1]))


def _limited(fn, part):
    """Running out of memory is an error of the one call, not the end of the machine."""
    import resource
    limit = 9 << 30
    resource.setrlimit(resource.RLIMIT_AS, (limit, limit))
    return fn(part)


def in_processes(fn, n):
    import multiprocessing
    from concurrent.futures import ProcessPoolExecutor
    from concurrent.futures.process import BrokenProcessPool
    with ProcessPoolExecutor(n, mp_context=multiprocessing.get_context("fork")) as pool:
        jobs = [pool.submit(_limited, fn, (i, n)) for i in range(n)]
        try:
            return [j.result() for j in jobs]
        except BrokenProcessPool:
            raise MachineryError("a worker process died")


_PAR = None


def _chunk(part):
    ctx, case_list, drivers, limit = _PAR
    ctx.violations, ctx.n_eval, ctx.seen, ctx.known_hit = [], 0, set(), {}
    try:
        replay(ctx, case_list[part[0]::part[1]], drivers, limit)
    except BaseException:
        return ("error", traceback.format_exc())
    return (ctx.violations, ctx.n_eval, ctx.seen, ctx.known_hit)


def parallel(ctx, case_list, drivers, workers, limit=60):
    """replay() in `workers` processes."""
    global _PAR
    if workers == 1 or len(case_list) < 4 * workers:
        return replay(ctx, case_list, drivers, limit)
    _PAR = (ctx, case_list, drivers, limit)
    parts = in_processes(_chunk, workers)
    for r in parts:
        if r[0] == "error":
            raise MachineryError("a worker failed:\n" + r[1])
        ctx.violations += r[0]
        ctx.n_eval += r[1]
        ctx.seen |= r[2]
        ctx.known_hit.update(r[3])
    ctx.sample(brief(case_list[0]))
    ctx.sample(brief(case_list[-1]))


_WORK = None


def _worker(part):
    ctx, items, work, reload = _WORK
    ctx.violations, ctx.n_eval, ctx.seen, ctx.known_hit, ctx.traces = [], 0, set(), {}, 0
    ctx.cov = {"samples": []}
    try:
        ctx.scratch = tempfile.mkdtemp(prefix="worker", dir=ctx.scratch)
        if reload:
            ctx.atms = fresh_package(ctx)
        work(ctx, items[part[0]::part[1]])
    except BaseException:
        return ("error", traceback.format_exc())
    return (ctx.violations, ctx.n_eval, ctx.seen, ctx.known_hit, ctx.traces, ctx.cov["samples"])


def fresh_package(ctx):
    """Another scratch copy of the package, freshly imported."""
    for m in list(sys.modules):
        if m == "pybsm" or m.startswith("pybsm."):
            del sys.modules[m]
    return load_package(ctx)


def workers(ctx, items, work, n, reload=True):
    """work(ctx, part) in n processes, each (with `reload`) on its own copy of the package, whose
    atmosphere directory is ctx.atms."""
    global _WORK
    n = max(1, min(n, len(items)))
    _WORK = (ctx, items, work, reload)
    parts = in_processes(_worker, n)
    for r in parts:
        if r[0] == "error":
            raise MachineryError("a worker failed:\n" + r[1])
        ctx.violations += r[0]
        ctx.n_eval += r[1]
        ctx.seen |= r[2]
        ctx.known_hit.update(r[3])
        ctx.traces += r[4]
        for s in r[5]:
            ctx.sample(s)


def histories(ctx, traces, run_one, limit=120):
    """Replay whole behaviours; run_one(ctx, trace) raises Mismatch where the implementation departs."""
    import numpy as np
    signal.signal(signal.SIGALRM, _on_alarm)
    for t in traces:
        signal.alarm(limit)
        shown = [brief(s["c"]) for s in t[-40:]]
        try:
            with np.errstate(all="ignore"):
                run_one(ctx, t)
        except Mismatch as ex:
            ctx.violate(ex.clause, str(ex), shown)
        except _Alarm:
            ctx.violate("hang", "a history did not finish within %d s" % limit, shown)
        except MachineryError:
            raise
        except Exception as ex:
            tb = traceback.extract_tb(ex.__traceback__)
            if not any("pybsm" in fr.filename and "/vf_" in fr.filename for fr in tb) and not _from_call(tb):
                raise
            ctx.violate("raised", "raised %s: %s" % (type(ex).__name__, ex), shown)
        finally:
            signal.alarm(0)
        ctx.traces += 1
    ctx.sample(brief(traces[0][1]["c"]))
    ctx.sample(brief(traces[-1][-1]["c"]))


def _from_call(tb):
    """Did the exception come from a call into the package with arguments it refused?  (For instance a
    TypeError for a missing keyword shows no frame of the package.)"""
    return any(getattr(fr, "line", "") and "# CALL" in fr.line for fr in tb)


def brief(case):
    """A case in readable form."""
    def num(x):
        return float("%.12g" % (x / ONE))
    return {"op": case["op"], "k": case["k"],
            "f": {k: ([num(x) for x in v] if len(v) <= 40 else [num(x) for x in v[:40]] + ["..."]) for k, v in case["f"].items()},
            "e": {k: ([num(x) for x in v] if len(v) <= 12 else [num(x) for x in v[:12]] + ["..."]) for k, v in case["e"].items()},
            "ek": case["ek"]}


def isfinite(x):
    return not (math.isnan(x) or math.isinf(x))
