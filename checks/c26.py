"""Optional OpenCV: the histories of optional.qnt, each in its own environment."""
import copy
import importlib
import logging
import os
import pkgutil
import random
import sys

import numpy as np

from checks import c09, c12, c13, c15, c27
from vf import core, pools as pooled
from vf.camera import sensor
from vf.core import Mismatch

LEVEL = "model_checking"
TECHNIQUE = ("Quint state machine model-checked with TLC; its histories replayed in environments with, without and with a broken "
             "OpenCV against the specification's results")
WORKERS = 8

REAL = {}


class Missing:
    """Import hook: OpenCV is absent, or present and unable to load."""
    def __init__(self, broken):
        self.broken = broken

    def find_spec(self, name, path=None, target=None):
        if name == "cv2" or name.startswith("cv2."):
            if self.broken:
                raise ImportError("libGL.so.1: cannot open shared object file: No such file or directory")
            raise ModuleNotFoundError("No module named 'cv2'", name="cv2")
        return None


def environment(env):
    sys.meta_path[:] = [m for m in sys.meta_path if not isinstance(m, Missing)]
    loaded = {m: sys.modules.pop(m) for m in list(sys.modules) if m == "cv2" or m.startswith("cv2.")}
    if loaded:
        REAL.update(loaded)     # OpenCV cannot be loaded twice into one process
    if env:
        sys.meta_path.insert(0, Missing(env == 2))
    else:
        sys.modules.update(REAL)
    forget()


def forget():
    for m in [m for m in sys.modules if m == "pybsm" or m.startswith("pybsm.")]:
        del sys.modules[m]


# ------------------------------------------------------------- imaging, refused
def imaging_call(op, f, ctx):
    """The call and everything it was given."""
    from pybsm import otf
    if op == "psf":
        args = [f.m("otf", f.i("rows"), f.i("cols")), f.s("df"), f.s("dx")]
        return (lambda: otf.otf_to_psf(*args)), args
    if op == "apply":
        n = f.i("n")
        args = [f.m("img", f.i("rows"), f.i("cols")), f.s("gsd"), f.s("range"), f.m("otf", n, n), f.s("df"), f.s("ifov")]
        return (lambda: otf.apply_otf_to_image(*args)), args
    if op == "resample_image":
        args = [f.m("img", f.i("rows"), f.i("cols")), f.s("dx_in"), f.s("dx_out")]
        return (lambda: otf.resample_2D(*args)), args
    from pybsm.simulation import RefImage, simulate_image
    img = f.a("palette")[c15.layout(f)].astype(c15.DTYPES[f.i("kind")])
    args = [RefImage(img, f.s("gsd"), f.a("pix_values"), f.a("refl_values")), sensor(f), c15.scenario(f)]
    args[2].atm      # loads the condition's atmosphere
    return (lambda: simulate_image(*args)), args


def equal(a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return isinstance(b, np.ndarray) and a.dtype == b.dtype and np.array_equal(a, b)
    if hasattr(a, "__dict__"):
        return set(vars(a)) == set(vars(b)) and all(equal(v, vars(b)[k]) for k, v in vars(a).items())
    return a == b


def refused(op, f, ctx):
    files = c15.database(f, ctx.atms) if op == "image" else []
    try:
        fn, args = imaging_call(op, f, ctx)
        keep = copy.deepcopy(args)
        try:
            got = fn()
        except ImportError as ex:
            if "pybsm[graphics]" not in str(ex) and "pybsm[headless]" not in str(ex):
                raise Mismatch("message", "ImportError does not name the extras to install: %s" % ex)
        except Exception as ex:
            raise Mismatch("error", "raised %s (%s) instead of ImportError" % (type(ex).__name__, ex))
        else:
            raise Mismatch("no_error", "a result of type %s was returned" % type(got).__name__)
        if not all(equal(a, b) for a, b in zip(keep, args)):
            raise Mismatch("input", "an argument was modified by the refused call")
    finally:
        for rec in files:
            os.remove(c15.atmos.path(ctx.atms, rec))


# ------------------------------------------------------------------ histories
OBJECTS = {"op": "objects", "k": {}, "f": {}, "e": {}, "ek": {}}


def objects(ctx):
    """Descriptions and an estimated camera can be made (their values: C23)."""
    from pybsm.simulation import RefImage, Scenario, Sensor
    s, sc = RefImage(np.arange(12.0).reshape(3, 4), 0.05).estimate_capture_parameters(altitude=100.0)
    if not (isinstance(s, Sensor) and isinstance(sc, Scenario) and abs(s.p_x / s.f * 100 - 0.05) < 1e-9):
        raise Mismatch("objects", "the estimated camera does not fit the image")


def plots(ctx, f, case):
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.pyplot as plt
    nm = c27.evaluation(f, ctx.atms)
    from pybsm import metrics
    plt.close("all")
    metrics.plot_common_MTFs(nm)
    metrics.plot_noise_terms(nm)
    if len(plt.get_fignums()) < 1 or not all(plt.figure(n).axes for n in plt.get_fignums()):
        raise Mismatch("plots", "the plots have no axes")
    plt.close("all")


def modules():
    import pybsm
    return sorted(m.name for m in pkgutil.walk_packages(pybsm.__path__, "pybsm.", onerror=lambda n: None))


def imports(ctx, env):
    """Every module on its own, first thing in the process."""
    environment(env)
    good = True
    for m in modules():
        forget()
        ctx.count(("import", env, m))
        try:
            importlib.import_module(m)
        except Exception as ex:
            ctx.violate("import." + m, "%s does not import %s: %s: %s" % (
                m, ["with OpenCV", "without OpenCV", "with a broken OpenCV"][env], type(ex).__name__, ex))
            good = False
    return good


def history(ctx, trace, pools, at):
    env = trace[1]["event"]["env"]
    environment(env)
    plain = pooled.plain_drivers(ctx)
    component = None

    def take(op):
        xs = pools.get(op)
        if not xs:
            raise core.MachineryError("no case of " + op)
        at[op] = at.get(op, 0) + 1
        return xs[at[op] % len(xs)]
    for st in trace[1:]:
        ev = st["event"]
        op = ev["what"]
        if ev["kind"] == "import":
            try:
                importlib.import_module("pybsm." + op)
            except Exception as ex:
                ctx.violate("import." + op, "pybsm.%s does not import in environment %d: %r" % (op, env, ex))
            continue
        if op == "objects":
            case = dict(OBJECTS, k={"env": env})
            drv = lambda f, case: objects(ctx)  # noqa: E731
        elif op == "component":
            case = take("component")
            component = component or c09.drivers()
            drv = component[case["op"]]
        elif op == "plots":
            case = take("chain")
            drv = lambda f, case: plots(ctx, f, case)  # noqa: E731
        elif ev["outcome"] == "refused":
            case = take(op)
            drv = lambda f, case, op=op: refused(op, f, ctx)  # noqa: E731
        elif op in ("psf", "apply", "resample_image"):
            case = take(op)
            drv = {"psf": c12.psf, "apply": c13.apply, "resample_image": c13.resample}[op]
        elif op == "image":
            continue        # long; the check of C15
        else:
            case = take(op)
            drv = plain[op]
        before = len(ctx.violations)
        core.replay(ctx, [case], {case["op"]: drv}, limit=150, decoy=False)
        for i in range(before, len(ctx.violations)):
            k, m, p = ctx.violations[i]
            ctx.violations[i] = ("env%d.%s" % (env, k), m + " [environment %d]" % env, p)


_POOLS = None


def _work(ctx, part):
    at = {}
    usable = {env: imports(ctx, env) for env in (1, 2, 0)}
    for t in part:
        if not usable[t[1]["event"]["env"]]:
            continue        # reported
        history(ctx, t, _POOLS, at)
        ctx.traces += 1


def run(ctx):
    global _POOLS
    logging.disable(logging.WARNING)
    # import pybsm only in the workers: each history has its own environment
    core.copy_package(os.path.join(ctx.scratch, "probe"))
    ctx.rules.append("each history is a behaviour of the machine optional: an environment (OpenCV present, absent, not loadable), imports "
                     "and calls in any order; each call replays a case of the generator of its operation against the specification; "
                     "where OpenCV is absent the imaging calls must be refused; every module is also imported on its own first")
    ctx.states, ctx.transitions = reversed(core.quint_check(ctx, "optional.qnt", "safe", timeout=600))
    scale = ctx.size(1, 12)
    pools, (traces,) = pooled.cases(ctx, scale=scale, also=lambda ex: [
        ex.submit(core.quint_run, ctx, "optional.qnt", steps=ctx.size(40, 120), traces=ctx.size(40, 400))])
    pools["component"] = [c for op in c09.NAMES for c in pools.get(op, [])]
    random.Random(ctx.seed).shuffle(pools["component"])
    _POOLS = pools
    core.workers(ctx, traces, _work, WORKERS)
    ctx.cov["environments"] = {str(e): sum(t[1]["event"]["env"] == e for t in traces) for e in range(3)}
