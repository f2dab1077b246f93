import contextlib
import os
import pickle
import random
import signal
import traceback

import numpy as np

from checks.c18 import COUNTS, SPECTRA, chain, judged, recorded, reported, settle
from checks.c10 import PARTS, filter_bounds
from vf import atmos, core
from vf import pools as pooled
from vf.camera import sensor
from vf.core import F, Mismatch, compare

LEVEL = "exploration"
WORKERS = 7
TECHNIQUE = "Quint state machine of a session; its behaviours replayed into the code, state and results compared after every step"
ARRAYS = ["opt_trans_wavelengths", "optics_transmission", "qe_wavelengths", "qe", "other_noise"]
NUMBERS = ["D", "f", "p_x", "p_y", "w_x", "w_y", "eta", "int_time", "n_tdi", "dark_current", "read_noise", "max_n", "max_well_fill",
           "cold_shield_temperature", "optics_temperature", "optics_emissivity", "cold_filter_transmission", "cold_filter_temperature",
           "cold_filter_emissivity", "s_x", "s_y", "da_x", "da_y", "pv", "pv_wavelength", "L_x", "L_y"]
SCENE = ["altitude", "ground_range", "aircraft_speed", "ha_wind_speed", "cn2_at_1m", "target_reflectance", "target_temperature",
         "background_reflectance", "background_temperature"]


class Session:
    def __init__(self, f, atms):
        self.atms = atms
        cols = [f.a("base_%d" % i) for i in range(1, 6)]
        self.first = f.i("first")
        self.files = []
        for i in range(8):
            atmos.write_rows(atms, f.i("r%d" % i), self.first, cols, f.i("m%d" % i))
            self.files.append(f.i("r%d" % i))
        self.s, self.sc = fresh(f)
        self.img = None
        self.kept = []      # earlier results and what they were

    def close(self):
        for rec in set(self.files):
            os.remove(atmos.path(self.atms, rec))


def fresh(f):
    from pybsm.simulation import Scenario
    sc = Scenario("sc", f.i("ihaze"), f.s("altitude"), f.s("ground_range"), aircraft_speed=f.s("aircraft_speed"),
                  ha_wind_speed=f.s("ha_wind_speed"), cn2_at_1m=f.s("cn2_at_1m"),
                  target_reflectance=f.s("target_reflectance"), target_temperature=f.s("target_temperature"),
                  background_reflectance=f.s("background_reflectance"), background_temperature=f.s("background_temperature"))
    return sensor(f), sc


def settings(f):
    """The configured values, as the specification has them."""
    d = {("s", k): f.s(k) for k in NUMBERS}
    d.update({("s", k): f.a(k) for k in ARRAYS})
    d["s", "filter_kernel"] = np.array([1]) if len(f.f["filter_kernel"]) == 1 else f.m("filter_kernel", f.i("kernel_rows"))
    d["s", "bit_depth"], d["s", "frame_stacks"] = f.i("bit_depth"), f.i("frame_stacks")
    d.update({("sc", k): f.s(k) for k in SCENE})
    d["sc", "ihaze"] = f.i("ihaze")
    return d


def conforms(ses, f, op):
    """After every step the objects hold exactly the specification's state."""
    for (who, name), want in settings(f).items():
        have = getattr(getattr(ses, who), name)
        if isinstance(want, np.ndarray):
            ok = np.shape(have) == want.shape and np.array_equal(have, want)
        else:
            ok = have == want
        if not ok:
            raise Mismatch(op + ".state", "after %s, %s.%s is %r, it was set to %r" % (
                op, "sensor" if who == "s" else "scenario", name, have, want))
    for what, live, was in ses.kept:
        for a, b in zip(live, was):
            if not np.array_equal(a, b, equal_nan=True):
                raise Mismatch(op + ".earlier", "%s changed the result of an earlier %s" % (op, what))


def keep(ses, what, arrays):
    live = [x for x in arrays if isinstance(x, np.ndarray)]
    ses.kept = (ses.kept + [(what, live, [x.copy() for x in live])])[-3:]


def assign(ses, f):
    want = settings(f)
    for (who, name), v in want.items():
        obj = getattr(ses, who)
        have = getattr(obj, name)
        if isinstance(v, np.ndarray):
            if np.shape(have) == v.shape and np.array_equal(have, v):
                continue
            if f.i("inplace") and np.shape(have) == v.shape and np.asarray(have).dtype == v.dtype:
                have[...] = v
                continue
        elif have == v:
            continue
        setattr(obj, name, v)


def rows(ses, e):
    a = np.asarray(ses.sc.atm)
    if a.shape != (1371, 6):
        raise Mismatch("atm", "the atmosphere has shape %r" % (a.shape,))
    part = a[ses.first:ses.first + 8]
    for i in range(1, 6):
        compare("atm.%d" % i, part[:, i], e["rows_%d" % i], rtol=1e-6)


def band(ses):
    a = ses.sc.atm
    lo, hi = ses.s.opt_trans_wavelengths[0], ses.s.opt_trans_wavelengths[-1]
    return a[(a[:, 0] >= lo) & (a[:, 0] <= hi)]


def snr(ses, f, e):
    from pybsm.radiance import photon_detector_SNR
    args = core.arr(e["atm_w"]), core.arr(e["tgt_radiance"]), core.arr(e["bkg_radiance"])
    was = [x.copy() for x in args]
    q = photon_detector_SNR(ses.s, *args)
    for a, b in zip(args, was):
        if not np.array_equal(a, b):
            raise Mismatch("snr.input", "a radiance array was modified")
    for name in SPECTRA + COUNTS:
        compare("snr." + name, getattr(q, name), e[name], rtol=1e-7)
    keep(ses, "snr", [getattr(q, n) for n in SPECTRA])


def transfer(ses, f, e, ek):
    from pybsm.otf import common_OTFs
    args = [core.arr(e[k]) for k in ("u", "v", "mtf_wavelengths", "mtf_weights")]
    was = [x.copy() for x in args]
    o = common_OTFs(ses.s, ses.sc, *args, core.fl(e["slant"][0]), core.fl(e["int_time"][0]))
    for a, b in zip(args, was):
        if not np.array_equal(a, b):
            raise Mismatch("system.input", "an argument was modified")
    h = {p: np.asarray(getattr(o, p)) for p in PARTS + ["system_OTF"]}
    for p, key, tol in (("ap_OTF", "ap", 1e-6), ("det_OTF", "det", 1e-8), ("jit_OTF", "jit", 1e-7), ("drft_OTF", "drft", 1e-8),
                        ("wav_OTF", "wav", 1e-7), ("turb_OTF", "turb", 1e-3 if ek["turbulent"] else 1e-12)):
        compare("system." + p, h[p], e[key], rtol=1e-7, atol=tol)
    filter_bounds(h["filter_OTF"], e, float(np.abs(ses.s.filter_kernel).sum()) if ek["filter"] else 0)
    if not np.allclose(np.prod([h[p] for p in PARTS], axis=0), h["system_OTF"], rtol=0, atol=1e-9):
        raise Mismatch("system.product", "the system transfer function is not the product of its components")
    keep(ses, "common_OTFs", list(h.values()))


def curve(ses, f, e):
    from pybsm.radiance import reflectance_to_photoelectrons
    ref, pe, sw = reflectance_to_photoelectrons(ses.sc.atm, ses.s, ses.s.int_time)
    compare("curve.ref", ref, e["ref"])
    compare("curve.pe", pe, e["pe"], rtol=1e-6)
    compare("curve.wavelengths", sw[0], e["wavelengths"], rtol=1e-9)
    compare("curve.weights", sw[1], e["weights"], rtol=2e-6)
    keep(ses, "reflectance_to_photoelectrons", [ref, pe, np.asarray(sw)])


def radiance(ses, f, e):
    from pybsm.radiance import giqe_radiance, total_radiance
    a = band(ses)
    was = a.copy()
    L = total_radiance(a, ses.sc.target_reflectance, ses.sc.target_temperature)
    t, b = giqe_radiance(a, f.i("emissive"))
    if not np.array_equal(a, was):
        raise Mismatch("radiance.input", "the atmosphere was modified")
    compare("radiance.total", L, e["L"], rtol=1e-6)
    compare("radiance.target", t, e["tgt"], rtol=1e-6)
    compare("radiance.background", b, e["bkg"], rtol=1e-6)


def image(f):
    from pybsm.simulation import RefImage
    rng = np.random.default_rng(f.i("seed"))
    img = rng.integers(0, 255, (24, 20)).astype(np.uint8)
    return RefImage(img, f.s("gsd"), np.array([10.0, 120.0, 250.0]), np.array([0.05, 0.3, 0.9]))


def simulate(ses, f):
    """A simulated image under a given seed: the same from objects made afresh with the current settings."""
    from pybsm.simulation import simulate_image
    if ses.img is None or f.i("inplace"):
        ses.img = image(f)
    ref = ses.img
    was = [np.array(x) for x in (ref.img, ref.pix_values, ref.refl_values, ref.gsd)]

    def outcome(r, s, sc):
        np.random.seed(f.i("seed"))
        try:
            return simulate_image(r, s, sc)
        except ValueError as ex:        # not every pairing of kernel and radiance can be drawn from
            return str(ex)
    got = outcome(ref, ses.s, ses.sc)
    for a, b in zip((ref.img, ref.pix_values, ref.refl_values, ref.gsd), was):
        if not np.array_equal(a, b):
            raise Mismatch("simulate.input", "the reference image was modified")
    s, sc = fresh(f)
    want = outcome(type(ref)(was[0].copy(), float(was[3]), was[1].copy(), was[2].copy()), s, sc)
    if isinstance(got, str) or isinstance(want, str):
        if got is not want and got != want:
            raise Mismatch("simulate.result", "the simulation gives %r, with fresh objects %r" % (got, want))
        return
    for name, a, b in zip(("true", "blurred", "noisy"), got, want):
        if not np.array_equal(a, b):
            raise Mismatch("simulate.result", "the %s image differs from that of freshly made objects" % name)
    keep(ses, "simulate_image", list(got))


def niirs(ses, f, e, ek, version, out):
    from pybsm import metrics
    nm = (metrics.niirs if version == 3 else metrics.niirs5)(ses.s, ses.sc)
    chain(f, e, ek, nm, ses.s, ses.sc, version == 3)
    if version == 3:
        compare("ng", nm.ng, e["ng"])
    out.append((recorded(nm, ses.s, ses.sc, version), reported(nm, version), version))
    keep(ses, "niirs", [nm.atm, nm.tgt_radiance, nm.bkg_radiance, nm.uu, nm.vv] + [getattr(nm.otf, p) for p in PARTS + ["system_OTF"]]
         + [getattr(nm.snr, n) for n in SPECTRA])


def session(ctx, trace, out):
    ses = None
    try:
        for st in trace:
            case = st["c"]
            f, e, ek, op = F(case), case["e"], case["ek"], case["op"]
            ctx.count((op, sorted(case["k"].items()), sorted((k, tuple(v)) for k, v in case["f"].items())))
            if op == "open":
                ses = Session(f, ctx.atms)
            elif op == "set":
                assign(ses, f)
            elif op == "niirs":
                niirs(ses, f, e, ek, 3, out)
            elif op == "niirs5":
                niirs(ses, f, e, ek, 5, out)
            elif op == "snr":
                snr(ses, f, e)
            elif op == "system":
                transfer(ses, f, e, ek)
            elif op == "curve":
                curve(ses, f, e)
            elif op == "radiance":
                radiance(ses, f, e)
            elif op == "atm":
                rows(ses, e)
            elif op == "simulate":
                simulate(ses, f)
            else:
                raise core.MachineryError("no driver for " + op)
            conforms(ses, f, op)
    finally:
        if ses:
            ses.close()


# ------------------------------------------------------- the library, call by call
def attempt(drv, f, case, errors={"all": "ignore"}):
    """What a call gives: results in order, or how it fails."""
    core.RECORD = rec = []
    try:
        with np.errstate(**errors) if errors else contextlib.nullcontext():
            drv(f, case)
    except Exception as ex:
        rec.append(("raised", type(ex).__name__))
    finally:
        core.RECORD = None
    return rec


def pristine(drv, case):
    """The same in a process in which nothing has been called before."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            signal.alarm(60)
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            os.close(r)
            data = pickle.dumps(attempt(drv, F(case), case))
            with os.fdopen(w, "wb") as fh:
                fh.write(data)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as fh:
        data = fh.read()
    os.waitpid(pid, 0)
    return pickle.loads(data) if data else None     # None: too long to wait for


def alike(a, b):
    if isinstance(a, str) or isinstance(b, str) or a.shape != b.shape or a.dtype != b.dtype:
        return type(a) is type(b) and not isinstance(a, np.ndarray) and a == b
    if a.dtype.kind not in "fciub":
        return repr(a.tolist()) == repr(b.tolist())
    fin = np.abs(a[np.isfinite(a)]) if a.dtype.kind in "fc" else np.zeros(0)
    return np.allclose(a, b, rtol=1e-10, atol=1e-13 * (fin.max() if fin.size else 0), equal_nan=True)


SEEDED = {}     # states of the random generator after a call that began with one of its own


def walk(ctx, drivers, trace, ops, pools, nth, known):
    """One behaviour of stateless.qnt on the operations `ops`."""
    held = {}       # of each operation: the caller's arrays
    results = []
    calls_made = 0

    def current(args, op):
        c = pools[op][(nth * 2 + args["slot"]) % len(pools[op])]
        return core.neighbour(c, args["change"] + 5 * (nth % 7)) or c if args["change"] else c
    for st in trace[1:]:
        ev = st["event"]
        op = ops[ev["op"]]
        cells = {} if ev["fresh"] else held.get(op, {})
        if ev["kind"] == "scribble":
            for what, a, was in results:
                if a.flags.writeable and a.dtype.kind in "fciu":
                    a[...] = 7
            results = []
            continue
        case = current(ev["args"], op)
        held[op] = cells
        f = F(case, cells)
        ctx.count((op, repr(case["f"]), repr(case["k"])))
        core.HELD = new = []
        np.random.seed(1000 * nth + calls_made)
        calls_made += 1
        try:
            if ev["args"]["change"]:
                got = attempt(drivers[op], f, case, {})
            else:
                drivers[op](f, case)
        except Mismatch as ex:
            raise Mismatch("calls." + op + "." + ex.clause, str(ex))
        finally:
            core.HELD = None
        if ev["args"]["change"]:
            key = (op, repr(case["f"]), repr(case["k"]))
            want = known.get(key)
            if want is not None and not (len(got) == len(want) and all(
                    a[0] == b[0] and alike(a[1], b[1]) for a, b in zip(got, want))):
                diff = [a[0] for a, b in zip(got, want) if a[0] != b[0] or not alike(a[1], b[1])] + ["length"]
                raise Mismatch("calls." + op + ".history", "%s: %s differs from the same call in a fresh process" % (op, diff[0]))
        if {"raise", "call"} & set(np.geterr().values()):
            raise Mismatch("calls." + op + ".errors", "%s leaves floating-point errors raising for every later call" % op)
        state = hash(np.random.get_state()[1].tobytes())
        if SEEDED.setdefault(state, (nth, calls_made)) != (nth, calls_made):
            raise Mismatch("calls." + op + ".seeded", "%s leaves the random generator in a state of its own, so that the noise drawn later repeats" % op)
        for name, a, was in f.handed:
            if not np.array_equal(a, was, equal_nan=True):
                raise Mismatch("calls." + op + ".input", "%s modified its argument %s" % (op, name))
        for what, a, was in results:
            if not np.array_equal(a, was, equal_nan=True):
                raise Mismatch("calls." + op + ".earlier", "%s changed an earlier result (%s)" % (op, what))
        results = (results + new)[-12:]


def _calls(ctx, items):
    drivers = pooled.drivers(ctx)
    known = {}
    for trace, ops, nth in items:
        for st in trace[1:]:
            ev = st["event"]
            if ev["kind"] == "call" and ev["args"]["change"]:
                op = ops[ev["op"]]
                base = _POOLS[op][(nth * 2 + ev["args"]["slot"]) % len(_POOLS[op])]
                case = core.neighbour(base, ev["args"]["change"] + 5 * (nth % 7)) or base
                key = (op, repr(case["f"]), repr(case["k"]))
                if key not in known:
                    known[key] = pristine(drivers[op], case)
    signal.signal(signal.SIGALRM, core._on_alarm)
    for trace, ops, nth in items:
        shown = {"operations": ops, "events": [st["event"] for st in trace[1:]], "history": nth}
        signal.alarm(300)
        try:
            with np.errstate(all="ignore"):
                walk(ctx, drivers, trace, ops, _POOLS, nth, known)
        except Mismatch as ex:
            ctx.violate(ex.clause, str(ex), shown)
        except core._Alarm:
            ctx.violate("calls.hang", "a history did not finish within 300 s", shown)
        except core.MachineryError:
            raise
        except Exception as ex:
            tb = traceback.extract_tb(ex.__traceback__)
            if not any("pybsm" in fr.filename and "/vf_" in fr.filename for fr in tb):
                raise
            ctx.violate("calls.raised", "raised %s: %s" % (type(ex).__name__, ex), shown)
        finally:
            signal.alarm(0)
        ctx.traces += 1


_POOLS = None


def calls(ctx):
    global _POOLS
    ctx.rules.append("each call history is a behaviour of stateless.qnt (model-checked with TLC): two of the library's 49 operations in "
                     "any order, their arguments changed one at a time, in place or anew, and results overwritten; a call with a "
                     "generator's arguments gives the specification's values, one with neighbouring arguments those of a fresh process")
    n = ctx.size(700, 12000)
    _POOLS, (small, traces) = pooled.cases(ctx, [x for x in pooled.SOURCES if x[0] not in ("gen_image.qnt", "gen_chain.qnt")], also=lambda ex: [
        ex.submit(core.quint_check, ctx, "stateless.qnt", "laws", main="stateless_small"),
        ex.submit(core.quint_run, ctx, "stateless.qnt", main="stateless_walk", steps=20, traces=n, invariants=["laws"], timeout=3000)],
        scale=ctx.size(1, 6))
    ctx.cov["model_states"] = small[1]
    rng = random.Random(ctx.seed)
    names = sorted(_POOLS)
    weights = [2 if n == "filter" else 8 + len(_POOLS[n][0]["f"]) for n in names]
    core.workers(ctx, [(t, rng.choices(names, weights, k=2), i) for i, t in enumerate(traces)], _calls, 8)


def _work(ctx, traces):
    out = []

    def one(ctx, trace):
        n = len(out)
        try:
            session(ctx, trace, out)
        except BaseException:
            del out[n:]
            raise
        out[n:] = [(item, [core.brief(s["c"]) for s in trace[-12:]]) for item in out[n:]]
    core.histories(ctx, traces, one, limit=400)
    if out:
        for (item, shown), v in zip(out, judged(ctx, [x[0][0] for x in out])):
            try:
                settle(item, v)
            except Mismatch as ex:
                ctx.violate("judge%d.%s" % (item[2], ex.clause), str(ex), shown)


def run(ctx):
    core.load_package(ctx)
    ctx.rules.append("each history is a behaviour of session.qnt: one sensor and one scenario object, 26 kinds of sensor and 9 of scenario "
                     "changes (by assignment and in place) in any order with NIIRS 3/4 and 5 evaluations, contrast SNR, transfer "
                     "functions, photoelectron curves, radiances, atmosphere reads and image simulations; after every step all settings "
                     "equal the specification's state and all results its functions of that state; earlier results stay as returned")
    procs, per = (8, 40) if ctx.thorough else (7, 4)
    traces = core.quint_run(ctx, "session.qnt", steps=ctx.size(28, 60), traces=per, procs=procs, invariants=["lawSession"],
                            timeout=7200 if ctx.thorough else 600)
    core.workers(ctx, traces, _work, WORKERS)
    calls(ctx)
