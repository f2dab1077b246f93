import numpy as np

from vf import core
from vf.core import arr, compare, fl

LEVEL = "exploration"
ARRAYS = ["optics_transmission", "qe", "other_noise", "filter_kernel"]
INTS = {"max_n", "frame_stacks", "ihaze"}
FIELDS = {0: ["D", "int_time", "s_x", "L_x", "frame_stacks", "w_y"],
          1: ["altitude", "ground_range", "target_temperature", "cn2_at_1m", "aircraft_speed", "background_reflectance"]}


def check(real, model, op):
    """Every living description holds exactly what the model says."""
    for j, (o, m) in enumerate(zip(real, model)):
        for name, want in m["f"].items():
            if not hasattr(o, name):
                raise core.Mismatch(op + "." + name, "object %d has no %s" % (j, name))
            compare("%s.%s" % (op, name), np.atleast_1d(getattr(o, name)), want, rtol=1e-12, atol=0)
        if o.name != "object %d" % j:
            raise core.Mismatch(op + ".name", "object %d is called %r" % (j, o.name))


def estimate(f, memo={}):
    from pybsm.simulation import RefImage
    img = (np.arange(12.0) * 5 % 13).reshape(3, 4)
    held = img.copy()
    gsd, alt = f.s("gsd"), f.s("altitude")
    if f.i("before"):       # the image has been asked before, for another place and perhaps with another sample distance
        ri = RefImage(img, gsd if f.i("before") == 1 else gsd * 1.7, name="picture")
        ri.estimate_capture_parameters(altitude=alt * 0.6)
        ri.gsd = gsd
    else:
        ri = RefImage(img, gsd, name="picture")
    s, sc = ri.estimate_capture_parameters() if f.i("default") else ri.estimate_capture_parameters(altitude=alt)
    ratio = gsd / alt
    for p in (s.p_x, s.p_y):
        if abs(p / s.f - ratio) > 1e-9 * ratio:
            raise core.Mismatch("estimate.gsd", "pixel field of view %r, image needs %r" % (p / s.f, ratio))
    zero = [sc.ground_range, sc.aircraft_speed, sc.cn2_at_1m, s.s_x, s.s_y, s.da_x, s.da_y]
    if sc.altitude != alt or any(zero):
        raise core.Mismatch("estimate.scenario", "altitude %r, ground range and motion %r" % (sc.altitude, zero))
    lam = float(np.max(s.opt_trans_wavelengths))
    if not s.D * ratio >= 1.22 * lam:
        raise core.Mismatch("estimate.aperture", "aperture %r does not resolve a pixel of %r rad at %r m" % (s.D, ratio, lam))
    if s.w_x != s.p_x or s.w_y != s.p_y or s.name != "picture":
        raise core.Mismatch("estimate.pixel", "detector %r x %r" % (s.w_x, s.w_y))
    if not np.array_equal(img, held) or not np.array_equal(np.asarray(ri.img), held):
        raise core.Mismatch("estimate.image", "the image itself was changed")
    # the estimate is the same camera type every time, whatever happened to earlier ones
    now = {k: np.array(getattr(s, k), dtype=float) for k in
           ("opt_trans_wavelengths", "optics_transmission", "qe_wavelengths", "qe", "other_noise", "filter_kernel", "max_n", "eta")}
    for k, v in memo.setdefault("first", now).items():
        if v.shape != now[k].shape or not np.array_equal(v, now[k]):
            raise core.Mismatch("estimate.shared", "%s of a new estimate is %r, was %r before an earlier estimate was changed" % (k, now[k], v))
    # mutate what the estimate returned: it must not show anywhere later
    s.opt_trans_wavelengths *= 3
    s.optics_transmission *= 0.1
    s.filter_kernel *= 5
    s.qe_wavelengths = s.qe_wavelengths * 2
    s.other_noise += 4


def history(ctx, trace):
    from pybsm.simulation import Scenario, Sensor
    real = []
    for st in trace:
        c = st["c"]
        op = c["op"]
        if op == "none":
            continue
        f = core.F(c)
        ctx.count((op, repr(c["f"]), repr(c["k"])))
        model = st["objs"]
        if op == "sensor":
            kw = {k: (arr(v) if k == "opt_trans_wavelengths" else (int(fl(v[0])) if k in INTS else fl(v[0]))) for k, v in c["f"].items()}
            for m in ("max_n",):
                if m in kw:   # keep the model's exact value
                    kw[m] = fl(c["f"][m][0])
            real.append(Sensor("object %d" % len(real), **kw))
        elif op == "scenario":
            kw = {k: (int(fl(v[0])) if k in INTS else fl(v[0])) for k, v in c["f"].items()}
            i = f.i("interp")
            if i:
                kw["interp"] = bool(i - 1)
            real.append(Scenario("object %d" % len(real), **kw))
        elif op == "poke":
            getattr(real[f.i("obj")], ARRAYS[f.i("array")]).ravel()[0] = f.s("x")
        elif op == "assign":
            o = f.i("obj")
            setattr(real[o], FIELDS[model[o]["kind"]][f.i("field")], f.s("x"))
        elif op == "estimate":
            estimate(f)
        check(real, model, op)


def run(ctx):
    core.load_package(ctx)
    ctx.rules.append("each case is a transition of the machine objects!step: histories of up to 25 constructions (with any subset "
                     "of the optional arguments), attribute assignments, in-place array changes and camera estimates; after "
                     "every step all living descriptions are compared with the model")
    traces = core.quint_run(ctx, "objects.qnt", steps=25, traces=ctx.size(30, 400), procs=ctx.size(3, 8), invariants=["lawFill"])
    for t in traces:
        try:
            history(ctx, t)
        except core.Mismatch as ex:
            ctx.violate(ex.clause, str(ex), [core.brief(s["c"]) for s in t])
        except (TypeError, AttributeError, ValueError) as ex:
            ctx.violate("raised", "%s: %s" % (type(ex).__name__, ex), [core.brief(s["c"]) for s in t])
        ctx.traces += 1
    ctx.sample(core.brief(traces[0][1]["c"]))
    ctx.sample(core.brief(traces[-1][-1]["c"]))
