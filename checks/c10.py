import numpy as np

from vf import core
from vf.camera import sensor
from vf.core import compare

LEVEL = "exploration"
PARTS = ["ap_OTF", "turb_OTF", "det_OTF", "jit_OTF", "drft_OTF", "wav_OTF", "filter_OTF"]


def scenario(f):
    from pybsm.simulation import Scenario
    return Scenario("sc", f.i("ihaze"), f.s("altitude"), f.s("ground_range"), aircraft_speed=f.s("aircraft_speed"),
                    ha_wind_speed=f.s("ha_wind_speed"), cn2_at_1m=f.s("cn2_at_1m"))


def filter_bounds(h, e, size):
    """The filter's response within 1/100 cycle (see check C28)."""
    low, high = core.arr(e["low"]), core.arr(e["high"])
    slack = (0.25 * (high - low) + 0.004 * size) if size else 1e-9
    bad = (h < low - slack) | (h > high + slack)
    if bad.any():
        j = int(np.argmax(bad))
        raise core.Mismatch("filter", "filter[%d] = %r, kernel response within 1/100 cycle is %r to %r" % (j, h[j], low[j], high[j]))


def system(f, case):
    from pybsm.otf import common_OTFs
    e, ek = case["e"], case["ek"]
    s, sc = sensor(f), scenario(f)
    wl, ws = f.a("wavelengths"), f.a("weights")
    if f.i("pad"):
        # wavelengths without weight, anywhere among the others
        n = f.i("pad")
        step = (wl.max() * 1.01 - wl.min() * 0.99) / n
        more = wl.min() * 0.99 + step * (np.arange(n) + 0.37)
        more = more[np.min(np.abs(more[:, None] - wl), axis=1) > 1e-12]
        at = np.random.RandomState(n + f.i("mutate")).randint(0, more.size + 1, wl.size)
        wl, ws = np.insert(more, at, wl), np.insert(np.zeros(more.size), at, ws)
    shape = [(6,), (2, 3), (6, 1)][f.i("shape")]
    u, v = [f.m(n, *shape) if len(shape) > 1 else f.a(n) for n in ("u", "v")]
    args = (u, v, wl, ws, f.s("slant"), f.s("time"))
    if f.i("mutate"):
        # a first evaluation with other values must leave no trace
        fields = ["D", "w_x", "w_y", "s_x", "s_y", "da_x", "da_y", "pv", "pv_wavelength", "n_tdi", "f", "L_x", "L_y", "eta", "p_x"]
        scene = ["altitude", "cn2_at_1m", "aircraft_speed", "ha_wind_speed", "ground_range"]
        # all of them at once, one of them, or one of the other arguments
        which = f.i("mutate") - 2
        one = (fields + scene + ["filter_kernel"])[which] if which >= 0 else None
        keep = {k: getattr(s, k) for k in fields}
        kept_sc = {k: getattr(sc, k) for k in scene}
        ker = s.filter_kernel
        for k in fields:
            if one in (None, k):
                setattr(s, k, keep[k] * (0.8 if k == "eta" else 1.21) + (0 if k == "eta" else 1e-7))
        for k in scene:
            if one in (None, k):
                setattr(sc, k, kept_sc[k] * 0.9 + {"cn2_at_1m": 3e-15, "aircraft_speed": 7.0}.get(k, 0.0))
        if one in (None, "filter_kernel"):
            s.filter_kernel = np.array([1])
        common_OTFs(s, sc, *args)
        for k in fields:
            setattr(s, k, keep[k])
        for k in scene:
            setattr(sc, k, kept_sc[k])
        s.filter_kernel = ker
    saved = [x.copy() for x in (u, v, wl, ws, s.filter_kernel)]
    o = common_OTFs(s, sc, *args)
    h = {}
    for p in PARTS + ["system_OTF"]:
        x = np.asarray(getattr(o, p))
        if x.shape != shape:
            raise core.Mismatch("shape." + p, "%s has shape %r for frequencies of shape %r" % (p, x.shape, shape))
        h[p] = x.ravel()
    compare("aperture", h["ap_OTF"], e["ap"], rtol=0, atol=1e-7)
    compare("detector", h["det_OTF"], e["det"], rtol=0, atol=1e-9)
    compare("jitter", h["jit_OTF"], e["jit"], rtol=1e-8, atol=1e-9)
    compare("drift", h["drft_OTF"], e["drft"], rtol=0, atol=1e-9)
    compare("wavefront", h["wav_OTF"], e["wav"], rtol=1e-8, atol=1e-9)
    # path integrals are computed numerically on both sides; without turbulence exactly 1
    compare("turbulence", h["turb_OTF"], e["turb"], rtol=0, atol=1e-3 if ek["turbulent"] else 1e-12)
    if ek["turbulent"]:
        compare("r0_band", o.r0_band, e["r0"], rtol=5e-4, atol=0)
    filter_bounds(h["filter_OTF"], e, float(np.abs(s.filter_kernel).sum()) if ek["filter"] else 0)
    prod = np.prod([h[p] for p in PARTS], axis=0)
    if np.max(np.abs(prod - h["system_OTF"])) > 1e-9:
        j = int(np.argmax(np.abs(prod - h["system_OTF"])))
        raise core.Mismatch("product", "system[%d] = %r, product of the components is %r" % (j, h["system_OTF"][j], prod[j]))
    for a, b in zip((u, v, wl, ws, s.filter_kernel), saved):
        if not np.array_equal(a, b):
            raise core.Mismatch("input", "an argument was modified")


def run(ctx):
    core.load_package(ctx)
    ctx.rules.append("each case is a state of gen_system!stepSystem: random sensor with blur and 1x1 to 5x5 kernels, scenario with "
                     "and without turbulence and motion, 1 to 4 wavelengths in any order, six frequency pairs inside the cutoff; "
                     "half of them after an evaluation with other sensor and scenario values")
    cs = core.cases(ctx, "gen_system.qnt", "stepSystem", ctx.size(300, 8000), ["lawSystem"])
    core.replay(ctx, cs, {"system": system})
