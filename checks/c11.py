import numpy as np

from vf import core
from vf.core import compare

LEVEL = "exploration"


def weighted(f, case):
    from pybsm.otf import weighted_by_wavelength
    wl, ws, m = f.a("wavelengths"), f.a("weights"), f.i("m")
    vals = f.m("values", wl.size, m)
    if f.i("integer"):
        # whole weights in any number type that holds them; their sum may exceed it
        times = [1, 20, 27, 1, 13][f.i("integer") % 5]
        ws = (ws * times).astype(["int64", "uint8", "uint8", "int16", "int8"][f.i("integer") % 5])
    wl0, ws0 = wl.copy(), ws.copy()

    def quantity(w):
        return vals[int(np.argmin(np.abs(wl0 - w)))].copy()

    def call(wl, ws, fn):
        return np.asarray(weighted_by_wavelength(wl, ws, fn))
    scale = 1e-12 * np.max(np.abs(vals))
    compare("mean", call(wl, ws, quantity), case["e"]["mean"], atol=scale)
    # a 2-D quantity, as the transfer functions are
    compare("mean2d", call(wl, ws, lambda w: np.outer(quantity(w), [1.0, 1.0]))[:, 0], case["e"]["mean"], atol=scale)
    # a complex quantity
    z = call(wl, ws, lambda w: quantity(w) * (0.6 - 0.8j))
    if core.RECORD is None and np.iscomplexobj(z):
        if np.max(np.abs(z / (0.6 - 0.8j) - core.arr(case["e"]["mean"]))) > 1e-8 * np.max(np.abs(vals)):
            raise core.Mismatch("complex", "the mean of a complex quantity is %r" % (z,))
    elif core.RECORD is None:
        raise core.Mismatch("complex", "the mean of a complex quantity is real")
    # a quantity that is complex at some wavelengths only: by linearity its parts add up to the mean
    z = call(wl, ws, lambda w: quantity(w) if w == wl0[0] else quantity(w) * (0.6 - 0.8j))
    if core.RECORD is None:
        later = z.imag / -0.8
        if np.max(np.abs(z.real - 0.6 * later + later - core.arr(case["e"]["mean"]))) > 1e-8 * np.max(np.abs(vals)):
            raise core.Mismatch("mixed", "the mean of a quantity that is real at the first wavelength only is %r" % (z,))
    if m == 1:
        compare("mean_scalar", call(wl, ws, lambda w: quantity(w)[0]), case["e"]["mean"], atol=scale)
    # rescaled weights, reordered pairs
    compare("rescaled", call(wl, ws * 7.0, quantity), case["e"]["mean"], atol=scale)
    compare("reordered", call(wl[::-1], ws[::-1], quantity), case["e"]["mean"], atol=scale)
    if not (np.array_equal(wl, wl0) and np.array_equal(ws, ws0)):
        raise core.Mismatch("input", "wavelengths or weights were modified")


def run(ctx):
    core.load_package(ctx)
    ctx.rules.append("each case is a state of gen_analytic!stepWeighted: 1 to 7 distinct wavelengths in any order, weights with "
                     "zeros, whole in narrow integer types or over twelve decades, quantities with 1 to 3 components")
    cs = core.cases(ctx, "gen_analytic.qnt", "stepWeighted", ctx.size(2000, 50000), ["lawWeighted"])
    core.replay(ctx, cs, {"weighted": weighted})
