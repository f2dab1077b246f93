import numpy as np

from vf import core

LEVEL = "exploration"


def filter_(f, case):
    from pybsm.otf import filter_OTF
    e, rows, cols = case["e"], f.i("rows"), f.i("cols")
    k = f.m("kernel", rows, cols)
    keep = k.copy()
    u, v, ifov = f.a("u"), f.a("v"), f.s("ifov")
    h = np.asarray(filter_OTF(u, v, k, ifov))
    if h.shape != u.shape or np.iscomplexobj(h):
        raise core.Mismatch("shape", "result %r of shape %r" % (h.dtype, h.shape))
    low, high, size = core.arr(e["low"]), core.arr(e["high"]), core.fl(e["size"][0])
    if case["ek"]["unit"]:
        slack = 1e-9
    else:
        # linear interpolation over a cell of 1/100 cycle
        slack = 0.25 * (high - low) + 0.004 * size
    if np.any(h < low - slack) or np.any(h > high + slack):
        j = int(np.argmax((h < low - slack) | (h > high + slack)))
        raise core.Mismatch("H", "H[%d] = %r, kernel response within 1/100 cycle is %r to %r" % (j, h[j], low[j], high[j]))
    if case["k"]["pad_right"] == 2:
        return
    pad = np.pad(k, ((f.i("pad_top"), f.i("pad_bottom")), (f.i("pad_left"), f.i("pad_right"))))
    h2 = np.asarray(filter_OTF(u, v, pad, ifov))
    if max(pad.shape) > 100:        # the transform is taken on a finer grid
        if np.any(h2 < low - slack - 1e-7 * size) or np.any(h2 > high + slack + 1e-7 * size):
            raise core.Mismatch("large", "the kernel in an array of shape %r has another response: %r, in its own array %r" % (pad.shape, h2, h))
    elif np.max(np.abs(h2 - h)) > 1e-7 * size:
        raise core.Mismatch("placement", "moving the kernel within its array changes H by %r" % np.max(np.abs(h2 - h)))
    if not np.array_equal(k, keep):
        raise core.Mismatch("input", "kernel was modified")


def run(ctx):
    core.load_package(ctx)
    ctx.rules.append("each case is a state of gen_turbulence!stepFilter: kernels from 1x1 to 5x5 summing to one, five frequency "
                     "pairs: zero, inside the Nyquist square and displaced by whole sampling frequencies, and the same kernel "
                     "elsewhere in an array of up to 120 rows or columns")
    cs = core.cases(ctx, "gen_turbulence.qnt", "stepFilter", ctx.size(120, 2500), ["lawFilter"])
    core.replay(ctx, cs, {"filter": filter_})
