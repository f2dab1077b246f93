import numpy as np

from vf import core
from vf.core import compare

LEVEL = "exploration"


def slice_(f, case):
    from pybsm.otf import slice_otf
    n = f.i("n")
    H = f.m("H", n, n)
    if f.i("whole"):
        H = H.astype(["int64", "int8", "int32"][f.i("whole") - 1])
    H0 = H.copy()
    s = np.asarray(slice_otf(H, f.s("ang"))).ravel()
    m, extra = case["ek"]["m"], case["ek"]["extra"]
    # the sample at distance exactly 1 may or may not be present
    if s.size not in ((m, m + 1) if extra else (m,)):
        raise core.Mismatch("length", "slice of a %dx%d grid has %d samples, expected %d" % (n, n, s.size, m))
    compare("slice", s, case["e"]["slice"][:s.size], rtol=0, atol=1e-9)
    if not np.array_equal(H, H0):
        raise core.Mismatch("input", "transfer function was modified")


def twist(f, case):
    from pybsm.otf import slice_otf
    n = f.i("n")
    x = np.linspace(-1, 1, n)
    a, b, c, d = f.a("coefficients")
    s = np.asarray(slice_otf(a + b * x + c * -x[:, None] + d * np.outer(-x, x), f.s("ang"))).ravel()
    m, extra = case["ek"]["m"], case["ek"]["extra"]
    if s.size not in ((m, m + 1) if extra else (m,)):
        raise core.Mismatch("length", "slice of a %dx%d grid has %d samples, expected %d" % (n, n, s.size, m))
    compare("slice", s, case["e"]["slice"][:s.size], rtol=0, atol=1e-9)


def run(ctx):
    core.load_package(ctx)
    ctx.rules.append("each case is a state of gen_analytic!stepSlice: random grids from 3x3 to 14x14 (some of whole numbers in integer types) and grids of twisted planes to 1501x1501, any angle from -180 to 360 "
                     "degrees and the multiples of 45 degrees")
    cs = core.cases(ctx, "gen_analytic.qnt", "stepSlice", ctx.size(900, 25000), ["lawSlice"])
    core.replay(ctx, cs, {"slice": slice_, "twist": twist})
