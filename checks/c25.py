import numpy as np

from vf import core
from vf.core import compare

LEVEL = "exploration"


def resample(f, case):
    from pybsm.radiance import resample_by_wavelength
    w, v, x = f.a("w"), f.a("v"), f.a("x")
    ask = f.i("ask")
    if ask == 1 and len(x) % 2 == 0:        # requests in rows and columns
        x = x.reshape(2, -1)
    if ask == 2:                            # and one by one
        y = np.array([resample_by_wavelength(w, v, one) for one in x])
    else:
        y = np.asarray(resample_by_wavelength(w, v, x))
    if y.shape != x.shape:
        raise core.Mismatch("shape", "values of shape %r for requests of shape %r" % (y.shape, x.shape))
    compare("y", y, case["e"]["y"], rtol=1e-8, vscale=1e-8)


def run(ctx):
    core.load_package(ctx)
    ctx.rules.append("each case is a state of gen_radiometry!stepResample: a table of 1 to 7 (now and then up to 300) entries and 10 to 53 "
                     "requests on the entries, a relative 1e-12 beside the ends, inside, and far outside, asked for in a row, in rows and columns or one by one")
    cs = core.cases(ctx, "gen_radiometry.qnt", "stepResample", ctx.size(1500, 30000), ["lawResample"])
    core.replay(ctx, cs, {"resample": resample})
