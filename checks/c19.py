import numpy as np

from vf import core
from vf.core import compare

LEVEL = "exploration"


def geometry(f, case):
    from pybsm import geospatial as g
    e = case["e"]
    ht, hs, gr, ifov = f.s("h_target"), f.s("h_sensor"), f.s("ground"), f.s("ifov")
    b = core.fl(e["slant"][0])
    if isinstance(ht, int) and isinstance(hs, int) and ht >= 0:
        ht, hs = np.uint32(ht), np.uint32(hs)
    # double arithmetic on squared distances from the Earth's centre: absolute error below 0.2 m^2
    tol2 = 0.2 * (1 + (max(abs(ht), hs) / 6.4e6)) ** 2
    # closer than two metres the heights themselves (8 digits after the point) decide
    if b < 2:
        tol2 = 1e-6 * b ** 2 + 4 * b * np.spacing(max(abs(ht), hs))
    slant = float(g.curved_earth_slant_range(ht, hs, gr))
    compare("slant_range^2", slant ** 2, e["slant2"], rtol=1e-9, atol=tol2)
    tolc = tol2 / (2 * (6378164.0 + hs) * b) + 1e-12
    if b < 2:
        tolc = 1e-6 + 8 * np.spacing(max(abs(ht), hs)) / b
    nadir = np.asarray(g.nadir_angle(ht, hs, b))
    compare("nadir_angle", np.cos(nadir), e["cos"], rtol=0, atol=tolc)
    if not (0 <= float(nadir) <= np.pi + 1e-12):
        raise core.Mismatch("nadir_angle", "nadir angle %r" % nadir)
    compare("gsd", g.ground_sample_distance(ifov, b), e["gsd"], atol=0)
    z, h = (np.asarray(x, dtype=float) for x in g.altitude_along_slant_path(ht, hs, b))
    if z.shape != h.shape or z.ndim != 1 or z.size < 100:
        raise core.Mismatch("path", "path arrays of shape %r, %r" % (z.shape, h.shape))
    step = np.diff(z)
    if not (z[0] == 0 and abs(z[-1] - b) <= 1e-9 * b and np.all(np.abs(step - b / (z.size - 1)) <= 1e-6 * step.mean())):
        raise core.Mismatch("path", "distances do not run evenly from 0 to the slant range")
    got = np.interp(np.arange(10) * b / 9, z, h)
    # interpolating between samples adds at most (b/samples)^2 / (8 R)
    compare("heights", got, e["heights"], rtol=1e-9, atol=1e-3 + (b / (z.size - 1)) ** 2 / 8 / 6.3e6)


def run(ctx):
    core.load_package(ctx)
    ctx.rules.append("each case is a state of gen_analytic!stepGeometry: target and sensor heights from 0 to 10^7 m, the sensor "
                     "above or below the target, ground ranges 0 to 3000 km, straight up and down in a quarter of the cases, a tenth of them 0.1 mm to 2 m apart")
    cs = core.cases(ctx, "gen_analytic.qnt", "stepGeometry", ctx.size(2500, 60000), ["lawGeometry"])
    core.replay(ctx, cs, {"geometry": geometry})
