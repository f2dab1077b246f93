import numpy as np

from vf import core
from vf.core import compare

LEVEL = "exploration"
TOL = 1e-7     # the code moves the frequencies by 1e-6 cycles/radian to avoid 0/0


def edge(f, case):
    from pybsm import metrics as m
    e = case["e"]
    mtf, df, ifov, pos = f.a("mtf"), f.s("df"), f.s("ifov"), f.s("pos")
    m0 = mtf.copy()
    compare("edge_response", m.edge_response(pos, mtf, df, ifov), e["er"], rtol=0, atol=TOL)
    compare("edge_response", m.edge_response(-pos, mtf, df, ifov), e["er_neg"], rtol=0, atol=TOL)
    compare("relative_edge_response", m.relative_edge_response(mtf, df, ifov), e["rer"], rtol=0, atol=TOL)
    if not case["ek"]["tie"]:
        compare("edge_height_overshoot", m.edge_height_overshoot(mtf, df, ifov), e["eho"], rtol=0, atol=TOL)
    if not np.array_equal(mtf, m0):
        raise core.Mismatch("input", "transfer function was modified")


def resolved(f, case):
    from pybsm import metrics as m
    got = float(m.ground_resolved_distance(f.a("mtf"), f.s("df"), f.s("snr"), f.s("ifov"), f.s("slant")))
    if case["ek"]["unresolved"]:
        # the transfer function never reaches 3/SNR: nothing is resolved
        if not got >= 1e8 * f.s("slant"):
            raise core.Mismatch("ground_resolved_distance", "%r although no frequency is resolved" % got)
    else:
        compare("ground_resolved_distance", got, case["e"]["grd"], rtol=1e-7, atol=0)


def terms(f, case):
    from pybsm import metrics as m
    n, e = f.i("n"), case["e"]
    H, df, ix, iy = f.m("H", n, n), f.s("df"), f.s("ifov_x"), f.s("ifov_y")
    r0, r90 = m.giqe5_RER(H, df, ix, iy)
    # the slice may or may not contain the sample at the end of the axis
    sfx = "" if abs(r0 - core.fl(e["rer0"][0])) <= abs(r0 - core.fl(e["rer0s"][0])) else "s"
    compare("giqe5_RER.x", r0, e["rer0" + sfx], rtol=0, atol=TOL)
    compare("giqe5_RER.y", r90, e["rer90" + sfx], rtol=0, atol=TOL)
    if case["ek"]["bad"]:
        return
    rer, eho = m.giqe_edge_terms(H, df, ix, iy)
    compare("giqe_edge_terms.rer^2", rer ** 2, [e["rer0" + sfx][0] * e["rer90" + sfx][0] // core.ONE], rtol=0, atol=4 * TOL)
    if not case["ek"]["tie"]:
        compare("giqe_edge_terms.eho", eho, e["eho" + sfx], rtol=0, atol=TOL)


def run(ctx):
    core.load_package(ctx)
    ctx.rules.append("each case is a state of gen_analytic!stepEdge: decreasing and sharpened transfer functions of 3 to 42 samples, "
                     "detector fields of view from undersampled to oversampled, positions of either sign; SNR below and above 3; "
                     "two-dimensional grids with different x and y behaviour and fields of view")
    cs = core.cases(ctx, "gen_analytic.qnt", "stepEdge", ctx.size(600, 15000), ["lawEdge"])
    core.replay(ctx, cs, {"edge": edge, "resolved": resolved, "terms2d": terms})
