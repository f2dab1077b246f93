import numpy as np

from vf import core
from vf.core import compare

LEVEL = "exploration"


def giqe(f, case):
    from pybsm import metrics as m
    e = case["e"]
    r1, r2, gsd, eho, ng, snr, elev = (f.s(x) for x in ("r1", "r2", "gsd", "eho", "ng", "snr", "elev"))
    # ratings are sums of terms that may cancel: tolerance relative to the largest term
    scale = 1e-9 * (20 + abs(ng / snr))
    compare("giqe3", m.giqe3(r1, gsd, eho, ng, snr), e["n3"], atol=scale)
    n4, gsd_gp = m.giqe4(r1, gsd, eho, ng, snr, elev)
    compare("giqe4", n4, e["n4"], atol=scale)
    compare("giqe4.gsd_gp", gsd_gp, e["gsd_gp"], atol=0)
    scale5 = 1e-9 * (20 + np.exp(min(-1.9 / snr, 40)) + abs(1.8 / snr))
    for a, b in ((r1, r2), (r2, r1)):
        n5, gsd_w, rer = m.giqe5(a, b, gsd, snr, elev)
        compare("giqe5", n5, e["n5"], atol=scale5)
        compare("giqe5.gsd_w", gsd_w, e["gsd_w"], atol=0)
        compare("giqe5.rer", rer, e["rer"], atol=0)


def run(ctx):
    core.load_package(ctx)
    ctx.rules.append("each case is a state of gen_analytic!stepGiqe: edge responses at, just beside and away from 0.9, "
                     "sample distances from a millimetre to a kilometre, SNR of either sign, elevations up to the zenith")
    cs = core.cases(ctx, "gen_analytic.qnt", "stepGiqe", ctx.size(2500, 60000), ["lawGiqe"])
    core.replay(ctx, cs, {"giqe": giqe})
