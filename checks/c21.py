import numpy as np

from vf import core
from vf.core import compare

LEVEL = "exploration"


def profile(f, case):
    from pybsm import otf as o
    e = case["e"]
    h = f.a("h")
    cn2 = o.hufnagel_valley_turbulence_profile(h, f.s("v"), f.s("cn2"))
    compare("hufnagel_valley", cn2, e["cn2"], rtol=1e-9, atol=0)
    z, ref, l = f.a("z"), core.arr(e["cn2"]), f.s("lambda")
    compare("coherence_diameter", o.coherence_diameter(l, z, ref), e["r0"], atol=0)
    compare("coherence_diameter", o.coherence_diameter(2 * l, z, ref), e["r0_double"], atol=0)
    compare("coherence_diameter", o.coherence_diameter(l, z, 3 * ref), e["r0_stronger"], atol=0)


def wind(f, case):
    from pybsm.otf import wind_speed_turbulence_OTF
    u, v = f.a("u"), f.a("v")
    h = wind_speed_turbulence_OTF(u, v, f.s("lambda"), f.s("D"), f.s("r0"), f.s("t"), f.s("vel"))
    compare("wind", h, case["e"]["H"], rtol=0, atol=1e-8)


def polychromatic(f, case):
    from pybsm.otf import polychromatic_turbulence_OTF
    u, v, wl, ws = f.a("u"), f.a("v"), f.a("wavelengths"), f.a("weights")
    keep = [x.copy() for x in (u, v, wl, ws)]
    h, r0 = polychromatic_turbulence_OTF(u, v, wl, ws, f.s("altitude"), f.s("slant"), f.s("D"), f.s("wind"),
                                         f.s("cn2"), f.s("t"), f.s("vel"))
    # both sides integrate numerically along the path
    compare("r0_band", r0, case["e"]["r0"], rtol=5e-4, atol=0)
    compare("H", h, case["e"]["H"], rtol=0, atol=1e-3)
    for a, b in zip((u, v, wl, ws), keep):
        if not np.array_equal(a, b):
            raise core.Mismatch("input", "an argument was modified")


def run(ctx):
    core.load_package(ctx)
    ctx.rules.append("each case is a state of gen_turbulence!stepTurbulence: profiles at 2 to 7 heights and coherence diameters "
                     "over them, wind-adjusted transfer functions from no motion to long dwell, band averages over 1 to 4 "
                     "wavelengths along curved-Earth paths from 2 m to 25 km altitude")
    cs = core.cases(ctx, "gen_turbulence.qnt", "stepTurbulence", ctx.size(500, 12000), ["lawTurbulence"])
    core.replay(ctx, cs, {"profile": profile, "wind": wind, "polychromatic": polychromatic})
