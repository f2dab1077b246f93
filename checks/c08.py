from vf import core
from vf.camera import atm
from vf.core import compare

LEVEL = "exploration"


def blackbody(f, case):
    from pybsm.radiance import blackbody_radiance
    compare("L", blackbody_radiance(f.a("w"), f.s("T")), case["e"]["L"], vscale=0)


def emission(f, case):
    from pybsm import radiance as r
    e = case["e"]
    D, fl = f.s("D"), f.s("f")
    compare("irradiance", r.at_focal_plane_irradiance(D, fl, f.a("L")), e["irradiance"])
    compare("coldshield", r.cold_shield_self_emission(f.a("w"), f.s("T"), D, fl), e["coldshield"])
    compare("coldstop", r.cold_stop_self_emission(f.a("w"), f.s("T"), f.s("em"), D, fl), e["coldstop"])
    compare("optics", r.optics_self_emission(f.a("w"), f.s("T"), f.s("em"), f.s("tr"), D, fl), e["optics"])


def integrated(f, case):
    import numpy as np
    from pybsm.radiance import focal_plane_integrated_irradiance
    n = len(case["f"]["L"])
    compare("E", focal_plane_integrated_irradiance(f.a("L"), f.s("Ls"), f.s("t"), f.s("em"),
                                                   np.full(n, f.s("w")), f.s("dl"), f.s("T"), f.s("D"), f.s("f")), case["e"]["E"])


def detection(f, case):
    from pybsm import radiance as r
    e = case["e"]
    rate, E, dN = r.signal_rate(f.a("w"), f.a("L"), f.a("tr"), f.s("D"), f.s("f"), f.s("w_x"), f.s("w_y"), f.a("qe"),
                                f.a("other"), f.s("dark"))
    compare("rate", rate, e["rate"])
    compare("E", E, e["E"])
    compare("dN", dN, e["dN"])
    compare("detection_rate", r.photon_detection_rate(E, f.s("w_x"), f.s("w_y"), f.a("w"), f.a("qe")), e["dN"])


def scene(f, case):
    from pybsm import radiance as r
    e = case["e"]
    compare("L", r.total_radiance(atm(f), f.s("refl"), f.s("T")), e["L"])
    for emissive in (0, 1):
        t, b = r.giqe_radiance(atm(f), emissive)
        compare("giqe_target_%d" % emissive, t, e["giqe_t%d" % emissive])
        compare("giqe_background_%d" % emissive, b, e["giqe_b%d" % emissive])


def run(ctx):
    core.load_package(ctx)
    ctx.rules.append("each case is a state of gen_radiometry!stepChain: one of Planck radiance, self-emission, "
                     "integrated irradiance, detected signal, apparent scene radiance on random arguments")
    cs = core.cases(ctx, "gen_radiometry.qnt", "stepChain", ctx.size(1800, 40000), ["lawChain"])
    core.replay(ctx, cs, {"blackbody": blackbody, "emission": emission, "integrated": integrated,
                          "detection": detection, "scene": scene})
