import numpy as np

from vf import core
from vf.core import compare

LEVEL = "exploration"
NAMES = ["aggregation", "aperture", "aperture_defocus", "cte", "defocus", "detector", "diffusion", "drift", "gaussian", "jitter", "tdi",
         "turbulence", "wavefront", "wavefront_2"]


def arrays(f):
    """The frequency points once as a vector, once as a 2-D grid."""
    u, v = f.a("u"), f.a("v")
    n = next(k for k in (2, 3, 5, 1) if u.size % k == 0)
    out = [(u, v), (f.m("u", n), f.m("v", n))]
    if all(np.all(x == np.rint(x)) and np.max(np.abs(x)) < 2 ** 31 for x in (u, v)):
        # whole frequencies may be held as integers
        out += [(u.astype(t), v.astype(t)) for t in ("int32", "int64")]
    return out


def component(fn, rtol=1e-7, atol=1e-9):
    def run(f, case):
        for u, v in arrays(f):
            u0, v0 = u.copy(), v.copy()
            h = np.asarray(fn(f, u, v))
            if h.shape != u.shape:
                raise core.Mismatch("shape", "result has shape %r for frequencies of shape %r" % (h.shape, u.shape))
            compare("H", h, case["e"]["H"], rtol=rtol, atol=atol)
            if not (np.array_equal(u, u0) and np.array_equal(v, v0)):
                raise core.Mismatch("input", "frequency arrays were modified")
    return run


def tdi(f, case):
    from pybsm.otf import tdi_OTF
    h = np.asarray(tdi_OTF(f.a("u"), f.s("w"), f.i("stages"), f.i("phases"), f.s("beta"), f.s("f")))
    compare("H.real", h.real, case["e"]["H"], atol=1e-9)
    compare("H.imag", h.imag, case["e"]["Him"], atol=1e-9)


def drivers():
    from pybsm import otf as o
    return {
        # acos near the cutoff loses half of the digits of the double arguments
        "aperture": component(lambda f, u, v: o.circular_aperture_OTF(u, v, f.s("lambda"), f.s("D"), f.s("eta")), atol=1e-7),
        # the implementation truncates Hopkins' series
        "aperture_defocus": component(lambda f, u, v: o.circular_aperture_OTF_with_defocus(
            u, v, f.s("lambda"), f.s("D"), f.s("f"), f.s("dz")), atol=2e-4),
        "cte": component(lambda f, u, v: o.cte_OTF(u, v, f.s("p_x"), f.s("p_y"), f.s("n_x"), f.s("n_y"),
                                                   f.i("phases"), f.s("eff"), f.s("f"))),
        "defocus": component(lambda f, u, v: o.defocus_OTF(u, v, 1.0, f.s("w_x"), f.s("w_y"))),
        "detector": component(lambda f, u, v: o.detector_OTF(u, v, f.s("w_x"), f.s("w_y"), f.s("f"))),
        "aggregation": component(lambda f, u, v: o.detector_OTF_with_aggregation(
            u, v, f.s("w_x"), f.s("w_y"), f.s("p_x"), f.s("p_y"), f.s("f"), f.i("n"))),
        "diffusion": component(lambda f, u, v: o.diffusion_OTF(u, v, f.s("alpha"), f.s("ald"), f.s("al0"), f.s("f"))),
        "drift": component(lambda f, u, v: o.drift_OTF(u, v, f.s("a_x"), f.s("a_y"))),
        "gaussian": component(lambda f, u, v: o.gaussian_OTF(u, v, f.s("b_x"), f.s("b_y"))),
        "jitter": component(lambda f, u, v: o.jitter_OTF(u, v, f.s("s_x"), f.s("s_y"))),
        "tdi": tdi,
        "turbulence": component(lambda f, u, v: o.turbulence_OTF(u, v, f.s("lambda"), f.s("D"), f.s("r0"), f.s("alpha"))),
        "wavefront": component(lambda f, u, v: o.wavefront_OTF(u, v, f.s("lambda"), f.s("pv"), f.s("L_x"), f.s("L_y"))),
        "wavefront_2": component(lambda f, u, v: o.wavefront_OTF_2(u, v, f.s("cutoff"), f.s("rms"))),
    }


def run(ctx):
    core.load_package(ctx)
    ctx.rules.append("each case is a state of gen_otf!stepComponent: one of 14 component transfer functions with random "
                     "parameters at ten frequency pairs: zero, the axes, all four quadrants, below, near and beyond the cutoff, for obscured apertures the ends of the three regions")
    cs = core.cases(ctx, "gen_otf.qnt", "stepComponent", ctx.size(2500, 60000), ["lawDC", "lawBounded", "lawEven", "lawVanish"])
    core.replay(ctx, cs, drivers())
