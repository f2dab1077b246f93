import numpy as np

from vf import core
from vf.core import compare

LEVEL = "exploration"


def noise_gain(f, case):
    from pybsm.noise import noise_gain
    k = f.ints("kernel") if f.i("flat") else f.ints("kernel", f.i("rows"), f.i("cols"))
    k0 = k.copy()
    if case["ek"]["reject"]:
        try:
            got = noise_gain(k)
        except ValueError:
            return
        raise core.Mismatch("reject", "kernel summing to %r accepted (gain %r)" % (float(k.sum()), got))
    got = noise_gain(k)
    compare("ng", got, case["e"]["ng"])
    if not np.array_equal(k, k0):
        raise core.Mismatch("input", "kernel was modified")


def quantization(f, case):
    from pybsm.noise import quantization_noise
    compare("q", quantization_noise(f.s("pe"), f.s("bits")), case["e"]["q"], rtol=1e-9, atol=0)


def radii(f, case):
    from pybsm import otf
    R0 = f.s("R0") if f.s("R0") < 1e40 else np.inf
    compare("object", otf.object_domain_defocus_radii(f.s("D"), f.s("R"), R0), case["e"]["object"],
            atol=1e-14 * f.s("D") * max(1 / f.s("R"), 1 / f.s("R0")))
    compare("image", otf.image_domain_defocus_radii(f.s("D"), f.s("dz"), f.s("f")), case["e"]["image"], atol=0)
    compare("dark", otf.dark_current_from_density(f.s("jd"), f.s("w_x"), f.s("w_y")), case["e"]["dark"], atol=0)


def run(ctx):
    core.load_package(ctx)
    ctx.rules.append("each case is a state of gen_analytic!stepNoise: 1x1 to 5x5 kernels with negative elements, a sixth of them of integers held in 8 or 16 bits, whose sum "
                     "deviates from 1 by rounding, not at all, or by 0.001 and more; converter ranges and bit depths; "
                     "dark currents and defocus radii")
    cs = core.cases(ctx, "gen_analytic.qnt", "stepNoise", ctx.size(2500, 60000), ["lawNoise"])
    core.replay(ctx, cs, {"noise_gain": noise_gain, "quantization": quantization, "radii": radii})
