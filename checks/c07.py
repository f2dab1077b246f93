import numpy as np

from vf import core
from vf.camera import atm, sensor
from vf.core import compare

LEVEL = "exploration"


def curve(f, case):
    from pybsm.radiance import reflectance_to_photoelectrons
    s = sensor(f)
    if f.i("default_temp"):
        out = reflectance_to_photoelectrons(atm(f), s, f.s("time"))
    else:
        out = reflectance_to_photoelectrons(atm(f), s, f.s("time"), f.s("temp"))
    ref, pe, sw = out
    e = case["e"]
    compare("ref", ref, e["ref"])
    compare("pe", pe, e["pe"])
    sw = np.asarray(sw)
    if sw.ndim != 2 or sw.shape[0] != 2:
        raise core.Mismatch("spectral_weights", "shape %r" % (sw.shape,))
    compare("wavelengths", sw[0], e["wavelengths"])
    compare("weights", sw[1], e["weights"])


def run(ctx):
    core.load_package(ctx)
    ctx.rules.append("each case is a state of gen_radiometry!stepCurve: random sensor, band, atmosphere with rows below, "
                     "in and above the band, target temperature given or defaulted, well filled 0.02 to 60 times")
    cs = core.cases(ctx, "gen_radiometry.qnt", "stepCurve", ctx.size(700, 15000), ["lawCurve"])
    core.replay(ctx, cs, {"curve": curve})
