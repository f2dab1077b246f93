from vf import core
from . import snr_common

LEVEL = "exploration"


def fill(f, case):
    from pybsm.radiance import check_well_fill
    core.compare("factor", check_well_fill(f.s("count"), f.s("limit")), case["e"]["factor"])


def run(ctx):
    core.load_package(ctx)
    ctx.rules.append("each case is a state of gen_radiometry!stepExposure (random sensor, band, radiances; exposure placed "
                     "from 0.02 to 60 times the allowed fill, either of target and background brighter), or a count and a limit by themselves, equal, zero or nearly equal")
    cs = core.cases(ctx, "gen_radiometry.qnt", "stepExposure", ctx.size(900, 20000), ["lawExposure", "lawSnr", "lawFill"])
    core.replay(ctx, cs, {"snr": snr_common.driver(snr_common.EXPOSURE), "fill": fill})
