from vf import core
from . import snr_common

LEVEL = "exploration"


def run(ctx):
    core.load_package(ctx)
    ctx.rules.append("each case is a state of gen_radiometry!stepSnr (random sensor, band, radiances; exposure placed "
                     "from 0.02 to 60 times the allowed fill, either of target and background brighter)")
    cs = core.cases(ctx, "gen_radiometry.qnt", "stepSnr", ctx.size(900, 20000), ["lawExposure", "lawSnr"])
    core.replay(ctx, cs, {"snr": snr_common.driver(snr_common.BUDGET)})
