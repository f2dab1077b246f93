import os

import numpy as np

from vf import atmos, core

LEVEL = "exploration"
WORKERS = 6


def interp(f, case):
    from pybsm import utils
    alt, gr, haze = f.s("altitude"), f.s("ground"), f.i("haze")
    style = f.i("style")
    if style == 1:
        alt, gr, haze = np.float64(alt), np.float64(gr), np.int64(haze)
    elif style == 2:
        alt, gr = (int(alt) if alt == int(alt) else alt), (int(gr) if gr == int(gr) else gr)
    ek = case["ek"]
    gone = f.i("gone")
    atms = os.environ["VF_ATMS"]
    try:
        if gone:
            # a private copy of the files needed, one of them missing
            os.rename(atmos.path(atms, gone), atmos.path(atms, gone) + ".away")
        try:
            got = utils.load_database_atmosphere(altitude=alt, ground_range=gr, ihaze=haze)
        except IndexError:
            if ek["ok"]:
                raise core.Mismatch("refused", "IndexError although every bracketing record is in the database")
            return
    finally:
        if gone:
            os.rename(atmos.path(atms, gone) + ".away", atmos.path(atms, gone))
    if not ek["ok"]:
        raise core.Mismatch("no_error", "a table of shape %r was returned" % (np.shape(got),))
    wa, wg = core.arr(case["e"]["weights"])
    r = [atmos.table(ek[k]) for k in ("r0", "r1", "r2", "r3")]
    full = (1 - wg) * ((1 - wa) * r[0] + wa * r[1]) + wg * ((1 - wa) * r[2] + wa * r[3])
    atmos.check(core, "interp", got, case["e"]["rows"], full)
    got[:] = -1.0      # the result belongs to the caller


def run(ctx):
    atms = core.load_package(ctx)
    os.environ["VF_ATMS"] = atms
    ctx.rules.append("each case is a state of gen_atmosphere!stepInterp: altitude and range on a grid value, between, an eighth to halfway between, within 1e-9 of one, "
                     "at or outside the limits, beyond the horizon; visibilities 1, 2 and invalid ones; all bracketing files present or "
                     "one of them absent; the whole returned table is compared")
    cs = []
    for tr in core.quint_run(ctx, "gen_atmosphere.qnt", init="initEnum", step="stepInterp", steps=ctx.size(400, 2500),
                             procs=ctx.size(3, 8), invariants=["lawNode", "lawBetween"]):
        cs += [s["c"] for s in tr if s["c"]["op"] != "none"]
    atmos.write_all(atms)
    # lookups with an absent file come first, one process, each absent record not read before
    read, first = set(), []
    for c in cs:
        g = c["k"]["gone"]
        if g and g not in read:
            read |= {c["ek"][k] for k in ("r0", "r1", "r2", "r3")}
            first.append(c)
    core.parallel(ctx, first, {"interp": interp}, 1)
    core.parallel(ctx, [c for c in cs if not c["k"]["gone"]], {"interp": interp}, WORKERS)
