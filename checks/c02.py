import os

import numpy as np

from vf import atmos, core

LEVEL = "exploration"
WORKERS = 6


def call(f, style):
    from pybsm import utils
    alt, gr = f.s("altitude"), f.s("ground")
    haze = f.i("haze") if "haze" in f.k else f.s("haze")
    if style == 1:
        alt, gr, haze = np.float64(alt), np.float64(gr), (np.int64(haze) if haze == int(haze) else np.float64(haze))
    elif style == 2:
        alt, gr = (int(alt) if alt == int(alt) else alt), (int(gr) if gr == int(gr) else gr)
    return utils.load_database_atmosphere_no_interp(altitude=alt, ground_range=gr, ihaze=haze)


def record(f, case):
    rec, rows = f.i("record"), case["e"]["rows"]
    got = call(f, rec % 3)
    atmos.check(core, "record", got, rows, full=atmos.table(rec))
    if not np.array_equal(got[:, 1], atmos.raw(rec)[:, 0]):
        raise core.Mismatch("record.transmission", "record %d: transmission is altered" % rec)
    got[:] = -1.0       # the result belongs to the caller
    if rec % 11 == 0:
        atmos.check(core, "again", call(f, 0), rows)


def fails(f, what):
    try:
        t = call(f, f.i("style") if "style" in f.k else 0)
    except IndexError:
        return
    raise core.Mismatch("no_error", "%s: a table of shape %r was returned" % (what, np.shape(t)))


def neighbour(f, case):
    if case["ek"]["record"]:
        atmos.check(core, "record", call(f, f.i("style")), case["e"]["rows"])
    else:
        fails(f, "the condition is not listed")


def absent(f, case):
    fails(f, "the file of record %d is absent" % f.i("record"))


def run(ctx):
    atms = core.load_package(ctx)
    ctx.rules.append("record: every one of the 3430 listed conditions, enumerated by gen_atmosphere!stepRecord, its whole table compared; "
                     "absent: the same lookups while the data file is missing; neighbour: random conditions next to listed ones "
                     "(relative distance 1e-9 to 1e-1, other visibilities, mixed altitudes and ranges, kilometres for metres)")
    recs = [s["c"] for s in core.quint_run(ctx, "gen_atmosphere.qnt", init="initEnum", step="stepRecord", steps=3430,
                                           invariants=["lawRecord"])[0] if s["c"]["op"] != "none"]
    if [c["k"]["record"] for c in recs] != list(range(1, 3431)):
        raise core.MachineryError("the enumeration of records is incomplete")
    near = []
    procs = 8 if ctx.thorough else 2
    for tr in core.quint_run(ctx, "gen_atmosphere.qnt", init="initEnum", step="stepNeighbour",
                             steps=ctx.size(1000, 4000), procs=procs):
        near += [s["c"] for s in tr if s["c"]["op"] != "none"]
    gone = set(range(1 + ctx.seed % 9, 3431, ctx.size(9, 1)))
    work = [dict(c, op="absent") for c in recs if c["k"]["record"] in gone]
    # files that are absent first, then the complete database
    atmos.write_all(atms, gone)
    core.parallel(ctx, work, {"absent": absent}, WORKERS)
    for rec in gone:
        atmos.write(atms, rec)
    core.parallel(ctx, recs + near, {"record": record, "neighbour": neighbour}, WORKERS)
    assert os.path.exists(atmos.path(atms, 3430))
