import numpy as np

from checks.c14 import DTYPES, image, same
from vf import core

LEVEL = "exploration"


def stretch(f, case):
    from pybsm.simulation import stretch_contrast_convert_8bit
    img = image(f)
    if case["ek"]["flat"]:
        return
    keep = img.copy()
    if f.i("given"):
        perc = [float(x) for x in f.a("perc")]
        p0 = list(perc)
        out = stretch_contrast_convert_8bit(img, perc)
        if perc != p0:
            raise core.Mismatch("input", "percentile list was modified")
    else:
        out = stretch_contrast_convert_8bit(img)
    out = np.asarray(out)
    if out.shape != img.shape:
        raise core.Mismatch("shape", "stretched image has shape %r" % (out.shape,))
    if out.dtype != np.uint8:
        raise core.Mismatch("dtype", "stretched image has type %s" % out.dtype)
    same(img, keep, "image")
    want = core.arr(case["e"]["out"]).reshape(img.shape)
    # percentiles that fall inside the data make the end points exact only to rounding
    big = img.astype(float)
    span = float(np.diff(np.percentile(big, f.a("perc")))[0])
    bad = np.abs(out.astype(float) - want) > 0.5 + 1e-6 + 255 * 8 * np.spacing(np.max(np.abs(big))) / span
    if bad.any():
        j = np.argwhere(bad)[0]
        raise core.Mismatch("value", "pixel %s = %r, specification says %r" % (tuple(j), int(out[tuple(j)]), float(want[tuple(j)])))
    x, y = img.astype(float).ravel(), out.astype(int).ravel()
    o = np.argsort(x, kind="stable")
    if np.any(np.diff(y[o]) < 0):
        raise core.Mismatch("order", "stretch reverses the order of two pixels")


def many(f, case):
    """A large image of few values."""
    from pybsm.simulation import stretch_contrast_convert_8bit
    if case["ek"]["flat"]:
        return
    v, want = f.a("values"), core.arr(case["e"]["out"])
    which = np.repeat(np.arange(v.size), [int(x) for x in f.a("counts")])
    rng = np.random.default_rng(f.i("seed"))
    how = f.i("seed") % 6
    if how > 3:         # in order along every n-th pixel, then along those beside them
        n = 2 + f.i("seed") // 6 % 31
        comb = np.empty_like(which)
        comb[np.concatenate([np.arange(j, which.size, n) for j in range(n)])] = which
        rows = max(k for k in range(1, 900) if which.size % k == 0)
        which = comb.reshape(rows, -1)
    elif how == 0:      # in order, down the columns: every n-th pixel is not a fair sample
        rows = max(k for k in range(1, 900) if which.size % k == 0)
        which = which.reshape(-1, rows).T
    else:
        if how > 1:
            rng.shuffle(which)
        rows = max(k for k in range(1, 900) if which.size % k == 0)
        which = which.reshape(rows, -1)
    img = v[which].astype(DTYPES[f.i("kind")])
    keep = img.copy()
    out = np.asarray(stretch_contrast_convert_8bit(img, [float(x) for x in f.a("perc")]) if f.i("given") else stretch_contrast_convert_8bit(img))
    same(img, keep, "image")
    if out.shape != img.shape or out.dtype != np.uint8:
        raise core.Mismatch("shape", "stretched image of type %s and shape %r" % (out.dtype, out.shape))
    bad = np.abs(out.astype(float) - want[which]) > 0.5 + 1e-5
    if bad.any():
        j = tuple(np.argwhere(bad)[0])
        raise core.Mismatch("many", "an image of %r pixels: value %r becomes %r, specification says %r" % (img.shape, float(img[j]), int(out[j]), want[which[j]]))


def run(ctx):
    core.load_package(ctx)
    ctx.rules.append("each case is a state of gen_analytic!stepStretch: images of four types with 2 to 42 pixels and of up to a million pixels of at most 31 values, default and given "
                     "percentiles; images whose two percentiles coincide are skipped")
    cs = core.cases(ctx, "gen_analytic.qnt", "stepStretch", ctx.size(1800, 40000), ["lawStretch"])
    core.replay(ctx, cs, {"stretch": stretch, "many": many})
