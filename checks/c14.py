import numpy as np

from vf import core
from vf.core import compare

LEVEL = "exploration"
DTYPES = [np.uint8, np.uint16, float, np.int64]


def image(f):
    x = f.m("img", f.i("rows"), f.i("cols"))
    t = DTYPES[f.i("kind")]
    if t is np.int64:
        t = next(k for k in ([np.int64], [np.int32], [np.int16, np.int32], [np.uint32, np.int32])[f.i("rows") % 4] + [np.int64]
                 if np.iinfo(k).min <= x.min() and x.max() <= np.iinfo(k).max)
    if t is not float:
        x = core.laid_out(x.astype(t), f.i("rows") * 31 + f.i("cols") * 7)
    return x.reshape(x.shape[0], -1, 3) if f.i("colour") and x.shape[1] % 3 == 0 else x


def same(a, b, what):
    if not np.array_equal(a, b):
        raise core.Mismatch("input", what + " was modified")


def pairs(f):
    """The calibration pairs, whole numbers now and then in a narrow type or in a list."""
    out = []
    for j, x in enumerate((f.a("pix"), f.a("refl"))):
        kinds = [float, np.int64, list] + ([np.int16, np.uint16] if not j else [np.int8, np.uint8, bool])
        t = kinds[(len(x) + 3 * j + int(abs(x[0]) * 7919) + f.i("rows")) % len(kinds)]
        if np.all(x == np.round(x)) and 0 <= x.min() and x.max() < (2 if j else 30000):
            x = [float(y) for y in x] if t is list else x.astype(t)
        out.append(x)
    return out


def calibrate(f, case):
    from pybsm.simulation import functional as s
    img, (pix, refl) = image(f), pairs(f)
    if f.i("tile") > 1:
        # a large image of the same pixels
        big = np.asarray(s.img_to_reflectance(np.concatenate([img] * f.i("tile")), pix, refl))
        compare("reflectance", big[:img.shape[0]], case["e"]["refl_img"], rtol=0, atol=1e-9)
        if not np.array_equal(big.reshape((f.i("tile"),) + img.shape), np.broadcast_to(big[:img.shape[0]], (f.i("tile"),) + img.shape)):
            raise core.Mismatch("large", "equal pixels of a large image get different reflectances")
    keep = img.copy(), np.array(pix), np.array(refl)
    out = np.asarray(s.img_to_reflectance(img, pix, refl))
    if out.shape != img.shape:
        raise core.Mismatch("shape", "reflectance image has shape %r" % (out.shape,))
    compare("reflectance", out, case["e"]["refl_img"], rtol=0, atol=1e-9)
    for a, b, n in zip((img, pix, refl), keep, ("image", "pix_values", "refl_values")):
        same(a, b, n)


def ref_image(f, case):
    from pybsm.simulation import RefImage
    from pybsm.simulation import functional as s
    img, mode = image(f), f.i("mode")
    keep = img.copy()
    if mode == 2:
        try:
            RefImage(img, f.s("gsd"), pix_values=f.a("given"))
        except ValueError:
            return
        raise core.Mismatch("reject", "counts without reflectances accepted")
    ri = RefImage(img, f.s("gsd"), f.a("given"), f.a("givenr")) if mode == 3 else RefImage(img, f.s("gsd"))
    if ri.gsd != f.s("gsd"):
        raise core.Mismatch("gsd", "ground sample distance %r" % ri.gsd)
    compare("pix_values", np.sort(np.asarray(ri.pix_values, dtype=float)), case["e"]["pix"], rtol=1e-9, atol=1e-9)
    if not case["ek"]["degenerate"]:
        out = s.img_to_reflectance(ri.img, ri.pix_values, ri.refl_values)
        compare("reflectance", out, case["e"]["img"], rtol=0, atol=1e-8)
    same(img, keep, "image")
    same(np.asarray(ri.img), keep, "stored image")


def run(ctx):
    core.load_package(ctx)
    ctx.rules.append("each case is a state of gen_analytic!stepCalibrate: images of four types, 2 to 6 calibration pairs in any "
                     "order, rising, falling or not monotone, pixels on, between and beyond the pairs; reference images with and "
                     "without calibration, and with counts only")
    cs = core.cases(ctx, "gen_analytic.qnt", "stepCalibrate", ctx.size(1500, 40000), ["lawCalibrate"])
    core.replay(ctx, cs, {"calibrate": calibrate, "ref_image": ref_image})
