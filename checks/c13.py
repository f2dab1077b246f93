import numpy as np

from checks.c12 import echoes
from vf import core
from vf.core import compare

LEVEL = "exploration"


def apply(f, case):
    from pybsm.otf import apply_otf_to_image
    n, e, ek = f.i("n"), case["e"], case["ek"]
    if ek["tie"] or ek["near"]:
        return
    H = f.m("otf", n, n)
    img = f.m("img", f.i("rows"), f.i("cols"))
    keep = H.copy(), img.copy()
    args = (f.s("df"), f.s("ifov"))

    def call(im, otf=H):
        out, kernel = apply_otf_to_image(im, f.s("gsd"), f.s("range"), otf, *args)
        return np.asarray(out, dtype=float), np.asarray(kernel)
    sim, _ = call(img)
    if not (np.array_equal(H, keep[0]) and np.array_equal(img, keep[1])):
        raise core.Mismatch("input", "an argument was modified")
    if sim.shape != (ek["orows"], ek["ocols"]):
        raise core.Mismatch("shape", "simulated image is %r, the field of view at the camera's sampling is %r" % (sim.shape, (ek["orows"], ek["ocols"])))
    want = core.arr(e["sim"]).reshape(sim.shape)
    top = float(np.max(np.abs(img)))
    bad = np.abs(sim - want) > 1e-5 * top
    if bad.any():
        j = tuple(np.argwhere(bad)[0])
        raise core.Mismatch("value", "pixel %s = %r, specification says %r" % (j, sim[j], want[j]))
    # the laws by themselves
    flat, _ = call(np.full(img.shape, 7.25))
    if np.max(np.abs(flat - 7.25)) > 1e-5:
        raise core.Mismatch("uniform", "a uniform image at 7.25 becomes %r .. %r" % (flat.min(), flat.max()))
    if min(e["psf"]) >= 0 and (sim.min() < img.min() - 1e-6 * top or sim.max() > img.max() + 1e-6 * top):
        raise core.Mismatch("bounded", "values %r .. %r outside the image's %r .. %r" % (sim.min(), sim.max(), img.min(), img.max()))
    other = img[::-1, ::-1].copy()
    lhs, _ = call(2.5 * img + other)
    rhs = 2.5 * sim + call(other)[0]
    if np.max(np.abs(lhs - rhs)) > 1e-5 * top:
        raise core.Mismatch("linear", "the result is not linear in the image (difference %r)" % np.max(np.abs(lhs - rhs)))
    three, _ = call(np.dstack([img, other, 2.5 * img]))
    if three.shape != sim.shape + (3,) or np.max(np.abs(three[..., 0] - sim)) > 1e-5 * top or np.max(np.abs(three[..., 2] - 2.5 * sim)) > 3e-5 * top:
        raise core.Mismatch("channels", "the channels of a colour image are not treated one by one (result of shape %r)" % (three.shape,))
    # counts: whole numbers in, the same to within the rounding of each step out
    counts = np.round((img - img.min()) / max(float(np.ptp(img)), 1e-9) * 250)
    if min(e["psf"]) >= 0 and np.all(np.isfinite(counts)):
        ref, _ = call(counts)
        for t in (np.uint8, np.uint16, np.float32):
            got, _ = call(counts.astype(t))
            if got.shape != ref.shape or np.max(np.abs(got - ref)) > (0.01 if t is np.float32 else 2.1):
                raise core.Mismatch("counts", "an image of type %s gives another result than the same values as doubles (difference %r)" % (
                    t.__name__, np.max(np.abs(got - ref)) if got.shape == ref.shape else got.shape))
    tr, _ = call(img.T.copy(), H.T.copy())
    if tr.shape != sim.T.shape or np.max(np.abs(tr - sim.T)) > 1e-5 * top:
        raise core.Mismatch("transpose", "rows and columns are treated differently")


def large(f, case):
    from pybsm.otf import apply_otf_to_image
    n, e, ek = f.i("n"), case["e"], case["ek"]
    if ek["tie"] or ek["near"]:
        return
    img = np.outer(f.a("image_y"), f.a("image_x"))
    sim, _ = apply_otf_to_image(img, f.s("gsd"), f.s("range"), f.m("otf", n, n), f.s("df"), f.s("ifov"))
    want = sum(np.outer(core.arr(e["y_%d" % i]), core.arr(e["x_%d" % i])) for i in range(2))
    sim = np.asarray(sim, dtype=float)
    if sim.shape != want.shape:
        raise core.Mismatch("shape", "simulated image is %r, the field of view at the camera's sampling is %r" % (sim.shape, want.shape))
    bad = np.abs(sim - want) > 1e-5 * float(np.max(np.abs(img)))
    if bad.any():
        j = tuple(np.argwhere(bad)[0])
        raise core.Mismatch("value", "pixel %s = %r, specification says %r" % (j, sim[j], want[j]))


def echo_image(f, case):
    from pybsm.otf import apply_otf_to_image
    e = case["e"]
    if case["ek"]["near"]:
        return
    img = np.outer(f.a("image_y"), f.a("image_x")) + f.s("offset")
    sim, _ = apply_otf_to_image(img, f.s("gsd"), f.s("range"), echoes(f, f.i("n")), f.s("df"), f.s("ifov"))
    sim = np.asarray(sim, dtype=float)
    if sim.shape != img.shape:
        raise core.Mismatch("shape", "simulated image is %r, the field of view at the camera's sampling is %r" % (sim.shape, img.shape))
    got = sim[core.arr(e["row"]).astype(int), core.arr(e["col"]).astype(int)] - f.s("offset")
    atol = 2e-4 + 1e-10 * f.s("offset")
    if np.max(np.abs(got - core.arr(e["turned"]))) <= atol:      # towards which side a one-sided blur moves is not claimed
        return
    compare("value", got, e["value"], rtol=0, atol=atol)


def resample(f, case):
    from pybsm.otf import resample_2D
    ek = case["ek"]
    if ek["tie"] or not ek["orows"] or not ek["ocols"]:
        return
    img = f.m("img", f.i("rows"), f.i("cols"))
    keep = img.copy()
    out = np.asarray(resample_2D(img, f.s("dx_in"), f.s("dx_out")))
    if out.shape != (ek["orows"], ek["ocols"]):
        raise core.Mismatch("shape", "resampled image is %r, expected %r" % (out.shape, (ek["orows"], ek["ocols"])))
    compare("out", out, case["e"]["out"], rtol=0, atol=1e-6 * float(np.max(np.abs(img))))
    if not np.array_equal(img, keep):
        raise core.Mismatch("input", "image was modified")


def run(ctx):
    core.load_package(ctx)
    ctx.rules.append("each case is a state of gen_imaging!stepApply: images from smaller than the kernel to several hundred pixels, transfer "
                     "functions on 5x5 to 16x16 grids with even and diagonal parts, camera samplings 0.3 to 1.4 times the "
                     "image's; all pixels are compared exactly (the scene continued by reflection at its borders), and the laws")
    cs = core.cases(ctx, "gen_imaging.qnt", "stepApply", ctx.size(450, 12000), ["lawApply"])
    core.replay(ctx, cs, {"apply": apply, "resample": resample, "large": large, "echo_image": echo_image})
