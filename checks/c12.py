import numpy as np

from vf import core
from vf.core import compare

LEVEL = "exploration"


def psf(f, case):
    from pybsm.otf import otf_to_psf
    e, ek = case["e"], case["ek"]
    H = f.m("otf", f.i("rows"), f.i("cols"))
    keep = H.copy()
    p = np.asarray(otf_to_psf(H, f.s("df"), f.s("dx")))
    if not np.array_equal(H, keep):
        raise core.Mismatch("input", "transfer function was modified")
    if p.ndim != 2 or p.shape[0] != p.shape[1]:
        raise core.Mismatch("shape", "kernel of shape %r" % (p.shape,))
    if abs(p.sum() - 1) > 1e-9:
        raise core.Mismatch("sum", "kernel sums to %r" % p.sum())
    if ek["symmetric"] and np.max(np.abs(p - p[::-1, ::-1])) > 1e-6 * np.max(np.abs(p)):
        raise core.Mismatch("symmetric", "kernel of a symmetric transfer function is not symmetric")
    if ek["near"]:      # the support decision is too close to its threshold
        return
    want = core.arr(e["psf"])
    compare("psf", p, e["psf"], rtol=0, atol=2e-6 * float(np.max(np.abs(want))))


def large(f, case):
    from pybsm.otf import otf_to_psf
    e = case["e"]
    H = np.outer(f.a("otf_y"), f.a("otf_x"))
    p = np.asarray(otf_to_psf(H, f.s("df"), f.s("dx")))
    if case["ek"]["near"]:
        return
    want = sum(np.outer(core.arr(e["y_%d" % i]), core.arr(e["x_%d" % i])) for i in range(2))
    if p.shape != want.shape:
        raise core.Mismatch("shape", "kernel of shape %r, expected %r" % (p.shape, want.shape))
    if np.max(np.abs(p - want)) > 2e-6 * np.max(np.abs(want)):
        raise core.Mismatch("psf", "kernel of a large transfer function departs by %r" % np.max(np.abs(p - want)))


def echoes(f, n):
    """A transfer function that is a sum of cosines, or of one-sided echoes: then it is complex."""
    k = np.arange(n) - n // 2
    h = 0
    for y, x, a in zip(f.a("echo_y"), f.a("echo_x"), f.a("echo_a")):
        ey, ex = (np.exp(-2j * np.pi * k * int(d) / n) for d in (y, x))
        h = h + a * np.outer(ey, ex)
    return np.ascontiguousarray(h.real) if np.abs(h.imag).max() < 1e-9 * np.abs(h).max() else h


def echo_psf(f, case):
    from pybsm.otf import otf_to_psf
    e, ek = case["e"], case["ek"]
    p = np.asarray(otf_to_psf(echoes(f, f.i("n")), f.s("df"), f.s("dx")))
    if ek["near"]:
        return
    if p.shape != (ek["size"], ek["size"]):
        raise core.Mismatch("shape", "kernel of shape %r, expected %d samples" % (p.shape, ek["size"]))
    want = np.zeros(p.shape)
    for y, x, a in zip(*(core.arr(e["echo_" + i]) for i in "yxa")):
        want[ek["middle"] + int(y), ek["middle"] + int(x)] += a
    if np.max(np.abs(p - want)) > 2e-6 * np.max(want):
        raise core.Mismatch("psf", "kernel of a large transfer function departs by %r" % np.max(np.abs(p - want)))


def run(ctx):
    core.load_package(ctx)
    ctx.rules.append("each case is a state of gen_imaging!stepPsf: transfer functions on 4x4 to 25x25 grids, square or not, and large square ones, among them sums of cosines up to 1501x1501 (even, diagonal and "
                     "one-sided parts, low-pass and sharpening), output samplings from coarser to finer than the transform's")
    cs = core.cases(ctx, "gen_imaging.qnt", "stepPsf", ctx.size(450, 12000), ["lawPsf"])
    core.replay(ctx, cs, {"psf": psf, "large_psf": large, "echo_psf": echo_psf})
