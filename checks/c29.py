import numpy as np

from vf import core
from vf.core import compare

LEVEL = "exploration"


def wiener(f, case):
    from pybsm.simulation.functional import wiener_filter
    shape = (f.i("cols"),) if f.i("line") else (f.i("rows"), f.i("cols"))
    re, im, noise = (core.arr(case["f"][n]).reshape(shape) for n in ("re", "im", "noise"))
    h = re + 1j * im if f.i("kind") == 0 else re if f.i("kind") == 1 else re.astype(int)
    if f.i("cols") % 2 and h.ndim == 2:
        h = np.asfortranarray(h)
    ratio = noise if f.i("each") else core.F({"f": {"n": case["f"]["noise"][:1]}, "k": {}}).s("n")
    kept, keptn = h.copy(), np.copy(ratio)
    w = np.asarray(wiener_filter(h, ratio))
    if w.shape != h.shape:
        raise core.Mismatch("shape", "a filter of shape %r for a transfer function of shape %r" % (w.shape, h.shape))
    if not (np.array_equal(h, kept) and np.array_equal(ratio, keptn)):
        raise core.Mismatch("input", "the transfer function or the noise was modified")
    at = 1e-12 * max(1e-300, float(np.max(np.abs(w))))
    compare("re", np.real(w), case["e"]["re"], atol=at)
    compare("im", np.imag(w), case["e"]["im"], atol=at)
    # blurred, then restored
    compare("restored", np.real(kept * w), case["e"]["restored"], atol=1e-9)
    compare("phase", np.imag(kept * w), [0] * w.size, atol=1e-9)


def ifov(f, case):
    from pybsm.simulation.functional import instantaneous_FOV
    compare("ifov", instantaneous_FOV(f.s("w"), f.s("f")), case["e"]["ifov"])


def run(ctx):
    core.load_package(ctx)
    ctx.rules.append("each case is a state of gen_restore!stepRestore: complex, real and integer transfer functions of one or two dimensions with up to "
                     "48 frequencies, some of them lost, with no noise, one noise ratio or one per frequency; and detector footprints")
    cs = core.cases(ctx, "gen_restore.qnt", "stepRestore", ctx.size(2500, 50000), ["lawRestore"])
    core.replay(ctx, cs, {"wiener": wiener, "ifov": ifov})
