import os

import numpy as np

from checks.c18 import database
from vf import atmos, core
from vf.camera import sensor
from vf.core import Mismatch

LEVEL = "exploration"
WORKERS = 7
DTYPES = [np.uint8, np.uint16, float]


def scenario(f):
    from pybsm.simulation import Scenario
    return Scenario("sc", f.i("ihaze"), f.s("altitude"), f.s("ground_range"), aircraft_speed=f.s("aircraft_speed"),
                    ha_wind_speed=f.s("ha_wind_speed"), cn2_at_1m=f.s("cn2_at_1m"), interp=bool(f.i("interp")))


def layout(f):
    """Which palette entry each pixel shows: blocks and isolated pixels."""
    rng = np.random.default_rng(f.i("seed"))
    rows, cols, n = f.i("rows"), f.i("cols"), len(f.f["palette"])
    coarse = rng.integers(0, n, (rows // 9 + 1, cols // 7 + 1))
    idx = np.kron(coarse, np.ones((9, 7), dtype=int))[:rows, :cols]
    dots = rng.random((rows, cols)) < 0.1
    return np.where(dots, rng.integers(0, n, (rows, cols)), idx)


def simulated(f, seed, idx):
    """One simulation on fresh objects under a random seed; nothing given may change."""
    from pybsm.simulation import RefImage, simulate_image
    s, sc = sensor(f), scenario(f)
    img = f.a("palette")[idx].astype(DTYPES[f.i("kind")])
    ref = RefImage(img, f.s("gsd"), f.a("pix_values"), f.a("refl_values"))
    keep = img.copy()
    np.random.seed(seed)
    out = simulate_image(ref, s, sc)
    if not np.array_equal(ref.img, keep) or ref.gsd != f.s("gsd"):
        raise Mismatch("input", "the reference image was modified")
    if len(out) != 3:
        raise Mismatch("result", "%d images are returned" % len(out))
    out = [np.asarray(x, dtype=float) for x in out]
    if not all(np.isfinite(x).all() for x in out):
        raise Mismatch("finite", "an image has values that are not finite")
    return out


def blurred(f, e, true, nudge=0.0):
    """The specification's composition of transfer function and imaging (checked in C10, C12, C13)."""
    from pybsm.otf import apply_otf_to_image, common_OTFs
    s, sc = sensor(f), scenario(f)
    one = lambda k: core.fl(e[k][0])  # noqa: E731
    u = np.linspace(-1.0, 1.0, 1501) * one("cutoff")
    uu, vv = np.meshgrid(u, -u)
    h = common_OTFs(s, sc, uu, vv, core.arr(e["wavelengths"]), core.arr(e["weights"]), one("slant"), s.int_time).system_OTF
    img, _ = apply_otf_to_image(true, f.s("gsd") * (1 + nudge), one("slant"), h, one("df"), one("ifov"))
    return img


def close(a, b, scale):
    return a.shape == b.shape and np.max(np.abs(a - b)) <= 2e-5 * scale


def correlated(z, y, same):
    """Largest correlation, in standard errors, between two noise images at any displacement."""
    from scipy.signal import fftconvolve
    r = fftconvolve(z, y[::-1, ::-1])
    n = fftconvolve((z != 0).astype(float), (y != 0).astype(float)[::-1, ::-1])
    ok = n > 1000
    if same:
        ok[y.shape[0] - 1, y.shape[1] - 1] = False
    r = np.where(ok, r / np.sqrt(np.where(ok, n, 1)), 0)
    i, j = np.unravel_index(np.argmax(np.abs(r)), r.shape)
    return r[i, j], (i - y.shape[0] + 1, j - y.shape[1] + 1)


def standard(noisy, blur, readout):
    """Noise in standard deviations where there is enough light for one, else zero."""
    var = np.maximum(blur, 0) + readout
    return np.where(var > 1, (noisy - blur) / np.sqrt(np.where(var > 1, var, 1)), 0)


def noise_law(noisy, blur, readout, pool=None):
    """The draw's mean, variance (by brightness) and independence."""
    if noisy.shape != blur.shape:
        raise Mismatch("noise.shape", "noisy image of shape %r, blurred image of shape %r" % (noisy.shape, blur.shape))
    var = np.maximum(blur, 0) + readout
    if var.max() == 0:
        return 0
    d = noisy - blur
    live = var > 1e-9
    if np.any(np.abs(d[~live]) > 1e-3):
        raise Mismatch("noise.none", "noise without photons or read-out")
    z = np.where(live, d / np.sqrt(np.where(live, var, 1)), 0)
    n = live.sum()
    if n < 200:
        return 0
    order = np.argsort(var[live], kind="stable")
    zz, vv = z[live][order], var[live][order]
    lam = np.maximum(blur, 0)[live][order]
    if pool is not None:
        ok = vv > 1
        pool.append((ok.sum(), (zz[ok] ** 2).sum(), (2 + lam[ok] / vv[ok] ** 2).sum()))
    for part in np.array_split(np.arange(n), min(6, n // 200)):
        if lam[part].sum() < 60 and readout < 1e-6:
            continue        # too few photons for a variance
        m = part.size
        mean = zz[part].sum() / np.sqrt(m)
        if abs(mean) > 7:
            raise Mismatch("noise.mean", "noise has mean %.3g standard errors at about %.3g photoelectrons" % (mean, lam[part].mean()))
        spread = 2 * m + (lam[part] / vv[part] ** 2).sum()      # variance of the sum of squares: Poisson excess kurtosis
        dev = ((zz[part] ** 2).sum() - m) / np.sqrt(spread)
        if abs(dev) > 8:
            raise Mismatch("noise.variance", "noise variance is %.4g times blurred + read-out variance at about %.3g photoelectrons (%.1f sigma)" % (
                (zz[part] ** 2).mean(), lam[part].mean(), dev))
    for what, a, b in (("rows", z[1:], z[:-1]), ("columns", z[:, 1:], z[:, :-1]), ("diagonals", z[1:, 1:], z[:-1, :-1])):
        if a.size > 200:
            corr = (a * b).sum() / np.sqrt(a.size)
            if abs(corr) > 8:
                raise Mismatch("noise.independence", "noise of neighbouring %s is correlated (%.1f sigma)" % (what, corr))
    z = standard(noisy, blur, readout)
    corr, lag = correlated(z, z, True)
    if abs(corr) > 10:
        raise Mismatch("noise.independence", "noise of pixels (%d, %d) apart is correlated (%.1f sigma)" % (lag + (corr,)))
    return n


def colour(f, idx, want, peak, blur, scale, readout, pool):
    """An image of several channels: each is the image of that channel, with noise of its own."""
    idx3 = np.dstack([idx, idx[::-1], idx])
    true3, blur3, noisy3 = simulated(f, f.i("seed") + 7, idx3)
    if true3.shape != idx3.shape:
        raise Mismatch("true.shape", "true image of shape %r for a reference image of shape %r" % (true3.shape, idx3.shape))
    if blur3.shape != blur.shape + (3,) or noisy3.shape != blur3.shape:
        raise Mismatch("channels", "images of shape %r, %r for three channels" % (blur3.shape, noisy3.shape))
    for k, w in enumerate((want, want[::-1], want)):
        if np.max(np.abs(true3[..., k] - w)) > 2e-6 * peak:
            raise Mismatch("true", "channel %d of the true image is not that channel's photoelectrons" % k)
    for k in (0, 2):
        if not close(blur3[..., k], blur, scale):
            raise Mismatch("blur", "channel %d of the blurred image is not the blurred channel" % k)
    for k in range(3):
        noise_law(noisy3[..., k], blur3[..., k], readout, pool)
    a, b = ((noisy3 - blur3)[..., k].ravel() for k in (0, 2))
    if a.size > 200 and a.std() > 0 and b.std() > 0:
        corr = float(np.mean((a / a.std()) * (b / b.std())) * np.sqrt(a.size))
        if abs(corr) > 8 and np.maximum(blur, 0).max() * a.size > 1e4:
            raise Mismatch("noise.channels", "noise of two channels is correlated (%.1f sigma)" % corr)


def image(f, case, atms):
    e = case["e"]
    files = database(f, atms)
    try:
        idx = layout(f)
        true, blur, noisy = simulated(f, f.i("seed"), idx)
        want = core.arr(e["electrons"])[idx]
        peak = float(want.max())
        if true.shape != want.shape:
            raise Mismatch("true.shape", "true image of shape %r for a reference image of shape %r" % (true.shape, want.shape))
        bad = np.abs(true - want) > 2e-6 * peak
        if bad.any():
            i, j = np.argwhere(bad)[0]
            raise Mismatch("true", "pixel (%d, %d) collects %r photoelectrons, expected %r" % (i, j, true[i, j], want[i, j]))
        scale = peak * max(1.0, float(np.abs(f.a("filter_kernel")).sum()))
        # the composition; kernel and image sizes are whole numbers that rounding may tip
        if not any(close(blur, blurred(f, e, true, nudge), scale) for nudge in (0.0, 1e-9, -1e-9)):
            b = blurred(f, e, true)
            raise Mismatch("blur", "the blurred image is not the true image under the system transfer function (shape %r, expected %r; "
                           "largest difference %s of peak %r)" % (blur.shape, b.shape,
                                                                  np.max(np.abs(b - blur)) if b.shape == blur.shape else "-", peak))
        readout = core.fl(e["readout"][0])
        pool = []
        n = noise_law(noisy, blur, readout, pool)
        _, blur2, noisy2 = simulated(f, f.i("seed") + 1 + 12345 * f.i("again"), idx)
        if not np.array_equal(blur2, blur):
            raise Mismatch("blur.random", "the blurred image depends on the random seed")
        noise_law(noisy2, blur, readout, pool)
        if n:
            if np.array_equal(noisy, noisy2):
                raise Mismatch("seed.different", "two seeds give the same noisy image")
            a, b = (noisy - blur).ravel(), (noisy2 - blur).ravel()
            if a.std() > 0 and b.std() > 0 and (np.maximum(blur, 0).sum() > 1e4 or readout > 1e-6 * (1 + blur.max())):
                corr = float(np.mean((a / a.std()) * (b / b.std())) * np.sqrt(a.size))
                if abs(corr) > 8:
                    raise Mismatch("seed.independent", "draws under two seeds are correlated (%.1f sigma)" % corr)
            corr, lag = correlated(standard(noisy, blur, readout), standard(noisy2, blur, readout), False)
            if abs(corr) > 10:
                raise Mismatch("seed.independent", "draws under two seeds are correlated when displaced by (%d, %d) (%.1f sigma)" % (lag + (corr,)))
        if f.i("again") == 0:
            if not np.array_equal(simulated(f, f.i("seed"), idx)[2], noisy):
                raise Mismatch("seed.same", "the same seed gives another noisy image")
        else:
            colour(f, idx, want, peak, blur, scale, readout, pool)
        # all pixels of all draws as one class
        m, squares, spread = (sum(x) for x in zip((0, 0.0, 0.0), *pool))
        if m > 500 and abs(squares - m) > 6.5 * np.sqrt(spread):
            raise Mismatch("noise.variance", "noise variance is %.4g times blurred + read-out variance over all draws (%.1f sigma)" % (
                squares / m, (squares - m) / np.sqrt(spread)))
    finally:
        for rec in files:
            os.remove(atmos.path(atms, rec))


def _work(ctx, part):
    core.replay(ctx, part, {"image": lambda f, case: image(f, case, ctx.atms)}, limit=200, decoy=False)


def run(ctx):
    import logging
    logging.disable(logging.WARNING)
    core.load_package(ctx)
    ctx.rules.append("each case is a state of gen_image!stepImage: a listed or interpolated condition, sensors from a few photoelectrons to "
                     "an overfull well with and without sharpening, palettes of 1 to 8 pixel values of three types calibrated by three pairs, "
                     "laid out on about 110x110 pixels; true image per pixel, blurred image against the composition of the specification's "
                     "arguments, noise by brightness class, neighbours, channels and seeds")
    cs = core.cases(ctx, "gen_image.qnt", "stepImage", ctx.size(28, 600), ["lawImage"])
    core.workers(ctx, cs, _work, WORKERS)
