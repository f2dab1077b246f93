import copy
import os
import re

import numpy as np

from checks.c18 import database, scenario
from vf import atmos, core
from vf.camera import sensor
from vf.core import Mismatch, compare

LEVEL = "exploration"
WORKERS = 7
CURVES = [("ap_OTF", "aperture"), ("turb_OTF", "turbulence"), ("det_OTF", "detector"), ("jit_OTF", "jitter"),
          ("drft_OTF", "drift"), ("wav_OTF", "wavefront"), ("filter_OTF", "image processing"), ("system_OTF", "system")]
SIZES = [(6.4, 4.8), (4.0, 3.0), (10.0, 7.0)]
BARS = [("total", "total"), ("scene", "scene"), ("path", "path"), ("emission", "emission"), ("dark", "dark"),
        ("quantization", "quantization"), ("readout", "read")]


def freeze(nm):
    """The metrics by value."""
    def val(x):
        return x.copy() if isinstance(x, np.ndarray) else x
    flat = {}
    for part, obj in (("", nm), ("otf.", nm.otf), ("snr.", nm.snr), ("sensor.", nm.sensor), ("scenario.", nm.scenario)):
        for k, v in vars(obj).items():
            if k not in ("otf", "snr", "sensor", "scenario"):
                flat[part + k] = val(v)
    return flat


def same(nm, before):
    now = freeze(nm)
    if set(now) != set(before):
        raise Mismatch("changed", "plotting added or removed fields: %r" % sorted(set(now) ^ set(before)))
    for k, v in before.items():
        w = now[k]
        ok = np.array_equal(np.asarray(v), np.asarray(w), equal_nan=True) if isinstance(v, (np.ndarray, float, complex)) else v is w or v == w
        if not ok:
            raise Mismatch("changed", "plotting changed %s" % k)


def evaluation(f, atms):
    from pybsm import metrics
    files = database(f, atms)
    try:
        s, sc = sensor(f), scenario(f)
        return (metrics.niirs, metrics.niirs5)[f.i("first") % 2](s, sc, interp=bool(f.i("interp")))
    finally:
        for rec in files:
            os.remove(atmos.path(atms, rec))


def figure(f):
    import matplotlib.pyplot as plt
    plt.close("all")
    plt.rcParams["figure.figsize"] = SIZES[f.i("size")]
    plt.figure(3)
    if f.i("size") != 1:
        plt.figure(4), plt.figure(3)        # the current figure is not the newest
    return plt


def curves(plt):
    """Drawn lines by their legend entry."""
    from matplotlib.colors import to_rgba
    if plt.gcf().number != 3:
        raise Mismatch("figure", "the curves are not drawn in the current figure")
    ax = plt.gca()
    leg = ax.get_legend()
    if leg is None:
        raise Mismatch("legend", "the plot has no legend")
    plt.gcf().canvas.draw()
    names = [t.get_text() for t in leg.get_texts()]
    if len(leg.get_lines()) != len(names):
        raise Mismatch("legend", "%d legend lines for %d names" % (len(leg.get_lines()), len(names)))
    lines, out = list(ax.lines), {}

    def style(h):
        return to_rgba(h.get_color()), h.get_linestyle(), h.get_linewidth()
    for name, h in zip(names, leg.get_lines()):
        fits = [x for x in lines if style(x) == style(h)]
        if not fits:
            raise Mismatch("legend", "no line is drawn like the legend entry %r" % name)
        lines.remove(fits[0])
        out[name] = fits[0]
    if lines:
        raise Mismatch("legend", "%d lines are drawn without a legend entry" % len(lines))
    if sorted(out) != sorted(n for _, n in CURVES):
        raise Mismatch("legend", "the legend names %r" % sorted(out))
    return ax, out


def axes(nm, ax, out, e):
    freq = core.arr(e["freq"])
    step = freq[1]
    for name, line in out.items():
        x = np.asarray(line.get_xdata(), dtype=float)
        if x.size not in (50, 51):
            raise Mismatch("samples", "the %s line has %d samples" % (name, x.size))
        if np.max(np.abs(x - freq[:x.size])) > 0.2 * step:
            j = int(np.argmax(np.abs(x - freq[:x.size])))
            raise Mismatch("frequency", "%s: sample %d is at %r cycles/mm instead of %r" % (name, j, x[j], freq[j]))
    xlim, ylim = ax.get_xlim(), ax.get_ylim()
    if abs(xlim[0]) > 0.2 * step or abs(xlim[1] - freq[-1]) > 1.2 * step or ylim[0] != 0:
        raise Mismatch("limits", "the axes show %r x %r" % (xlim, ylim))
    notes = [t for t in ax.texts if hasattr(t, "xy") and getattr(t, "arrow_patch", None) is not None]
    if len(notes) != 1:
        raise Mismatch("nyquist", "%d arrows are drawn" % len(notes))
    compare("nyquist", notes[0].xy[0], e["nyquist"])


def draw(f, nm):
    from pybsm.metrics import plot_common_MTFs
    plt = figure(f)
    before = freeze(nm)
    if f.i("default"):
        plot_common_MTFs(nm)
    else:
        plot_common_MTFs(nm, f.s("angle"))
    same(nm, before)
    return curves(plt)


def own(f, case, nm):
    """The evaluation's own transfer functions."""
    e = case["e"]
    ax, out = draw(f, nm)
    axes(nm, ax, out, e)
    tol = {"turb_OTF": 1e-3}
    for part, name in CURVES[:6]:
        y = np.asarray(out[name].get_ydata(), dtype=float)
        compare("own." + part, y[:2], [abs(x) for x in e[part]], rtol=1e-6, atol=tol.get(part, 2e-6))
    i = (slice(50, None, -1), 50) if f.i("vertical") else (50, slice(50, None))
    for part, name in CURVES:
        y = np.asarray(out[name].get_ydata(), dtype=float)
        want = np.abs(np.asarray(getattr(nm.otf, part))[i])[:y.size]
        if not np.allclose(y, want, rtol=1e-6, atol=1e-9):
            raise Mismatch("own." + part, "the %s line is not the reported transfer function" % name)


def mtf(f, case, nm):
    """Transfer functions given by the specification, any orientation."""
    e = case["e"]
    keep = nm.otf
    x, y = np.meshgrid(np.linspace(-1, 1, 101), np.linspace(1, -1, 101))
    nm.otf = type(keep)()
    vars(nm.otf).update(vars(keep))
    for part, _ in CURVES:
        a, b, c, d = f.a(part)
        setattr(nm.otf, part, a + b * x + c * y + d * x * y)
    ax, out = draw(f, nm)
    nm.otf = keep
    axes(nm, ax, out, e)
    for part, name in CURVES:
        y = np.asarray(out[name].get_ydata(), dtype=float)
        compare("curve." + part, y, e[part][:y.size], rtol=1e-8, atol=1e-8)
    top = max(core.arr(e["filter_OTF"]))
    if abs(ax.get_ylim()[1] - top) > 0.02 * top:
        raise Mismatch("limits", "the vertical axis ends at %r, the filter's transfer function at %r" % (ax.get_ylim()[1], top))


def report(f, case, nm):
    """An evaluation that reports the given noise terms, drawn while other plots are open."""
    other = copy.copy(nm)
    other.snr, other.sensor = copy.copy(nm.snr), copy.copy(nm.sensor)
    for k in f.f:
        setattr(other.sensor if k == "read_noise" else other.snr, k, f.s(k))
    noise(f, case, other, keep=True)


def show(f, case, nm):
    import matplotlib.pyplot as plt
    from pybsm.simulation import RefImage
    img = f.m("img", f.i("rows"), f.i("cols"))
    if f.i("colour"):
        img = np.dstack([img, img[::-1], img[:, ::-1]])
    keep = img.copy()
    ref = RefImage(img, f.s("gsd"), np.array([0.0, 1.0]), np.array([0.0, 1.0]))
    plt.close("all")
    ref.show()
    if not np.array_equal(img, keep) or not np.array_equal(np.asarray(ref.img), keep):
        raise Mismatch("show.changed", "showing an image changed it")
    ax = plt.gca()
    if len(ax.images) != 1:
        raise Mismatch("show", "%d images are drawn" % len(ax.images))
    drawn = ax.images[0]
    got = np.asarray(drawn.get_array(), dtype=float)
    if got.shape != keep.shape or not np.allclose(got, keep, rtol=0, atol=1e-9) or drawn.origin != "upper":
        raise Mismatch("show", "the picture drawn is not the image")
    compare("show.extent", np.asarray(drawn.get_extent(), dtype=float), case["e"]["extent"], rtol=1e-9)
    limits = np.array(ax.get_xlim() + ax.get_ylim())
    compare("show.limits", limits, case["e"]["extent"], rtol=1e-9)
    for text in (ax.get_xlabel(), ax.get_ylabel()):
        if "(m)" not in text:
            raise Mismatch("show.labels", "an axis in metres is labelled %r" % text)


def noise(f, case, nm, keep=False):
    from pybsm.metrics import plot_noise_terms
    e = case["e"]
    if keep:
        import matplotlib.pyplot as plt
    else:
        plt = figure(f)
    # a figure that is open and still empty stays as it is
    empty = plt.figure() if f.i("limit") % 3 == 0 else None
    opened = plt.get_fignums()
    before = freeze(nm)
    limit = f.i("limit") / 1000 if f.i("limit") % 1000 else f.i("limit") // 1000
    if limit:
        plot_noise_terms(nm, limit)
    elif f.i("size"):
        plot_noise_terms(nm)
    else:
        plot_noise_terms(nm, max_val=0)
    same(nm, before)
    if len(plt.get_fignums()) != len(opened) + 1 or plt.gcf().number in opened or (empty is not None and empty.axes):
        raise Mismatch("figure", "the noise plot does not have a figure of its own")
    ax = plt.gca()
    plt.gcf().canvas.draw()
    bars = [(p.get_x() + p.get_width() / 2, p.get_height()) for p in ax.patches]
    if len(bars) != 7:
        raise Mismatch("bars", "%d bars are drawn" % len(bars))
    ticks = [(x, t.get_text()) for x, t in zip(ax.get_xticks(), ax.get_xticklabels()) if t.get_text().strip()]
    every = (e["path"][0] + e["scene"][0]) / core.ONE
    for key, word in BARS:
        at = [x for x, t in ticks if word in t.lower()]
        if len(at) != 1:
            raise Mismatch("names", "the names under the bars are %r" % [t for _, t in ticks])
        have = [h for x, h in bars if abs(x - at[0]) < 0.3]
        if len(have) != 1:
            raise Mismatch("names", "no bar stands over %r at %r" % (word, at[0]))
        if key in ("scene", "path"):
            got = 0.0 if np.isnan(have[0]) and key == "scene" and e[key][0] / core.ONE < 4e-6 * every else have[0] ** 2
            compare("bar." + key, got, e[key], rtol=4e-6, atol=4e-6 * every)
        else:
            compare("bar." + key, have[0], e[key], rtol=4e-6)
    title = ax.get_title()
    for key, pat in (("photoelectrons", r"total\D*?(-?\d+)"), ("contrast", r"contrast\D*?(-?\d+)"), ("fill", r"fill\D*?(-?\d+)\s*%")):
        m = re.search(pat, title)
        if not m:
            raise Mismatch("summary", "the summary %r does not give the %s" % (title, key))
        v = core.fl(e[key][0])
        # whole numbers cut off
        slack = 1e-5 * (core.fl(e["photoelectrons"][0]) if key == "contrast" else abs(v))
        if not (v - 1 - slack <= int(m.group(1)) <= v + slack + (v < 0)):
            raise Mismatch("summary." + key, "the summary says %s, the %s is %r" % (m.group(1), key, v))
    if limit and tuple(ax.get_ylim()) != (0, limit):
        raise Mismatch("limit", "the vertical axis shows %r, asked for 0 to %r" % (ax.get_ylim(), limit))
    if not limit and ax.get_ylim()[1] < max(h for _, h in bars if not np.isnan(h)):
        raise Mismatch("limit", "a bar is cut off")


def _work(ctx, part):
    for group in part:
        held = {}

        def chain(f, case):
            held["nm"] = evaluation(f, ctx.atms)

        def plot(fn):
            def run_case(f, case):
                if "nm" in held:
                    fn(f, case, held["nm"])
            return run_case
        core.replay(ctx, group, {"chain": chain, "own": plot(own), "mtf": plot(mtf), "noise": plot(noise), "report": plot(report),
                                    "show": plot(show)}, limit=120, decoy=False)
        ctx.traces += 1


def run(ctx):
    core.load_package(ctx)
    ctx.rules.append("each history is an evaluation of gen_plots (sensor, scenario and database records as in C18), a plot of its own "
                     "transfer functions along u or v, a plot of generated transfer functions at any orientation a noise plot "
                     "with and without axis limit at three figure sizes, another of generated noise terms while that one is open, and a "
                     "reference image on the ground")
    n = ctx.size(40, 700)
    procs = 8 if ctx.thorough else 5
    groups = []
    for tr in core.quint_run(ctx, "gen_plots.qnt", steps=6 * (-(-n // procs)), procs=procs, invariants=["lawPlots"],
                             timeout=7200 if ctx.thorough else 600):
        cs = [s["c"] for s in tr][1:]
        groups += [cs[i:i + 6] for i in range(0, len(cs) - 5, 6) if not cs[i]["k"]["exact"]]
    if len(groups) < n // 2:
        raise core.MachineryError("only %d histories" % len(groups))
    core.workers(ctx, groups, _work, WORKERS)
