import math
import os
import shutil

import numpy as np

from checks.c10 import PARTS, filter_bounds
from vf import atmos, core
from vf.camera import sensor
from vf.core import Mismatch, compare

LEVEL = "exploration"
WORKERS = 7

SPECTRA = ["tgt_FPA_irradiance", "bkg_FPA_irradiance", "opt_trans", "qe", "weights"]
COUNTS = ["tgt_n", "bkg_n", "int_time", "well_fraction", "dark_current_noise", "self_emission_noise", "tgt_n_rate",
          "bkg_n_rate", "signal_noise", "quantization_noise", "total_noise"]


def database(f, atms):
    """The record files of one case."""
    cols = [f.a("base_%d" % i) for i in range(1, 6)]
    used = [(f.i("r%d" % i), f.i("m%d" % i)) for i in range(4)]
    for rec, m in used:
        if rec:
            atmos.write_rows(atms, rec, f.i("first"), cols, m)
    return [rec for rec, _ in used if rec]


def scenario(f):
    from pybsm.simulation import Scenario
    return Scenario("sc", f.i("ihaze"), f.s("altitude"), f.s("ground_range"), aircraft_speed=f.s("aircraft_speed"),
                    ha_wind_speed=f.s("ha_wind_speed"), cn2_at_1m=f.s("cn2_at_1m"),
                    target_reflectance=f.s("target_reflectance"), target_temperature=f.s("target_temperature"),
                    background_reflectance=f.s("background_reflectance"), background_temperature=f.s("background_temperature"),
                    interp=bool(f.i("first") % 2))


def scalar(x, name):
    a = np.asarray(x, dtype=float)
    if a.size != 1 or not np.isfinite(a).all():
        raise Mismatch(name, "%s is %r" % (name, x))
    return float(a.ravel()[0])


def bookkeeping(f, sc):
    if f.i("emissive"):
        want = (0.0, 0.0, 282.0, 280.0)
    else:
        want = (0.15, 0.07, f.s("target_temperature"), f.s("background_temperature"))
    have = (sc.target_reflectance, sc.background_reflectance, sc.target_temperature, sc.background_temperature)
    if have != want:
        raise Mismatch("scenario", "reflectances and temperatures are %r afterwards, expected %r" % (have, want))


def chain(f, e, ek, nm, s, sc, sharpened):
    """Everything but the edge terms and ratings."""
    if nm.sensor is not s or nm.scenario is not sc:
        raise Mismatch("identity", "the metrics do not refer to the given sensor and scenario")
    n = len(e["atm_w"])
    a = np.asarray(nm.atm)
    if a.shape != (n, 6):
        raise Mismatch("atm.shape", "the atmosphere of the band has shape %r, the band covers %d rows" % (a.shape, n))
    compare("atm.w", a[:, 0], e["atm_w"], rtol=1e-9)
    for i in range(1, 6):
        compare("atm.%d" % i, a[:, i], e["atm_%d" % i], rtol=1e-6)
    compare("tgt_radiance", nm.tgt_radiance, e["tgt_radiance"], rtol=1e-6)
    compare("bkg_radiance", nm.bkg_radiance, e["bkg_radiance"], rtol=1e-6)
    compare("radiance_wavelengths", nm.radiance_wavelengths, e["atm_w"], rtol=1e-9)
    q = nm.snr
    for name in SPECTRA:
        compare("snr." + name, getattr(q, name), e[name], rtol=2e-6)
    for name in COUNTS:
        compare("snr." + name, getattr(q, name), e[name], rtol=2e-6)
    # differences of counts that agree to about 1e-6
    counts = max(e["tgt_n"][0], e["bkg_n"][0]) / core.ONE
    compare("snr.contrast_signal", q.contrast_signal, e["contrast_signal"], rtol=1e-6, atol=2e-6 * counts)
    compare("snr.snr", q.snr, e["snr"], rtol=3e-6, atol=2e-6 * counts * core.ONE / e["total_noise"][0])
    every = (e["path_squared"][0] + e["scene_squared"][0]) / core.ONE
    compare("snr.path_noise", scalar(q.path_noise, "path_noise") ** 2, e["path_squared"], rtol=3e-6, atol=1e-12 * every)
    scene = np.asarray(q.scene_noise, dtype=float)
    scene = 0.0 if e["scene_squared"][0] / core.ONE < 4e-6 * every and np.isnan(scene).all() else scalar(scene, "scene_noise") ** 2
    compare("snr.scene_noise", scene, e["scene_squared"], rtol=3e-6, atol=4e-6 * every)
    compare("mtf_wavelengths", nm.mtf_wavelengths, e["mtf_wavelengths"], rtol=1e-9)
    compare("mtf_weights", nm.mtf_weights, e["mtf_weights"], rtol=2e-6)
    compare("cutoff", scalar(nm.cutoff_frequency, "cutoff"), e["cutoff"])
    compare("df", scalar(nm.df, "df"), e["df"])
    # double arithmetic on squared distances from the Earth's centre: absolute error below 0.2 m^2
    compare("slant_range^2", scalar(nm.slant_range, "slant_range") ** 2, [e["slant"][0] ** 2 // core.ONE], rtol=1e-9, atol=0.2)
    compare("ifov_x", nm.ifov_x, e["ifov_x"])
    compare("ifov_y", nm.ifov_y, e["ifov_y"])
    # the frequency grid and the transfer functions at seven of its positions
    steps = np.linspace(-1.0, 1.0, 101) * (e["cutoff"][0] / core.ONE)
    for g, want in ((nm.uu, np.tile(steps, (101, 1))), (nm.vv, np.tile(-steps[:, None], (1, 101)))):
        if np.shape(g) != (101, 101) or not np.allclose(g, want, rtol=1e-9, atol=1e-9 * steps[-1]):
            raise Mismatch("grid", "the spatial frequencies do not run from -cutoff to cutoff in 101 steps")
    row = [int(core.fl(x)) for x in e["row"]]
    col = [int(core.fl(x)) for x in e["col"]]
    h = {}
    for p in PARTS + ["system_OTF"]:
        x = np.asarray(getattr(nm.otf, p))
        if x.shape != (101, 101):
            raise Mismatch("otf.shape", "%s has shape %r" % (p, x.shape))
        h[p] = x[row, col]
    compare("aperture", h["ap_OTF"], e["ap"], rtol=0, atol=1e-6)
    compare("detector", h["det_OTF"], e["det"], rtol=0, atol=1e-8)
    compare("jitter", h["jit_OTF"], e["jit"], rtol=1e-7, atol=1e-8)
    compare("drift", h["drft_OTF"], e["drft"], rtol=0, atol=2e-6)
    compare("wavefront", h["wav_OTF"], e["wav"], rtol=1e-6, atol=1e-7)
    compare("turbulence", h["turb_OTF"], e["turb"], rtol=0, atol=1e-3 if ek["turbulent"] else 1e-12)
    if sharpened:
        filter_bounds(h["filter_OTF"], e, float(np.abs(s.filter_kernel).sum()) if ek["filter"] else 0)
    elif not np.array_equal(np.asarray(nm.otf.filter_OTF), np.ones((101, 101))):
        raise Mismatch("unsharpened", "a version 5 evaluation uses the sharpening kernel")
    prod = np.prod([np.asarray(getattr(nm.otf, p)) for p in PARTS], axis=0)
    if not np.allclose(prod, nm.otf.system_OTF, rtol=0, atol=1e-9):
        raise Mismatch("product", "the system transfer function is not the product of its components")


def snapshot(s):
    return {k: (v.copy() if isinstance(v, np.ndarray) else v) for k, v in vars(s).items()}


def unchanged(s, before):
    for k, v in before.items():
        w = getattr(s, k)
        if not (np.array_equal(w, v) if isinstance(v, np.ndarray) else w == v):
            raise Mismatch("sensor", "the evaluation changed sensor.%s from %r to %r" % (k, v, w))


def fixed(x):
    """A double as a fixed-point integer, exactly."""
    x = float(x)
    if not math.isfinite(x):
        raise Mismatch("finite", "a reported value is %r" % x)
    a, b = x.as_integer_ratio()
    return a * core.ONE // b


def recorded(nm, s, sc, edge):
    h = np.abs(np.asarray(nm.otf.system_OTF))
    rec = {"u": h[50, 50:], "v": h[50::-1, 50], "df": [nm.df], "ifov_x": [nm.ifov_x], "ifov_y": [nm.ifov_y],
           "snr": [nm.snr.snr], "stacks": [s.frame_stacks], "elev": [nm.elev_angle],
           "slant": [nm.slant_range], "altitude": [sc.altitude]}
    if edge == 3:
        # not a number only where the geometric mean does not exist; decided by the specification
        rec.update(gsd=[nm.gsd_gm], ng=[nm.ng], rer=[np.nan_to_num(nm.rer_gm)], eho=[np.nan_to_num(nm.eho_gm)])
    else:
        rec.update(gsd=[nm.gsd_x], rer0=[nm.rer_0], rer90=[nm.rer_90])
    return {k: [fixed(x) for x in np.asarray(v, dtype=float).ravel()] for k, v in rec.items()}


def reported(nm, edge):
    names = ["gsd_x", "gsd_y", "gsd_gm", "rer_gm", "eho_gm", "niirs", "niirs_4", "gsd_gp"] if edge == 3 else [
        "gsd_x", "rer_0", "rer_90", "niirs", "gsd_w", "rer"]
    return {k: float(np.asarray(getattr(nm, k))) for k in names}


def evaluate(f, case, atms, out):
    from pybsm import metrics
    files = database(f, atms)
    try:
        e, ek = case["e"], case["ek"]
        for version, fn in ((3, metrics.niirs), (5, metrics.niirs5)):
            s, sc = sensor(f), scenario(f)
            before = snapshot(s)
            between = f.i("interp")
            # the scenario's own lookup mode, and whether it was read before, are not the evaluation's concern
            if f.i("r0") % 3:
                try:
                    sc.atm
                except IndexError:
                    pass
            if between:
                # no record is listed there
                try:
                    fn(s, sc, interp=False)
                except IndexError:
                    pass
                else:
                    raise Mismatch("unlisted", "an evaluation without interpolation at a condition that is not listed")
                unchanged(s, before)
            if between or f.i("m0") % 2 and f.s("altitude") <= 20000:
                nm = fn(s, sc, interp=True)
            elif f.i("first") % 2:
                nm = fn(s, sc)
            else:
                nm = fn(s, sc, False)
            unchanged(s, before)
            bookkeeping(f, sc)
            if f.i("exact"):
                continue        # whether the row at the band's edge is in is decided by rounding
            chain(f, e, ek, nm, s, sc, version == 3)
            if version == 3:
                compare("ng", nm.ng, e["ng"])
            out.append((recorded(nm, s, sc, version), reported(nm, version), version))
    finally:
        for rec in files:
            os.remove(atmos.path(atms, rec))


def judged(ctx, records, block=40):
    """The specification's verdicts on recorded evaluations."""
    out = []
    for i in range(0, len(records), block):
        part = records[i:i + block]
        work = os.path.join(ctx.scratch, "judge%d" % os.getpid())
        shutil.copytree(core.SPEC, work, ignore=lambda d, names: [n for n in names if not n.endswith(".qnt")])
        with open(os.path.join(work, "recorded.qnt"), "w") as fh:
            fh.write("module recorded {\n  pure val RECORDS: List[str -> List[int]] = [\n")
            fh.write(",\n".join("Map(" + ", ".join('"%s" -> %s' % (k, v) for k, v in r.items()) + ")" for r in part))
            fh.write("]\n}\n")
        tr = core.quint_run(ctx, "judge.qnt", steps=len(part), specdir=work)[0]
        shutil.rmtree(work)
        got = [s["verdict"] for s in tr if s["at"] > 0]
        if len(got) != len(part):
            raise core.MachineryError("%d of %d records were judged" % (len(got), len(part)))
        out += got
    return out


def either(name, got, wants):
    """One of the specification's readings; a geometric mean near zero may not exist."""
    good = [w for w in wants if abs(got - core.fl(w)) <= 1e-6 + 1e-6 * abs(got)]
    if not good and not min(wants) <= core.ONE // 10**4:
        raise Mismatch(name, "%s = %r, specification says one of %r" % (name, got, [core.fl(w) for w in wants]))


def settle(item, v):
    rec, rep, version = item
    b = core.fl(rec["slant"][0])
    compare("elev_angle", core.fl(v["sin"][0]), v["horizon"], rtol=1e-9, atol=0.2 / (1.2e7 * b) + 1e-9)
    for name in ["gsd_x", "gsd_y", "gsd_gm"] if version == 3 else ["gsd_x"]:
        compare(name, rep[name], v[name])
    if version == 3:
        either("rer_gm", rep["rer_gm"], v["rer"])
        if not v["tie"][0]:
            either("eho_gm", rep["eho_gm"], v["eho"])
        names = (("niirs", "n3"), ("niirs_4", "n4"), ("gsd_gp", "gsd_gp"))
    else:
        either("rer_0", rep["rer_0"], v["rer0"])
        either("rer_90", rep["rer_90"], v["rer90"])
        names = (("niirs", "n5"), ("gsd_w", "gsd_w"), ("rer", "rer5"))
    rated = rec["eho"][0] > 0 if version == 3 else True
    # the rating formulas amplify rounding of the elevation angle near the horizon
    if rated and v["sin"][0] > core.ONE // 1000:
        for a, b in names:
            if v[b]:
                compare(a, rep[a], v[b], rtol=1e-6, atol=1e-6)


def _work(ctx, part):
    """One worker: replay its cases, then have the specification judge what it recorded."""
    out = []

    def run_case(f, case):
        n = len(out)
        try:
            evaluate(f, case, ctx.atms, out)
        except BaseException:
            del out[n:]
            raise
        out[n:] = [(item, core.brief(case)) for item in out[n:]]
    core.replay(ctx, part, {"chain": run_case}, limit=120, decoy=False)
    if out:
        for item, v in zip(out, judged(ctx, [x[0][0] for x in out])):
            try:
                settle(item[0], v)
            except Mismatch as ex:
                ctx.violate("judge%d.%s" % (item[0][2], ex.clause), str(ex), item[1])


def run(ctx):
    core.load_package(ctx)
    ctx.rules.append("each case is a state of gen_chain!stepChain: a sensor with a band of 3 to 5 database rows in the visible, near or "
                     "thermal infrared or around 2.9 micrometres, a listed or an interpolated condition whose database records hold the "
                     "generated spectra (listed conditions also by interpolation, in between also without, which must be refused; scenarios of either "
                     "mode, read before or not), kernels up to 5x5, stacks, non-square detectors, wells from nearly empty to overfull; both evaluations run "
                     "on it; edge terms, angles and ratings of the recorded evaluations are judged by judge.qnt")
    cs = core.cases(ctx, "gen_chain.qnt", "stepChain", ctx.size(150, 2400), ["lawChain"], procs=8 if ctx.thorough else 6)
    core.workers(ctx, cs, _work, WORKERS)
