"""Generator cases of the whole library, by operation, with the drivers of their checks."""
from concurrent.futures import ThreadPoolExecutor

from vf import core

# generator, step, cases per tier
SOURCES = [("gen_radiometry.qnt", "stepExposure", 30), ("gen_radiometry.qnt", "stepCurve", 30), ("gen_radiometry.qnt", "stepChain", 120),
           ("gen_radiometry.qnt", "stepResample", 30), ("gen_otf.qnt", "stepComponent", 100), ("gen_system.qnt", "stepSystem", 24),
           ("gen_analytic.qnt", "stepWeighted", 30), ("gen_analytic.qnt", "stepCalibrate", 60), ("gen_analytic.qnt", "stepEdge", 60),
           ("gen_analytic.qnt", "stepGiqe", 30), ("gen_analytic.qnt", "stepGeometry", 30), ("gen_analytic.qnt", "stepSlice", 30),
           ("gen_analytic.qnt", "stepStretch", 30), ("gen_analytic.qnt", "stepNoise", 60), ("gen_turbulence.qnt", "stepTurbulence", 60),
           ("gen_turbulence.qnt", "stepFilter", 12), ("gen_imaging.qnt", "stepPsf", 30), ("gen_imaging.qnt", "stepApply", 80),
           ("gen_restore.qnt", "stepRestore", 30), ("gen_image.qnt", "stepImage", 8), ("gen_chain.qnt", "stepChain", 12)]


def plain_drivers(ctx):
    from checks import c05, c07, c08, c10, c11, c14, c16, c17, c18, c19, c20, c21, c22, c24, c25, c28, c29, snr_common
    return {"snr": snr_common.driver(snr_common.EXPOSURE + snr_common.BUDGET), "fill": c05.fill, "curve": c07.curve, "blackbody": c08.blackbody,
            "emission": c08.emission, "integrated": c08.integrated, "detection": c08.detection, "scene": c08.scene,
            "resample": c25.resample, "system": c10.system, "filter": c28.filter_, "weighted": c11.weighted, "slice": c20.slice_, "twist": c20.twist,
            "profile": c21.profile, "wind": c21.wind, "polychromatic": c21.polychromatic, "calibrate": c14.calibrate,
            "ref_image": c14.ref_image, "stretch": c22.stretch, "many": c22.many, "edge": c16.edge, "resolved": c16.resolved, "terms2d": c16.terms,
            "giqe": c17.giqe, "geometry": c19.geometry, "noise_gain": c24.noise_gain, "quantization": c24.quantization, "radii": c24.radii, "wiener": c29.wiener, "ifov": c29.ifov,
            "chain": lambda f, case: c18.evaluate(f, case, ctx.atms, [])}


def drivers(ctx):
    """Those of every operation but the evaluations on files (chain, image)."""
    from checks import c09, c12, c13
    d = plain_drivers(ctx)
    del d["chain"]
    d.update({"psf": c12.psf, "apply": c13.apply, "resample_image": c13.resample, "large": c13.large, "large_psf": c12.large, "echo_psf": c12.echo_psf, "echo_image": c13.echo_image})
    d.update(c09.drivers())
    return d


def cases(ctx, sources=SOURCES, scale=1, also=lambda ex: []):
    """Pools of cases by operation, and the results of further jobs."""
    with ThreadPoolExecutor(8) as ex:
        jobs = [ex.submit(core.cases, ctx, g, s, n * scale, (), 1) for g, s, n in sources]
        more = also(ex)
        pools = {}
        for (g, s, n), job in zip(sources, jobs):
            for c in job.result():
                op = c["op"]
                if g == "gen_imaging.qnt" and op == "resample":
                    op, c = "resample_image", dict(c, op="resample_image")
                elif op == "chain" and c["k"]["exact"]:
                    continue
                pools.setdefault(op, []).append(c)
        return pools, [j.result() for j in more]
