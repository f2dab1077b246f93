import copy
import pickle

import numpy as np

from vf import atmos, core

LEVEL = "model_checking"


# visibilities between the listed ones
HAZE = {15: 1.5, 19: 1.9}
ATTRIBUTES = ["name", "aircraft_speed", "target_reflectance", "target_temperature", "background_reflectance",
              "background_temperature", "ha_wind_speed", "cn2_at_1m", "note"]


def SENSORS():
    from pybsm.simulation import Sensor
    return [Sensor("s", 0.1, 1.0, 1e-5, np.array(b)) for b in ([0.5e-6, 0.55e-6], [3.6e-6, 3.7e-6])]


def history(ctx, trace):
    from pybsm.simulation import Scenario
    real, handed = [], []
    for i, st in enumerate(trace):
        if handed and (i % 7 == 0 or i == len(trace) - 1):
            # what was handed out stays what it was when it was read
            for got, rows in handed:
                atmos.check(core, "earlier", got, rows)
        c = st["c"]
        op, f = c["op"], core.F(c)
        if op == "none":
            continue
        ctx.count((op, repr(c["f"]), repr(c["k"]), repr(st["scs"])))
        if op == "create":
            args = (HAZE.get(f.i("haze"), f.i("haze")), f.s("altitude"), f.s("ground"))
            real.append(Scenario("s%d" % len(real), *args, interp=bool(f.i("interp"))) if f.i("interp") or len(real) % 2
                        else Scenario("s%d" % len(real), *args))
            continue
        s = real[f.i("who")]
        if op == "copy":
            real.append([copy.copy, copy.deepcopy, lambda x: pickle.loads(pickle.dumps(x))][f.i("how")](s))
            continue
        model = st["scs"][f.i("who")]
        if op == "haze":
            s.ihaze = HAZE.get(f.i("haze"), f.i("haze"))
        elif op == "altitude":
            s.altitude = f.s("altitude")
        elif op == "ground":
            s.ground_range = f.s("ground")
        elif op == "adjust":
            setattr(s, ATTRIBUTES[f.i("which")], "renamed" if f.i("which") == 0 else 1.0 + len(real))
        elif op == "rate":
            from pybsm import metrics
            sensor = SENSORS()[f.i("thermal")]
            try:
                (metrics.niirs5 if f.i("version") else metrics.niirs)(sensor, s, bool(f.i("interp")))
                ok = 1
            except IndexError:
                ok = 0
            if ok != c["ek"]["ok"]:
                raise core.Mismatch("rate.refused", "IndexError" if c["ek"]["ok"] else "a rating without an atmosphere")
        elif op == "read":
            if f.i("mutate"):
                # another scenario at the same place, whose table is scribbled over
                other = Scenario("other", s.ihaze, s.altitude, s.ground_range, interp=model["interp"])
                try:
                    other.atm[:] = -7.0
                except IndexError:
                    pass
            try:
                got = s.atm
            except IndexError:
                if c["ek"]["ok"]:
                    raise core.Mismatch("read.refused", "IndexError although the database has an atmosphere for the place")
                continue
            if not c["ek"]["ok"]:
                raise core.Mismatch("read.no_error", "an atmosphere was returned for a place that has none")
            atmos.check(core, "read", np.array(got), c["e"]["rows"])
            handed = handed[-9:] + [(got, c["e"]["rows"])]
        at = model["at"]
        if (s.ihaze, s.altitude, s.ground_range) != (HAZE.get(at["haze"], at["haze"]), at["alt"] / 1000, at["ground"] / 1000):
            raise core.Mismatch("place", "the scenario reports another place than was set")


def run(ctx):
    atms = core.load_package(ctx)
    ctx.rules.append("scenarios!laws is checked by TLC over every reachable state of the small machine; histories of up to four scenarios "
                     "are random walks of gen_atmosphere!stepScenarios (creations in both modes, setters, reads, failing reads), replayed "
                     "on real Scenario objects over a synthetic database of all 3430 records")
    machines = ["scenarios1"] + (["scenarios2"] if ctx.thorough else [])
    for m in machines:
        gen, dist = core.quint_check(ctx, "scenarios.qnt", "laws", main=m, timeout=3000)
        ctx.states += dist
        ctx.transitions += gen
        if dist < 700:
            raise core.MachineryError("TLC visited only %d states" % dist)
    traces = core.quint_run(ctx, "gen_atmosphere.qnt", init="initScenarios", step="stepScenarios", steps=ctx.size(60, 150),
                            traces=ctx.size(8, 60), procs=ctx.size(3, 8), invariants=["laws"])
    atmos.write_all(atms)
    core.histories(ctx, traces, history)
