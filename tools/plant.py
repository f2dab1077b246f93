"""Confirms planted bugs and tries the checks on them:  plant.py DEFS.py [id ...]
DEFS.py defines BUGS = {id: dict(property, needs, breaks, edits=[(file, old, new), ...], demo=python text)}.
For each bug: a scratch copy of /repo, the edits as patch.diff, the stable tests, the demo on both trees, the property's check.
With the environment variable KEEP=1 a confirmed bug is written to /verif/seeded/<id>/."""
import json, os, runpy, shutil, subprocess, sys, tempfile, textwrap
from concurrent.futures import ThreadPoolExecutor

PY = "/opt/venv/bin/python"
PRELUDE = '''import atexit, os, shutil, sys, tempfile, warnings
import numpy as np
warnings.simplefilter("ignore")
os.environ["MPLBACKEND"] = "Agg"
T = tempfile.mkdtemp()
atexit.register(shutil.rmtree, T, ignore_errors=True)
shutil.copytree("src/pybsm", T + "/pybsm", ignore=shutil.ignore_patterns("*.bin", "__pycache__"))
sys.dont_write_bytecode = True
sys.path.insert(0, T)


def record(number, seed=None):
    """A synthetic atmosphere record; its values depend on `seed`."""
    rng = np.random.default_rng(number if seed is None else seed)
    a = rng.uniform(0.5, 1.0, (1371, 5))
    a[:, 1:] *= 1e-10 * np.array([0.2, 0.05, 5.0, 8.0]) * 1e6
    a.astype(np.float32).ravel(order="F").tofile(T + "/pybsm/atms/%d.bin" % number)


'''


def sh(cmd, cwd, env=None, timeout=900):
    p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout,
                       env=dict(os.environ, **(env or {})))
    return p.returncode, p.stdout


def one(ident, b):
    w = tempfile.mkdtemp(prefix="plant_")
    out = {"id": ident}
    try:
        src = w + "/repo"
        os.mkdir(src)
        for d in ("src", "tests", "pyproject.toml", "setup.cfg", "pytest.ini", "conftest.py", "tox.ini", "examples", "docs"):
            if os.path.exists("/repo/" + d):
                (shutil.copytree if os.path.isdir("/repo/" + d) else shutil.copy)("/repo/" + d, src + "/" + d)
        sh(["git", "init", "-q"], src)
        sh(["git", "add", "-A"], src)
        sh(["git", "-c", "user.name=a", "-c", "user.email=a@b", "commit", "-qm", "x"], src)
        d = w + "/bug"
        os.mkdir(d)
        open(d + "/demo.py", "w").write(PRELUDE + textwrap.dedent(b["demo"]).strip() + "\n")
        open(d + "/demo.sh", "w").write('#!/bin/bash\nexec %s "$(dirname "$0")/demo.py"\n' % PY)
        rc, txt = sh(["bash", d + "/demo.sh"], src)
        out["clean"] = rc
        if rc:
            out["log"] = txt[-1500:]
            return out
        for f, old, new, *nth in b["edits"]:     # nth: which of several occurrences
            p = src + "/src/pybsm/" + f
            s = open(p).read()
            if nth:
                parts = s.split(old)
                s = old.join(parts[:nth[0] + 1]) + "\0" + old.join(parts[nth[0] + 1:])
                old = "\0"
            if s.count(old) != 1:
                out["log"] = "edit matches %d times in %s: %r" % (s.count(old), f, old)
                return out
            open(p, "w").write(s.replace(old, new))
        rc, diff = sh(["git", "diff"], src)
        open(d + "/patch.diff", "w").write(diff)
        rc, txt = sh(["bash", d + "/demo.sh"], src)
        out["patched"] = rc
        if not rc:
            return out
        out["why"] = txt.strip().splitlines()[-1][:120]
        rc, txt = sh([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "--no-cov", "--timeout=300", "--tb=line", "-x", "--junitxml=" + w + "/j.xml",
                      "--maxfail=1000", "--continue-on-collection-errors"], src, {"PYTHONPATH": src + "/src"})
        sh([PY, "/opt/vp/results.py", w + "/res.json", "junit:" + w + "/j.xml"], src)
        res = json.load(open(w + "/res.json"))
        base = json.load(open("/opt/vp/BASELINE.json"))
        stable = base.get("stable") or base.get("passed") or base
        ok = set(res["passed"])
        broke = [t for t in stable if t not in ok]
        out["tests_broken"] = broke[:3]
        if broke:
            return out
        if os.environ.get("KEEP"):
            dest = "/verif/seeded/" + ident
            shutil.rmtree(dest, ignore_errors=True)
            shutil.copytree(d, dest)
            json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(dest + "/meta.json", "w"), indent=1)
            open(dest + "/meta.json", "a").write("\n")
        if not os.environ.get("NOCHECK"):
            props = [b["property"]] + b.get("also", [])
            out["check"] = {}
            for p in props:
                rc, txt = sh([PY, "check.py", p], "/verif", {"VF_REPO": src, "VERIF_TIER": "quick", "VERIF_SEED": "1"}, 1800)
                out["check"][p] = (rc, [x[:160] for x in txt.splitlines() if "violated" in x][:1] or txt[-300:])
        return out
    except Exception as ex:
        out["log"] = repr(ex)
        return out
    finally:
        shutil.rmtree(w, ignore_errors=True)


if __name__ == "__main__":
    bugs = runpy.run_path(sys.argv[1])["BUGS"]
    ids = sys.argv[2:] or sorted(bugs)
    with ThreadPoolExecutor(int(os.environ.get("JOBS", "3"))) as ex:
        for r in ex.map(lambda i: one(i, bugs[i]), ids):
            good = r.get("clean") == 0 and r.get("patched") and not r.get("tests_broken")
            caught = good and any(v[0] == 1 for v in r.get("check", {}).values())
            print("%-28s %s" % (r["id"], "CAUGHT" if caught else "MISSED" if good else "INVALID"), json.dumps({k: v for k, v in r.items() if k != "id"}), flush=True)
