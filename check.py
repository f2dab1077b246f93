"""Entry point of every check:  python check.py <property id>"""
import importlib
import os
import sys
import traceback

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
for _v in ("OPENBLAS_NUM_THREADS", "OMP_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ.setdefault(_v, "1")

from vf import core  # noqa: E402

if __name__ == "__main__":
    prop = sys.argv[1]
    mod = importlib.import_module("checks." + prop.lower())
    ctx = core.Ctx(prop, mod.LEVEL)
    try:
        mod.run(ctx)
        rc = ctx.finish()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        print("ERROR: the check itself failed")
        rc = 2
    sys.exit(rc)
