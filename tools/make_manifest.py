"""Writes MANIFEST.json from the checks that exist."""
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
TECH = "Quint executable specification; generated behaviours replayed into the code"
props = [json.loads(x) for x in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for p in props:
    path = os.path.join(HERE, "checks", p["id"].lower() + ".py")
    if not os.path.exists(path):
        na.append({"property": p["id"], "reason": "check not built yet"})
        continue
    m = importlib.import_module("checks." + p["id"].lower())
    checks.append({
        "property": p["id"],
        "quick_cmd": "/opt/venv/bin/python check.py " + p["id"],
        "thorough_cmd": "VERIF_TIER=thorough /opt/venv/bin/python check.py " + p["id"],
        "evidence_file": "evidence/%s.json" % p["id"],
        "technique": getattr(m, "TECHNIQUE", TECH),
        "level": m.LEVEL,
        "level_note": getattr(m, "NOTE", "Every generated case is compared with the specification's exact result; "
                      "covers the sampled inputs, not all inputs. Trusts the Quint simulator and the driver."),
    })
man = {"version": 1, "setup_cmd": "bash setup.sh",
       "hooks": {"guard": "none (no hooks: every check observes the public API)", "enable": "not needed", "source_commits": []},
       "checks": checks, "not_applicable": na,
       "notes": "Specification language: Quint (spec/). See DESIGN.md."}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as fh:
    json.dump(man, fh, indent=1)
    fh.write("\n")
print(len(checks), "checks,", len(na), "not claimed")
