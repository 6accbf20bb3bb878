"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MISSED = {  # planted bugs the check of the time missed, and what was added
    "c11-unchanged-input": "repeated predictions with equal inputs in other arrays",
    "c12-frozen-export": "process settings compared after every conversion",
    "c12-leaked-export": "file creations audited, not only the temporary directory listed",
    "c14-type-cache": "contexts re-created within a run",
    "c24-opcode-cache": "related models (codes and tensors in another order) in one run; package imported anew for each run",
}
p = os.path.join(V, "tools", "missed.json")
if os.path.exists(p):
    MISSED.update(json.load(open(p)))
rows = []
for m in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
    i = os.path.basename(os.path.dirname(m))
    d = json.load(open(m))
    rows.append("| %s | %s | %s | %s |" % (i, d["property"], d["needs"].replace("|", "/"), "missed first: " + MISSED[i] if i in MISSED else "yes"))
text = open(os.path.join(V, "DESIGN.md")).read()
head = text.split("## 7. Planted bugs")[0].rstrip()
open(os.path.join(V, "DESIGN.md"), "w").write(head + """

## 7. Planted bugs
Each was written from the property and the code, builds, passes the tests and
has a demonstration.  The quick check of its property catches every one of them
today; the last column says which were missed when they were first planted and
what the check gained.  Deliberately absent from the checks: anything that looks
at `seeded/`.

| bug | property | needs | caught |
|---|---|---|---|
""" + "\n".join(rows) + "\n")
