"""Measures the deviation of the Coulomb functions from the reference per cell (run once, on the unchanged tree):
    COULOMB_MEASURE=1 python3 framework/check.py C06 --tier thorough && python3 framework/make_coulomb_accuracy.py
writes harness/coulomb_accuracy.inc from the maxima in the evidence file. No check runs this."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
m = json.load(open(V + "/evidence/C06.json"))["coverage"]["bodies"]["coulomb/reference"]["maxima"]
t = [[0.] * 60 for _ in range(34)]
for k, v in m.items():
    if k.startswith("cell "):
        a, b = map(int, k.split()[1:]); t[a][b] = v
open(V + "/harness/coulomb_accuracy.inc", "w").write("".join("{" + ",".join("%.3g" % v for v in r) + "},\n" for r in t))
