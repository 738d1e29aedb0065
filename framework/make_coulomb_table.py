"""Regenerates harness/coulomb_table.inc (needs mpmath: run with python3-vt). Values to 20 digits, used to
validate the long double reference of the C06 check."""
import mpmath as mp
mp.mp.dps = 40
out = []
for e in (0, 1e-6, 0.01, 0.1, 0.5, 1, 2.5, 4.999, 5, 7, 10, 14.999, 15, 20, 30, 40):
    for r in (0.015625, 0.1, 0.31, 1, 2.3, 5, 10, 20, 40, 80, 200):
        for l in (0, 1, 3, 8):
            f, g = mp.coulombf(l, e, r), mp.coulombg(l, e, r)
            out.append("{%d,%r,%r,%sL,%sL}," % (l, e, r, mp.nstr(f, 21, min_fixed=1, max_fixed=0), mp.nstr(g, 21, min_fixed=1, max_fixed=0)))
open("harness/coulomb_table.inc", "w").write("\n".join(out) + "\n")
