"""Copies of the two headers that list what the library consists of, without the parts a harness does
not use: those parts are templates over ranges that take a minute to compile. Nothing else is
changed, and if the reduced headers do not compile the harness is built with the full ones.

    header_gen.py SRC OUT part...     parts to keep: old, make:NAME, legacy, variant, fromENDF"""
import os, re, sys
src, out, keep = sys.argv[1], sys.argv[2], set(sys.argv[3:])
os.makedirs(os.path.join(out, "resonanceReconstruction"), exist_ok=True)
top = open(os.path.join(src, "resonanceReconstruction.hpp")).read()
rm = open(os.path.join(src, "resonanceReconstruction", "rmatrix.hpp")).read()
if "old" not in keep:
    top = re.sub(r'^\s*#include "resonanceReconstruction/(breitWigner|reichMoore)\.hpp".*\n', "", top, flags=re.M)
if "make:all" not in keep:
    rm = re.sub(r'^\s*#include "resonanceReconstruction/rmatrix/src/(make\w+)\.hpp".*\n',
                lambda m: m.group(0) if "make:" + m.group(1) in keep else "", rm, flags=re.M)
if "variant" not in keep:
    rm = re.sub(r'using\s+CompoundSystemVariant\s*=[^;]*;', "", rm)
    rm = re.sub(r'^\s*#include "resonanceReconstruction/rmatrix/Reconstructor\.hpp".*\n', "", rm, flags=re.M)
if "fromENDF" not in keep:
    rm = re.sub(r'^\s*#include "resonanceReconstruction/rmatrix/src/fromENDF\.hpp".*\n', "", rm, flags=re.M)
if "legacy" not in keep:
    rm = re.sub(r'^\s*#include "resonanceReconstruction/rmatrix/legacy\.hpp".*\n', "", rm, flags=re.M)
def put(name, text):
    p = os.path.join(out, name)
    if not os.path.exists(p) or open(p).read() != text:
        open(p, "w").write(text)
put("resonanceReconstruction.hpp", top)
put(os.path.join("resonanceReconstruction", "rmatrix.hpp"), rm)
