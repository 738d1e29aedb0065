#!/bin/bash
# Runs the project's own tests - all of them, also those that cannot be built here without the njoy
# libraries - against the stand-ins of /verif/shim. Not a check: it validates the stand-ins.
# (reichMoore/Type needs files the repository does not have; 20 assertions of rmatrix/SpinGroup fail,
# on the original tree too: their reference values differ from the closed formula, see DESIGN.md.)
REPO=${VERIF_REPO:-/repo}; HERE=$(cd "$(dirname "$0")/.." && pwd); T=$(mktemp -d)
python3 -B "$HERE/framework/range_gen.py" "$T/range"
one() {
  f=$1; d=$(dirname "$f"); n=$(echo "${f#$REPO/src/}" | tr / _)
  g++ -std=c++17 -w -O0 -I"$T/range" -I"$HERE/shim" -I"$REPO/src" -isystem /usr/include/eigen3 "$f" -o "$T/$n" >/dev/null 2>&1 || { echo "does not compile: $n"; return; }
  cd "$d/resources" 2>/dev/null || cd "$T"
  echo "$n: $(timeout 300 "$T/$n" 2>&1 | tail -2 | tr '\n' ' ')"; rm -f "$T/$n"
}
export -f one; export REPO HERE T
find "$REPO/src" -name '*.test.cpp' | xargs -P 6 -I{} bash -c 'one {}'
rm -rf "$T"
