#!/usr/bin/env python3
"""Replays one recorded violation on the current tree: python3 framework/replay.py evidence/replay/C03-0.json"""
import json, os, subprocess, sys
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
r = json.load(open(sys.argv[1]))
exe = os.path.join(VERIF, "build", r["harness"], r["harness"])
if not os.path.exists(exe):
    sys.exit("build first: python3 framework/check.py " + r["property"])
sys.exit(subprocess.run([exe, "--property", r["property"], "--body", r["body"], "--tier", r["tier"], "--replay", r["path"]]).returncode)
