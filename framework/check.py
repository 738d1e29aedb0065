#!/usr/bin/env python3
"""Decides one property: builds its harness(es) from /repo's working tree, explores the bounded
space exhaustively (sharded over the cores), compares with the known findings, writes the evidence.

    python3 framework/check.py C03 [--tier quick|thorough] [--jobs N]

exit 0: the property held on everything explored; exit 1 (and a VIOLATION line): it does not;
anything else: the check itself failed (for instance the tree does not compile)."""
import concurrent.futures as cf
import hashlib, json, os, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, os.path.join(VERIF, "framework"))
from registry import PROPERTIES, HARNESSES  # noqa: E402


def tree_hash(paths):
    h = hashlib.sha256()
    for root in paths:
        if os.path.isfile(root):
            files = [root]
        else:
            files = sorted(os.path.join(d, f) for d, _, fs in os.walk(root) for f in fs if "/test" not in d)
        for f in files:
            h.update(f.encode()); h.update(open(f, "rb").read())
    return h.hexdigest()[:24]


def build(harness):
    spec = HARNESSES[harness]
    bdir = os.path.join(VERIF, "build", harness)
    os.makedirs(bdir, exist_ok=True)
    src = os.path.join(VERIF, "harness", spec["source"])
    flags = spec.get("flags", "-O2").split()
    deps = [os.path.join(REPO, "src"), os.path.join(VERIF, "framework"), os.path.join(VERIF, "harness")]
    if spec["mode"] == "shim":
        deps.append(os.path.join(VERIF, "shim"))
    key = tree_hash(deps) + " " + " ".join(flags)
    exe, stamp = os.path.join(bdir, harness), os.path.join(bdir, "stamp")
    if os.path.exists(exe) and os.path.exists(stamp) and open(stamp).read() == key:
        return exe, 0.0
    t0 = time.time()
    inc, reduced = [], []
    if spec["mode"] == "slice":
        gen = os.path.join(bdir, "gen")
        shutil.rmtree(gen, ignore_errors=True)
        r = subprocess.run([sys.executable, "-B", os.path.join(VERIF, "framework", "slice_gen.py"),
                            os.path.join(REPO, "src"), gen], capture_output=True, text=True)
        if r.returncode:
            print(r.stdout[-3000:], r.stderr[-3000:]); print("ERROR: cannot cut the slice"); sys.exit(2)
        inc += ["-I" + gen]
    else:
        gen = os.path.join(bdir, "gen")
        r = subprocess.run([sys.executable, "-B", os.path.join(VERIF, "framework", "range_gen.py"), gen], capture_output=True, text=True)
        if r.returncode:
            print(r.stderr[-3000:]); print("ERROR: cannot adapt range-v3"); sys.exit(2)
        inc += ["-I" + gen, "-I" + os.path.join(VERIF, "shim")]
        if "parts" in spec:   # without the parts of the library this harness does not use
            cut = os.path.join(bdir, "cut")
            shutil.rmtree(cut, ignore_errors=True)
            r = subprocess.run([sys.executable, "-B", os.path.join(VERIF, "framework", "header_gen.py"),
                                os.path.join(REPO, "src"), cut] + spec["parts"].split(), capture_output=True, text=True)
            if r.returncode == 0:
                reduced = ["-I" + cut]
    inc += ["-I" + os.path.join(REPO, "src"), "-I" + os.path.join(VERIF, "framework"),
            "-I" + os.path.join(VERIF, "harness"), "-isystem", "/usr/include/eigen3"]
    cmd = ["g++", "-std=c++17", "-w"] + flags + reduced + inc + [src, "-o", exe] + spec.get("libs", "").split()
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode and reduced:
        cmd = [c for c in cmd if c not in reduced]
        r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode and spec.get("fallback"):   # a part of the harness that is not essential may stop compiling
        r = subprocess.run(cmd + spec["fallback"].split(), capture_output=True, text=True)
    if r.returncode:
        errs = [l for l in r.stderr.split("\n") if "error" in l][:15]
        print("\n".join(errs)); print("ERROR: %s does not compile from %s" % (harness, REPO)); sys.exit(2)
    open(stamp, "w").write(key)
    return exe, time.time() - t0


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    jobs = os.cpu_count() or 4
    a = sys.argv[2:]
    while a:
        if a[0] == "--tier": tier = a[1]; a = a[2:]
        elif a[0] == "--jobs": jobs = int(a[1]); a = a[2:]
        else: print("unknown argument", a[0]); sys.exit(2)
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    spec = PROPERTIES[prop]
    known = {}
    for e in json.load(open(os.path.join(VERIF, "known_findings.json")))["findings"]:
        if e["property"] == prop and e.get("status") == "known":
            known[e["id"]] = e

    evdir = os.path.join(VERIF, "evidence")
    rundir = os.path.join(VERIF, "build", "run-" + prop)
    shutil.rmtree(rundir, ignore_errors=True)
    os.makedirs(rundir); os.makedirs(os.path.join(evdir, "replay"), exist_ok=True)

    build_s, work = 0.0, []
    with cf.ThreadPoolExecutor(jobs) as ex:
        exes = dict(zip(spec["harness"], ex.map(build, spec["harness"])))
    for h in spec["harness"]:
        exe, s = exes[h]
        build_s += s
        for i in range(jobs):
            work.append((h, exe, i, os.path.join(rundir, "%s.%d.json" % (h, i))))

    limit = 840 if tier == "quick" else 6 * 3600

    def run(w):
        h, exe, i, out = w
        cmd = [exe, "--property", prop, "--tier", tier, "--shard", "%d/%d" % (i, jobs), "--out", out]
        try:
            r = subprocess.run(cmd, capture_output=True, text=True, timeout=limit, cwd=rundir)
            return w, r.returncode, r.stdout[-2000:] + r.stderr[-2000:]
        except subprocess.TimeoutExpired:
            return w, "timeout", ""

    with cf.ThreadPoolExecutor(jobs) as ex:
        results = list(ex.map(run, work))

    bodies, error = {}, None
    for (h, exe, i, out), rc, text in results:
        if rc not in (0, 1, 4) or not os.path.exists(out):
            error = "harness %s shard %d: %s %s" % (h, i, rc, text); continue
        for b in json.load(open(out))["bodies"]:
            t = bodies.setdefault((h, b["name"]), dict(states=0, transitions=0, traces=0, checks=0, violations={},
                                                      samples=[], counters={}, maxima={}))
            for k in ("states", "transitions", "traces", "checks"):
                t[k] += b[k]
            for v in b["violations"]:
                key = (v["kind"], v["finding"])
                if key in t["violations"]:
                    t["violations"][key]["count"] += v["count"]
                else:
                    t["violations"][key] = v
            t["samples"] += b["samples"]
            for k, n in b["counters"].items():
                t["counters"][k] = t["counters"].get(k, 0) + n
            for k, n in b["maxima"].items():
                if n is None: n = float("inf")
                t["maxima"][k] = max(t["maxima"].get(k, n), n)

    rc = 0
    viol, seen_known = [], []
    for (h, name), t in sorted(bodies.items()):
        for v in t["violations"].values():
            if v["finding"] and v["finding"] in known:
                seen_known.append((v["finding"], v["count"], v["what"]))
            else:
                viol.append((h, name, v))
    lines = {}
    for f, n, what in seen_known:
        lines.setdefault(f, [0, what]); lines[f][0] += n
    for f, (n, what) in sorted(lines.items()):
        print("KNOWN-FINDING: property=%s %s: %s (%d executions; e.g. %s)" % (prop, f, known[f]["what"], n, what))
    for n, (h, name, v) in enumerate(viol[:20]):
        path = os.path.join(evdir, "replay", "%s-%d.json" % (prop, n))
        json.dump({"property": prop, "harness": h, "body": name, "kind": v["kind"], "what": v["what"], "path": v["path"],
                   "count": v["count"], "tier": tier,
                   "command": "python3 %s/framework/replay.py %s" % (VERIF, path)}, open(path, "w"), indent=1)
        print("  %s/%s [%s] %s (%d executions)" % (h, name, v["kind"], v["what"], v["count"]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        rc = 1
    if rc == 0 and error:
        print("ERROR:", error); sys.exit(2)
    if rc == 0:
        if not bodies:
            print("ERROR: nothing was explored"); sys.exit(2)
        for (h, name), t in bodies.items():   # a body that explored nothing decides nothing
            if t["traces"] == 0 or t["checks"] == 0:
                print("ERROR: body %s/%s explored nothing" % (h, name)); sys.exit(2)

    tot = lambda k: sum(t[k] for t in bodies.values())
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking",
          "coverage": {"states": tot("states"), "transitions": tot("transitions"),
                       "traces_validated_against_impl": tot("traces"), "checks": tot("checks"), "exhaustive": True,
                       "rule": "states: nodes of the choice tree of the bounded space, each visited once; transitions: operations "
                               "performed on the code of /repo; traces: complete executions of the real code compared with the "
                               "reference model. The tree is visited completely, nothing is sampled.",
                       "bounds": spec["bounds"][tier] if isinstance(spec["bounds"], dict) else spec["bounds"],
                       "bodies": {"%s/%s" % k: {q: t[q] for q in ("states", "transitions", "traces", "checks", "counters", "maxima")}
                                  for k, t in sorted(bodies.items())},
                       "samples": [s for t in bodies.values() for s in t["samples"][:6]][:24]},
          "assumptions": spec.get("assumptions", []),
          "known_findings": sorted(lines), "violations": len(viol),
          "wall_s": round(time.time() - t0, 3), "build_s": round(build_s, 3)}
    json.dump(ev, open(os.path.join(evdir, prop + ".json"), "w"), indent=1)
    print("%s %s: %s; %d states, %d transitions, %d traces, %d checks, %.1f s (build %.1f s)" % (
        prop, tier, "VIOLATED" if rc else "held", tot("states"), tot("transitions"), tot("traces"), tot("checks"),
        time.time() - t0, build_s))
    shutil.rmtree(rundir, ignore_errors=True)
    sys.exit(rc)


main()
