#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]: decides one property for the tree in /repo.  Exit 0/1, see MANIFEST.json."""
import json
import multiprocessing
import os
import shutil
import sys
import tempfile
import time

if os.environ.get("PYTHONHASHSEED") != "0":
    # the same tree gives the same answer, whatever the order of Python's sets
    os.execve(sys.executable, [sys.executable] + sys.argv, dict(os.environ, PYTHONHASHSEED="0"))

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "analysis"))
import build
import checks
import rules


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix="vp-lockfree-")
    try:
        build.irdump()
        rep = checks.run(prop, tier, tmp)
    except build.BuildError as x:
        print("ERROR: %s" % x)
        return 2
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return report(prop, tier, rep, time.time() - t0)


def known_findings():
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    for l in open(p):
        l = l.strip()
        if l.startswith("finding: "):
            out.append(json.loads(l[len("finding: "):]))
    return out


def report(prop, tier, rep, wall):
    known = [k for k in known_findings() if k["property"] == prop]
    fresh, old = [], []
    for f in rep.findings:
        k = [x for x in known if all(f.get(a) == x.get(a) for a in ("rule", "fn", "config", "msg"))]
        (old if k else fresh).append(f)
    for f in sorted({(f["rule"], f["msg"]) for f in old}):
        print("KNOWN-FINDING: property=%s [%s] %s" % (prop, f[0], f[1]))
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    cov = rep.coverage()
    ev = {"property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "other", "coverage": cov,
          "assumptions": checks.ASSUMPTIONS, "wall_s": round(wall, 2), "violations": len(fresh)}
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    print("%s: %s" % (prop, rep.summary()))
    for i in rep.inconclusive:
        print("INCONCLUSIVE %s" % i)
    if fresh:
        os.makedirs(os.path.join(HERE, "out"), exist_ok=True)
        path = os.path.join(HERE, "out", "%s.txt" % prop)
        with open(path, "w") as f:
            for x in fresh:
                f.write("[%s] %s: %s\n    in %s, %s\n" % (x["rule"], x["loc"], x["msg"], x["fn"], x["config"]))
        seen = set()
        for x in fresh:
            k = (x["rule"], x["loc"])
            if k in seen:
                continue
            seen.add(k)
            if len(seen) <= 12:
                print("  [%s] %s: %s (in %s, %s)" % (x["rule"], x["loc"], x["msg"], x["fn"], x["config"]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if rep.broken:
        print("ERROR: analysis broken: %s" % rep.broken)
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
