#!/usr/bin/env python3
"""seed.py ID...: (re)builds /verif/seeded/<id> from tool/seeds.py and confirms it: the patch applies, the library builds, the
stable tests pass, demo.sh exits 0 on the unchanged tree and non-zero with the patch.  Leaves /repo as it was."""
import json, os, shutil, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(HERE)
ns = {}
exec(open(HERE + "/seeds.py").read(), ns)


def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)


assert not sh("git -C /repo status --porcelain").stdout.strip(), "/repo is not clean"
stable = set(json.load(open("/opt/vp/BASELINE.json")).get("stable", json.load(open("/opt/vp/BASELINE.json")).get("passed", [])))
for s in ns["SEEDS"]:
    if len(sys.argv) > 1 and s["id"] not in sys.argv[1:]:
        continue
    d = V + "/seeded/" + s["id"]
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    open(d + "/demo.sh", "w").write(s.get("script") or open(HERE + "/seedlib/demo.sh").read().replace("@FLAGS@", s.get("flags", "")))
    os.chmod(d + "/demo.sh", 0o755)
    if s["demo"]:
        open(d + "/demo.cpp", "w").write(s["demo"])
    if s.get("shim"):
        os.makedirs(d + "/boost")
        shutil.copy(HERE + "/seedlib/boost/atomic.hpp", d + "/boost/atomic.hpp")
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    for f, old, new in s["edits"]:
        p = "/repo/include/boost/lockfree/" + f
        t = open(p).read()
        assert old in t, (s["id"], old)
        n = s.get("nth", {}).get(old)
        if n is None:
            assert t.count(old) == 1, (s["id"], "ambiguous", t.count(old), old)
            t = t.replace(old, new)
        else:
            parts = t.split(old)
            t = old.join(parts[:n + 1]) + new + old.join(parts[n + 1:])
        open(p, "w").write(t)
    open(d + "/patch.diff", "w").write(sh("git -C /repo diff").stdout)
    b = sh("bash /opt/vp/build.sh")
    t = sh("bash /opt/vp/test.sh /tmp/seed-out.json")
    o = json.load(open("/tmp/seed-out.json"))
    lost = stable - set(o["passed"])
    dm = sh(d + "/demo.sh", cwd="/repo")
    sh("git -C /repo checkout -- .")
    bb = sh("bash /opt/vp/build.sh")
    ok = [sh(d + "/demo.sh", cwd="/repo") for i in range(2)]
    good = b.returncode == 0 and not lost and dm.returncode != 0 and all(x.returncode == 0 for x in ok)
    print("%-28s %s build=%d lost=%s with=%d without=%s" % (s["id"], "GOOD" if good else "BAD", b.returncode, sorted(lost)[:3], dm.returncode, [x.returncode for x in ok]),
          (dm.stdout + dm.stderr)[-200:].strip() if good else (b.stderr[-300:] + dm.stdout[-300:] + dm.stderr[-500:] + ok[0].stdout[-300:] + ok[0].stderr[-300:]), flush=True)
