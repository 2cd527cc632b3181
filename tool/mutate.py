#!/usr/bin/env python3
"""mutate.py FILE [names]: applies textual edits to a copy of /repo/include and reports which rules/properties the analysis raises.
FILE is a Python file defining M = [(name, file, old, new, [expected properties]), ...]; expected [] means: must stay quiet.
`old` may be a list of alternatives (all replaced); an edit may be a list of (file, old, new) triples."""
import json, os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

CODE = r'''
import sys, os, multiprocessing, json, tempfile
sys.path.insert(0, os.path.join(%r, "analysis"))
import build, checks, rules
from driver import run_variant
tmp = tempfile.mkdtemp()
props = {}
inc = []
props, inc = checks.everything(tmp, sys.argv[1].split(","))
import shutil; shutil.rmtree(tmp)
print(json.dumps([props, inc]))
''' % HERE


def main():
    os.environ.setdefault("PYTHONHASHSEED", "0")
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    only = set(sys.argv[2:])
    for name, edits, expect in ns["M"]:
        if only and name not in only:
            continue
        d = tempfile.mkdtemp(prefix="vp-mut-")
        shutil.copytree("/repo/include", d + "/include")
        ok = True
        kinds = set()
        for f, old, new in edits:
            p = d + "/include/boost/lockfree/" + f
            s = open(p).read()
            if old not in s:
                print("%-34s EDIT DOES NOT APPLY: %s" % (name, old[:60]))
                ok = False
                break
            if f.startswith("queue"):
                kinds.add("queue")
            elif f.startswith("stack"):
                kinds.add("stack")
            elif f.startswith("spsc"):
                kinds.add("spsc")
            else:
                kinds |= {"queue", "stack", "spsc", "pack"}
            s = s.replace(old, new) if not new.startswith("@1") else s.replace(old, new[2:], 1)
            open(p, "w").write(s)
        if ok:
            env = dict(os.environ, VP_REPO=d)
            r = subprocess.run([sys.executable, "-c", CODE, os.environ.get("VP_KINDS", ",".join(sorted(kinds)))], capture_output=True, text=True, env=env)
            try:
                props, inc = json.loads(r.stdout.strip().split("\n")[-1])
            except Exception:
                print("%-34s CRASH %s" % (name, r.stderr[-300:]))
                props, inc = {}, []
            got = set(props)
            tag = "ok" if (expect and set(expect) & got) or (not expect and not got) else ("MISSED" if expect else "FALSE ALARM")
            if tag == "ok" and expect and not set(expect) <= got:
                tag = "ok-partly"
            print("%-34s %-11s want=%s got=%s%s" % (name, tag, ",".join(expect), ",".join(sorted(got)), " inc=%d" % len(inc) if inc else ""))
            shown = set()
            for p in sorted(props):
                for f in props[p]:
                    if f not in shown and (tag != "ok" or os.environ.get("V")):
                        shown.add(f)
                        if len(shown) <= 6:
                            print("        " + f)
            for i in inc[:3]:
                print("        INC " + i[:200])
        sys.stdout.flush()
        shutil.rmtree(d)


main()
