"""Runs the analysis of one configuration of one container."""
import os
import signal
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(4000)

import build
from execu import Exec, Fn, Inconclusive
from mpmc import Config, Model
from spsc import SpscConfig, SpscModel

STORAGE = ("grow", "fixed", "ct")


class Variant:
    def __init__(self, kind, cfg, elem, throwing=False, dcas=False, capacity=37, extra=()):
        self.kind, self.cfg, self.elem, self.throwing, self.dcas = kind, cfg, elem, throwing, dcas
        self.storage = STORAGE[cfg]
        self.capacity = capacity if cfg == 2 else None
        self.extra = tuple(extra)

    @property
    def name(self):
        s = "%s<%s> %s" % ({"spsc": "spsc_queue"}.get(self.kind, self.kind), self.elem, {"grow": "growing", "fixed": "fixed_sized", "ct": "capacity<%s>" % self.capacity}[self.storage])
        if self.throwing:
            s += " throwing"
        if self.dcas:
            s += " dcas"
        if self.extra:
            s += " " + " ".join(self.extra)
        return s

    @property
    def tag(self):
        return "".join(ch if ch.isalnum() else "_" for ch in self.name)

    def flags(self):
        f = ["-DVP_CFG=%d" % self.cfg, "-DVP_T=%s" % self.elem]
        if self.throwing:
            f.append("-DVP_THROWING")
            if self.kind == "spsc":
                f.append("-DVP_USE_NOEXCEPT")
        if self.dcas:
            f += ["-DVP_DCAS", "-mcx16"]
        if self.capacity is not None:
            f.append("-DVP_CAP=%d" % self.capacity)
        return f + list(self.extra)


class Timeout(Exception):
    pass


def _alarm(*a):
    raise Timeout()


def run_variant(arg):
    v, tmp, budget = arg
    t0 = time.time()
    res = {"name": v.name, "kind": v.kind, "entries": [], "findings": [], "obl": {}, "dropped": [], "error": None,
           "functions": 0, "steps": 0, "segs": 0, "paths": 0}
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(budget)
    c = None
    try:
        dump, res["dropped"] = build.lower(v.kind + ".cpp", tmp, v.tag, v.flags())
        config, model = (SpscConfig, SpscModel) if v.kind == "spsc" else (Config, Model)
        c = config(v.name, dump, v.kind, v.storage, v.elem, v.capacity)
        fns = sorted(f for f in dump["functions"] if f.startswith("vpe_"))
        ctors = [f for f in fns if f.startswith("vpe_ctor")]
        for f in ctors + sorted((f for f in fns if f not in ctors), key=lambda f: (f != "vpe_empty", f)):
            m = model(c, f)
            e = Exec(Fn(f, dump["functions"][f]), m)
            st = "ok"
            try:
                e.run()
            except Inconclusive as x:
                st = "inconclusive: %s" % x
            except RecursionError:
                st = "inconclusive: expression too deep"
            except Timeout:
                raise
            except Exception as x:
                st = "inconclusive: internal error: %r at %s" % (x, traceback.format_exc().strip().split("\n")[-3].strip())
            res["entries"].append((f, st, e.steps, m.nrets, m.nthrows))
            res["steps"] += e.steps
            res["segs"] += e.nsegs
            res["paths"] += m.nrets + m.nthrows
            res["functions"] += 1
            if f == ctors[-1] and c.refkind == "idx":
                nl = c.ctor.get("null", set())
                if len(nl) != 1:
                    raise Inconclusive("the constructors do not settle which index stands for no node")
                c.null = next(iter(nl))
    except build.BuildError as x:
        res["error"] = str(x)
    except Inconclusive as x:
        res["error"] = "inconclusive: %s" % x
    except Timeout:
        res["error"] = "inconclusive: time budget of %d s used up" % budget
    except Exception:
        res["error"] = "inconclusive: internal error: " + traceback.format_exc()[-600:]
    finally:
        signal.alarm(0)
    if c is not None:
        for f in c.findings.values():
            from mpmc import srcline
            res["findings"].append({"rule": f.rule, "msg": f.msg, "loc": srcline(f.loc), "fn": f.fn, "config": v.name, "kind": v.kind})
        for (rule, fn, line), n in c.obl.items():
            res["obl"]["%s|%s|%s" % (rule, fn, line)] = n
    res["wall"] = round(time.time() - t0, 2)
    return res
