"""What each property's check consists of."""
import json
import os
import multiprocessing

import api
import layout
import pack
import rules
from driver import Variant, run_variant

ASSUMPTIONS = [
    "clang 18's lowering of the witness translation units (-O0, x86-64 Linux) represents the library's code",
    "std::atomic operations have the semantics of the C++ memory model; the rules judge the orders written in the code",
    "element, functor and allocator operations are opaque and touch only the objects they are given",
]

BUDGET = {"quick": 240, "thorough": 600}


# other ways to compile the same operations: assertions removed, allocators without traits, other standards
MODES = {"quick": [("-DNDEBUG",)]}
MODES["thorough"] = MODES["quick"] + [("-std=gnu++11",), ("-std=gnu++20",), ("-std=gnu++23",), ("-DBOOST_DISABLE_ASSERTS",), ("-DBOOST_NO_CXX11_ALLOCATOR",),
                                      ("-DBOOST_NO_CXX11_VARIADIC_TEMPLATES",), ("-fno-rtti",), ("-D__powerpc__",)]


CAPACITIES = {"queue": (2, 65534), "stack": (1, 65534), "spsc": (1, 6, 65534)}


def node_variants(kind, tier):
    own = {"queue": "vp::QElem"}.get(kind, "vp::Elem")
    cfgs = (1, 2) if kind == "spsc" else (0, 1, 2)
    modes = [Variant(kind, cfg, own, True, extra=x) for x in MODES[tier] for cfg in cfgs] + [Variant(kind, cfg, e) for e in ("vp::Wide", "vp::Big", "char") for cfg in cfgs]
    if tier == "thorough":
        modes += [Variant(kind, 2, own, True, capacity=n) for n in CAPACITIES[kind]]
    if kind == "spsc":
        out = [Variant(kind, cfg, elem, thr) for elem in ("long", "vp::Pod", "vp::Elem") for thr in (False, True) for cfg in cfgs]
        return out + [Variant(kind, cfg, "vp::DElem") for cfg in cfgs] + [Variant(kind, cfg, "vp::CElem", True) for cfg in cfgs] + modes
    out = []
    for elem in ("long", "vp::Pod", own):
        for thr in (False, True):
            for cfg in cfgs:
                out.append(Variant(kind, cfg, elem, thr))
                if elem == own or tier == "thorough":
                    out.append(Variant(kind, cfg, elem, thr, True))
    if kind == "stack":
        for cfg in cfgs:
            out.append(Variant(kind, cfg, "vp::DElem"))
            out.append(Variant(kind, cfg, "vp::CElem", True))
    return out + modes


class Report:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.findings, self.inconclusive, self.obl = [], [], {}
        self.configs = {}
        self.functions = self.steps = self.paths = self.segs = 0
        self.extra = {}
        self.broken = None

    def add_variant(self, r, want):
        self.configs[r["name"]] = {"entries": len(r["entries"]), "inconclusive": sum(1 for e in r["entries"] if e[1] != "ok"), "wall_s": r["wall"]}
        self.functions += r["functions"]
        self.steps += r["steps"]
        self.segs += r["segs"]
        self.paths += r["paths"]
        if r["error"]:
            self.inconclusive.append("%s: %s" % (r["name"], r["error"].split("\n")[0]))
        for e in r["entries"]:
            if e[1] != "ok":
                self.inconclusive.append("%s %s: %s" % (r["name"], e[0], e[1]))
        for d in r["dropped"]:
            self.inconclusive.append("%s: does not compile: %s: %s" % (r["name"], d[0], d[1]))
        for f in r["findings"]:
            if self.prop in rules.properties(f["kind"], f["rule"], f["fn"]):
                self.findings.append(f)
        for k, n in r["obl"].items():
            rule, fn, line = k.split("|")
            if self.prop in rules.properties(r["kind"], rule, fn):
                self.obl[(rule, r["name"], fn, line)] = n

    def coverage(self):
        byrule = {}
        for (rule, c, fn, line), n in self.obl.items():
            byrule.setdefault(rule, [set(), 0])
            byrule[rule][0].add((c, fn, line))
            byrule[rule][1] += n
        samples = []
        for k in sorted(self.obl)[:: max(1, len(self.obl) // 8)][:8]:
            samples.append({"rule": k[0], "configuration": k[1], "entry": k[2], "at": k[3], "times_checked": self.obl[k]})
        cov = {
            "explanation": "Abstract interpretation of the lowered code of every public operation: each rule is checked at every "
                           "site and on every abstract path it applies to.",
            "configurations": self.configs,
            "entry_functions": self.functions,
            "abstract_steps": self.steps,
            "path_segments": self.segs,
            "exits": self.paths,
            "obligation_sites": len(self.obl),
            "obligations": sum(self.obl.values()),
            "discharged": sum(self.obl.values()) - len(self.findings),
            "by_rule": {r: {"sites": len(s), "checks": n} for r, (s, n) in sorted(byrule.items())},
            "inconclusive": self.inconclusive,
            "samples": samples,
        }
        cov.update(self.extra)
        return cov

    def summary(self):
        return "%d configurations, %d entry functions, %d exits, %d obligations at %d sites, %d findings, %d inconclusive" % (
            len(self.configs), self.functions, self.paths, sum(self.obl.values()), len(self.obl), len(self.findings), len(self.inconclusive))


KINDS = {
    "C01": ("queue",), "C02": ("stack",), "C12": ("stack",), "C03": ("spsc",), "C13": ("spsc",),
    "C05": ("queue", "stack"), "C09": ("queue", "stack"), "C19": ("queue", "stack"), "C20": ("queue",),
}


NO_INTERPRETER = {"C15", "C16", "C17"}
SPSC_CFG = {"spsc": (1, 2)}
ELEMS = ("char", "long", "vp::Big", "vp::Wide")


def layout_jobs(tmp, tier, cfgs=(0, 1, 2)):
    out = []
    for kind in ("queue", "stack", "spsc"):
        for cfg in SPSC_CFG.get(kind, (0, 1, 2)):
            if cfg in cfgs:
                for elem in ELEMS:
                    for plat in ("", "-D__s390x__", "-D__powerpc__"):
                        out.append((layout.run_layout, (kind, cfg, elem, plat, tmp)))
    return out


def alloc_jobs(tmp):
    return [(layout.run_default_alloc, (kind, cfg, elem, plat, tmp)) for kind, cfg in (("queue", 0), ("queue", 1), ("stack", 0), ("stack", 1), ("spsc", 1))
            for elem in ELEMS for plat in ("", "-D__s390x__", "-D__powerpc__")]


def lockfree_jobs(tmp):
    return [(layout.run_lockfree, (kind, cfg, elem, dcas, tmp)) for kind in ("queue", "stack", "spsc") for cfg in SPSC_CFG.get(kind, (0, 1, 2))
            for elem in ELEMS for dcas in ((False, True) if kind != "spsc" else (False,))]


def pack_jobs(tmp):
    return [(pack.run_pack, (w, a, tmp)) for w, a in (("ptr", 1), ("dcas", 1), ("idx", 1))]


# ways of configuring the library in which the documented operations are offered as well
MACROS = {
    "quick": [("-DBOOST_LOCKFREE_FREELIST_INIT_RUNS_DTOR",), ("-DBOOST_NO_CXX11_ALLOCATOR",), ("-DBOOST_LOCKFREE_FORCE_STD_ATOMIC",), ("-fno-exceptions",), ("-fno-rtti",),
              ("-DBOOST_LOCKFREE_PREFIX_HPP_INCLUDED", "-DBOOST_LOCKFREE_CACHELINE_BYTES=64", "-mcx16")],
}
MACROS["thorough"] = MACROS["quick"] + [("-DBOOST_NO_CXX11_VARIADIC_TEMPLATES",), ("-D__s390x__",), ("-D__powerpc__",), ("-fsigned-char", "-fshort-enums"), ("-DNDEBUG", "-O2")]
STANDARDS = {
    "quick": [("clang++", "c++11"), ("clang++", "c++17"), ("clang++", "c++20"), ("g++", "c++17")],
    "thorough": [("clang++", "c++" + s) for s in ("11", "14", "17", "20", "23")] + [("g++", "c++" + s) for s in ("11", "14", "17", "20", "23")],
}


def accept_jobs(tmp, tier):
    out = []
    for kind in ("queue", "stack", "spsc_queue"):
        out += [(api.run_accept, (kind, cc, std, (), tmp)) for cc, std in STANDARDS[tier]]
        out += [(api.run_accept, (kind, "clang++", "c++17", x, tmp)) for x in MACROS[tier]]
    out += [(api.run_headers, (h, cc, std, tmp)) for h in api.HEADERS for cc, std in STANDARDS[tier]]
    return out


def reject_jobs(tmp, tier):
    out = []
    for std in ("c++17",) if tier == "quick" else ("c++11", "c++14", "c++17", "c++20"):
        pre = api.pch(std, tmp)
        out += [(api.run_reject, (i, std, tmp, pre)) for i in range(len(api.REJECT))]
    return out


def call(job):
    return job[0](job[1])


def run(prop, tier, tmp):
    rep = Report(prop, tier)
    jobs = []
    if prop not in NO_INTERPRETER:
        kinds = KINDS.get(prop, ("queue", "stack", "spsc"))
        for kind in kinds:
            jobs += [(run_variant, (v, tmp, BUDGET[tier])) for v in node_variants(kind, tier) if prop != "C20" or v.cfg == 1]
    if prop == "C05":
        jobs += pack_jobs(tmp)
    if prop == "C15":
        jobs += lockfree_jobs(tmp)
    if prop == "C16":
        jobs += reject_jobs(tmp, tier)
    if prop == "C17":
        jobs += accept_jobs(tmp, tier)
    if prop == "C27":
        jobs += layout_jobs(tmp, tier, (2,)) + alloc_jobs(tmp)
    if prop == "C20":
        jobs += layout_jobs(tmp, tier) + alloc_jobs(tmp)
    if prop == "C21":
        jobs += layout_jobs(tmp, tier, (1, 2))
    with multiprocessing.Pool(8, maxtasksperchild=1) as pool:
        for r in pool.imap(call, jobs):
            rep.add_variant(r, prop)
    if rep.functions and not rep.obl:
        rep.broken = "no obligation was found for this property"
    return rep


def everything(tmp, kinds):
    """all rules on a reduced set of configurations: {property: [finding]}, [inconclusive] (used by tool/mutate.py)"""
    jobs = pack_jobs(tmp) if "pack" in kinds or os.environ.get("VP_WHOLE") else []
    kinds = [k for k in kinds if k != "pack"]
    if os.environ.get("VP_WHOLE"):
        for j in lockfree_jobs(tmp) + layout_jobs(tmp, "quick") + alloc_jobs(tmp):
            if j[1][0] in kinds:
                jobs.append(j)
        jobs += [j for j in accept_jobs(tmp, "quick") if (j[1][0].split("_")[0] in kinds or j[1][0] in api.HEADERS) and j[1][2] == "c++17" and j[1][1] == "clang++"]
        try:
            jobs += reject_jobs(tmp, "quick")
        except Exception as x:
            print(x)
    for kind in kinds if os.environ.get("VP_WHOLE") != "2" else ():
        if kind == "spsc":
            for cfg in (1, 2):
                for elem in ("long", "vp::Pod", "vp::Elem", "vp::DElem", "vp::CElem", "vp::Wide"):
                    jobs.append((run_variant, (Variant(kind, cfg, elem, True), tmp, 120)))
            continue
        own = "vp::QElem" if kind == "queue" else "vp::Elem"
        for cfg in (0, 1, 2):
            jobs.append((run_variant, (Variant(kind, cfg, "long"), tmp, 120)))
            jobs.append((run_variant, (Variant(kind, cfg, own, True), tmp, 120)))
            if kind == "stack":
                jobs.append((run_variant, (Variant(kind, cfg, "vp::DElem"), tmp, 120)))
            jobs.append((run_variant, (Variant(kind, cfg, own, True, True), tmp, 120)))
            jobs.append((run_variant, (Variant(kind, cfg, "vp::Wide"), tmp, 120)))
    props, inc = {}, []
    with multiprocessing.Pool(8, maxtasksperchild=1) as pool:
        for r in pool.imap(call, jobs):
            if r["error"]:
                inc.append("%s: %s" % (r["name"], r["error"][:200]))
            inc += ["%s %s: %s" % (r["name"], e[0], e[1]) for e in r["entries"] if e[1] != "ok"]
            inc += ["%s: does not compile: %s: %s" % (r["name"], d[0], d[1]) for d in r["dropped"]]
            for f in r["findings"]:
                t = "[%s] %s: %s (%s)%s" % (f["rule"], f["loc"], f["msg"], f["fn"], " in " + f["config"] if os.environ.get("VP_CONFIG") else "")
                for p in rules.properties(f["kind"], f["rule"], f["fn"]):
                    l = props.setdefault(p, [])
                    if t not in l:
                        l.append(t)
    return props, inc
