"""C05: what is packed into a word with its version tag comes out again.  Every accessor of the tagged words is interpreted
on symbolic references and tags; the result has to be the named argument (its successor, the comparison) in normal form."""
import re

import build
from api import empty_result, finding
from execu import Exec, Fn, Inconclusive
from mpmc import Model, srcline
from terms import *


class Cfg:
    """just enough of a configuration for the memory model"""
    kind = "stack"
    refkind, storage, rw, tw, tpos, wbytes = "ptr48", "none", 48, 16, 48, 8
    roles, leaves, null, align, nodes_off = {}, [], None, 8, None

    def __init__(self):
        self.findings = []
        self.obl = {}

    def ob(self, rule, fn, loc=None):
        k = (rule, fn, srcline(loc) if loc else "")
        self.obl[k] = self.obl.get(k, 0) + 1

    def find(self, rule, msg, loc, fn):
        self.findings.append((rule, msg, srcline(loc), fn))


class PackModel(Model):
    def begin(self, ex, st, args):
        self.ex = ex
        self.args = args
        self.excl = True
        self.kind = "pack"

    def cls(self, st, ptr):
        k = Model.cls(self, st, ptr)
        if k[0] not in "L":
            raise Inconclusive("%s: memory outside the word is used" % self.name)
        return k

    def signature(self, st):
        return ()

    def val(self, st, a, w):
        return bits(a, 0, w) if a.w >= w else a

    def on_ret(self, st, val, I):
        loc = I["loc"]
        m = re.match(r"vpe_(arg|next|eq|ne|set)(\d)(\d?)_?(\d?)(\d?)", self.name)
        how, f = m.group(1), st.facts
        if how in ("arg", "next"):
            want = self.args[int(m.group(2))]
            if how == "next":
                want = add(want, const(want.w, 1))
            if not f.eq(val, want) and any(a.kind == "op" for a in atoms_of(f.resolve(val))):
                raise Inconclusive("%s: the result cannot be compared: %s" % (self.name, show(f.resolve(val))))
            self.need(f.eq(val, want), "pack", "the result is %s instead of %s" % (show(f.resolve(val)), show(want)), loc)
            return
        if how == "set":
            a = self.args[int(m.group(2))]
            z = const(a.w, 0)
            self.need(f.ne(a, z) if cval(val) else f.eq(a, z), "pack", "the conversion to bool is not whether the reference is null", loc)
            return
        a, b, c, d = [self.args[int(x)] for x in (m.group(2), m.group(3), m.group(4), m.group(5))]
        w = 48 if a.w == 64 else a.w
        same = bool(cval(val)) == (how == "eq")
        if same:
            ok = f.eq(a, b) and f.eq(c, d)
        else:
            ok = f.ne(a, b) or f.ne(c, d) or f.ne(cat(bits(a, 0, w), c), cat(bits(b, 0, w), d))
        self.need(ok, "pack", "two words compare as %s although that has not been established" % ("equal" if same else "different"), loc)

    def on_throw(self, st, I):
        self.find("pack", "an exception is thrown", I["loc"])

    def call(self, st, name, args, I):
        raise Inconclusive("%s: %s is called" % (self.name, name))


NAMES = {"ptr": "tagged_ptr (pointer and tag in 64 bits)", "dcas": "tagged_ptr (two words)", "idx": "tagged_index"}


def run_pack(arg):
    what, align, tmp = arg
    name = NAMES[what]
    res = empty_result(name, "pack")
    flags = ["-DVP_ALIGN=%d" % align] + {"ptr": [], "dcas": ["-DVP_DCAS", "-mcx16"], "idx": ["-DVP_INDEX"]}[what]
    try:
        dump, res["dropped"] = build.lower("tagged.cpp", tmp, "pack_%s_%d" % (what, align), flags)
    except build.BuildError as x:
        res["error"] = "inconclusive: %s" % x
        return res
    for fn in sorted(f for f in dump["functions"] if f.startswith("vpe_")):
        c = Cfg()
        m = PackModel(c, fn)
        m.nrets = m.nthrows = 0
        e = Exec(Fn(fn, dump["functions"][fn]), m)
        st = "ok"
        try:
            e.run()
        except Inconclusive as x:
            st = "inconclusive: %s" % x
        except Exception as x:
            st = "inconclusive: internal error: %r" % x
        res["entries"].append((fn, st, e.steps, 0, 0))
        res["functions"] += 1
        res["steps"] += e.steps
        for (rule, f, line), n in c.obl.items():
            res["obl"]["%s|%s|%s" % (rule, f, line)] = n
        for rule, msg, line, f in c.findings:
            res["findings"].append(finding(rule, "%s: %s" % (f, msg), line, f, name, "pack"))
    return res
