"""Path-sensitive abstract interpreter over the lowered control-flow graph.

Acyclic path segments are followed one by one in the value domain of terms.py; at a loop header all states that arrive
are joined by anti-unification (least general generalisation), so every loop is covered for any number of iterations.
The meaning of shared memory, and every rule, lives in a Model (mpmc.py, spsc.py).
"""
import itertools
import os

from facts import *


DEBUG = bool(os.environ.get("VP_DEBUG"))


class Inconclusive(Exception):
    pass


WEAK = {"na": 0, "unordered": 0, "excl": 9, "monotonic": 1, "acquire": 2, "release": 2, "acq_rel": 3, "seq_cst": 4}


def weaker(a, b):
    if "excl" in (a, b):
        return a if b == "excl" else b
    return a if WEAK[a] <= WEAK[b] else b


class Tok:
    """an owned node, or an owned chain of nodes"""

    __slots__ = ("first", "last", "lastnext", "origin", "dir", "pay", "src", "mem", "rest", "count", "deliv", "base")

    def __init__(self, first, origin, single=True, dir=None, count=None):
        self.first = first
        self.last = first if single else None
        self.lastnext = None
        self.origin = origin
        self.dir = dir
        self.pay = "raw"  # raw | live | dead
        self.src = None
        self.mem = {}
        self.rest = False
        self.count = count if count is not None else const(64, 1)
        self.deliv = 0
        self.base = None

    def copy(self):
        t = Tok.__new__(Tok)
        for s in Tok.__slots__:
            setattr(t, s, getattr(self, s))
        t.mem = dict(self.mem)
        return t

    def __repr__(self):
        return "<%s %s first=%r count=%r pay=%s%s>" % (self.origin, self.dir, self.first, self.count, self.pay, " rest" if self.rest else "")


class Ev:
    __slots__ = ("k", "d", "loc", "t")

    def __init__(self, k, t, loc, **d):
        self.k = k
        self.d = d
        self.loc = loc
        self.t = t

    def __getattr__(self, n):
        try:
            return self.d[n]
        except KeyError:
            raise AttributeError(n)

    def __repr__(self):
        return "%s@%s %s" % (self.k, srcline(self.loc), {k: v for k, v in self.d.items()})


def srcline(loc):
    for f, l, fn in loc or ():
        if "boost/lockfree" in f:
            return "%s:%d(%s)" % (f.split("boost/lockfree/")[-1], l, fn.split("<")[0])
    if loc:
        f, l, fn = loc[0]
        return "%s:%d(%s)" % (f.split("/")[-1], l, fn.split("<")[0])
    return "?"


class State:
    __slots__ = ("env", "facts", "mem", "toks", "trace", "clock", "ghost", "flags", "gone", "nmem", "path", "exc", "nalloc")

    def __init__(self):
        self.env = {}
        self.facts = Facts()
        self.mem = {}
        self.toks = []
        self.trace = ()
        self.clock = 0
        self.ghost = {}
        self.flags = {}
        self.gone = ()
        self.nmem = ()
        self.path = ()
        self.exc = False
        self.nalloc = 0

    def copy(self):
        s = State.__new__(State)
        s.env = dict(self.env)
        s.facts = self.facts.copy()
        s.mem = {k: dict(v) for k, v in self.mem.items()}
        s.toks = [t.copy() for t in self.toks]
        s.trace = self.trace
        s.clock = self.clock
        s.ghost = dict(self.ghost)
        s.flags = dict(self.flags)
        s.gone = self.gone
        s.nmem = self.nmem
        s.path = self.path
        s.exc = self.exc
        s.nalloc = self.nalloc
        return s

    def ev(self, k, loc, **d):
        self.clock += 1
        e = Ev(k, self.clock, loc, **d)
        self.trace = self.trace + (e,)
        return e

    def flag(self, f):
        for h in self.flags:
            self.flags[h] = self.flags[h] | {f}


def rload(reg, off, n, mkfresh):
    """load n bytes at off from a region {off: (nbytes, Val)}"""
    e = reg.get(off)
    if e is not None and e[0] == n:
        return e[1]
    parts = []
    pos = off
    end = off + n
    for o in sorted(reg):
        k, v = reg[o]
        a, b = max(o, pos), min(o + k, end)
        if a >= b:
            continue
        if a > pos:
            parts.append((pos, a - pos, None))
        parts.append((a, b - a, bits(v, 8 * (a - o), 8 * (b - a))))
        pos = b
    if pos < end:
        parts.append((pos, end - pos, None))
    out = []
    for o, k, v in parts:
        if v is None:
            v = mkfresh(o, k)
            reg[o] = (k, v)
        out.append(v)
    return cat(*out)


def rstore(reg, off, n, val):
    for o in list(reg):
        k, v = reg[o]
        if o + k <= off or o >= off + n:
            continue
        del reg[o]
        if o < off:
            reg[o] = (off - o, bits(v, 0, 8 * (off - o)))
        if o + k > off + n:
            reg[off + n] = (o + k - off - n, bits(v, 8 * (off + n - o), 8 * (o + k - off - n)))
    if val is not None:
        reg[off] = (n, val)


def nbytes(w):
    return max(1, (w + 7) // 8)


class Fn:
    """one lowered function"""

    def __init__(self, name, d):
        self.name = name
        self.args = d["args"]
        self.ret = d["ret"]
        self.blocks = {b["id"]: b for b in d["blocks"]}
        self.order = [b["id"] for b in d["blocks"]]
        self.entry = self.order[0]
        self.defblk = {}
        self.headers = {}
        for b in d["blocks"]:
            for i in b["insts"]:
                if "id" in i:
                    self.defblk[i["id"]] = b["id"]
            if b.get("header"):
                self.headers[b["id"]] = set(b["body"])
        self._live()

    def succs(self, b):
        t = self.blocks[b]["insts"][-1]
        if t["op"] == "br":
            return t["succ"]
        if t["op"] == "switch":
            return [t["default"]] + [c[1] for c in t["cases"]]
        if t["op"] == "invoke":
            return [t["normal"], t["unwind"]]
        return []

    def uses(self, i):
        out = []

        def rec(x):
            if isinstance(x, dict):
                if x.get("k") == "v":
                    out.append(x["v"])
                else:
                    for y in x.values():
                        rec(y)
            elif isinstance(x, list):
                for y in x:
                    rec(y)

        for k, v in i.items():
            if k not in ("loc", "succ", "in", "cases"):
                rec(v)
        return out

    def _live(self):
        use, df, phiuse = {}, {}, {}
        for b, d in self.blocks.items():
            u, s = set(), set()
            for i in d["insts"]:
                if i["op"] == "phi":
                    for pb, v in i["in"]:
                        if v.get("k") == "v":
                            phiuse.setdefault((pb, b), set()).add(v["v"])
                else:
                    for v in self.uses(i):
                        if v not in s:
                            u.add(v)
                if "id" in i:
                    s.add(i["id"])
            use[b], df[b] = u, s
        live = {b: set() for b in self.blocks}
        ch = True
        while ch:
            ch = False
            for b in reversed(self.order):
                o = set()
                for s in self.succs(b):
                    o |= (live[s] - df_phi(self.blocks[s])) | phiuse.get((b, s), set())
                n = use[b] | (o - df[b])
                if n != live[b]:
                    live[b] = n
                    ch = True
        self.live = live
        self.phis = {b: [i for i in d["insts"] if i["op"] == "phi"] for b, d in self.blocks.items()}
        # what decides whether a loop is left
        self.exitdeps = {}
        defs = {i["id"]: i for d in self.blocks.values() for i in d["insts"] if "id" in i}
        for h, body in self.headers.items():
            todo = []
            for b in body:
                if any(x not in body for x in self.succs(b)):
                    todo += self.uses(self.blocks[b]["insts"][-1])
            dep = set()
            while todo:
                v = todo.pop()
                if v in dep or self.defblk.get(v) not in body:
                    continue
                dep.add(v)
                i = defs[v]
                if i["op"] == "phi":
                    todo += [x["v"] for _, x in i["in"] if x.get("k") == "v"]
                else:
                    todo += self.uses(i)
            self.exitdeps[h] = dep
        self.loops_of = {}
        for h, body in self.headers.items():
            for b in body:
                self.loops_of.setdefault(b, []).append(h)


def df_phi(b):
    return {i["id"] for i in b["insts"] if i["op"] == "phi"}


class Exec:
    MAXSTEPS = 400000

    def __init__(self, fn, model):
        self.fn = fn
        self.model = model
        self.steps = 0
        self.nsegs = 0
        self.G = {}
        self.Gn = {}
        self.allocas = {}
        self.work = []
        self.ways = {}

    # ---- values ------------------------------------------------------------------------------------------------
    def val(self, st, o):
        k = o["k"]
        if k == "v":
            v = st.env.get(o["v"])
            if v is None:
                raise Inconclusive("%s: value %s has no definition on this path" % (self.fn.name, o["v"]))
            return v
        if k == "c":
            return const(o["w"], int(o["v"]))
        if k == "undef":
            return fresh(o["w"], "undef")
        if k == "g":
            return self.glob(o["v"])
        if k == "goff":
            return addc(self.val(st, o["base"]), o["off"])
        return fresh(o.get("w", 64), "unknown")

    def glob(self, n):
        g = self.model.globals_.get(n)
        if g is None:
            g = self.model.globals_[n] = Atom(64, "global", {"n": n}, True, True)
        return atomv(g)

    # ---- driver ------------------------------------------------------------------------------------------------
    def run(self):
        st = State()
        args = []
        for i, a in enumerate(self.fn.args):
            v = atomv(Atom(a["w"], "arg", {"n": i}, a["ty"] == "ptr", a["ty"] == "ptr"))
            st.env[a["id"]] = v
            args.append(v)
        self.args = args
        self.model.begin(self, st, args)
        self.work = [(st, self.fn.entry, 0, None)]
        self.left = []
        while self.work or self.left:
            if self.work:
                st, b, i, prev = self.work.pop()
                tags = {}
            else:
                # the loops that are entered from inside others are finished first
                d = max(x[0] for x in self.left)
                n = next(n for n, x in enumerate(self.left) if x[0] == d)
                _, tags, st, b, i, prev = self.left.pop(n)
            if self.stale(tags) or self.stale(st.ghost):
                continue
            self.nsegs += 1
            self.seg(st, b, i, prev)

    def stale(self, g):
        """the state stems from a loop state that has been generalised since, which covers it"""
        return self.model.instances and any(self.Gn.get(v[0], 0) != v[1] for k, v in g.items() if k[0] == "~")

    def goto(self, st, b, prev):
        """enter block b from prev; returns False when the path was absorbed by a loop header"""
        if self.model.instances:
            if self.stale(st.ghost):
                return None
            out = [k for k in st.ghost if k[0] == "~" and b not in self.fn.headers[k[1:]]]
            if out:
                # go on once the loop is stable
                tags = {k: st.ghost.pop(k) for k in out}
                self.left.append((sum(k[0] == "~" for k in st.ghost), tags, st, b, 0, prev))
                return None
        phis = self.fn.phis[b]
        if phis:
            vals = []
            for p in phis:
                for pb, v in p["in"]:
                    if pb == prev:
                        x = self.val(st, v)
                        vals.append((p["id"], st.facts.resolve(x) if isinstance(x, Val) else x))
                        break
            for k, v in vals:
                st.env[k] = v
        if b in self.fn.headers:
            if prev in self.fn.headers[b]:
                r = self.peel(st, b)
                if r is not None:
                    self.work.append(r)
                    return None
            return self.header(st, b, prev)
        return st

    PURE = {"icmp", "trunc", "zext", "sext", "and", "or", "xor", "add", "sub", "getelementptr", "ptrtoint", "inttoptr", "bitcast", "freeze",
            "extractvalue", "shl", "lshr"}

    def peel(self, st, h):
        """the end of the last iteration: the loop is left at once, without any effect"""
        body = self.fn.headers[h]
        s = None
        b, prev = h, None
        for _ in range(6):
            if prev is not None:
                if self.fn.phis[b] or b in self.fn.headers:
                    return None
            insts = self.fn.blocks[b]["insts"]
            nb = None
            for i, I in enumerate(insts):
                o = I["op"]
                if o == "phi":
                    continue
                if o == "br":
                    if len(I["succ"]) == 1:
                        nb = I["succ"][0]
                    else:
                        d = self.decide(s or st, self.val(s or st, I["cond"]))
                        if d is None:
                            return None
                        nb = I["succ"][0 if d else 1]
                    break
                if o not in self.PURE:
                    return None
                if s is None:
                    s = st.copy()
                s = self.inst(s, I, b, i)
            if nb is None:
                return None
            if nb not in body:
                return (s or st, nb, 0, b)
            b, prev = nb, b
        return None

    def seg(self, st, b, i, prev):
        if i == 0 and prev is not None:
            st = self.goto(st, b, prev)
            if st is None:
                return
        while True:
            insts = self.fn.blocks[b]["insts"]
            n = len(insts)
            while i < n:
                self.steps += 1
                if self.steps > self.MAXSTEPS:
                    raise Inconclusive("%s: too many path segments" % self.fn.name)
                I = insts[i]
                op = I["op"]
                if op == "phi":
                    i += 1
                    continue
                if op == "br":
                    su = I["succ"]
                    if len(su) == 1:
                        nb = su[0]
                    else:
                        c = self.val(st, I["cond"])
                        outs = self.branch(st, c)
                        for o in outs[1:]:
                            self.work.append((o[0], su[0 if o[1] else 1], 0, b))
                        if not outs:
                            return
                        st, taken = outs[0]
                        nb = su[0 if taken else 1]
                    break
                if op == "switch":
                    c = self.val(st, I["cond"])
                    cur = st
                    for cv, dest in I["cases"]:
                        k = self.val(st, cv)
                        r = cur.facts.cmp("eq", c, k)
                        if r is False:
                            continue
                        s2 = cur.copy()
                        if s2.facts.add_eq(c, k):
                            self.work.append((s2, dest, 0, b))
                        if r is True:
                            return
                        if not cur.facts.add_ne(c, k):
                            return
                    st = cur
                    nb = I["default"]
                    break
                if op == "ret":
                    v = self.val(st, I["ops"][0]) if I["ops"] else None
                    for s2, v2 in self.boolsplit(st, v):
                        self.model.on_ret(s2, v2, I)
                    return
                if op == "unreachable":
                    self.model.on_unreachable(st, I)
                    return
                if op == "resume":
                    self.model.on_throw(st, I)
                    return
                if op == "invoke":
                    outs = self.call(st, I)
                    nxt = None
                    for s2, how in outs:
                        if how == "ok":
                            if nxt is None:
                                nxt = s2
                            else:
                                self.work.append((s2, I["normal"], 0, b))
                        elif how == "throw":
                            s2.exc = True
                            self.work.append((s2, I["unwind"], 0, b))
                    if nxt is None:
                        return
                    st = nxt
                    nb = I["normal"]
                    break
                st2 = self.inst(st, I, b, i)
                if st2 is None:
                    return
                st = st2
                i += 1
            else:
                return
            st2 = self.goto(st, nb, b)
            if st2 is None:
                return
            st = st2
            b, i = nb, 0

    def boolsplit(self, st, v):
        if v is None or v.w != 1:
            return [(st, v if v is None else st.facts.resolve(v))]
        out = []
        for s2, t in self.branch(st, v):
            out.append((s2, const(1, 1 if t else 0)))
        return out

    # ---- conditions --------------------------------------------------------------------------------------------
    def decide(self, st, c):
        c = st.facts.resolve(c)
        if is_const(c):
            return bool(cval(c))
        a = as_atom(c)
        if a is not None and a.kind == "op":
            o = a.a["op"]
            if o == "cmp":
                return st.facts.cmp(a.a["pred"], *a.a["args"])
            if o in ("and", "or"):
                x, y = [self.decide(st, z) for z in a.a["args"]]
                if o == "and":
                    return False if x is False or y is False else True if x and y else None
                return True if x or y else False if x is False and y is False else None
            if o == "xor":
                x, y = [self.decide(st, z) for z in a.a["args"]]
                return None if x is None or y is None else x != y
        return None

    def branch(self, st, c):
        """[(state, taken)] for the feasible outcomes"""
        d = self.decide(st, c)
        if d is not None:
            return [(st, d)]
        c = st.facts.resolve(c)
        s1 = st.copy()
        out = []
        for s, t in ((st, True), (s1, False)):
            for s2 in self.assume(s, c, t):
                out.append((s2, t))
        return out

    def assume(self, st, c, t):
        """states in which c == t"""
        c = st.facts.resolve(c)
        if is_const(c):
            return [st] if bool(cval(c)) == t else []
        a = as_atom(c)
        if a is not None and a.kind == "op":
            o = a.a["op"]
            if o == "cmp":
                x, y = a.a["args"]
                p = a.a["pred"]
                if not t:
                    p = {"eq": "ne", "ne": "eq", "ult": "uge", "ule": "ugt", "ugt": "ule", "uge": "ult",
                         "slt": "sge", "sle": "sgt", "sgt": "sle", "sge": "slt"}[p]
                st.path = st.path + ((p, x, y),)
                return [st] if self.model.assume_cmp(st, p, x, y) else []
            if o == "and" and t or o == "or" and not t:
                cur = [st]
                for z in a.a["args"]:
                    cur = [s2 for s in cur for s2 in self.assume(s, z, t)]
                return cur
            if o == "and" or o == "or":
                x, y = a.a["args"]
                s2 = st.copy()
                res = self.assume(st, x, t)
                r2 = [s for q in self.assume(s2, x, not t) for s in self.assume(q, y, t)]
                return res + r2
            if o == "xor":
                x, y = a.a["args"]
                dx = self.decide(st, x)
                if dx is not None:
                    return self.assume(st, y, t != dx)
                dy = self.decide(st, y)
                if dy is not None:
                    return self.assume(st, x, t != dy)
        return [st] if st.facts.add_eq(c, const(1, 1 if t else 0)) else []

    def zero(self, st, v, t):
        """the condition (v == 0) == t when v is put together by bit operations, else None"""
        if len(v.p) == 1 and v.w == 1 and v.p[0][0] == "s" and v.p[0][1].kind == "op":
            return bxor(v, const(1, 1)) if t else v
        conds = []
        plain = True
        if not any(p[0] == "s" and p[1].kind == "op" and p[2] == 0 and p[3] == p[1].w and (p[3] == 1 or p[1].a["op"] in ("or", "xor")) for p in v.p):
            return None
        for p in v.p:
            x = Val(pw(p), (p,))
            if is_const(x):
                if cval(x):
                    return const(1, 0 if t else 1)
                continue
            a = as_atom(x)
            o = a.a["op"] if a is not None and a.kind == "op" else None
            if x.w == 1 and o:
                plain = False
                conds.append(bxor(x, const(1, 1)) if t else x)
            elif o == "xor":
                plain = False
                conds.append(self.icmp(st, "eq" if t else "ne", *a.a["args"]))
            elif o == "or":
                plain = False
                conds += [self.icmp(st, "eq" if t else "ne", y, const(x.w, 0)) for y in a.a["args"]]
            else:
                conds.append(self.icmp(st, "eq" if t else "ne", x, const(x.w, 0)))
        if plain or not conds:
            return None
        c = conds[0]
        for d in conds[1:]:
            c = band(c, d) if t else bor(c, d)
        return c

    def icmp(self, st, pred, a, b):
        r = st.facts.resolve
        a, b = r(a), r(b)
        if pred in ("eq", "ne"):
            for x, y in ((a, b), (b, a)):
                if is_const(y) and (cval(y) == 0 or cval(y) == 1 and all(is_const(bits(x, i, 1)) and cval(bits(x, i, 1)) == 0 for i in range(1, min(x.w, 64)))):
                    z = self.zero(st, x, (pred == "eq") == (cval(y) == 0))
                    if z is not None:
                        return z
        d = self.model.decide_cmp(st, pred, a, b)
        if d is not None:
            return const(1, 1 if d else 0)
        return op("cmp", 1, (a, b), pred=pred)

    # ---- instructions ------------------------------------------------------------------------------------------
    def fork(self, st, I, b, i, alts):
        """alts: states with the result of I already set; continue the first, schedule the others after I"""
        alts = [s for s in alts if s is not None]
        if not alts:
            return None
        for s in alts[1:]:
            self.work.append((s, b, i + 1, None))
        return alts[0]

    def inst(self, st, I, b, i):
        op_ = I["op"]
        w = I["w"]
        V = lambda o: self.val(st, o)
        R = None
        if op_ == "alloca":
            a = self.allocas.get(I["id"])
            if a is None:
                a = self.allocas[I["id"]] = Atom(64, "alloca", {"n": I["id"], "bytes": I["bytes"]}, True, True)
            R = atomv(a)
        elif op_ == "load":
            res = self.model.load(st, V(I["ptr"]), w, I["order"], I)
            alts = []
            for s2, v in res:
                s2.env[I["id"]] = s2.facts.resolve(v)
                alts.append(s2)
            return self.fork(st, I, b, i, alts)
        elif op_ == "store":
            res = self.model.store(st, V(I["ptr"]), V(I["val"]), I["order"], I)
            return self.fork(st, I, b, i, res)
        elif op_ == "cmpxchg":
            alts = []
            for s2, old, ok in self.model.cas(st, V(I["ptr"]), V(I["cmp"]), V(I["new"]), I["order"], I["forder"], I["weak"], I):
                s2.env[I["id"]] = ("agg", old, const(1, 1 if ok else 0))
                alts.append(s2)
            return self.fork(st, I, b, i, alts)
        elif op_ == "atomicrmw":
            alts = []
            for s2, old in self.model.rmw(st, V(I["ptr"]), V(I["val"]), I["rmw"], I["order"], I):
                s2.env[I["id"]] = old
                alts.append(s2)
            return self.fork(st, I, b, i, alts)
        elif op_ == "extractvalue":
            a = st.env.get(I["ops"][0].get("v"))
            if isinstance(a, tuple):
                R = a[1 + I["idx"][0]]
            else:
                R = fresh(w, "unknown")
        elif op_ == "insertvalue":
            a = st.env.get(I["ops"][0].get("v")) if I["ops"][0]["k"] == "v" else None
            l = list(a) if isinstance(a, tuple) else ["agg"]
            k = I["idx"][0] + 1
            while len(l) <= k:
                l.append(fresh(64, "undef"))
            l[k] = V(I["ops"][1])
            st.env[I["id"]] = tuple(l)
            return st
        elif op_ == "getelementptr":
            if "off" not in I:
                R = fresh(64, "unknown")
            else:
                ts = [(V(I["base"]), 1)]
                for x, k in I["var"]:
                    v = V(x)
                    ts.append((sext(v, 64) if v.w < 64 else v, k))
                R = lin(64, I["off"], ts)
        elif op_ in ("ptrtoint", "inttoptr", "bitcast", "freeze", "addrspacecast"):
            v = V(I["ops"][0])
            R = zext(v, w) if v.w <= w else bits(v, 0, w)
        elif op_ == "trunc":
            R = bits(st.facts.resolve(V(I["ops"][0])), 0, w)
        elif op_ == "zext":
            R = zext(V(I["ops"][0]), w)
        elif op_ == "sext":
            R = sext(V(I["ops"][0]), w)
        elif op_ in ("add", "sub", "mul"):
            R = {"add": add, "sub": sub, "mul": mul}[op_](V(I["ops"][0]), V(I["ops"][1]))
        elif op_ in ("and", "or", "xor"):
            x, y = st.facts.resolve(V(I["ops"][0])), st.facts.resolve(V(I["ops"][1]))
            if op_ == "and" and w == 64:
                alts = self.model.mask(self, st, x, y, I)
                if alts is not None:
                    return self.fork(st, I, b, i, alts)
            R = {"and": band, "or": bor, "xor": bxor}[op_](x, y)
        elif op_ in ("shl", "lshr", "ashr"):
            x, y = V(I["ops"][0]), st.facts.resolve(V(I["ops"][1]))
            if is_const(y) and op_ == "shl":
                R = shl(x, cval(y))
            elif is_const(y) and op_ == "lshr":
                R = lshr(x, cval(y))
            elif is_const(y):
                d = divexact(x, 1 << cval(y))
                R = d if d is not None else op("ashr", w, (x, y))
            else:
                R = op(op_, w, (x, y))
        elif op_ in ("sdiv", "udiv", "urem", "srem"):
            return self.fork(st, I, b, i, self.model.divrem(self, st, op_, I))
        elif op_ == "icmp":
            R = self.icmp(st, I["pred"], V(I["ops"][0]), V(I["ops"][1]))
        elif op_ == "select":
            c = V(I["ops"][0])
            s1 = None
            outs = self.branch(st, c)
            alts = []
            for s2, t in outs:
                s2.env[I["id"]] = self.val(s2, I["ops"][1 if t else 2])
                alts.append(s2)
            return self.fork(st, I, b, i, alts)
        elif op_ == "call":
            alts = []
            for s2, how in self.call(st, I):
                if how == "ok":
                    alts.append(s2)
                elif how == "throw":
                    s2.exc = True
                    self.model.on_throw(s2, I)
            return self.fork(st, I, b, i, alts)
        elif op_ == "fence":
            st.ev("FENCE", I["loc"], order=I.get("order"))
            if hasattr(self.model, "on_fence"):
                self.model.on_fence(st, I.get("order"), I["loc"])
            return st
        elif op_ == "landingpad":
            st.env[I["id"]] = ("agg", fresh(64, "exc", ptr=True, nonnull=True), fresh(32, "sel"))
            return st
        else:
            R = fresh(w or 64, "unknown", n=op_)
        if "id" in I:
            st.env[I["id"]] = R
        return st

    def call(self, st, I):
        name = I["callee"]
        args = [self.val(st, a) for a in I["args"]]
        m = I.get("mem")
        if m:
            return [(s, "ok") for s in self.model.memop(st, m, args, I)]
        if name == "llvm.assume":
            return [(s, "ok") for s in self.model.on_assume(self, st, args[0], I)]
        if name.startswith(("llvm.lifetime", "llvm.dbg", "llvm.experimental.noalias", "llvm.stacksave", "llvm.stackrestore", "llvm.donothing")):
            if "id" in I:
                st.env[I["id"]] = fresh(I["w"] or 64, "unknown")
            return [(st, "ok")]
        if name.startswith("llvm.expect"):
            st.env[I["id"]] = args[0]
            return [(st, "ok")]
        if name.startswith(("llvm.umin", "llvm.umax", "llvm.smin", "llvm.smax")):
            p = "ult" if name[5] == "u" else "slt"
            out = []
            for s2, t in self.branch(st, self.icmp(st, p, args[0], args[1])):
                s2.env[I["id"]] = args[0] if t == (name[6:9] == "min") else args[1]
                out.append((s2, "ok"))
            return out
        if name == "__cxa_begin_catch":
            if "id" in I:
                st.env[I["id"]] = args[0]
            return [(st, "ok")]
        if name == "__cxa_end_catch":
            return [(st, "ok")]
        if name in ("__cxa_rethrow", "__cxa_throw"):
            if name == "__cxa_throw":
                self.model.on_raise(st, I)
            return [(st, "throw")]
        if name == "llvm.eh.typeid.for":
            st.env[I["id"]] = fresh(32, "unknown")
            return [(st, "ok")]
        if name in ("__cxa_allocate_exception",):
            st.env[I["id"]] = fresh(64, "exc", ptr=True, nonnull=True)
            return [(st, "ok")]
        if name.startswith("__clang_call_terminate") or name in ("__assert_fail", "_ZSt9terminatev", "abort"):
            return []
        if name.startswith("llvm.is.constant"):
            st.env[I["id"]] = const(1, 1 if is_const(args[0]) else 0)
            return [(st, "ok")]
        if name in ("llvm.trap", "llvm.ubsantrap", "llvm.debugtrap"):
            return []
        if name.startswith("llvm."):
            raise Inconclusive("%s is not modelled" % name)
        return self.model.call(st, name, args, I)

    # ---- loop headers --------------------------------------------------------------------------------------------
    def header(self, st, h, prev):
        body = self.fn.headers[h]
        back = prev in body
        # forget what the new iteration recomputes
        keep = self.fn.live[h]
        phis = {p["id"] for p in self.fn.phis[h]}
        st.env = {k: v for k, v in st.env.items() if (k in keep and self.fn.defblk.get(k) not in body) or k in phis or k[0] == "a"}
        self.model.at_header(self, st, h, back)
        if back:
            for h2 in list(st.flags):
                if h2 != h and h2 in body:
                    del st.flags[h2]
        st.flags[h] = frozenset()
        # the values with which enclosing loops were entered last
        for k in list(st.ghost):
            if k[0] == "^":
                h2 = k[1 : k.index(":")]
                if h2 == h or h2 in body or h not in self.fn.headers[h2]:
                    del st.ghost[k]
        if self.model.instances:
            key = self.instance(st, h, back)
            if key is None:
                return None
        else:
            key = (h, st.exc) + self.model.signature(st, h, back)
        G = self.G.get(key)
        if G is None:
            st.ghost["@" + h] = st.clock
            if self.model.instances:
                st.ghost["~" + h] = (key, 0)
            self.G[key] = self.snap(st, key)
            st.trace = st.trace if self.model.keep_trace else ()
            self.mark(st, h)
            return st
        self._why = None
        self.harmonize(G, st)
        if self.match(G, st):
            return None
        if DEBUG:
            print("NOMATCH", h, self.Gn.get(key, 0), self._why)
        n = self.Gn[key] = self.Gn.get(key, 0) + 1
        if n > 20:
            raise Inconclusive("%s: loop at %s does not stabilise" % (self.fn.name, h))
        s = self.lgg(G, st, key, n)
        s.ghost["@" + h] = s.clock
        if self.model.instances:
            self.tidy(s)
            for k, v in st.ghost.items():
                if k[0] == "~":
                    s.ghost[k] = v
            s.ghost["~" + h] = (key, n)
        self.G[key] = s.copy()
        if not self.model.keep_trace:
            s.trace = ()
        self.mark(s, h)
        return s

    def tidy(self, st):
        alive = set(self.model.alive())
        for v in self.slots(st).values():
            alive |= atoms_of(st.facts.resolve(v))
        st.facts.tidy(alive)

    def instance(self, st, h, back):
        """keep the ways into a loop apart: every arrival from outside that is no instance of an earlier one is a loop of
        its own, up to a limit"""
        mine = "%" + h
        cur = st.ghost.get(mine)
        body = self.fn.headers[h]
        for k in list(st.ghost):
            if k[0] == "%":
                h2 = k[1:]
                if h2 == h or h2 in body or h not in self.fn.headers[h2]:
                    del st.ghost[k]
        key = (h, st.exc) + self.model.signature(st, h, back)
        key += tuple(sorted((k, v) for k, v in st.ghost.items() if k[0] == "~" and k != "~" + h))
        if not back:
            # what earlier loops left open is a fixed unknown here
            st.ghost.pop("#gen", None)
            st.ghost.pop("#K", None)
            self.tidy(st)
            n = self.ways.setdefault(key, 0)
            st.ghost[mine] = 0
            for i in range(n):
                G = self.G[key + (i,)]
                st.ghost[mine] = i
                self.harmonize(G, st)
                if self.match(G, st):
                    return None
            if n < self.model.instances:
                cur = n
                self.ways[key] = n + 1
            else:
                cur = 0
        st.ghost[mine] = cur
        return key + (cur,)

    def mark(self, st, h):
        for p in self.fn.phis[h]:
            v = st.env.get(p["id"])
            if isinstance(v, Val) and v.w in (16, 32, 64):
                v = st.facts.resolve(v)
                if all(a.kind in ("arg", "gen", "lin", "cfg") for a in atoms_of(v)):
                    st.ghost["^%s:%s" % (h, p["id"])] = v
        for t in st.toks:
            if t.rest:
                st.ghost["^%s:rest %s %s" % (h, t.origin, t.dir)] = t.first

    def harmonize(self, a, b):
        """split the memory cells of two states at common boundaries"""

        def split(x, y):
            cuts = sorted({o for o in x} | {o + x[o][0] for o in x} | {o for o in y} | {o + y[o][0] for o in y})
            for r in (x, y):
                for o in list(r):
                    n, v = r[o]
                    inner = [c for c in cuts if o < c < o + n]
                    if inner and v.w == 8 * n:
                        del r[o]
                        ed = [o] + inner + [o + n]
                        for p, q in zip(ed, ed[1:]):
                            r[p] = (q - p, bits(v, 8 * (p - o), 8 * (q - p)))

        for k in a.mem:
            if k in b.mem:
                split(a.mem[k], b.mem[k])
        for t, u in zip(a.toks, b.toks):
            split(t.mem, u.mem)

    def snap(self, st, key):
        s = st.copy()
        s.trace = st.trace
        return s

    def slots(self, st):
        d = {}
        for k, v in st.env.items():
            if isinstance(v, Val):
                d["e", k] = v
        for k, reg in st.mem.items():
            for o, (n, v) in reg.items():
                d["m", k, o, n] = v
        for i, t in enumerate(st.toks):
            d["t", i, "first"] = t.first
            if t.last is not None:
                d["t", i, "last"] = t.last
            if t.lastnext is not None:
                d["t", i, "lastnext"] = t.lastnext
            d["t", i, "count"] = t.count
            if t.base is not None:
                d["t", i, "base"] = t.base
            if t.src is not None:
                d["t", i, "src"] = t.src
            for o, (n, v) in t.mem.items():
                d["t", i, "mem", o, n] = v
        for k, v in st.ghost.items():
            if isinstance(v, Val):
                d["g", k] = v
        for i, g in enumerate(sorted(st.gone, key=lambda g: g[1])):
            d["x", i] = g[0]
        return d

    def match(self, G, new):
        """is `new` an instance of the generalised state G?"""
        gs, ns = self.slots(G), self.slots(new)
        gen = G.ghost.get("#gen", frozenset())
        sub_ = {}
        res = new.facts.resolve
        for a in gen:
            pass

        def lookup(p):
            if p[1] in gen:
                for lo, w, v in sub_.get(p[1], ()):
                    if lo <= p[2] and p[2] + p[3] <= lo + w:
                        return bits(v, p[2] - lo, p[3])
            return None

        def is_open(v):
            """some generalised unknown in v is not bound yet"""
            for p in v.p:
                if p[0] == "c":
                    continue
                a = p[1]
                if a in gen:
                    if lookup(p) is None:
                        return True
                elif a.kind == "lin":
                    if any(is_open(t) for t, _ in a.a["lin"][1]):
                        return True
                elif a.kind == "op":
                    if any(is_open(t) for t in a.a["args"]):
                        return True
            return False

        def bind(p, v):
            a, lo, w = p[1], p[2], p[3]
            if len(v.p) == 1 and v.p[0][0] == "s" and v.p[0][1].w == a.w and v.p[0][2] == lo and a.w <= 64:
                # a slice of an unknown of the same shape: the unknowns correspond
                lo, v = 0, atomv(v.p[0][1])
                w = a.w
            for l2, w2, v2 in sub_.get(a, ()):
                x, y = max(lo, l2), min(lo + w, l2 + w2)
                if x < y and not new.facts.eq(bits(v, x - lo, y - x), bits(v2, x - l2, y - x)):
                    return False
            sub_.setdefault(a, []).append((lo, w, v))
            return True

        def unify(g, n):
            g2 = rebuild(g, lookup)
            n = res(n)
            # replace what is already bound, then compare what is left
            if not is_open(g):
                return new.facts.eq(res(g2), n)
            c, ts = lin_parts(g)
            un = [(t, k) for t, k in ts.items() if is_open(t)]
            if len(un) > 1 and g.w == n.w:
                # several unknowns: those that did not change stay what they are, one takes the difference
                nt = lin_parts(n)[1]
                same = [(t, k) for t, k in un if nt.get(t) == k and len(t.p) == 1 and t.p[0][0] == "s" and t.p[0][1] in gen]
                if len(same) == len(un):
                    kk = [x for x in same if as_atom(x[0]) is not None and as_atom(x[0]).a.get("n") == "K"]
                    same.remove(kk[0] if kk else max(same, key=lambda x: x[0].p[0][1].id))
                if len(same) == len(un) - 1:
                    for t, k in same:
                        if not bind(t.p[0], t):
                            return False
                    return unify(g, n)
            if len(un) == 1 and len(un[0][0].p) == 1 and un[0][0].p[0][0] == "s" and (len(ts) > 1 or c or un[0][1] != 1):
                t, k = un[0]
                rest = lin(g.w, c, [(rebuild(u, lookup), q) for u, q in ts.items() if u != t])
                d = divexact(sub(n, res(rest)), signed(k, g.w)) if signed(k, g.w) > 0 else divexact(sub(res(rest), n), -signed(k, g.w))
                if d is None or d.w != t.w:
                    return False
                p = t.p[0]
                if p[1] not in gen:
                    return False
                return bind(p, d)
            if g.w != n.w:
                return False
            pos = 0
            for p in g.p:
                k = pw(p)
                np_ = bits(n, pos, k)
                gp = Val(k, (p,))
                if p[0] == "c":
                    if np_ != gp:
                        return False
                elif p[1] in gen:
                    cur = lookup(p)
                    if cur is None:
                        if not bind(p, np_):
                            return False
                    elif not new.facts.eq(cur, np_):
                        return False
                elif p[1].kind in ("lin", "op") and any(a in gen for a in atoms_of(gp)):
                    a = p[1]
                    if len(np_.p) != 1 or np_.p[0][0] != "s" or np_.p[0][1].kind != a.kind or np_.p[0][2:] != p[2:]:
                        if not (len(np_.p) == 1 and np_.p[0][0] == "s" and a.kind == "lin"):
                            return False
                        return False
                    b = np_.p[0][1]
                    if a.kind == "lin":
                        if not (p[2] == 0 and p[3] == a.w) and not a.ptr:
                            return False
                        # same linear shape
                        (c1, t1), (c2, t2) = a.a["lin"], b.a["lin"]
                        if c1 != c2 or len(t1) != len(t2):
                            if atomv(a) == g or not unify(atomv(a), atomv(b)):
                                return False
                            pos += k
                            continue
                        for (x, q), (y, r) in zip(t1, t2):
                            if q != r or not unify(x, y):
                                return False
                    else:
                        if a.a["op"] != b.a["op"] or len(a.a["args"]) != len(b.a["args"]):
                            return False
                        for x, y in zip(a.a["args"], b.a["args"]):
                            if not unify(x, y):
                                return False
                else:
                    if not new.facts.eq(gp, np_):
                        return False
                pos += k
            return True

        for k in sorted(gs, key=lambda k: (len(lin_parts(gs[k])[1]) + (1 if lin_parts(gs[k])[0] else 0), repr(k))):
            if k not in ns:
                self._why = ("slot", k)
                return False
            if not unify(gs[k], ns[k]):
                self._why = (k, gs[k], ns[k])
                return False
        # attributes of generalised observations must still be met
        done = set()
        while True:
            todo = [a for a in sub_ if a not in done]
            if not todo:
                break
            for a in todo:
                done.add(a)
                for lo, w, v in list(sub_[a]):
                    if a.kind in ("obs", "pay"):
                        b = v.p[0][1] if len(v.p) >= 1 and v.p[0][0] == "s" else None
                        if b is None or b.kind != a.kind or not self.model.obs_instance(a, b, unify, new):
                            self._why = ("instance", a, v, a.a, b and b.a)
                            return False
                    if a.nonnull and not new.facts.ne(v, const(v.w, 0)) and lo == 0:
                        self._why = ("nonnull", a, v)
                        return False
        for x, y in G.facts.nes:
            x2, y2 = rebuild(x, lookup), rebuild(y, lookup)
            if not new.facts.ne(x2, y2):
                self._why = ("ne", x, y, x2, y2)
                return False
        for c, ts in G.facts.les:
            cc, tt = c, {}
            for t, k in ts.items():
                tc, t2 = toint(res(rebuild(t, lookup)))
                cc += k * tc
                for u, q in t2.items():
                    tt[u] = tt.get(u, 0) + k * q
            if not new.facts.le0(cc, tt):
                self._why = ("le", c, ts)
                return False
        for a, l in G.facts.rep.items():
            for lo, w, v in l:
                l2 = rebuild(Val(w, (("s", a, lo, w),)), lookup)
                if not new.facts.eq(l2, rebuild(v, lookup)):
                    self._why = ("rep", a, v)
                    return False
        for hh, fl in G.flags.items():
            if not fl <= new.flags.get(hh, frozenset()):
                self._why = ("flags", hh, fl)
                return False
        return True

    def lgg(self, G, new, key, rnd):
        gs, ns = self.slots(G), self.slots(new)
        s = new.copy()
        s.trace = G.trace if self.model.keep_trace else ()
        s.path = G.path
        oldgen = G.ghost.get("#gen", frozenset())
        memo = {}
        gen = set()
        clock = max(G.clock, new.clock) + 1
        ctr = {}
        rg, rn = G.facts.resolve, new.facts.resolve
        kold = G.ghost.get("#K")

        def fresh_for(a, b, w):
            """generalisation of two pieces of width w"""
            pa, pb = a.p[0], b.p[0]
            if len(a.p) == 1 and len(b.p) == 1 and pa[0] == "s" and pb[0] == "s" and pa[2] == pb[2] and pa[1].w == pb[1].w:
                k = (pa[1], pb[1])
                x = memo.get(k)
                if x is None and pa[1].kind == pb[1].kind == "op" and pa[1].a["op"] == pb[1].a["op"] == "conv":
                    return bits(op("conv", pa[1].w, (gv(pa[1].a["args"][0], pb[1].a["args"][0]),)), pa[2], w)
                if x is None:
                    A, B = pa[1], pb[1]
                    if A.kind in ("obs", "pay") and B.kind == A.kind and self.model.obs_join(A, B, None) is not None:
                        x = Atom(A.w, A.kind, {}, A.ptr and B.ptr, A.nonnull and B.nonnull)
                        memo[k] = x
                        x.a.update(self.model.obs_join(A, B, lambda u, v: gv(u, v)))
                        x.a["t"] = clock
                    else:
                        kind = A.kind if A.kind == B.kind and A.kind in ("own",) else "gen"
                        x = Atom(A.w, kind, {}, A.ptr and B.ptr, A.nonnull and B.nonnull)
                        memo[k] = x
                    gen.add(x)
                return bits(atomv(x), pa[2], w)
            k = (a, b)
            x = memo.get(k)
            if x is None:
                x = Atom(w, "gen", {}, False, False)
                if is_ptr(a) and is_ptr(b):
                    x.ptr = True
                    x.nonnull = nonnull(a) and nonnull(b)
                memo[k] = x
                gen.add(x)
            return atomv(x)

        basis = []

        def ta_of(v):
            return lin_parts(v)[1]

        def numeric(v):
            if len(v.p) == 2 and v.p[0][0] == "s" and v.p[0][1].kind != "lin" and v.p[1][0] == "c":
                return False
            if v.w == 64 and any(as_atom(t) is None for t in lin_parts(v)[1]):
                return False
            return all(x.kind not in ("obs", "own", "pay", "uval", "undef", "uninit") for x in atoms_of(v))

        def affine(a, b):
            """join of two numbers: a + k*(x - p), where x generalises another pair of numbers (p, q), b - a == k*(q - p)"""
            w = a.w
            d = sub(b, a)
            dc, dt = lin_parts(d)
            if not dt:
                k = signed(dc, w)
                if abs(k) >= 1 << 32 or w == 16 and not lin_parts(a)[1] and not lin_parts(b)[1]:
                    return None
                old = None
                if w == 64 and kold is not None and kold in atoms_of(a):
                    old = kold
                else:
                    for t, q in ta_of(a).items():
                        x = as_atom(t)
                        if x is not None and x in oldgen and x.a.get("n") == "K":
                            old = x
                            break
                for bw, bd, x, p in basis:
                    if bw == w and (bd == "new" if old is None else bd == "old" and p == atomv(old)):
                        return lin(w, 0, [(a, 1), (atomv(x), k), (p, -k)])
                x = Atom(w, "gen", {"n": "K"})
                gen.add(x)
                if old is None:
                    ctr[w] = x
                    basis.append((w, "new", x, const(w, 0)))
                    return lin(w, 0, [(a, 1), (atomv(x), k)])
                if w == 64 and old is kold:
                    ctr["old"] = x
                memo[(atomv(old), addc(atomv(old), 1))] = x
                basis.append((w, "old", x, atomv(old)))
                return lin(w, 0, [(a, 1), (atomv(x), k), (atomv(old), -k)])
            for bw, bd, x, p in basis:
                if bw != w or isinstance(bd, str):
                    continue
                c2, t2 = bd
                if set(t2) != set(dt):
                    continue
                t0 = next(iter(t2))
                q, r = divmod(signed(dt[t0], w), signed(t2[t0], w))
                if r or not q or abs(q) >= 1 << 32:
                    continue
                if (c2 * q - dc) % (1 << w) == 0 and all((t2[t] * q - dt[t]) % (1 << w) == 0 for t in t2):
                    return lin(w, 0, [(a, 1), (atomv(x), q), (p, -q)])
            ca, ta = lin_parts(a)
            p, q = addc(a, -ca), addc(b, -ca)
            pa, qa = as_atom(p), as_atom(q)
            if pa is not None and qa is not None and pa.w == qa.w == w and (pa, qa) in memo:
                x = memo[pa, qa]
            else:
                x = Atom(w, "gen", {}, is_ptr(p) and is_ptr(q), nonnull(p) and nonnull(q))
                if pa is not None and qa is not None and pa.w == qa.w == w:
                    memo[pa, qa] = x
                else:
                    memo[p, q] = x
                gen.add(x)
            basis.append((w, (dc, dt), x, p))
            return addc(atomv(x), ca)

        def gv(a, b):
            a, b = rg(a), rn(b)
            if a == b:
                return a
            if new.facts.eq(a, b) and not any(x in oldgen for x in atoms_of(a)):
                return a
            if a.w != b.w:
                return fresh(a.w, "gen")
            ca, ta = lin_parts(a)
            cb, tb = lin_parts(b)
            if a.w in (16, 32, 64) and numeric(a) and numeric(b) and not (self.model.no_counter and not ta and not tb):
                r = affine(a, b)
                if r is not None:
                    return r
            if ta == tb and a.w in (16, 32, 64) and ca != cb and (ta or a.w in (32, 64)) and not (a.w == 64 and not ta and self.model.no_counter):
                d = signed(cb - ca, a.w)
                if abs(d) < (1 << 20):
                    for t, k in ta.items():
                        x = as_atom(t)
                        k = signed(k, a.w)
                        if x is not None and x in oldgen and x.a.get("n") == "K" and d % k == 0:
                            kk = (x, addc(t, d // k))
                            if kk not in memo:
                                memo[kk] = Atom(a.w, "gen", {"n": "K"})
                                gen.add(memo[kk])
                            return lin(a.w, 0, [(a, 1), (atomv(memo[kk]), k), (t, -k)])
                    if a.w not in ctr:
                        x = Atom(a.w, "gen", {"n": "K"})
                        ctr[a.w] = x
                        gen.add(x)
                    return lin(a.w, 0, [(a, 1), (atomv(ctr[a.w]), d)])
            if ta and len(ta) == len(tb) and ca == cb and len(ta) > 1 or (ta and tb and len(ta) == len(tb) and ca == cb and list(ta.values()) == list(tb.values()) and (ca or list(ta.values()) != [1])):
                # same linear shape
                xs = []
                ua = {t: k for t, k in ta.items() if tb.get(t) != k}
                ub = {t: k for t, k in tb.items() if ta.get(t) != k}
                if len(ua) == len(ub) == 1 and list(ua.values()) == list(ub.values()):
                    com = [(t, k) for t, k in ta.items() if tb.get(t) == k]
                    (x, k), = ua.items()
                    (y, _), = ub.items()
                    return lin(a.w, ca, com + [(gv(x, y), k)])
            out = []
            al = align(a, b)
            if len(al) == 1 and (len(a.p) != 1 or len(b.p) != 1):
                return fresh_for(a, b, a.w)
            for _, x, y in al:
                if x == y:
                    out.append(x)
                elif is_const(x) or is_const(y):
                    out.append(fresh_for(x, y, x.w) if len(x.p) == 1 and len(y.p) == 1 else fresh(x.w, "gen"))
                else:
                    px, py = x.p[0], y.p[0]
                    if px[1].kind == "lin" and py[1].kind == "lin" and px[2] == py[2] == 0 and px[3] == py[3] and (px[3] == px[1].w) and px[1].w == py[1].w and len(al) > 1:
                        out.append(gv(x, y))
                    else:
                        out.append(fresh_for(x, y, x.w))
            return cat(*out)

        def fresh_for2(a, b):
            k = (a, b)
            if k not in memo:
                memo[k] = Atom(a.w, "gen", {}, is_ptr(a) and is_ptr(b), nonnull(a) and nonnull(b))
                gen.add(memo[k])
            return atomv(memo[k])

        # plain numbers first, those that differ least first: the others are expressed through them
        nums = []
        for k in gs:
            if k in ns and gs[k].w == ns[k].w and gs[k].w in (16, 32, 64) and gs[k] != ns[k]:
                x, y = rg(gs[k]), rn(ns[k])
                if x != y and numeric(x) and numeric(y):
                    c, t = lin_parts(sub(y, x))
                    g = 0
                    for q in list(t.values()) or [c]:
                        g = gcd(g, abs(signed(q, x.w)))
                    nums.append((len(t), g, len(lin_parts(x)[1]), repr(k), x, y))
        for _, _, _, _, x, y in sorted(nums, key=lambda n: n[:4]):
            gv(x, y)
        out = {}
        for k in gs:
            if k in ns:
                x = gs[k]
                if x == ns[k] and x.w in (32, 64) and not is_const(x) and rg(x) != rn(x) and numeric(rg(x)) and numeric(rn(x)):
                    out[k] = x
                else:
                    out[k] = gv(x, ns[k])
        # write back
        s.env = {k: out.get(("e", k), s.env[k]) for k in s.env if ("e", k) in out or isinstance(s.env[k], tuple)}
        s.mem = {}
        for k in out:
            if k[0] == "m":
                s.mem.setdefault(k[1], {})[k[2]] = (k[3], out[k])
        for i, t in enumerate(s.toks):
            t.first = out["t", i, "first"]
            t.last = out.get(("t", i, "last"))
            t.lastnext = out.get(("t", i, "lastnext"))
            t.count = out["t", i, "count"]
            t.base = out.get(("t", i, "base"))
            t.src = out.get(("t", i, "src"))
            t.mem = {}
            for k in out:
                if k[0] == "t" and k[1] == i and k[2] == "mem":
                    t.mem[k[3]] = (k[4], out[k])
        gh = {}
        for k, v in G.ghost.items():
            if ("g", k) in out:
                gh[k] = out["g", k]
            elif k in new.ghost and not isinstance(v, Val) and not k.startswith("#"):
                gh[k] = self.model.ghost_join(k, v, new.ghost[k])
        used = set()
        for v in out.values():
            used |= atoms_of(v)
        todo = list(used)
        while todo:
            x = todo.pop()
            r = x.a.get("ref") if x.kind == "pay" else x.a["loc"][1] if x.kind == "obs" and x.a["loc"][0] == "N" else None
            if r is not None:
                for y in atoms_of(r):
                    if y not in used:
                        used.add(y)
                        todo.append(y)
        kept_old = {a for a in oldgen if a in used}
        gh["#gen"] = frozenset((gen & used) | kept_old | {x for x in gen if x in used})
        if "old" in ctr:
            gh["#K"] = ctr["old"]
        elif 64 in ctr:
            gh["#K"] = ctr[64]
        elif kold is not None and kold in used:
            gh["#K"] = kold
        s.ghost = gh
        s.clock = clock
        s.flags = {h: G.flags[h] & new.flags[h] for h in G.flags if h in new.flags}
        s.gone = tuple((out["x", i], g[1]) for i, g in enumerate(sorted(G.gone, key=lambda g: g[1])) if ("x", i) in out)
        s.nmem = ()
        # facts
        f = Facts()
        inv = {}
        for k, x in memo.items():
            if isinstance(k[0], Atom):
                inv.setdefault(k[0], []).append((k[1], x))
            elif as_atom(k[0]) is not None:
                inv.setdefault(as_atom(k[0]), []).append((k[1], x))

        def fwd(p):  # G side -> generalised
            l = inv.get(p[1])
            if l:
                return bits(atomv(l[0][1]), p[2], p[3])
            return None

        invn = {}
        for k, x in memo.items():
            if isinstance(k[1], Atom):
                invn.setdefault(k[1], []).append((k[0], x))
            elif as_atom(k[1]) is not None:
                invn.setdefault(as_atom(k[1]), []).append((k[0], x))

        def images(vals, inv=inv):
            """the substitutions under which a fact about one side can hold of the join: each unknown stays what it is or
            becomes one of its generalisations"""
            ats = sorted({x for v in vals for x in atoms_of(v) if x in inv}, key=lambda x: x.id)[:4]
            choices = [[None] + [x for _, x in inv[t]][:3] for t in ats]
            for ch in itertools.product(*choices):
                m = {t: x for t, x in zip(ats, ch) if x is not None}
                yield lambda p, m=m: bits(atomv(m[p[1]]), p[2], p[3]) if p[1] in m else None

        rev = {}
        for k, x in memo.items():
            rev[x] = (atomv(k[1]) if isinstance(k[1], Atom) else k[1])

        def tonew(p):
            v = rev.get(p[1])
            if v is not None:
                return bits(v, p[2], p[3])
            for w_, x in ctr.items():
                if x is p[1]:
                    return bits(const(w_, 1), p[2], p[3])
            return None

        back = {}
        for k, x in memo.items():
            back[x] = atomv(k[0]) if isinstance(k[0], Atom) else k[0]
        for bw, bd, x, p in basis:
            back[x] = p

        def toold(p):
            v = back.get(p[1])
            return bits(v, p[2], p[3]) if v is not None else None

        def holds(side, to, c, ts):
            cc, tt = c, {}
            for t, k in ts.items():
                uc, ut = toint(side.facts.resolve(rebuild(t, to)))
                cc += k * uc
                for q, r in ut.items():
                    tt[q] = tt.get(q, 0) + k * r
            return side.facts.le0(cc, tt)

        seen = set()
        gnes = set(G.facts.nes)
        for inv_, x, y in [(inv, x, y) for x, y in list(G.facts.nes) + list(new.facts.nes)] + [(invn, x, y) for x, y in new.facts.nes]:
            if inv_ is inv and (x, y) not in gnes and not G.facts.ne(x, y):
                continue
            for im in images((x, y), inv_):
                gx, gy = rebuild(x, im), rebuild(y, im)
                if (gx, gy) in seen:
                    continue
                seen.add((gx, gy))
                if new.facts.ne(rebuild(gx, tonew), rebuild(gy, tonew)) and (inv_ is inv or G.facts.ne(rebuild(gx, toold), rebuild(gy, toold))):
                    f.nes = f.nes + ((gx, gy),)
        def paired(x, y):
            """the join of two values, if it needs no further unknowns"""
            m0, g0, b0, c0 = dict(memo), set(gen), len(basis), dict(ctr)
            r = gv(x, y)
            if len(memo) == len(m0) and len(gen) == len(g0):
                return r
            memo.clear()
            memo.update(m0)
            gen.clear()
            gen.update(g0)
            del basis[b0:]
            ctr.clear()
            ctr.update(c0)
            return None

        for x, y in G.facts.nes[-12:]:
            for u, v in new.facts.nes[-12:]:
                if (x, y) == (u, v) or x.w != u.w or y.w != v.w or x.w != 64:
                    continue
                gx, gy = paired(x, u), paired(y, v)
                if gx is not None and gy is not None and (gx, gy) not in seen:
                    seen.add((gx, gy))
                    f.nes = f.nes + ((gx, gy),)
        for a, l in G.facts.rep.items():
            for lo, w, v in l:
                old = Val(w, (("s", a, lo, w),))
                g2, v2 = rebuild(old, fwd), rebuild(v, fwd)
                if g2 == old and new.facts.eq(rebuild(g2, tonew), rebuild(v2, tonew)):
                    f.rep.setdefault(a, ())
                    f.rep[a] = tuple(sorted(f.rep[a] + ((lo, w, v2),), key=lambda z: z[0]))
        for k, x in memo.items():
            va = atomv(k[0]) if isinstance(k[0], Atom) else k[0]
            vb = atomv(k[1]) if isinstance(k[1], Atom) else k[1]
            for lo, w in self.model.null_slices(x):
                a_, b_ = bits(va, lo, w), bits(vb, lo, w)
                z = self.model.null_for(w)
                if z is not None and G.facts.ne(a_, z) and new.facts.ne(b_, z):
                    f.nes = f.nes + ((bits(atomv(x), lo, w), z),)
        seen = set()
        for inv_, c, ts in [(inv, c, ts) for c, ts in G.facts.les] + [(invn, c, ts) for c, ts in new.facts.les]:
            for im in images(tuple(ts), inv_):
                cc, tt = c, {}
                for t, k in ts.items():
                    uc, ut = toint(rebuild(t, im))
                    cc += k * uc
                    for q, r in ut.items():
                        tt[q] = tt.get(q, 0) + k * r
                tt = {q: r for q, r in tt.items() if r}
                kk = (cc, frozenset(tt.items()))
                if kk in seen:
                    continue
                seen.add(kk)
                # check in new
                nc, nt = cc, {}
                for t, k in tt.items():
                    uc, ut = toint(rn(rebuild(t, tonew)))
                    nc += k * uc
                    for q, r in ut.items():
                        nt[q] = nt.get(q, 0) + k * r
                if new.facts.le0(nc, nt) and (inv_ is inv or holds(G, toold, cc, tt)):
                    f.les = f.les + ((cc, tt),)
        dead = lambda v: any(x.kind == "gen" and x not in gh["#gen"] for x in atoms_of(v))
        f.nes = tuple((x, y) for x, y in f.nes if not dead(x) and not dead(y))
        s.facts = f
        for c in self.model.loop_candidates(self, G, new, s, out, key):
            # candidate invariants c <= 0, valid on both sides
            cc, ts = c
            gc, gt = cc, {}
            okg = True
            for t, k in ts.items():
                def tog(p):
                    for kk, x in memo.items():
                        if x is p[1]:
                            v = atomv(kk[0]) if isinstance(kk[0], Atom) else kk[0]
                            return bits(v, p[2], p[3])
                    for w_, x in ctr.items():
                        if x is p[1]:
                            return bits(const(w_, 0), p[2], p[3])
                    return None
                uc, ut = toint(rg(rebuild(t, tog)))
                gc += k * uc
                for q, r in ut.items():
                    gt[q] = gt.get(q, 0) + k * r
            nc, nt = cc, {}
            for t, k in ts.items():
                uc, ut = toint(rn(rebuild(t, tonew)))
                nc += k * uc
                for q, r in ut.items():
                    nt[q] = nt.get(q, 0) + k * r
            if G.facts.le0(gc, gt) and new.facts.le0(nc, nt):
                s.facts.les = s.facts.les + (c,)
        return s
