"""Model and rules for the ring buffer (spsc_queue).

The two indices own disjoint parts of the ring.  Seen from one of the two threads its own index is private, and an
observation x of the other index promises avail(own, x) slots (free ones to the producer, filled ones to the consumer);
the promise stays valid however the other thread proceeds.  Every access to the buffer is translated into a logical
position (distance from the own index), which has to lie below a promise obtained by an acquire load; the positions that
were built, delivered and destroyed are kept as intervals, and the store to the own index has to hand over exactly them.
Nothing is bounded: ring size, indices and lengths are symbols and all comparisons are decided over linear integer facts.
"""
from mpmc import *
from mpmc import _dem

PRODUCER = ("push", "push_range", "push_array", "push_arr5", "write_available")
CONSUMER = ("pop", "pop_conv", "pop_void", "pop_array", "pop_arr5", "pop_ptr", "pop_out", "consume_one", "consume_one_c", "consume_all",
            "consume_all_c", "front", "front_c", "read_available")
EXCL = ("ctor", "ctor_alloc", "dtor", "reset")
OBSERVER = ("empty", "is_lock_free", "front", "front_c", "read_available", "write_available")
DISCARD = ("pop_void", "dtor", "reset")


class SpscConfig(Config):
    def __init__(self, name, dump, kind, storage, elem, capacity=None):
        self.name = name
        self.kind = kind
        self.storage = storage
        self.elem = elem
        self.capacity = capacity
        self.opaque = elem in ("vp::Elem", "vp::DElem")
        self.rawcopy = elem == "vp::DElem"
        self.dump = dump
        self.findings, self.obl, self.notes, self.stats = {}, {}, set(), {}
        callees(dump)
        L, g = dump["layouts"], dump["globals"]
        self.size, self.align, self.esize, self.ealign = g["vpg_sizeof"], g["vpg_alignof"], g["vpg_esize"], g["vpg_ealign"]
        cont = [(k, l) for k, l in L.items() if l["name"].startswith("spsc_queue<") and l["size"] == self.size]
        if not cont:
            raise Inconclusive("container layout not found in debug information")
        self.layout = cont[0][1]
        self.leaves = []
        self.flatten(cont[0][0], 0, "", set())
        words = [x for x in self.leaves if x[3].startswith("atomic<")]
        if len(words) != 2 or any(w[2] != 8 for w in words):
            raise Inconclusive("the two indices were not found: %r" % (words,))
        self.refkind = "spsc"
        self.wbytes = 8
        self.rw = 64
        self.S = self.esize
        self.pay = (0, self.esize)
        self.linkbytes = 8
        self.roles = {}
        for path, off, size, tn in words:
            last = path.split("/")[-1]
            self.roles[off] = "write" if last.startswith("write") else "read" if last.startswith("read") else None
        if set(self.roles.values()) != {"write", "read"}:
            st = self.stored("vpe_push")
            if len(st) != 1:
                raise Inconclusive("the roles of the indices were not recognised")
            self.roles = {w[1]: "write" if w[1] in st else "read" for w in words}
        self.off = {r: o for o, r in self.roles.items()}
        self.null = None
        self.ctor = {}
        self.leafval = {}
        self.array_off = None
        self.alloc_c = None
        self.bufoff = None
        if storage == "ct":
            big = [x for x in self.leaves if not x[3].startswith("atomic<") and x[1] not in range(0, 8)]
            at = self.indexed("vpe_push")
            big = max(big, key=lambda x: (any(x[1] <= o < x[1] + x[2] for o in at), x[2]))
            self.bufoff, self.bufsize = big[1], big[2]
            self.max = const(64, capacity + 1)
        else:
            self.N = atomv(Atom(64, "cfg", {"off": -1, "n": "N"}))
            self.max = addc(self.N, 1)
            for p, o, n, t in self.leaves:
                if p.endswith("/array_"):
                    self.array_off = o
                if p.endswith("/max_elements_"):
                    self.leafval[o] = 1
            self.alloc_c = 1

    def indexed(self, fn):
        """offsets in the container from which the operation computes addresses with an index"""
        out = set()
        addr = {"a0": 0}
        for b in self.dump["functions"][fn]["blocks"]:
            for i in b["insts"]:
                if i["op"] == "getelementptr" and i.get("base", {}).get("v") in addr:
                    if i["var"]:
                        out.add(addr[i["base"]["v"]] + i["off"])
                    else:
                        addr[i["id"]] = addr[i["base"]["v"]] + i["off"]
        return out

    def stored(self, fn):
        out = set()
        addr = {"a0": 0}
        words = {x[1] for x in self.leaves if x[3].startswith("atomic<")}
        for b in self.dump["functions"][fn]["blocks"]:
            for i in b["insts"]:
                if i["op"] == "getelementptr" and i.get("base", {}).get("v") in addr and not i["var"]:
                    addr[i["id"]] = addr[i["base"]["v"]] + i["off"]
                if i["op"] in ("store", "atomicrmw", "cmpxchg") and i["ptr"].get("v") in addr:
                    out.add(addr[i["ptr"]["v"]])
        return out & words


class SpscModel(Model):
    instances = 8

    def __init__(self, cfg, name):
        self.cfg = cfg
        self.name = name
        n = name[4:]
        self.entry = n
        self.kind = "ctor" if n.startswith("ctor") else n
        self.range = n == "push_range"
        self.excl = n in EXCL
        self.observer = n in OBSERVER
        self.role = "write" if n in PRODUCER else "read" if n in CONSUMER or n in ("dtor", "reset") else None
        self.other = {"write": "read", "read": "write"}.get(self.role)
        self.globals_ = {}
        self.cfgatoms = {}
        self.argmem = {}
        self.nrets = 0
        self.nthrows = 0

    def nullref(self, st):
        return None

    def null_slices(self, a):
        return []

    def null_for(self, w):
        return None

    # ---- integer reasoning -------------------------------------------------------------------------------------------
    def ints(self, st, v):
        return toint(st.facts.resolve(v))

    def diff(self, st, a, b, k=0):
        """the linear form a - b + k"""
        c, ts = self.ints(st, sub(a, b))
        return c + k, ts

    def entails(self, st, goal, conds=()):
        """goal <= 0 follows from the facts and conds"""
        f = st.facts
        neg = (1 - goal[0], {t: -k for t, k in goal[1].items()})
        cons = list(conds) + [neg]
        if f._infeasible(cons):
            return True
        split = []
        for x, y in f.nes:
            if x.w != 64:
                continue
            c, ts = toint(sub(f.resolve(x), f.resolve(y)))
            if ts and not any(is_ptr(t) for t in ts):
                split.append((c, ts))
        for n in (1, 2, 3):
            if n > len(split):
                break
            if self.infeasible_split(f, cons, split[-n:]):
                return True
        return False

    def infeasible_split(self, f, cons, split):
        if not split:
            return f._infeasible(cons)
        c, ts = split[0]
        neg = {t: -k for t, k in ts.items()}
        return self.infeasible_split(f, cons + [(c + 1, ts)], split[1:]) and self.infeasible_split(f, cons + [(1 - c, neg)], split[1:])

    def le(self, st, a, b, conds=()):
        return self.entails(st, self.diff(st, a, b), conds)

    def cases(self, st, own, x):
        """the cases of avail(own, x) as (condition, value)"""
        m = self.cfg.max
        if self.role == "write":
            # x > own | x <= own
            return [(self.diff(st, own, x, 1), addc(sub(x, own), -1)), (self.diff(st, x, own), addc(add(sub(x, own), m), -1))]
        return [(self.diff(st, own, x), sub(x, own)), (self.diff(st, x, own, 1), add(sub(x, own), m))]

    def avail_ge(self, st, own, x, n):
        return all(self.entails(st, self.diff(st, n, a), (c,)) for c, a in self.cases(st, own, x))

    def avail_eq(self, st, own, x, n):
        return all(self.entails(st, self.diff(st, n, a), (c,)) and self.entails(st, self.diff(st, a, n), (c,)) for c, a in self.cases(st, own, x))

    def at_pos(self, st, own, j):
        """conditions under which the logical position j is the slot own+j | own+j-max"""
        m = self.cfg.max
        s = add(own, j)
        return s, sub(s, m)

    def is_slot(self, st, s, own, j):
        """s is the slot of position j, inside the ring; None when s is own+j or own+j-max but the range is not known"""
        a, b = self.at_pos(st, own, j)
        m = self.cfg.max
        hit = False
        if st.facts.eq(s, a):
            hit = True
            if self.le(st, addc(a, 1), m):
                return True
        if st.facts.eq(s, b):
            hit = True
            if self.le(st, m, a):
                return True
        # the two spellings coincide where the path decides which one applies
        c1, c2 = self.diff(st, a, m, 1), self.diff(st, m, a)
        if self.same(st, s, a, (c1,)) and self.same(st, s, b, (c2,)):
            return True
        return None if hit else False

    def same(self, st, x, y, conds):
        c, ts = self.diff(st, x, y)
        if any(is_ptr(t) for t in ts):
            return False
        return self.entails(st, (c, ts), conds) and self.entails(st, (-c, {t: -k for t, k in ts.items()}), conds)

    def divrem(self, ex, st, opn, I):
        """x / max and x % max, where they are a wrap-around"""
        x, y = [st.facts.resolve(ex.val(st, o)) for o in I["ops"]]
        return self.wrap(ex, st, opn, x, y, I)

    def mask(self, ex, st, x, y, I):
        """x & (max - 1), where max is known to be a power of two"""
        f = st.facts
        m = f.resolve(self.cfg.max)
        m1 = addc(m, -1)
        for a, b in ((x, y), (y, x)):
            if f.eq(b, m1) and not f.eq(a, m):
                p = band(m, m1)
                if f.eq(p, const(64, 0)):
                    return self.wrap(ex, st, "urem", a, m, I)
        return None

    def wrap(self, ex, st, opn, x, y, I):
        f = st.facts
        if opn not in ("udiv", "urem") or x.w != 64 or not f.eq(y, self.cfg.max) or is_const(x):
            return Model.divrem(self, ex, st, opn, I)
        c, ts = toint(x)
        if any(is_ptr(t) for t in ts):
            return Model.divrem(self, ex, st, opn, I)

        def neg(l):
            return (1 - l[0], {t: -k for t, k in l[1].items()})

        below0 = (c + 1, ts)
        below1 = self.diff(st, x, y, 1)
        below2 = self.diff(st, x, add(y, y), 1)
        out = []
        for conds, q in (((neg(below0), below1), 0), ((neg(below1), below2), 1), ((neg(below2),), None), ((below0,), None)):
            s2 = st.copy()
            s2.facts.les = s2.facts.les + tuple(conds)
            if s2.facts._infeasible([]):
                continue
            if q is None:
                v = fresh(64, "unknown", n=opn)
                if opn == "urem":
                    s2.facts.les = s2.facts.les + (self.diff(s2, v, y, 1),)
            elif opn == "udiv":
                v = const(64, q)
            else:
                v = sub(x, y) if q else x
            s2.env[I["id"]] = v
            out.append(s2)
        return out

    # ---- intervals ----------------------------------------------------------------------------------------------------
    def ivs(self, st, name):
        return [(st.ghost["%s%dlo" % (name, i)], st.ghost["%s%dhi" % (name, i)]) for i in range(st.ghost.get(name + "n", 0))]

    def set_ivs(self, st, name, l):
        for i in range(st.ghost.get(name + "n", 0)):
            st.ghost.pop("%s%dlo" % (name, i))
            st.ghost.pop("%s%dhi" % (name, i))
        for i, (lo, hi) in enumerate(l):
            st.ghost["%s%dlo" % (name, i)] = lo
            st.ghost["%s%dhi" % (name, i)] = hi
        st.ghost[name + "n"] = len(l)

    def clean(self, st, name):
        eq = st.facts.eq
        l = [(lo, hi) for lo, hi in self.ivs(st, name) if not eq(lo, hi)]
        ch = True
        while ch:
            ch = False
            for i, (a, b) in enumerate(l):
                for k, (c, d) in enumerate(l):
                    if i != k and eq(b, c):
                        l[i] = (a, d)
                        del l[k]
                        ch = True
                        break
                if ch:
                    break
        self.set_ivs(st, name, l)
        return l

    def iv_add(self, st, name, j, n):
        """False when the position is known to be in already"""
        l = self.clean(st, name)
        one = const(64, 1)
        for lo, hi in l:
            if self.le(st, lo, j) and self.le(st, addc(j, 1), hi):
                return False
        self.set_ivs(st, name, l + [(j, add(j, n))])
        self.clean(st, name)
        return True

    def iv_del(self, st, name, j):
        l = self.clean(st, name)
        for i, (lo, hi) in enumerate(l):
            if self.le(st, lo, j) and self.le(st, addc(j, 1), hi):
                self.set_ivs(st, name, l[:i] + [(lo, j), (addc(j, 1), hi)] + l[i + 1 :])
                self.clean(st, name)
                return True
        return False

    # ---- begin ----------------------------------------------------------------------------------------------------------
    def begin(self, ex, st, args):
        self.ex = ex
        self.here = None
        c = self.cfg
        as_atom(args[0]).a["align"] = c.align
        self.args = args
        g = st.ghost
        for k in ("done", "deliv", "assigned"):
            g[k] = const(64, 0)
        f = st.facts
        if c.storage != "ct":
            f.les = f.les + ((-NUMMAX, {c.N: 1}),)
        for i, a in enumerate(args[1:], 1):
            if a.w == 64 and not is_ptr(a):
                f.les = f.les + ((-NUMMAX, {a: 1}),)
        self.L = None
        if self.entry == "push_range":
            L = atomv(Atom(64, "cfg", {"n": "L", "off": -2}))
            f.les = f.les + ((-NUMMAX, {L: 1}),)
            e = lin(64, 0, [(args[1], 1), (L, c.esize)])
            st.env[ex.fn.args[2]["id"]] = e
            self.args = args = [args[0], args[1], e]
            self.L = L
        elif self.entry in ("push_array", "pop_array"):
            self.L = args[2]
        elif self.entry in ("push_arr5", "pop_arr5"):
            self.L = const(64, 5)
        reg = st.mem.setdefault(("C",), {})
        if self.kind == "ctor":
            return
        own = [self.role] if self.role and not self.excl else ["write", "read"] if self.excl else []
        for r in own:
            v = atomv(Atom(64, "cfg", {"off": c.off[r], "n": r + "0"}))
            reg[c.off[r]] = (8, v)
            self.in_ring(st, v)
        if self.entry in ("dtor", "reset"):
            g["obs"] = g["acq"] = reg[c.off["write"]][1]

    def in_ring(self, st, v):
        c, ts = toint(self.cfg.max)
        st.facts.les = st.facts.les + ((1 - c, {v: 1, **{t: -k for t, k in ts.items()}}),)

    def own(self, st):
        return st.mem[("C",)][self.cfg.off[self.role]][1]

    # ---- addresses ---------------------------------------------------------------------------------------------------------
    def cls(self, st, ptr):
        c = self.cfg
        p = st.facts.resolve(ptr)
        k, ts = lin_parts(p)
        k = signed(k, 64)
        if not ts:
            return ("Z", k)
        base, var = None, []
        for t, q in ts.items():
            if signed(q, 64) == 1 and base is None and is_ptr(t):
                base = t
            else:
                var.append((t, signed(q, 64)))
        if base is None:
            return ("?", k)
        a = as_atom(base)
        if a is None:
            return ("?", k)
        if a.kind == "alloca" and not var:
            return ("L", a, k)
        if a.kind == "global":
            return ("G", a, k)
        if a.kind == "exc":
            return ("X", a, k)
        if a.kind == "arg":
            if a.a["n"] == 0:
                if c.storage == "ct" and (var or c.bufoff <= k < c.bufoff + c.bufsize):
                    return ("B", addc(sub(p, base), -c.bufoff))
                return ("C", k) if not var else ("?", k)
            return ("A", base, sub(p, base))
        if a.kind == "heap" or a.kind == "cfg" and a.a["off"] == c.array_off:
            return ("B", sub(p, base))
        return ("?", k)

    def slot(self, st, off):
        """(slot, offset in the element)"""
        c, ts = lin_parts(st.facts.resolve(off))
        f = signed(c, 64) % self.cfg.esize
        s = divexact(addc(off, -f), self.cfg.esize)
        if s is None:
            s = divexact(addc(st.facts.resolve(off), -f), self.cfg.esize)
        return s, f

    # ---- evidence ------------------------------------------------------------------------------------------------------------
    def observe(self, st, order, loc):
        c = self.cfg
        v = atomv(Atom(64, "cfg", {"off": c.off[self.other], "n": self.other}))
        self.in_ring(st, v)
        st.ghost["obs"] = v
        if order in ACQ:
            st.ghost["acq"] = v
        return v

    def on_fence(self, st, order, loc):
        if order in ACQ and "obs" in st.ghost:
            st.ghost["acq"] = st.ghost["obs"]
        if order in REL:
            st.ghost["relfence"] = True

    def touched(self, st):
        st.ghost.pop("relfence", None)
        st.flag("progress")

    def promised(self, st, j, n, what, loc):
        """the positions [j, j+n) may be accessed"""
        own = self.own(st)
        end = add(j, n)
        g = st.ghost
        side = "free" if self.role == "write" else "filled"
        self.cfg.ob("slot-unavailable", self.name, loc)
        self.cfg.ob("mo-acquire", self.name, loc)
        if "acq" in g and self.avail_ge(st, own, g["acq"], end):
            return True
        if "obs" in g and self.avail_ge(st, own, g["obs"], end):
            self.find("mo-acquire", "%s: the load of the other side's index that shows the slot to be %s is not an acquire" % (what, side), loc)
            return True
        self.find("slot-unavailable", "%s: the slot was not seen to be %s" % (what, side), loc)
        return False

    def logical(self, st, s, f, cands, what, loc):
        """the logical position of the slot s"""
        self.cfg.ob("slot", self.name, loc)
        if s is None:
            raise Inconclusive("%s: an address in the buffer is not a multiple of the element size (%s)" % (self.name, srcline(loc)))
        own = self.own(st)
        m = self.cfg.max
        half = False
        for j in cands:
            r = self.is_slot(st, s, own, j)
            if r:
                return j
            half = half or r is None
        if self.le(st, own, s):
            if self.le(st, addc(s, 1), m):
                return sub(s, own)
            half = True
        if self.le(st, addc(s, 1), own):
            return add(sub(s, own), m)
        if half:
            self.find("slot-range", "%s: the slot may lie outside the ring" % what, loc)
        else:
            self.find("slot", "%s: the slot is not the one that is due" % what, loc)
        return None

    def src_ok(self, st, v, j):
        """v is the input element for position j"""
        c = self.cfg
        pos = 0
        base = self.args[1]
        idx = add(st.ghost["done"], j)
        for p in st.facts.resolve(v).p:
            a = p[1] if p[0] == "s" else None
            if a is None or a.kind != "uval" or a.a["base"] != base or p[2] % 8:
                return False
            if not st.facts.eq(a.a["off"], lin(64, pos - p[2] // 8, [(idx, c.esize)])):
                return False
            pos += pw(p) // 8
        return pos == c.esize

    def limit(self, st, j, n, what, loc):
        """the input ends where the caller said"""
        if self.L is not None:
            self.need(self.le(st, add(add(st.ghost["done"], j), n), self.L), "range-overrun", "%s beyond the end of the caller's range" % what, loc)
        elif self.entry in ("push", "pop", "pop_conv", "pop_void", "consume_one", "consume_one_c"):
            self.need(self.le(st, add(add(st.ghost["done"], j), n), const(64, 1)), "range-overrun", "%s more than one element" % what, loc)

    # ---- loads --------------------------------------------------------------------------------------------------------------
    def cload(self, st, off, n):
        c = self.cfg
        if self.kind != "ctor" and off in c.leafval and n == 8:
            reg = st.mem.setdefault(("C",), {})
            if off not in reg:
                reg[off] = (8, addc(c.N, c.leafval[off]))
        return Model.cload(self, st, off, n)

    def load(self, st, ptr, w, order, I):
        k = self.cls(st, ptr)
        if k[0] == "B":
            return [(st, bits(self.buf_load(st, k[1], nbytes(w), I["loc"]), 0, w))]
        if k[0] == "A":
            if self.entry.startswith("push"):
                self.src_read(st, k, nbytes(w), I["loc"])
        return Model.load(self, st, ptr, w, order, I)

    def note_src(self, st, ptr, I):
        pass

    def src_read(self, st, k, n, loc):
        c = self.cfg
        if as_atom(k[1]).a["n"] != 1:
            return
        if self.L is None:
            return
        off = st.facts.resolve(k[2])
        cc, ts = lin_parts(off)
        f = signed(cc, 64) % c.esize
        i = divexact(addc(off, -f), c.esize)
        if i is None:
            return
        self.need(self.le(st, addc(i, 1), self.L), "range-overrun", "an element beyond the end of the caller's range is read", loc)

    def load_c(self, st, off, n, w, order, I):
        c = self.cfg
        r = self.isrole(off, n)
        loc = I["loc"]
        if r is None:
            return [(st, bits(self.cload(st, off, n), 0, w))]
        role = c.roles[r]
        if off != r or n != 8:
            self.find("partial-word", "only part of the %s index is read" % role, loc)
            return [(st, fresh(w, "unknown"))]
        reg = st.mem.setdefault(("C",), {})
        if self.excl:
            if self.kind == "ctor":
                return [(st, bits(rload(reg, off, n, lambda o, m: fresh(8 * m, "uninit")), 0, w))]
            out = []
            for s2 in self.ordered(st):
                out.append((s2, bits(s2.mem[("C",)][off][1], 0, w)))
            return out
        if order == "na":
            self.find("plain-access", "the %s index is read by a plain load" % role, loc)
        if role == self.role:
            return [(st, reg[off][1])]
        if self.role is None:
            v = atomv(Atom(64, "cfg", {"off": off, "n": role}))
            self.in_ring(st, v)
            st.ghost["obs:" + role] = v
        else:
            v = self.observe(st, order, loc)
        st.ev("LOAD", loc, obs=as_atom(v), role=role)
        for h in st.flags:
            st.flags[h] = st.flags[h] | {"observed"}
        if self.role is None or self.observer:
            return [(st, v)]
        return [(s2, v) for s2 in self.ordered(st)]

    def ordered(self, st):
        """split: which of the two indices is ahead in the ring"""
        if not self.role or self.order(st) is not None:
            return [st]
        out = []
        own, v = self.own(st), st.ghost["obs"]
        for d in (self.diff(st, own, v), self.diff(st, v, own, 1)):
            s2 = st.copy()
            s2.facts.les = s2.facts.les + (d,)
            if not s2.facts._infeasible([]):
                out.append(s2)
        return out

    def order(self, st):
        """is the other side's index ahead of the own one in the ring?"""
        if not self.role or "obs" not in st.ghost:
            return None
        own, v = self.own(st), st.ghost["obs"]
        if self.le(st, own, v):
            return 1
        return 0 if self.le(st, v, own) else None

    def elem(self, st, j, f, n):
        return atomv(Atom(8 * n, "pay", {"ref": add(st.ghost["done"], j), "off": f}))

    def is_elem(self, st, v, j, f=0, n=None):
        """v is the element that position j held"""
        v = st.facts.resolve(v)
        a = as_atom(v)
        if a is not None and a.kind == "op" and a.a["op"] == "conv":
            return self.is_elem(st, a.a["args"][0], j)
        want = add(st.ghost["done"], j)
        pos = f
        for p in v.p:
            if p[0] != "s" or p[1].kind != "pay" or p[2] % 8:
                return False
            if not st.facts.eq(p[1].a["ref"], want) or p[1].a["off"] + p[2] // 8 != pos:
                return False
            pos += pw(p) // 8
        return pos == f + (self.cfg.esize if n is None else n)

    def buf_load(self, st, off, n, loc):
        c = self.cfg
        s, f = self.slot(st, off)
        if self.role != "read" or self.observer:
            self.find("slot-unavailable", "an operation that obtains no element reads the buffer", loc)
            return fresh(8 * n, "unknown")
        if f + n > c.esize:
            raise Inconclusive("%s: a load spans several elements (%s)" % (self.name, srcline(loc)))
        d = st.ghost["deliv"]
        j = self.logical(st, s, f, [d] + [hi for lo, hi in self.ivs(st, "dead")], "a slot is read", loc)
        if j is None:
            return fresh(8 * n, "unknown")
        self.promised(st, j, const(64, 1), "a slot is read", loc)
        if c.opaque:
            for lo, hi in self.ivs(st, "dead"):
                self.need(not (self.le(st, lo, j) and self.le(st, addc(j, 1), hi)), "element-dead", "an element is read after its destruction", loc)
        self.touched(st)
        return self.elem(st, j, f, n)

    # ---- stores ---------------------------------------------------------------------------------------------------------------
    def store(self, st, ptr, val, order, I):
        loc = I["loc"]
        k = self.cls(st, ptr)
        n = nbytes(val.w)
        c = self.cfg
        if k[0] == "L":
            rstore(st.mem.setdefault(("L", k[1]), {}), k[2], n, zext(val, 8 * n))
            return [st]
        if k[0] == "C":
            return self.store_c(st, k[1], n, val, order, I)
        if k[0] == "B":
            self.buf_store(st, k[1], n, val, loc)
            return [st]
        if k[0] == "A":
            self.out_write(st, k, n, val, loc)
            return [st]
        if k[0] == "X":
            return [st]
        if k[0] == "G":
            self.find("global-write", "a global object is modified", loc)
            return [st]
        if k[0] == "Z":
            self.find("null-deref", "memory is written through a null pointer", loc)
            return []
        raise Inconclusive("%s: store through an address the analysis cannot place (%s)" % (self.name, srcline(loc)))

    def no_address(self, val, loc):
        """nothing of a compile-time sized container refers to its own place in memory"""
        if self.cfg.storage == "ct":
            self.need(not has_address(val), "address-stored", "a container with compile-time capacity stores an address in itself", loc)

    def store_c(self, st, off, n, val, order, I):
        c = self.cfg
        loc = I["loc"]
        r = self.isrole(off, n)
        reg = st.mem.setdefault(("C",), {})
        if self.observer:
            self.find("observer-write", "an observer modifies the container", loc)
            return [st]
        if r is None:
            if self.kind not in ("ctor", "dtor"):
                self.find("cfg-write", "a member other than the indices is modified", loc)
            self.no_address(val, loc)
            rstore(reg, off, n, val)
            return [st]
        role = c.roles[r]
        if off != r or n != 8:
            self.find("partial-word", "only part of the %s index is written" % role, loc)
            return [st]
        if self.kind == "ctor":
            rstore(reg, off, 8, val)
            return [st]
        if self.excl:
            return self.excl_store(st, role, val, loc)
        if role != self.role:
            self.find("index-owner", "the %s index is written by the other side" % role, loc)
            return [st]
        if order == "na":
            self.find("plain-store", "the %s index is written by a plain store" % role, loc)
        self.publish(st, val, order, loc)
        return [st]

    def excl_store(self, st, role, val, loc):
        c = self.cfg
        reg = st.mem[("C",)]
        if role == "read":
            l = self.clean(st, "dead")
            n = l[0][1] if len(l) == 1 and st.facts.eq(l[0][0], const(64, 0)) else const(64, 0) if not l else None
            if c.opaque and n is not None and self.is_slot(st, val, self.own(st), n):
                self.set_ivs(st, "dead", [])
                st.ghost["done"] = add(st.ghost["done"], n)
                self.assert_ring(st, val)
                reg[c.off[role]] = (8, val)
                st.flag("progress")
                return [st]
        if c.opaque and not st.ghost.get("cleared"):
            self.need(self.all_dead(st), "element-leak", "the indices are reset while elements are not destroyed", loc)
            st.ghost["cleared"] = True
        reg[c.off[role]] = (8, val)
        st.flag("progress")
        return [st]

    def all_dead(self, st):
        l = self.clean(st, "dead")
        own, w = self.own(st), st.mem[("C",)][self.cfg.off["write"]][1]
        if not l:
            return self.avail_eq(st, own, w, const(64, 0))
        return len(l) == 1 and st.facts.eq(l[0][0], const(64, 0)) and self.avail_eq(st, own, w, l[0][1])

    def publish(self, st, val, order, loc):
        c = self.cfg
        g = st.ghost
        own = self.own(st)
        if self.role == "write":
            l = self.clean(st, "b")
            what = "built"
        else:
            l = self.clean(st, "dead") if c.opaque else None
            what = "destroyed"
        n = const(64, 0)
        if l is not None:
            if l:
                ok = len(l) == 1 and st.facts.eq(l[0][0], const(64, 0))
                self.need(ok, "publish-raw", "the slots handed over are not contiguous from the old index on", loc)
                n = l[0][1] if ok else l[-1][1]
        if self.role == "read":
            if self.entry in DISCARD:
                if not c.opaque:
                    n = const(64, 1)
                    self.promised(st, const(64, 0), n, "a slot is given back", loc)
            else:
                d = g["deliv"]
                if l is not None:
                    self.need(st.facts.eq(d, n), "element-leak", "the elements given back are not those that were delivered and destroyed", loc)
                n = d
        self.cfg.ob("mo-release", self.name, loc)
        if order not in REL and not g.get("relfence"):
            self.find("mo-release", "the new %s index is not published by a release store" % self.role, loc)
        r = self.is_slot(st, val, own, n)
        if st.facts.eq(n, const(64, 0)) and st.facts.eq(val, own):
            r = True
        self.cfg.ob("index-publish", self.name, loc)
        if not r:
            self.find("index-publish", "the new %s index does not hand over exactly the slots that were %s"
                      % (self.role, "filled" if self.role == "write" else "emptied"), loc)
            if r is False:
                val = atomv(Atom(64, "cfg", {"off": c.off[self.role], "n": self.role}))
            self.in_ring(st, val)
        else:
            self.assert_ring(st, val)
        self.set_ivs(st, "b" if self.role == "write" else "dead", [])
        g["done"] = add(g["done"], n)
        g["deliv"] = const(64, 0)
        st.mem[("C",)][c.off[self.role]] = (8, val)
        st.flag("progress")
        g["pub"] = True

    def assert_ring(self, st, v):
        """what was just proved: 0 <= v < max"""
        c, ts = self.ints(st, addc(sub(v, self.cfg.max), 1))
        st.facts.les = st.facts.les + ((c, ts), )
        c, ts = self.ints(st, v)
        st.facts.les = st.facts.les + ((-c, {t: -k for t, k in ts.items()}), )

    def rmw(self, st, ptr, val, opname, order, I):
        k = self.cls(st, ptr)
        loc = I["loc"]
        if k[0] != "C" or k[1] not in self.cfg.roles:
            raise Inconclusive("%s: atomic operation at an unknown place (%s)" % (self.name, srcline(loc)))
        out = []
        for s2, old in self.load_c(st, k[1], 8, 64, order, I):
            new = {"xchg": lambda: val, "add": lambda: add(old, val), "sub": lambda: sub(old, val)}.get(opname)
            if new is None:
                raise Inconclusive("%s: atomic %s on an index (%s)" % (self.name, opname, srcline(loc)))
            for s3 in self.store_c(s2, k[1], 8, new(), order, I):
                out.append((s3, old))
        return out

    def cas(self, st, ptr, cmp_, new, order, forder, weak, I):
        k = self.cls(st, ptr)
        loc = I["loc"]
        if k[0] != "C" or k[1] not in self.cfg.roles:
            raise Inconclusive("%s: atomic operation at an unknown place (%s)" % (self.name, srcline(loc)))
        out = []
        s2 = st.copy()
        for s, old in self.load_c(st, k[1], 8, 64, order, I):
            if s.facts.add_eq(old, cmp_):
                for s3 in self.store_c(s, k[1], 8, new, order, I):
                    out.append((s3, old, True))
        for s, old in self.load_c(s2, k[1], 8, 64, forder, I):
            if weak or s.facts.add_ne(old, cmp_):
                out.append((s, old, False))
        return out

    def buf_store(self, st, off, n, val, loc):
        c = self.cfg
        s, f = self.slot(st, off)
        if self.role == "read" and not self.excl:
            j = self.logical(st, s, f, [st.ghost["deliv"]] + [hi for lo, hi in self.ivs(st, "dead")], "a slot is written", loc)
            if j is None:
                return
            if self.promised(st, j, const(64, 1), "a slot is written", loc):
                self.need(self.le(st, addc(j, 1), st.ghost["deliv"]), "altered-value", "a stored element is overwritten before it is delivered", loc)
            return
        if self.role != "write":
            self.find("element-address", "the buffer is written by an operation that stores no element", loc)
            return
        if f or n != c.esize:
            if c.esize and n % c.esize == 0 and not f:
                raise Inconclusive("%s: one store of several elements (%s)" % (self.name, srcline(loc)))
            raise Inconclusive("%s: an element is written piecemeal (%s)" % (self.name, srcline(loc)))
        self.build(st, s, f, const(64, 1), lambda j: self.src_ok(st, val, j), loc)

    def build(self, st, s, f, n, src, loc):
        l = self.clean(st, "b")
        cands = [hi for lo, hi in l] + [const(64, 0)] + [addc(lo, -1) for lo, hi in l if not st.facts.eq(lo, const(64, 0))]
        j = self.logical(st, s, f, cands, "an element is stored", loc)
        if j is None:
            return
        self.promised(st, j, n, "an element is stored", loc)
        self.limit(st, j, n, "an element is stored from", loc)
        if not (is_const(n) and cval(n) == 1):
            self.whole(st, j, n, loc)
        self.need(src(j), "altered-value", "the element that is stored is not the caller's element for that place", loc)
        if not self.iv_add(st, "b", j, n):
            self.find("element-overwrite", "an element is stored where one was stored already", loc)
        self.touched(st)

    def whole(self, st, j, n, loc):
        """a block of positions does not run over the end of the ring"""
        own = self.own(st)
        m = self.cfg.max
        e = add(add(own, j), n)
        self.need(self.le(st, e, m) or self.le(st, m, add(own, j)) and self.le(st, e, add(m, m)), "slot-range", "a block of elements runs over the end of the ring", loc)

    # ---- user memory -----------------------------------------------------------------------------------------------------------
    def out_write(self, st, k, n, val, loc):
        c = self.cfg
        if as_atom(k[1]).a["n"] != 1 or not self.entry.startswith("pop"):
            self.find("user-write", "the caller's memory is modified", loc)
            return
        off = st.facts.resolve(k[2])
        if self.entry == "pop_conv":
            n0 = n
        else:
            n0 = c.esize
        cc, _ = lin_parts(off)
        f = signed(cc, 64) % n0 if n0 else 0
        if n != n0 or f:
            raise Inconclusive("%s: a target is written piecemeal (%s)" % (self.name, srcline(loc)))
        i = divexact(off, n0)
        self.deliver(st, i, const(64, 1), lambda j: self.is_elem(st, val, j), loc)

    def deliver(self, st, i, n, src, loc):
        """the caller gets the next n elements at index i of his target"""
        g = st.ghost
        d = g["deliv"]
        pos = add(g["done"], d)
        if i is not None:
            self.need(st.facts.eq(i, pos), "deliver-place", "an element is delivered to the wrong place of the caller's target", loc)
        self.limit(st, d, n, "the target is written", loc)
        self.need(src(d), "altered-value", "what is delivered is not the element that is due", loc)
        self.promised(st, d, n, "an element is delivered", loc)
        g["deliv"] = add(d, n)
        g["assigned"] = add(g["assigned"], n)
        self.touched(st)

    # ---- memory blocks -----------------------------------------------------------------------------------------------------------
    def memop(self, st, m, args, I):
        loc = I["loc"]
        c = self.cfg
        n = st.facts.resolve(args[2])
        if m == "memset":
            k = self.cls(st, args[0])
            if k[0] == "L" and is_const(n):
                v = st.facts.resolve(args[1])
                sz = cval(n)
                rstore(st.mem.setdefault(("L", k[1]), {}), k[2], sz, const(8 * sz, int.from_bytes(bytes([cval(v) & 255]) * sz, "little")) if is_const(v) else fresh(8 * sz, "undef"))
                return [st]
            if self.kind == "ctor":
                return [st]
            if k[0] == "B" and self.role == "read":
                return [st]
            self.find("cfg-write", "container memory is overwritten", loc)
            return [st]
        if is_const(n) and cval(n) == 0:
            return [st]
        kd, ks = self.cls(st, args[0]), self.cls(st, args[1])
        if is_const(n) and not ("B" in (kd[0], ks[0]) and cval(n) > c.esize):
            outs = []
            for s2, v in self.load(st, args[1], 8 * cval(n), "na", I):
                outs.extend(self.store(s2, args[0], v, "na", I))
            return outs
        cnt = divexact(n, c.esize)
        if cnt is None:
            raise Inconclusive("%s: memory copy of unknown size (%s)" % (self.name, srcline(loc)))
        if kd[0] == "B" and ks[0] == "A" and self.role == "write":
            s, f = self.slot(st, kd[1])
            i = divexact(st.facts.resolve(ks[2]), c.esize)
            self.build(st, s, f, cnt, lambda j: ks[1] == self.args[1] and i is not None and st.facts.eq(i, add(st.ghost["done"], j)), loc)
            return [st]
        if ks[0] == "B" and kd[0] == "A" and self.role == "read":
            if as_atom(kd[1]).a["n"] != 1 or not self.entry.startswith("pop"):
                self.find("user-write", "the caller's memory is modified", loc)
                return [st]
            s, f = self.slot(st, ks[1])
            d = st.ghost["deliv"]
            j = self.logical(st, s, f, [d], "elements are read", loc)
            if j is not None:
                self.whole(st, j, cnt, loc)
                self.deliver(st, divexact(st.facts.resolve(kd[2]), c.esize), cnt, lambda p: f == 0 and st.facts.eq(p, j), loc)
            return [st]
        raise Inconclusive("%s: memory copy between %s and %s (%s)" % (self.name, ks[0], kd[0], srcline(loc)))

    # ---- allocation ----------------------------------------------------------------------------------------------------------------
    def alloc(self, st, args, I):
        loc = I["loc"]
        c = self.cfg
        state, count, es = [st.facts.resolve(a) for a in args]
        self.cfg.ob("alloc-allowed", self.name, loc)
        if self.kind != "ctor" or c.storage == "ct":
            self.find("alloc-forbidden", "memory is allocated by an operation that must not allocate", loc)
        self.check_state(st, state, loc, "obtained from")
        s2 = st.copy() if not I.get("nounwind", True) else None
        a = Atom(64, "heap", {"count": count, "es": es}, True, True)
        if self.kind == "ctor":
            self.need(st.ghost.get("block") is None, "alloc-args", "the constructor allocates twice", loc)
            st.ghost["block"] = atomv(a)
            st.ghost["blockcount"] = count
            self.need(is_const(es) and cval(es) == c.esize, "alloc-args", "the allocation is not in units of the element size", loc)
            st.ghost["blockstate"] = state
        st.env[I["id"]] = atomv(a)
        out = [(st, "ok")]
        if s2 is not None:
            out.append((s2, "throw"))
        return out

    def dealloc(self, st, args, I):
        loc = I["loc"]
        c = self.cfg
        state, p, count, es = [st.facts.resolve(a) for a in args]
        self.cfg.ob("dealloc", self.name, loc)
        if self.kind != "dtor":
            self.find("dealloc-forbidden", "memory is returned by an operation other than the destructor", loc)
            return
        self.check_state(st, state, loc, "returned to")
        if st.ghost.get("freed"):
            self.find("double-free", "the buffer is returned twice", loc)
        st.ghost["freed"] = True
        a = as_atom(p)
        self.need(a is not None and a.kind == "cfg" and a.a["off"] == c.array_off, "dealloc-args", "what is returned is not the buffer", loc)
        self.need(st.facts.eq(count, addc(c.N, c.alloc_c)), "dealloc-args", "the buffer is returned with another count than it was obtained with", loc)
        self.need(is_const(es) and cval(es) == c.esize, "dealloc-args", "the buffer is returned with another element size", loc)
        if c.opaque:
            self.need(self.all_dead(st), "element-leak", "the buffer is returned while elements in it are not destroyed", loc)

    # ---- elements --------------------------------------------------------------------------------------------------------------------
    def elem_call(self, st, d, args, I):
        if d.startswith("vp::Out") and "operator=" in d:
            loc = I["loc"]
            throws = not I.get("nounwind", True)
            v = self.getobj(st, args[1], self.cfg.esize, I)
            if self.entry != "pop_out":
                self.find("user-write", "an output iterator is written", loc)
            else:
                self.deliver(st, None, const(64, 1), lambda j: self.is_elem(st, v, j), loc)
            if "id" in I:
                st.env[I["id"]] = args[0]
            return [(st, "ok")] + ([(st.copy(), "throw")] if throws else [])
        return Model.elem_call(self, st, d, args, I)

    def getobj(self, st, src, n, I):
        r = self.load(st, src, 8 * n, "na", I)
        return r[0][1] if r else fresh(8 * n, "undef")

    def conversion(self, st, src, I):
        pass

    def construct(self, st, dst, src, n, I, d):
        loc = I["loc"]
        c = self.cfg
        k = self.cls(st, dst)
        if src is not None:
            v = self.getobj(st, src, n, I)
            if not self.isT(d) or self.conv_src(d):
                v = op("conv", v.w, (v,))
        else:
            v = fresh(8 * n, "dflt")
        if k[0] == "B":
            s, f = self.slot(st, k[1])
            if self.role != "write":
                self.find("element-address", "an element is constructed in the buffer by an operation that stores none", loc)
                return
            self.build(st, s, f, const(64, 1), lambda j: f == 0 and self.src_ok(st, v, j), loc)
            return
        if k[0] == "A":
            self.out_write(st, k, n, v, loc)
            return
        if k[0] == "L":
            rstore(st.mem.setdefault(("L", k[1]), {}), k[2], n, v)
            if c.opaque and self.isT(d) and not c.rawcopy:
                st.ghost["locals"] = st.ghost.get("locals", frozenset()) | {(k[1], k[2])}
            return
        raise Inconclusive("%s: an object is constructed at an unknown place (%s)" % (self.name, srcline(loc)))

    def assign(self, st, dst, src, n, I, d):
        loc = I["loc"]
        v = self.getobj(st, src, n, I)
        k = self.cls(st, dst)
        m = re.search(r"operator=(<.*>)?\((.*)\)", d)
        own = re.match(r"vp::(\w+)", d).group(1)
        if "vp::" + own not in (m.group(2) if m else ""):
            v = op("conv", v.w, (v,))
        if k[0] == "A":
            self.out_write(st, k, n, v, loc)
            return
        if k[0] == "L":
            rstore(st.mem.setdefault(("L", k[1]), {}), k[2], n, v)
            return
        if k[0] == "B":
            if (self.cfg.opaque or self.cfg.elem == "vp::CElem") and self.role == "write":
                self.find("element-raw", "an element is assigned to a slot that holds no element", loc)
                return
            self.buf_store(st, k[1], n, v, loc)
            return
        raise Inconclusive("%s: assignment at an unknown place" % self.name)

    def destroy(self, st, ptr, I):
        c = self.cfg
        loc = I["loc"]
        k = self.cls(st, ptr)
        self.cfg.ob("element-destroy", self.name, loc)
        if k[0] == "L":
            key = (k[1], k[2])
            ls = st.ghost.get("locals", frozenset())
            self.need(key in ls or c.rawcopy, "element-dead", "a local element is destroyed twice", loc)
            st.ghost["locals"] = ls - {key}
            return
        if k[0] != "B":
            raise Inconclusive("%s: a destructor is called at an unknown place (%s)" % (self.name, srcline(loc)))
        s, f = self.slot(st, k[1])
        if self.observer or self.role is None:
            self.find("element-destroy", "an element is destroyed by an operation that removes none", loc)
            return
        if self.role == "write":
            l = self.clean(st, "b")
            j = self.logical(st, s, f, [lo for lo, hi in l] + [addc(hi, -1) for lo, hi in l], "an element is destroyed", loc)
            if j is not None:
                self.need(self.iv_del(st, "b", j), "element-dead", "something is destroyed where this operation has stored no element", loc)
            self.touched(st)
            return
        l = self.clean(st, "dead")
        d = st.ghost["deliv"]
        j = self.logical(st, s, f, [hi for lo, hi in l] + [const(64, 0), addc(d, -1), d], "an element is destroyed", loc)
        if j is None:
            return
        self.promised(st, j, const(64, 1), "an element is destroyed", loc)
        if self.entry not in DISCARD:
            self.need(self.le(st, addc(j, 1), d), "lost-element", "an element is destroyed before it is delivered", loc)
        if not self.iv_add(st, "dead", j, const(64, 1)):
            self.find("element-dead", "an element is destroyed twice", loc)
        self.touched(st)

    def functor(self, st, args, I):
        loc = I["loc"]
        c = self.cfg
        self.cfg.ob("functor", self.name, loc)
        if not self.kind.startswith("consume"):
            self.find("functor", "a functor is called", loc)
            return
        k0 = self.cls(st, args[0])
        if not (k0[0] == "A" and as_atom(k0[1]).a["n"] == 1):
            self.find("functor", "the functor that is called is not the caller's object", loc)
        v = self.getobj(st, args[1], c.esize, I)
        self.deliver(st, None, const(64, 1), lambda j: self.is_elem(st, v, j), loc)

    # ---- loops -----------------------------------------------------------------------------------------------------------------------
    def signature(self, st, h, back):
        gh = tuple(sorted((k, v) for k, v in st.ghost.items() if isinstance(v, (bool, int, str)) and not k.startswith(("@", "~"))))
        return (gh, len(st.ghost.get("locals", ())), "obs" in st.ghost, "acq" in st.ghost, self.phase(st, h), self.order(st))

    def phase(self, st, h):
        """which cursors stand at the position that is due before, and which after the wrap-around"""
        if not self.role:
            return ()
        g = st.ghost
        ks = [g["deliv"]] + [hi for n in ("b", "dead") for lo, hi in self.ivs(st, n)] + [lo for lo, hi in self.ivs(st, "b")]
        own = self.own(st)
        res = []
        for k in sorted(p["id"] for p in self.ex.fn.phis[h]):
            v = st.env.get(k)
            if not isinstance(v, Val) or v.w != 64 or is_ptr(v) and self.cls(st, v)[0] != "B":
                continue
            if is_ptr(v):
                s, f = self.slot(st, self.cls(st, v)[1])
                if s is None or f:
                    continue
                v = s
            for q in ks:
                a, b = self.at_pos(st, own, q)
                if st.facts.eq(v, a):
                    break
                if st.facts.eq(v, b):
                    res.append(k)
                    break
            else:
                if (self.entry in DISCARD or self.role == "write" and not self.cfg.opaque) and self.le(st, addc(v, 1), own):
                    res.append(k)
        return tuple(res)

    def at_header(self, ex, st, h, back):
        self.here = h
        if self.role == "write":
            self.clean(st, "b")
        elif self.role == "read":
            self.clean(st, "dead")
        if back:
            fl = st.flags.get(h, frozenset())
            loc = self.block_loc(h)
            self.cfg.ob("retry", self.name, loc)
            if "progress" not in fl and not self.counted(ex, st, h):
                self.find("wait", "the loop is repeated although nothing was transferred and nothing counts: it waits for the other thread", loc)

    def counted(self, ex, st, h):
        pre = "^%s:" % h
        for k, v in st.ghost.items():
            if k.startswith(pre):
                x = k[len(pre):]
                if isinstance(st.env.get(x), Val) and x in ex.fn.exitdeps[h]:
                    d = st.facts.resolve(sub(st.env[x], v))
                    if st.facts.ne(d, const(d.w, 0)):
                        return True
                    if d.w == 64:
                        c, ts = self.ints(st, d)
                        if not any(is_ptr(t) for t in ts) and (self.entails(st, (c + 1, ts)) or self.entails(st, (1 - c, {t: -k for t, k in ts.items()}))):
                            return True
        return False

    def alive(self):
        out = set(atoms_of(self.cfg.max))
        for a in self.args:
            out |= atoms_of(a)
        return out

    def loop_candidates(self, ex, G, new, s, out, key):
        res = []
        vals = []
        for k, v in out.items():
            if v.w == 64 and v not in vals and (k[0] == "e" or k[0] == "g" and not k[1].startswith(("^", "@", "~")) or k[0] == "m" and k[1] == ("C",) and k[2] in self.cfg.roles):
                vals.append(v)
        for a in self.args[1:]:
            if a not in vals:
                vals.append(a)
        vals.append(self.cfg.max)
        vals.append(const(64, 0))
        if self.L is not None and self.L not in vals:
            vals.append(self.L)
        gen = s.ghost.get("#gen", frozenset())
        ch = [v for v in vals if atoms_of(v) & gen]
        seen = set()
        for v in ch:
            for t, k in self.ints(s, v)[1].items():
                if t not in seen and not is_ptr(t):
                    seen.add(t)
                    res.append((0, {t: -1}))
        for x in ch:
            for y in vals:
                if x is y:
                    continue
                c, ts = self.diff(s, x, y)
                if not ts or len(ts) > 6 or any(is_ptr(t) for t in ts) or abs(c) > 1 << 50:
                    continue
                key2 = (c, frozenset(ts.items()))
                if key2 in seen:
                    continue
                seen.add(key2)
                neg = {t: -k for t, k in ts.items()}
                res += [(c, ts), (-c, neg), (c + 1, ts), (1 - c, neg)]
        # positions of cursors and lengths relative to the own index
        own = out.get(("m", ("C",), self.cfg.off[self.role], 8)) if self.role else None
        if own is not None:
            qs = [v for k, v in out.items() if k[0] == "g" and (k[1] in ("deliv", "obs", "acq") or k[1].endswith("hi"))]
            for k, v in out.items():
                if k[0] != "e" or v.w != 64 or is_ptr(v):
                    continue
                for q in qs:
                    for a in (sub(sub(v, own), q), sub(add(v, own), q)):
                        for b in (a, add(a, self.cfg.max), sub(a, self.cfg.max)):
                            c, ts = self.ints(s, b)
                            if not ts or len(ts) > 6 or abs(c) > 1 << 50 or not any(t in gen or atoms_of(t) & gen for t in ts) or any(is_ptr(t) for t in ts):
                                continue
                            key2 = (c, frozenset(ts.items()))
                            if key2 not in seen:
                                seen.add(key2)
                                res += [(c, ts), (-c, {t: -k for t, k in ts.items()})]
        return res

    # ---- exits -------------------------------------------------------------------------------------------------------------------------
    def pending(self, st, loc, how):
        c = self.cfg
        if self.role == "write":
            l = self.clean(st, "b")
            if l and c.opaque:
                self.need(False, "throw-stray" if "exception" in how else "element-leak", "%s with elements stored that were neither published nor destroyed" % how, loc)
        elif self.role == "read" and not self.excl:
            self.need(not self.clean(st, "dead"), "index-publish", "%s although destroyed elements are still in the ring" % how, loc)
        if st.ghost.get("locals"):
            self.find("element-leak", "%s with a local copy of an element not destroyed" % how, loc)

    def on_ret(self, st, val, I):
        self.nrets += 1
        loc = I["loc"]
        c = self.cfg
        e = self.entry
        g = st.ghost
        eq = st.facts.eq
        Z, ONE = const(64, 0), const(64, 1)
        self.need(not st.exc, "throw-lost", "an exception thrown by an element, the functor or the allocator does not reach the caller", loc)
        self.pending(st, loc, "the operation returns")
        if self.kind == "ctor":
            return self.ret_ctor(st, loc)
        if e == "dtor":
            if c.storage != "ct":
                self.need(g.get("freed", False), "memory-leak", "the destructor does not return the buffer", loc)
            elif c.opaque:
                self.need(self.all_dead(st), "element-leak", "the destructor leaves elements undestroyed", loc)
            return
        if e == "reset":
            reg = st.mem[("C",)]
            w, r = reg[c.off["write"]][1], reg[c.off["read"]][1]
            self.need(eq(w, r), "reset", "the container is not empty after reset()", loc)
            self.need(self.le(st, addc(r, 1), c.max), "reset", "an index lies outside the ring after reset()", loc)
            if c.opaque and not g.get("cleared"):
                self.need(self.all_dead(st), "element-leak", "reset() leaves elements undestroyed", loc)
            return
        if e == "is_lock_free":
            return
        if e == "empty":
            w, r = g.get("obs:write"), g.get("obs:read")
            if not self.need(w is not None and r is not None, "empty", "empty() does not look at both indices", loc):
                return
            if cval(val):
                self.need(eq(w, r), "empty", "empty() returns true for different indices", loc)
            else:
                self.need(st.facts.ne(w, r), "empty", "empty() returns false for equal indices", loc)
            return
        own = self.own(st)
        if e in ("front", "front_c"):
            k = self.cls(st, val)
            if self.need(k[0] == "B", "front", "front() does not refer to the buffer", loc):
                s, f = self.slot(st, k[1])
                self.need(f == 0 and s is not None and eq(s, own), "front", "front() does not refer to the element at the read index", loc)
            return
        if e in ("read_available", "write_available"):
            if not self.need("obs" in g, "avail", "%s() does not look at the other index" % e, loc):
                return
            self.need(self.avail_eq(st, own, g["obs"], val), "avail", "%s() does not return the exact number" % e, loc)
            if e == "read_available":
                self.need("acq" in g and eq(g["acq"], g["obs"]), "mo-acquire", "the elements that read_available() reports need not be visible", loc)
            return
        done = g["done"]
        if e in ("push", "pop", "pop_conv", "pop_void", "consume_one", "consume_one_c"):
            if cval(val):
                self.need(eq(done, ONE), "result", "true is returned although not exactly one element was transferred", loc)
            else:
                self.need(eq(done, Z), "result", "false is returned although an element was transferred", loc)
                self.need(eq(g["assigned"], Z), "target-touched", "false is returned although the target or the functor was given an element", loc)
                ok = "obs" in g and self.avail_eq(st, own, g["obs"], Z)
                if e == "push":
                    self.need(ok, "full-evidence", "false is returned although the ring was not seen full", loc)
                else:
                    self.need(ok, "empty-evidence", "false is returned although the ring was not seen empty", loc)
            return
        # everything else moves as many elements as possible
        if e == "push_range":
            self.need(eq(val, lin(64, 0, [(self.args[1], 1), (done, c.esize)])), "count", "the returned iterator is not past exactly the elements that were pushed", loc)
        else:
            self.need(eq(val, done), "count", "the returned number is not that of the elements transferred", loc)
        full = "obs" in g and self.avail_eq(st, own, g["obs"], Z)
        if not full and self.L is not None:
            full = eq(done, self.L)
            if not full and "obs" in g:
                # whichever comes first
                full = all(self.same(st, a, Z, (cond, self.diff(st, done, self.L, 1))) for cond, a in self.cases(st, own, g["obs"]))
        self.need(full, "short", "fewer elements than possible are transferred", loc)

    def ret_ctor(self, st, loc):
        c = self.cfg
        g = st.ghost
        reg = st.mem.setdefault(("C",), {})
        idx = {}
        for r, o in c.off.items():
            e = reg.get(o)
            idx[r] = e[1] if e is not None and e[0] == 8 else None
        ok = all(v is not None for v in idx.values())
        self.need(ok and st.facts.eq(idx["write"], idx["read"]), "ctor-init", "the constructor does not leave an empty ring (equal indices)", loc)
        m = c.max
        if c.storage == "ct":
            self.need(c.bufsize >= (c.capacity + 1) * c.esize, "room", "the buffer has no room for capacity+1 slots", loc)
            self.need(c.bufoff % c.ealign == 0 and c.align % c.ealign == 0, "element-align",
                      "a buffer at offset %d of an object aligned to %d does not give its elements their alignment of %d" % (c.bufoff, c.align, c.ealign), loc)
        else:
            n = self.args[1]
            m = addc(n, 1)
            blk, cnt = g.get("block"), g.get("blockcount")
            if self.need(blk is not None, "ctor-init", "the constructor allocates no buffer", loc):
                self.need(self.le(st, m, cnt), "room", "the buffer has fewer than n+1 slots", loc)
                k, ts = toint(sub(cnt, n))
                if not ts:
                    c.alloc_c = k
                for o, (sz, v) in sorted(reg.items()):
                    if sz != 8 or o in c.roles:
                        continue
                    if st.facts.eq(v, blk):
                        c.array_off = o
                    elif not is_ptr(v):
                        k, ts = toint(sub(st.facts.resolve(v), n))
                        if not ts:
                            if o in c.ctor and c.ctor[o] != k:
                                self.find("capacity", "the constructors disagree about the size of the ring", loc)
                            c.ctor[o] = c.leafval[o] = k
                        else:
                            c.leafval.pop(o, None)
                so = self.alloc_off()
                if so is not None:
                    cur = self.cload(st, so, 8)
                    self.need(st.facts.eq(cur, g["blockstate"]), "allocator", "the buffer was obtained from another allocator than the one kept", loc)
                    if self.entry == "ctor_alloc":
                        want = self.argval(self.args[2], const(64, 0), 8)
                        self.need(st.facts.eq(cur, want), "allocator", "the container does not keep the allocator it was given", loc)
        if ok:
            for r in idx:
                self.need(self.le(st, addc(idx[r], 1), m), "ctor-init", "the %s index starts outside the ring" % r, loc)

    def on_raise(self, st, I):
        """the library itself throws"""

    def on_throw(self, st, I):
        self.nthrows += 1
        loc = I["loc"]
        c = self.cfg
        self.pending(st, loc, "an exception is passed on")
        if self.role and not self.excl:
            self.need(st.facts.eq(st.ghost["done"], const(64, 0)) and not st.ghost.get("pub"), "throw-effect", "an exception is passed on after the index was changed", loc)
        if self.kind == "ctor" and st.ghost.get("block") is not None:
            self.find("memory-leak", "the constructor fails without returning the buffer", loc)
        self.cfg.ob("throw", self.name, loc)

    def on_assume(self, ex, st, c, I):
        d = ex.decide(st, c)
        if d is True:
            return [st]
        if d is False:
            return []
        return ex.assume(st, c, True)

    def on_unreachable(self, st, I):
        self.find("undefined", "undefined behaviour is reached", I["loc"])
