"""Shared-memory model and rules for the node based containers (queue, stack) and their node pools.

A thread-safe operation sees the shared words (head, tail, top, pool, links of nodes it does not own) only through
observations; the only way to change them is an exchange, and each successful exchange has to be one of the legal
transitions of the container.  Nodes are owned from the transition that unlinks or allocates them to the transition
that publishes or recycles them.  A single-threaded operation (constructor, destructor, unsynchronized_*) has plain
sequential memory, where a store to a shared word is a transition that cannot fail.
"""
import re
import subprocess

from execu import *

ACQ = ("acquire", "acq_rel", "seq_cst", "excl")
REL = ("release", "acq_rel", "seq_cst", "excl")
NUMMAX = 1 << 48


class Finding:
    def __init__(self, rule, msg, loc, fn, cfg):
        self.rule, self.msg, self.loc, self.fn, self.cfg = rule, msg, loc, fn, cfg

    def key(self):
        return (self.rule, self.fn, self.cfg, srcline(self.loc), self.msg)

    def text(self):
        return "[%s] %s: %s  (in %s, configuration %s)" % (self.rule, srcline(self.loc), self.msg, self.fn, self.cfg)


_dem = {}


def demangle(names):
    new = [n for n in names if n not in _dem and not n.startswith("llvm.")]
    if new:
        out = subprocess.run(["c++filt"], input="\n".join(new), capture_output=True, text=True).stdout.split("\n")
        for n, d in zip(new, out):
            _dem[n] = d
    return _dem


def callees(dump):
    s = set()
    for f in dump["functions"].values():
        for b in f["blocks"]:
            for i in b["insts"]:
                if "callee" in i:
                    s.add(i["callee"])
    demangle(sorted(s))


class Config:
    """what has to be known about one instantiation of a container"""

    def __init__(self, name, dump, kind, storage, elem, capacity=None):
        self.name = name
        self.kind = kind  # queue | stack
        self.storage = storage  # grow | fixed | ct
        self.elem = elem  # element type name
        self.capacity = capacity
        self.opaque = elem in ("vp::Elem", "vp::DElem")  # the destructor has to be called
        self.rawcopy = elem == "vp::DElem"  # but copying is by bytes
        self.dump = dump
        self.findings = {}
        self.obl = {}
        self.notes = set()
        self.stats = {}
        callees(dump)
        L = dump["layouts"]
        g = dump["globals"]
        self.size = g["vpg_sizeof"]
        self.align = g["vpg_alignof"]
        self.esize = g["vpg_esize"]
        self.ealign = g["vpg_ealign"]
        self.tid = None
        cont = [(k, l) for k, l in L.items() if l["name"].startswith(kind + "<") and l["size"] == self.size]
        if not cont:
            raise Inconclusive("container layout not found in debug information")
        self.layout = cont[0][1]
        self.leaves = []
        self.flatten(cont[0][0], 0, "", set())
        nodes = [l for l in L.values() if l["name"] == "node" and any(m["size"] for m in l["members"])]
        self.S = None
        self.pay = None
        words = [x for x in self.leaves if x[3].startswith("atomic<")]
        if not words:
            raise Inconclusive("no atomic member in the container")
        self.wbytes = words[0][2]
        self.refkind = {4: "idx", 8: "ptr48", 16: "ptr64"}.get(self.wbytes)
        if self.refkind is None or any(w[2] != self.wbytes for w in words):
            raise Inconclusive("atomic members of unexpected width %r" % (words,))
        self.rw = {"idx": 16, "ptr48": 48, "ptr64": 48}[self.refkind]
        self.tpos = {"idx": 16, "ptr48": 48, "ptr64": 64}[self.refkind]
        self.tw = 8 * self.wbytes - self.tpos
        if nodes:
            n = nodes[0]
            self.S = n["size"]
            el = [m for m in n["members"] if m["name"] in ("data", "v")]
            el = el[0] if el else max(n["members"], key=lambda m: m["off"])
            self.pay = (el["off"], el["size"])
        if not self.S:
            raise Inconclusive("node layout not found in debug information")
        # the link of a stack node is a bare reference, that of a queue node a tagged word
        self.linkbytes = self.wbytes if kind == "queue" else (2 if self.refkind == "idx" else 8)
        self.roles = {}
        for path, off, size, tn in words:
            last = path.split("/")[-1]
            depth = path.count("/")
            r = {"head_": "head", "tail_": "tail", "tos": "tos", "pool_": "pool"}.get(last)
            self.roles[off] = r
        if None in self.roles.values() or len(set(self.roles.values())) != len(self.roles):
            self.infer_roles(words)
        want = {"queue": {"head", "tail", "pool"}, "stack": {"tos", "pool"}}[kind]
        if set(self.roles.values()) != want:
            raise Inconclusive("roles of the atomic members not recognised: %r" % self.roles)
        # filled by the constructor
        self.null = None
        self.nodes_off = None
        self.ctor = {}
        self.link_bumps = []
        self.ctor_bumps = []

    def flatten(self, tid, off, path, seen):
        l = self.dump["layouts"].get(tid)
        if not l:
            return
        for m in l["members"]:
            p = path + "/" + (m["name"] or "<base>")
            if m["tname"].startswith("atomic<"):
                self.leaves.append((p, off + m["off"], m["size"], m["tname"]))
            elif m["tid"] and m["kind"] == "" and m["tid"] in self.dump["layouts"] and self.dump["layouts"][m["tid"]]["members"]:
                self.flatten(m["tid"], off + m["off"], p, seen)
            else:
                self.leaves.append((p, off + m["off"], m["size"], m["kind"] or m["tname"]))

    def infer_roles(self, words):
        """members with other names: the pool word is the nested one; of the others, push changes the tail only"""
        pool = max(words, key=lambda w: w[0].count("/"))
        roles = {pool[1]: "pool"}
        rest = [w[1] for w in words if w[1] != pool[1]]
        if self.kind == "stack":
            roles[rest[0]] = "tos"
        else:
            touched = set()
            f = self.dump["functions"]["vpe_push"]
            addr = {"a0": 0}
            for b in f["blocks"]:
                for i in b["insts"]:
                    if i["op"] == "getelementptr" and i.get("base", {}).get("v") in addr and not i["var"]:
                        addr[i["id"]] = addr[i["base"]["v"]] + i["off"]
                    if i["op"] in ("load", "cmpxchg") and i["ptr"].get("v") in addr:
                        touched.add(addr[i["ptr"]["v"]])
            for o in rest:
                roles[o] = "tail" if o in touched else "head"
        self.roles = roles

    def find(self, rule, msg, loc, fn):
        f = Finding(rule, msg, loc, fn, self.name)
        self.findings.setdefault(f.key(), f)

    def ob(self, rule, fn, loc=None):
        k = (rule, fn, srcline(loc) if loc else "")
        self.obl[k] = self.obl.get(k, 0) + 1


# entry name -> (class, options)
def entry_kind(name):
    n = name[4:]
    if n.startswith("ctor"):
        return "ctor"
    if n == "dtor":
        return "dtor"
    if n.startswith("upop"):
        return "upop"
    if n.startswith("upush"):
        return "upush"
    for k in ("bounded_push", "push", "pop", "consume_one", "consume_all_atomic_reversed", "consume_all_atomic", "consume_all",
              "reserve_unsafe", "reserve", "empty", "is_lock_free"):
        if n.startswith(k):
            return k
    return "?"


class Model:
    keep_trace = False
    no_counter = False
    instances = 0

    def __init__(self, cfg, name):
        self.cfg = cfg
        self.name = name
        self.kind = entry_kind(name)
        self.range = name.endswith("_range")
        self.excl = self.kind in ("ctor", "dtor", "upop", "upush", "reserve_unsafe")
        self.observer = self.kind in ("empty", "is_lock_free")
        self.globals_ = {}
        self.cfgatoms = {}
        self.argmem = {}
        self.nrets = 0
        self.nthrows = 0

    # ---- reporting -------------------------------------------------------------------------------------------------
    def find(self, rule, msg, loc):
        self.cfg.find(rule, msg, loc, self.name)

    def need(self, ok, rule, msg, loc):
        self.cfg.ob(rule, self.name, loc)
        if not ok:
            self.find(rule, msg, loc)
        return ok

    # ---- words -----------------------------------------------------------------------------------------------------
    def ref(self, v):
        c = self.cfg
        if v.w >= c.rw:
            return bits(v, 0, c.rw)
        return zext(v, c.rw)

    def tag(self, v):
        c = self.cfg
        if v.w < c.tpos + c.tw:
            return None
        return bits(v, c.tpos, c.tw)

    def nullref(self, st):
        c = self.cfg
        if c.refkind != "idx":
            return const(c.rw, 0)
        n = c.null
        if n is None:
            n = st.ghost.get("null")
            return n if n is not None else None
        if isinstance(n, tuple):
            return bits(self.cload(st, n[1], 8), 0, 16)
        return const(16, n)

    def null_slices(self, a):
        c = self.cfg
        if a.kind == "obs" or a.kind in ("gen", "own"):
            if a.w == 8 * c.wbytes or a.w == c.rw or (c.refkind != "idx" and a.w == 64):
                return [(0, min(c.rw, a.w))]
        return []

    def null_for(self, w):
        c = self.cfg
        if w != c.rw:
            return None
        if c.refkind != "idx":
            return const(w, 0)
        if isinstance(c.null, int):
            return const(16, c.null)
        if isinstance(c.null, tuple):
            a = self.cfgatoms.get((c.null[1], 8))
            return bits(atomv(a), 0, 16) if a is not None else None
        return None

    # ---- addresses ---------------------------------------------------------------------------------------------------
    def cls(self, st, ptr):
        """('C',off) ('L',atom,off) ('A',base,off) ('G',n,off) ('N',ref,off) ('H',base,off) ('Z',off)"""
        c = self.cfg
        p = st.facts.resolve(ptr)
        k, ts = lin_parts(p)
        k = signed(k, 64)
        if not ts:
            if c.refkind == "idx" or True:
                return ("Z", k)
        base = None
        var = []
        for t, q in ts.items():
            q = signed(q, 64)
            if q == 1 and base is None and (is_ptr(t) or len(ts) == 1):
                base = t
            else:
                var.append((t, q))
        if base is None:
            # an index mode address whose base is not a plain pointer value
            for t, q in ts.items():
                if signed(q, 64) == 1:
                    base = t
                    var = [(u, signed(r, 64)) for u, r in ts.items() if u != t]
                    break
        if base is None:
            return ("?", k)
        a = as_atom(base)
        if a is not None:
            if a.kind == "alloca" and not var:
                return ("L", a, k)
            if a.kind == "global":
                return ("G", a, k)
            if a.kind == "arg":
                if a.a["n"] == 0:
                    if c.refkind == "idx" and c.storage == "ct":
                        s0 = self.ct_nodes()
                        if var or s0 <= k < c.nodes_end:
                            return self.idxnode(st, k - s0, var)
                    if not var:
                        return ("C", k)
                    return ("?", k)
                return ("A", base, sub(p, base))
            if a.kind == "heap" and (c.refkind == "idx" or a.a.get("block")):
                if c.refkind == "idx" and (var or self.nodes_base(st, base)):
                    return self.idxnode(st, k, var)
                return ("H", base, k) if not var else ("?", k)
            if a.kind == "exc":
                return ("X", a, k)
            if a.kind == "op" and a.a["op"] == "aligndown":
                if c.storage == "ct":
                    raise Inconclusive("%s: where the nodes begin inside the object depends on its address" % self.name)
                if c.refkind == "idx":
                    if k < 0 and not var:
                        return ("H", base, k)
                    return self.idxnode(st, k, var)
                return ("H", base, k)
            if a.kind == "cfg":
                if c.refkind == "idx":
                    if k < 0 and not var:
                        return ("H", base, k)
                    if c.nodes_off is None:
                        c.nodes_off = a.a["off"]
                    if a.a["off"] == c.nodes_off:
                        return self.idxnode(st, k, var)
                return ("H", base, k)
        if var:
            return ("?", k)
        if c.refkind == "idx":
            # a pointer that came out of a join: node only if we can tell its index
            return ("?", k)
        return ("N", bits(base, 0, c.rw), k)

    def nodes_base(self, st, base):
        """a block that the allocator handed out as an array of nodes: nothing precedes them"""
        es = as_atom(base).a.get("es")
        return es is not None and is_const(es) and cval(es) == self.cfg.S

    def ct_nodes(self):
        """offset of the node array inside a compile-time sized container"""
        c = self.cfg
        if c.nodes_off is None:
            st = [x for x in c.leaves if x[3] == "array" and x[2] >= c.S]
            if not st:
                raise Inconclusive("node storage not found")
            st = [max(st, key=lambda x: x[2])]
            c.nodes_end = st[-1][1] + st[-1][2]
            c.nodes_off = -(-st[-1][1] // 64) * 64
            if c.align % 64:
                c.nodes_off = st[-1][1]
        return c.nodes_off

    def idxnode(self, st, k, var):
        c = self.cfg
        r = const(64, 0)
        for t, q in var:
            if q % c.S:
                return ("?", k)
            r = lin(64, 0, [(r, 1), (t, q // c.S)])
        off = k % c.S
        r = addc(r, (k - off) // c.S)
        return ("N", bits(r, 0, 16), off)

    # ---- tokens -----------------------------------------------------------------------------------------------------
    def token(self, st, ref):
        eq = st.facts.eq
        for t in st.toks:
            if t.rest:
                continue
            if eq(self.tref(t), ref) or (t.last is not None and eq(self.lref(t), ref)):
                return t
        return None

    def tref(self, t):
        return t.first

    def lref(self, t):
        return t.last

    def gone(self, st, ref):
        for r, why in st.gone:
            if st.facts.eq(r, ref):
                return why
        return None

    def begin(self, ex, st, args):
        self.ex = ex
        self.here = None
        c = self.cfg
        as_atom(args[0]).a["align"] = c.align
        self.args = args
        st.ghost["consumed"] = const(64, 0)
        st.ghost["released"] = const(64, 0)
        st.ghost["popped"] = const(64, 0)
        st.ghost["links"] = const(64, 0)
        st.ghost["inserted"] = const(64, 0)
        for a in args[1:]:
            if a.w == 64 and not is_ptr(a):
                st.facts.les = st.facts.les + ((-NUMMAX, {a: 1}),)
        if self.range:
            # [begin, end) is a valid range of elements
            st.facts.les = st.facts.les + ((0, {args[1]: 1, args[2]: -1}),)

    # cfg words are constant for the life of the container
    def cload(self, st, off, n):
        reg = st.mem.setdefault(("C",), {})

        def mk_(o, k):
            if self.kind == "ctor":
                return fresh(8 * k, "uninit")
            a = self.cfgatoms.get((o, k))
            if a is None:
                pt = k == 8 and any(x[1] == o and x[3] == "pointer" for x in self.cfg.leaves)
                a = self.cfgatoms[(o, k)] = Atom(8 * k, "cfg", {"off": o, "n": "C+%d" % o}, pt, pt)
            v = atomv(a)
            return v

        v = rload(reg, off, n, mk_)
        # the number of nodes is in range: the constructor checks it
        if self.kind != "ctor" and isinstance(self.cfg.null, tuple) and off == self.cfg.null[1]:
            a = as_atom(v)
            if a is not None and not st.ghost.get("nullrange"):
                st.ghost["nullrange"] = True
                st.facts.les = st.facts.les + ((-65535, {v: 1}),)
        return v

    def isrole(self, off, n):
        c = self.cfg
        for o in c.roles:
            if o <= off < o + c.wbytes:
                return o
        return None

    def obs(self, st, loc, w, order, nonnull_=False, **kw):
        st.clock += 1
        a = Atom(w, "obs", {"loc": loc, "order": order, "t": st.clock, **kw})
        if self.cfg.refkind == "ptr64" and w in (64, 128):
            a.ptr = True
        return atomv(a)

    # ---- loads ------------------------------------------------------------------------------------------------------
    def load(self, st, ptr, w, order, I):
        n = nbytes(w)
        k = self.cls(st, ptr)
        c = self.cfg
        loc = I["loc"]
        if k[0] == "L":
            reg = st.mem.setdefault(("L", k[1]), {})
            v = rload(reg, k[2], n, lambda o, m: fresh(8 * m, "undef"))
            return [(st, bits(v, 0, w))]
        if k[0] == "C":
            return self.load_c(st, k[1], n, w, order, I)
        if k[0] == "N":
            return self.load_n(st, k[1], k[2], n, w, order, I)
        if k[0] == "A":
            reg = st.mem.setdefault(("A", k[1]), {})
            off = k[2]
            if is_const(off):
                v = rload(reg, signed(cval(off), 64), n, lambda o, m: self.argval(k[1], const(64, o), m))
            else:
                v = self.argval(k[1], off, n)
            self.note_src(st, ptr, I)
            return [(st, bits(v, 0, w))]
        if k[0] == "H":
            key = ("H", k[1])
            reg = st.mem.setdefault(key, {})
            v = rload(reg, k[2], n, lambda o, m: self.heapval(k[1], o, m))
            return [(st, bits(v, 0, w))]
        if k[0] == "Z":
            if self.feasible_null(st):
                self.find("null-deref", "memory is read through a null reference", loc)
            return []
        if k[0] in ("G", "X"):
            return [(st, fresh(w, "unknown", ptr=False))]
        raise Inconclusive("%s: load through an address the analysis cannot place: %r (%s)" % (self.name, st.facts.resolve(ptr), srcline(loc)))

    def feasible_null(self, st):
        return True

    def argval(self, base, off, n):
        key = (base, off, n)
        v = self.argmem.get(key)
        if v is None:
            v = self.argmem[key] = fresh(8 * n, "uval", base=base, off=off)
        return v

    def heapval(self, base, off, n):
        key = ("h", base, off, n)
        v = self.argmem.get(key)
        if v is None:
            v = self.argmem[key] = fresh(8 * n, "hdr", ptr=n == 8, nonnull=n == 8, base=base, off=off)
        return v

    def load_c(self, st, off, n, w, order, I):
        c = self.cfg
        r = self.isrole(off, n)
        if r is None:
            return [(st, bits(self.cload(st, off, n), 0, w))]
        role = c.roles[r]
        if self.excl:
            reg = st.mem.setdefault(("C",), {})
            v = rload(reg, off, n, lambda o, m: self.role_init(st, r, o - r, m, order))
            v = bits(v, 0, w)
            return [(st, v)]
        if off != r or n != c.wbytes:
            self.find("partial-word", "only part of the shared word '%s' is read" % role, I["loc"])
        if order == "na":
            self.find("plain-access", "the shared word '%s' is read by a plain load" % role, I["loc"])
        v = self.obs(st, ("C", r), 8 * c.wbytes, order)
        st.ev("LOAD", I["loc"], obs=as_atom(v), role=role)
        if role == "pool":
            st.ghost["lastpool"] = v
        self.role_fact(st, role, v)
        return [(st, bits(v, 8 * (off - r), w))]

    def role_fact(self, st, role, v):
        if role in ("head", "tail"):
            z = self.nullref(st)
            if z is not None:
                st.facts.add_ne(self.ref(v), z)
        if self.cfg.refkind == "idx" and isinstance(self.cfg.null, tuple):
            # a reference is an index of the pool or the null index
            nc = self.cload(st, self.cfg.null[1], 8)
            st.facts.les = st.facts.les + ((0, {self.ref(v): 1, nc: -1}),)

    def role_init(self, st, r, o, m, order):
        c = self.cfg
        if self.kind == "ctor" and not st.ghost.get("init:" + c.roles[r]):
            return fresh(8 * m, "uninit")
        if o == 0 and m == c.wbytes:
            v = self.obs(st, ("C", r), 8 * m, "excl")
            st.ev("LOAD", None, obs=as_atom(v), role=c.roles[r])
            self.role_fact(st, c.roles[r], v)
            if self.kind == "ctor" and c.roles[r] == "pool":
                # the nodes that were put into the pool and not taken again are in it
                k, ts = st.facts._ints(sub(st.ghost["released"], st.ghost["popped"]))
                z = self.nullref(st)
                if z is not None and st.facts.le0(1 - k, {t: -q for t, q in ts.items()}):
                    st.facts.add_ne(self.ref(v), z)
            if c.roles[r] == "pool" and st.ghost.get("vpool") is not None:
                st.facts.add_eq(self.ref(v), st.ghost["vpool"])
            return v
        # fill the whole word first
        v = self.role_init(st, r, 0, c.wbytes, order)
        return bits(v, 8 * o, 8 * m)

    def deref_ok(self, st, ref, loc, what):
        """the reference may be followed: not null and obtained by an acquiring observation"""
        z = self.nullref(st)
        r = st.facts.resolve(ref)
        self.cfg.ob("null-deref", self.name, loc)
        if z is not None and not st.facts.ne(r, z):
            self.find("null-deref", "%s a node whose reference may be null" % what, loc)
        if not self.excl:
            for p in r.p:
                if p[0] == "s" and p[1].kind == "obs":
                    a = p[1]
                    self.need(self.acquired(st, a) or a.a["order"] == "na" and a.a["loc"][0] == "N" and a.a.get("owned"),
                              "mo-acquire", "a node is accessed through a reference that was read with memory order %s" % a.a["order"], loc)

    def load_n(self, st, ref, off, n, w, order, I):
        c = self.cfg
        loc = I["loc"]
        ref = st.facts.resolve(ref)
        self.claim_dummy(st, ref)
        g = self.gone(st, ref)
        if g and not self.token(st, ref):
            if g == "released" and not self.excl or self.inpay(off, n):
                self.find("use-after-release", "a node is read after it was %s" % g, loc)
        outs = []
        for s2 in self.unfold(st, ref, I):
            t = self.token(s2, ref)
            if t is not None:
                outs.append((s2, bits(self.tok_load(s2, t, ref, off, n), 0, w)))
            else:
                outs.extend(self.load_unowned(s2, ref, off, n, w, order, I))
        return outs

    def inpay(self, off, n):
        p, s = self.cfg.pay
        return off < p + s and p < off + n

    def tok_load(self, st, t, ref, off, n):
        if t.last is not None and not st.facts.eq(t.first, ref) and st.facts.eq(t.last, ref):
            if off == 0 and t.lastnext is not None and 8 * n <= t.lastnext.w:
                return bits(t.lastnext, 0, 8 * n)
            return fresh(8 * n, "own")
        return rload(t.mem, off, n, lambda o, m: self.own_fill(st, t, o, m))

    def own_fill(self, st, t, o, m):
        # the link word of an owned node is filled as a whole
        lb = self.cfg.linkbytes
        v = fresh(8 * m, "own", ptr=(m == 8 and not self.inpay(o, m) and lb == 8 and self.cfg.kind == "stack") or False)
        return v

    def load_unowned(self, st, ref, off, n, w, order, I):
        c = self.cfg
        loc = I["loc"]
        if self.kind == "dtor":
            g = self.gone(st, ref)
            if g == "freed":
                self.find("use-after-free", "a node is read after its memory was returned", loc)
        self.deref_ok(st, ref, loc, "reading")
        if self.excl:
            # sequential memory: the last write or read of the same node
            for (r2, o2, n2, v2, wr) in reversed(st.nmem):
                if st.facts.eq(r2, ref):
                    if o2 <= off and off + n <= o2 + n2:
                        return [(st, bits(v2, 8 * (off - o2), w))]
                    if o2 < off + n and off < o2 + n2:
                        break
                elif wr and not st.facts.ne(r2, ref) and o2 < off + n and off < o2 + n2:
                    break
            if self.inpay(off, n):
                v = fresh(8 * n, "pay", ref=ref, off=off, t=st.clock)
            else:
                v = self.link_obs(st, ref, off, n, "excl", loc)
            st.nmem = st.nmem + ((ref, off, n, v, False),)
            return [(st, bits(v, 0, w))]
        if self.inpay(off, n):
            if c.kind == "stack":
                self.find("element-not-owned", "an element is read from a node that the thread has not removed", loc)
            st.clock += 1
            v = fresh(8 * n, "pay", ref=ref, off=off, t=st.clock)
            st.ev("PAYLOAD", loc, ref=ref)
            return [(st, bits(v, 0, w))]
        v = self.link_obs(st, ref, off, n, order, loc)
        return [(st, bits(v, 0, w))]

    def link_obs(self, st, ref, off, n, order, loc):
        c = self.cfg
        v = self.obs(st, ("N", ref, off), 8 * n, order)
        a = as_atom(v)
        if n == 8 and c.kind == "stack" and c.refkind != "idx":
            a.ptr = True
            v = atomv(a)
        if c.refkind == "idx" and isinstance(c.null, tuple) and 8 * n >= 16:
            nc = self.cload(st, c.null[1], 8)
            st.facts.les = st.facts.les + ((0, {self.ref(v): 1, nc: -1}),)
        st.ev("LINKLOAD", loc, obs=a, ref=ref)
        return v

    # ---- chains ------------------------------------------------------------------------------------------------------
    def unfold(self, st, ref, I):
        """make the first node of an owned list a node of its own when it is accessed"""
        for i, t in enumerate(st.toks):
            if t.rest and st.facts.eq(t.first, ref):
                z = self.nullref(st)
                if z is not None and not st.facts.ne(ref, z):
                    self.find("null-deref", "the end of the list is followed", I["loc"])
                one = Tok(t.first, t.origin, dir=t.dir)
                one.pay = "live"
                one.base = None
                lw = self.own_link(st)
                rstore(one.mem, 0, nbytes(lw.w), lw)
                rest = Tok(self.ref(lw), t.origin, single=False, dir=t.dir)
                rest.rest = True
                rest.pay = "live"
                st.toks[i : i + 1] = [one, rest]
                return [st]
        # a private chain that is walked from its first node
        for i, t in enumerate(st.toks):
            if t.rest or t.last is None or t.dir != "seg" or not st.facts.eq(t.first, ref):
                continue
            z = self.nullref(st)
            if z is not None and not st.facts.eq(t.first, t.last) and t.lastnext is not None and st.facts.eq(self.ref(t.lastnext), z) and not self.kept(st, t.last):
                # nothing but the null link tells where it ends
                st.facts.add_ne(t.first, z)
                t2 = Tok(t.first, t.origin, single=False, dir="seg")
                t2.rest = True
                t2.pay = "live"
                st.toks[i] = t2
                return self.unfold(st, ref, I)
            outs = []
            same = st.facts.cmp("eq", t.first, t.last)
            if same is not False:
                # its only node
                s1 = st if same is True else st.copy()
                t1 = s1.toks[i]
                if same is None:
                    s1.facts.add_eq(t1.first, t1.last)
                t1.dir = None
                if t1.lastnext is not None and 0 not in t1.mem:
                    rstore(t1.mem, 0, nbytes(t1.lastnext.w), t1.lastnext)
                outs.append(s1)
            if same is not True:
                # an inner node: its link is the rest of the chain
                z = self.nullref(st)
                if same is None:
                    st.facts.add_ne(t.first, t.last)
                if z is not None:
                    st.facts.add_ne(t.first, z)
                one = Tok(t.first, t.origin, dir=None)
                one.pay = t.pay
                one.last = t.first
                lw = self.own_link(st)
                rstore(one.mem, 0, nbytes(lw.w), lw)
                one.lastnext = lw
                one.count = const(64, 0)
                more = Tok(self.ref(lw), t.origin, dir="seg")
                more.pay = t.pay
                more.last = t.last
                more.lastnext = t.lastnext
                more.count = lin(64, -1, [(t.count, 1)])
                if z is not None:
                    st.facts.add_ne(more.first, z)
                st.toks[i : i + 1] = [one, more]
                outs.append(st)
            return outs
        return [st]

    def own_link(self, st):
        c = self.cfg
        a = Atom(8 * c.linkbytes, "own", {}, ptr=c.linkbytes == 8 and (c.kind == "stack" or c.refkind == "ptr64"))
        v = atomv(a)
        if c.refkind == "idx" and isinstance(c.null, tuple):
            nc = self.cload(st, c.null[1], 8)
            st.facts.les = st.facts.les + ((0, {self.ref(v): 1, nc: -1}),)
        return v

    # ---- stores ------------------------------------------------------------------------------------------------------
    def store(self, st, ptr, val, order, I):
        k = self.cls(st, ptr)
        n = nbytes(val.w)
        loc = I["loc"]
        c = self.cfg
        if k[0] == "L":
            rstore(st.mem.setdefault(("L", k[1]), {}), k[2], n, zext(val, 8 * n))
            return [st]
        if k[0] == "C":
            return self.store_c(st, k[1], n, zext(val, 8 * n), order, I)
        if k[0] == "N":
            return self.store_n(st, k[1], k[2], n, zext(val, 8 * n), order, I)
        if k[0] == "A":
            self.user_write(st, ptr, k, n, zext(val, 8 * n), loc, conv=False)
            return [st]
        if k[0] == "H":
            rstore(st.mem.setdefault(("H", k[1]), {}), k[2], n, zext(val, 8 * n))
            return [st]
        if k[0] == "X" or k[0] == "G":
            if k[0] == "G":
                self.find("global-write", "a global variable is written", loc)
            return [st]
        if k[0] == "Z":
            self.find("null-deref", "memory is written through a null reference", loc)
            return []
        raise Inconclusive("%s: store through an address the analysis cannot place: %r (%s)" % (self.name, st.facts.resolve(ptr), srcline(loc)))

    def no_address(self, val, loc):
        """nothing of a compile-time sized container refers to its own place in memory"""
        if self.cfg.storage == "ct":
            self.need(not has_address(val), "address-stored", "a container with compile-time capacity stores an address in itself", loc)

    def store_c(self, st, off, n, val, order, I):
        c = self.cfg
        loc = I["loc"]
        r = self.isrole(off, n)
        if self.observer:
            self.find("observer-write", "an observer writes to the container", loc)
        if r is None:
            if self.kind != "ctor":
                self.find("cfg-write", "a data member is written outside construction (container offset %d)" % off, loc)
            self.no_address(val, loc)
            rstore(st.mem.setdefault(("C",), {}), off, n, val)
            return [st]
        role = c.roles[r]
        if not self.excl:
            self.find("plain-store", "the shared word '%s' is overwritten by a store; concurrent changes are lost" % role, loc)
            return [st]
        if off != r or n != c.wbytes:
            # an uninitialised half is completed by a later store
            rstore(st.mem.setdefault(("C",), {}), off, n, val)
            if self.kind != "ctor":
                self.find("partial-word", "only part of the word '%s' is written" % role, loc)
            elif not st.ghost.get("init:" + role):
                # word by word: complete once every byte was written
                reg = st.mem[("C",)]
                missing = []
                cur = rload(dict(reg), r, c.wbytes, lambda o, m: missing.append(o) or fresh(8 * m, "undef"))
                if not missing:
                    rstore(reg, r, c.wbytes, cur)
                    return self.init_role(st, role, cur, loc)
            return [st]
        reg = st.mem.setdefault(("C",), {})
        if self.kind == "ctor" and not st.ghost.get("init:" + role):
            rstore(reg, off, n, val)
            return self.init_role(st, role, val, loc)
        cur = rload(reg, r, n, lambda o, m: self.role_init(st, r, o - r, m, order))
        self.transition(st, role, cur, val, order, I)
        reg = st.mem.setdefault(("C",), {})
        rstore(reg, off, n, val)
        if role == "pool":
            st.ghost.pop("vpool", None)
        return [st]

    def init_role(self, st, role, val, loc):
        """first store to a shared word in a constructor"""
        c = self.cfg
        r = self.ref(val)
        if role in ("head", "tail"):
            t = self.token(st, r)
            if t is None:
                d = st.ghost.get("dummy")
                if d is not None and st.facts.eq(d, r):
                    st.ghost["init:" + role] = True
                    return [st]
                # placeholder value before the dummy exists; checked again when the constructor returns
                return [st]
            else:
                self.link_null(st, t, loc, "ctor-init", "the dummy node's link is not null")
                st.toks.remove(t)
                st.ghost["dummy"] = r
            st.ghost["init:" + role] = True
            return [st]
        if role == "tos":
            z = self.nullref(st)
            if z is not None and st.facts.eq(r, z):
                st.ghost["init:tos"] = True
            # anything else is a placeholder; the constructor has to set the null reference before it returns
            return [st]
        # pool: the value stored first is the null reference
        if c.refkind == "idx":
            if st.ghost.get("null") is None:
                st.ghost["null"] = r
        elif not (is_const(r) and cval(r) == 0):
            self.find("ctor-init", "the pool does not start empty", loc)
        st.ghost["init:pool"] = True
        return [st]

    def link_null(self, st, t, loc, rule, msg):
        z = self.nullref(st)
        lk = self.tok_load(st, t, t.first, 0, self.cfg.linkbytes)
        ok = z is not None and st.facts.eq(self.ref(lk), z)
        self.need(ok, rule, msg, loc)
        return ok

    def store_n(self, st, ref, off, n, val, order, I):
        c = self.cfg
        loc = I["loc"]
        ref = st.facts.resolve(ref)
        if self.observer:
            self.find("observer-write", "an observer writes to a node", loc)
        if c.refkind != "idx":
            self.need(0 <= off and off + n <= c.S, "overrun", "memory outside the node is written (offset %d, %d bytes)" % (off, n), loc)
        self.claim_dummy(st, ref)
        g = self.gone(st, ref)
        outs = []
        for s2 in self.unfold(st, ref, I):
            t = self.token(s2, ref)
            if t is not None:
                z = self.nullref(s2)
                if t.origin != "alloc" and z is not None and not s2.facts.ne(ref, z):
                    self.find("null-deref", "a node whose reference may be null is written", loc)
                self.tok_store(s2, t, ref, off, n, val, loc)
                outs.append(s2)
                continue
            if g:
                self.find("write-after-%s" % ("publish" if g == "published" else "release"), "a node is written after it was %s" % g, loc)
                outs.append(s2)
                continue
            if self.excl:
                outs.extend(self.store_unowned(s2, ref, off, n, val, order, I))
                continue
            self.find("shared-write", "a node that is visible to other threads is written by a store", loc)
            outs.append(s2)
        return outs

    def tok_store(self, st, t, ref, off, n, val, loc):
        st.ghost.pop("relfence", None)
        c = self.cfg
        if t.last is not None and not st.facts.eq(t.first, ref) and st.facts.eq(t.last, ref):
            if self.inpay(off, n):
                self.find("element-overwrite", "an element of a prepared batch is overwritten", loc)
            elif off == 0:
                t.lastnext = val
            return
        if self.inpay(off, n):
            if c.opaque and t.pay == "live" and c.rawcopy:
                self.find("element-overwrite", "bytes are stored over an element that is not destroyed", loc)
            elif c.opaque and t.pay != "live" and not c.rawcopy:
                self.find("element-raw", "bytes are stored where an element has to be constructed", loc)
            elif not c.opaque or c.rawcopy:
                t.pay = "live"
        rstore(t.mem, off, n, val)
        if t.last is not None and st.facts.eq(t.last, ref) and off == 0:
            t.lastnext = rload(t.mem, 0, c.linkbytes, lambda o, m: fresh(8 * m, "own"))

    def store_unowned(self, st, ref, off, n, val, order, I):
        """single-threaded operations may change nodes directly"""
        c = self.cfg
        loc = I["loc"]
        if self.kind == "ctor" and c.refkind == "idx":
            st.nmem = st.nmem + ((ref, off, n, val, True),)
            return [st]
        if c.kind == "queue" and not self.inpay(off, n):
            # linking behind the last node
            self.link(st, ref, off, n, val, None, order, "excl", I)
            st.nmem = st.nmem + ((ref, off, n, val, True),)
            return [st]
        self.find("shared-write", "a node of the container is written", loc)
        st.nmem = st.nmem + ((ref, off, n, val, True),)
        return [st]

    # ---- user memory ---------------------------------------------------------------------------------------------------
    def note_src(self, st, ptr, I):
        if self.range and self.kind in ("push", "bounded_push", "upush"):
            self.src_in_range(st, ptr, I["loc"])

    def src_in_range(self, st, ptr, loc):
        b, e = self.args[1], self.args[2]
        if any(x in atoms_of(st.facts.resolve(ptr)) for x in (as_atom(b),)):
            self.need(st.facts.ne(ptr, e), "range-end", "an element is read without it being known that the end of the range was not reached", loc)

    def user_write(self, st, ptr, k, n, val, loc, conv):
        base, off = k[1], k[2]
        a = as_atom(base)
        if self.kind not in ("pop", "upop") or a.a["n"] != 1:
            if self.kind in ("pop", "upop"):
                pass
            if self.range and a.a["n"] > 2:
                pass
            else:
                self.find("user-write", "memory of the caller is written", loc)
        if not is_const(off):
            raise Inconclusive("%s: write to caller memory at an unknown offset" % self.name)
        reg = st.mem.setdefault(("A", base), {})
        rstore(reg, signed(cval(off), 64), n, val)
        st.ghost["wrote"] = min(3, st.ghost.get("wrote", 0) + 1)
        ow = st.ghost.get("won", 0)
        st.ghost["wrote_unowned"] = st.ghost.get("wrote_unowned", False) or (not ow and not self.excl)
        if not self.excl and not ow and (self.cfg.kind == "stack"):
            self.find("deliver-early", "the result is written before an element was obtained", loc)

    # ---- exchange -------------------------------------------------------------------------------------------------------
    def cas(self, st, ptr, cmp_, new, order, forder, weak, I):
        k = self.cls(st, ptr)
        c = self.cfg
        loc = I["loc"]
        n = nbytes(new.w)
        if self.observer and k[0] in ("C", "N"):
            self.find("observer-write", "an observer changes the container", loc)
        if k[0] == "C" and self.isrole(k[1], n) is not None:
            r = self.isrole(k[1], n)
            role = c.roles[r]
            if n != c.wbytes or r != k[1]:
                self.find("partial-word", "only part of the shared word '%s' is exchanged" % role, loc)
                return []
            if self.excl:
                reg = st.mem.setdefault(("C",), {})
                cur = rload(reg, r, n, lambda o, m: self.role_init(st, r, o - r, m, order))
                outs = []
                s2 = st.copy()
                if not st.facts.eq(cur, cmp_) and s2.facts.add_ne(cur, cmp_):
                    s2.flag("cas-fail")
                    outs.append((s2, cur, False))
                if st.facts.add_eq(cur, cmp_):
                    self.transition(st, role, cur, new, order, I)
                    rstore(st.mem.setdefault(("C",), {}), r, n, new)
                    if role == "pool":
                        st.ghost.pop("vpool", None)
                    outs.append((st, cur, True))
                elif weak is None:
                    pass
                return outs
            f = st.copy()
            old = self.obs(f, ("C", r), 8 * n, forder)
            f.ev("LOAD", loc, obs=as_atom(old), role=role)
            if role == "pool":
                f.ghost["lastpool"] = old
            self.role_fact(f, role, old)
            if role == "tail" and not weak and "linked" in f.ghost and f.facts.eq(f.ghost["linked"][0], self.ref(cmp_)):
                f.ghost["swung"] = True    # somebody else moved it
            f.flag("cas-fail")
            self.note_failed(f, ("C", r), cmp_)
            outs = []
            if not weak:
                ok = f.facts.add_ne(old, cmp_)
            else:
                ok = True
            self.check_expected(st, ("C", r), cmp_, role, loc)
            self.transition(st, role, cmp_, new, order, I)
            st.ev("CAS", loc, role=role, exp=cmp_, new=new)
            st.flag("progress")
            outs.append((st, cmp_, True))
            if ok:
                outs.append((f, old, False))
            return outs
        if k[0] == "N":
            ref, off = st.facts.resolve(k[1]), k[2]
            t = self.token(st, ref)
            if t is not None:
                cur = self.tok_load(st, t, ref, off, n)
                f = st.copy()
                outs = []
                if st.facts.add_eq(cur, cmp_):
                    self.tok_store(st, self.token(st, ref), ref, off, n, new, loc)
                    outs.append((st, cur, True))
                if f.facts.add_ne(cur, cmp_):
                    outs.append((f, cur, False))
                return outs
            if self.gone(st, ref):
                self.find("write-after-publish", "the link of a node is exchanged after the node was given away", loc)
            self.deref_ok(st, ref, loc, "exchanging the link of")
            if self.excl:
                outs = []
                for s2, cur in self.load_unowned(st, ref, off, n, 8 * n, order, I):
                    f = s2.copy()
                    if not s2.facts.eq(cur, cmp_) and f.facts.add_ne(cur, cmp_):
                        outs.append((f, cur, False))
                    if s2.facts.add_eq(cur, cmp_):
                        self.link(s2, ref, off, n, new, cur, order, forder, I)
                        s2.nmem = s2.nmem + ((ref, off, n, new, True),)
                        outs.append((s2, cur, True))
                return outs
            f = st.copy()
            old = self.link_obs(f, ref, off, n, forder, loc)
            f.flag("cas-fail")
            self.note_failed(f, ("N", ref, off), cmp_)
            ok = True if weak else f.facts.add_ne(old, cmp_)
            self.link(st, ref, off, n, new, cmp_, order, forder, I)
            st.flag("progress")
            outs = [(st, cmp_, True)]
            if ok:
                outs.append((f, old, False))
            return outs
        if k[0] == "L":
            reg = st.mem.setdefault(("L", k[1]), {})
            cur = rload(reg, k[2], n, lambda o, m: fresh(8 * m, "undef"))
            f = st.copy()
            outs = []
            if st.facts.add_eq(cur, cmp_):
                rstore(st.mem[("L", k[1])], k[2], n, new)
                outs.append((st, cur, True))
            if f.facts.add_ne(cur, cmp_):
                outs.append((f, cur, False))
            return outs
        raise Inconclusive("%s: exchange at an address the analysis cannot place (%s)" % (self.name, srcline(loc)))

    def note_failed(self, st, l, exp):
        st.ghost["failed"] = st.ghost.get("failed", frozenset()) | {(l, exp)}

    def check_expected(self, st, l, exp, role, loc):
        a = self.obs_atom(st, exp, l)
        self.need(a is not None, "stale-expected",
                  "the expected value of the exchange of '%s' is not a value that was read from it" % role, loc)
        return a

    def observed(self, st, role):
        """the observations of a shared word that are still known"""
        off = self.role_off(role)
        return [a for a in self.all_obs(st) if a.a["loc"] == ("C", off) and a.w == 8 * self.cfg.wbytes]

    def links_observed(self, st):
        return [a for a in self.all_obs(st) if a.a["loc"][0] == "N" and a.a["loc"][2] == 0 and a.w >= self.cfg.rw]

    def all_obs(self, st):
        seen = {}
        for e in st.trace:
            if e.k in ("LOAD", "LINKLOAD"):
                seen[e.obs] = 1
                if e.k == "LINKLOAD":
                    for x in atoms_of(e.ref):
                        if x.kind == "obs":
                            seen[x] = 1
        for a in st.facts.rep:
            if a.kind == "obs":
                seen[a] = 1
                for _, _, v in st.facts.rep[a]:
                    for x in atoms_of(v):
                        if x.kind == "obs":
                            seen[x] = 1
        for v in self.ex.slots(st).values():
            for x in atoms_of(v):
                if x.kind == "obs":
                    seen[x] = 1
        return list(seen)

    def obs_atom(self, st, v, l=None):
        """the earliest observation (of the shared word l) that has the value v"""
        direct = [x for x in atoms_of(v) if x.kind == "obs"]
        best = None
        for a in direct + self.all_obs(st):
            if a.w != v.w or l is not None and not self.same_loc(st, a.a["loc"], l):
                continue
            if st.facts.eq(atomv(a), v) and (best is None or a.a["t"] < best.a["t"]):
                best = a
        return best

    def same_loc(self, st, a, b):
        if a[0] != b[0]:
            return False
        if a[0] == "C":
            return a[1] == b[1]
        return a[2] == b[2] and st.facts.eq(a[1], b[1])

    def rmw(self, st, ptr, val, opname, order, I):
        k = self.cls(st, ptr)
        loc = I["loc"]
        n = nbytes(val.w)
        c = self.cfg
        if self.observer and k[0] in ("C", "N"):
            self.find("observer-write", "an observer changes the container", loc)
        if k[0] == "C" and self.isrole(k[1], n) is not None:
            r = self.isrole(k[1], n)
            role = c.roles[r]
            if opname != "xchg":
                self.find("illegal-transition", "'%s' is changed by an atomic %s" % (role, opname), loc)
                return [(st, fresh(val.w, "unknown"))]
            if self.excl:
                reg = st.mem.setdefault(("C",), {})
                cur = rload(reg, r, n, lambda o, m: self.role_init(st, r, o - r, m, order))
            else:
                cur = self.obs(st, ("C", r), 8 * n, order)
                st.ev("LOAD", loc, obs=as_atom(cur), role=role)
                if role == "pool":
                    st.ghost["lastpool"] = cur
                self.role_fact(st, role, cur)
            self.transition(st, role, cur, val, order, I)
            if self.excl:
                rstore(st.mem.setdefault(("C",), {}), r, n, val)
                if role == "pool":
                    st.ghost.pop("vpool", None)
            st.ev("CAS", loc, role=role, exp=cur, new=val)
            st.flag("progress")
            return [(st, cur)]
        if k[0] == "L":
            reg = st.mem.setdefault(("L", k[1]), {})
            cur = rload(reg, k[2], n, lambda o, m: fresh(8 * m, "undef"))
            new = {"xchg": lambda: val, "add": lambda: add(cur, val), "sub": lambda: sub(cur, val)}.get(opname, lambda: fresh(val.w, "unknown"))()
            rstore(reg, k[2], n, new)
            return [(st, cur)]
        if k[0] == "C":
            if self.kind != "ctor":
                self.find("cfg-write", "a data member is changed outside construction (container offset %d)" % k[1], loc)
            return [(st, self.cload(st, k[1], n))]
        if k[0] == "N" and self.token(st, k[1]) is None:
            self.find("shared-write", "a node that is visible to other threads is changed by an atomic %s" % opname, loc)
            return [(st, fresh(val.w, "unknown"))]
        raise Inconclusive("%s: atomic %s at an address the analysis cannot place (%s)" % (self.name, opname, srcline(loc)))

    # ---- transitions -------------------------------------------------------------------------------------------------------
    def tagdiff(self, st, new, old):
        a, b = self.tag(new), self.tag(old)
        if a is None or b is None:
            return None
        d = sub(st.facts.resolve(a), st.facts.resolve(b))
        return signed(cval(d), d.w) if is_const(d) else None

    def obs_of_ref(self, st, ref):
        r = st.facts.resolve(ref)
        s = [p for p in r.p if p[0] == "s"]
        if len(s) == 1 and s[0][1].kind == "obs" and s[0][2] == 0:
            return s[0][1]
        return None

    def need_bump(self, st, new, old, lo, what, loc):
        if self.excl:
            return
        d = self.tagdiff(st, new, old)
        if d is None:
            self.need(False, "tag", "%s: the version tag is not derived from the one that is replaced" % what, loc)
        else:
            self.need(lo <= d < 256, "tag", "%s: the version tag changes by %d (at least %d is needed)" % (what, d, lo), loc)

    def acquired(self, st, a):
        """an observation that an acquire load made, or that an acquire fence follows"""
        return a.a["order"] in ACQ or any(e.k == "FENCE" and e.order in ACQ and e.t > a.a["t"] for e in st.trace)

    def fences(self):
        return any(i["op"] == "fence" and i.get("order") in ACQ for b in self.ex.fn.blocks.values() for i in b["insts"])

    def on_fence(self, st, order, loc):
        if order in REL:
            st.ghost["relfence"] = True

    def need_release(self, st, order, what, loc):
        if not self.excl:
            self.need(order in REL or st.ghost.get("relfence", False), "mo-release", "%s with memory order %s; a release is needed" % (what, order), loc)

    def transition(self, st, role, E, V, order, I):
        loc = I["loc"]
        if self.excl:
            st.flag("progress")
        if self.cfg.refkind == "idx" and self.kind == "ctor" and role == "pool":
            return self.ctor_push(st, E, V, loc)
        if role == "pool":
            return self.tr_pool(st, E, V, order, loc)
        if role == "tos":
            return self.tr_tos(st, E, V, order, loc)
        if role == "head":
            return self.tr_head(st, E, V, order, loc)
        if role == "tail":
            return self.tr_tail(st, E, V, order, loc)

    def pushable(self, st, t, what, loc, live):
        c = self.cfg
        if live and t.pay != "live":
            self.find("publish-raw", "%s: the node holds no element yet" % what, loc)
        if not live and c.opaque and t.pay == "live":
            self.find("element-leak", "%s: the element in the node was not destroyed" % what, loc)

    def lastlink(self, st, t):
        c = self.cfg
        if t.last is not None and not st.facts.eq(t.first, t.last):
            return t.lastnext if t.lastnext is not None else fresh(8 * c.linkbytes, "own")
        return self.tok_load(st, t, t.first, 0, c.linkbytes)

    def tr_pool(self, st, E, V, order, loc):
        c = self.cfg
        r = self.ref(V)
        self.claim_dummy(st, r)
        t = self.token(st, r)
        if t is not None:
            what = "a node is returned to the pool"
            self.cfg.ob("pool-push", self.name, loc)
            if t.last is not None and not st.facts.eq(t.first, t.last):
                self.find("pool-push", "a chain of nodes is returned to the pool at once", loc)
            lk = self.tok_load(st, t, t.first, 0, c.rw // 8)
            self.need(st.facts.eq(bits(lk, 0, c.rw), self.ref(E)), "pool-push", "the node's link is not the pool value that is replaced", loc)
            if self.tag_in_link() and t.base is not None:
                full = self.tok_load(st, t, t.first, 0, c.wbytes)
                d = sub(st.facts.resolve(self.tag(full)), st.facts.resolve(self.tag(t.base)))
                self.need(is_const(d) and 0 <= signed(cval(d), d.w) < 256, "tag", "the version tag in the node's link is lost when the node is recycled", loc)
            self.need_bump(st, V, E, 0, what, loc)
            self.need_release(st, order, what, loc)
            self.pushable(st, t, what, loc, live=False)
            st.toks.remove(t)
            st.gone = st.gone + ((t.first, "released"),)
            st.ghost["released"] = addc(st.ghost["released"], 1)
            return
        g = self.gone(st, r)
        if g == "released":
            self.find("double-release", "a node is returned to the pool twice", loc)
            return
        if g:
            self.find("double-release", "a node is returned to the pool although it was %s" % g, loc)
            return
        x = self.obs_of_ref(st, r)
        z = self.nullref(st)
        if x is not None and x.a["loc"][0] == "N" and st.facts.eq(x.a["loc"][1], self.ref(E)) or (x is None and z is not None and self.known_link(st, self.ref(E), r)):
            what = "a node is taken from the pool"
            self.cfg.ob("pool-pop", self.name, loc)
            if not self.excl:
                e = self.obs_atom(st, E, ("C", self.role_off("pool")))
                self.need(e is not None and x is not None and x.a["t"] > e.a["t"], "pool-pop", "the successor was read before the pool value that is replaced", loc)
            self.need(z is None or st.facts.ne(self.ref(E), z), "pool-pop", "a node is taken from a pool that may be empty", loc)
            self.need_bump(st, V, E, 1, what, loc)
            t = Tok(self.ref(E), "pool")
            if not self.excl or True:
                base = fresh(8 * c.wbytes, "own", link=True)
                rstore(t.mem, 0, c.wbytes, base)
                t.base = base
                # the part that was read stays what it is
                rstore(t.mem, 0, c.rw // 8, bits(self.ref(V), 0, c.rw))
            st.toks.append(t)
            st.gone = tuple(g for g in st.gone if not st.facts.eq(g[0], t.first))
            st.ghost["popped"] = addc(st.ghost["popped"], 1)
            return
        self.find("illegal-transition", "the pool is set to a value that is neither an owned node nor the successor of its first node", loc)

    def known_link(self, st, ref, val):
        """sequential memory: the link of node ref is known to hold val"""
        if not self.excl:
            return False
        for (r2, o2, n2, v2, wr) in reversed(st.nmem):
            if st.facts.eq(r2, ref) and o2 == 0 and 8 * n2 >= self.cfg.rw:
                return st.facts.eq(self.ref(v2), val)
        return False

    def tag_in_link(self):
        return self.cfg.kind == "queue"

    def tr_tos(self, st, E, V, order, loc):
        c = self.cfg
        r = self.ref(V)
        z = self.nullref(st)
        t = self.token(st, r)
        if t is not None:
            what = "a batch is pushed" if t.last is not None and not st.facts.eq(t.first, t.last) else "an element is pushed"
            self.cfg.ob("stack-push", self.name, loc)
            if not st.facts.eq(t.first, r):
                self.find("stack-push", "the top is set to a node in the middle of a chain", loc)
            self.need(st.facts.eq(self.ref(self.lastlink(st, t)), self.ref(E)), "stack-push", "%s: the last node's link is not the top that is replaced" % what, loc)
            self.need_bump(st, V, E, 0, what, loc)
            self.need_release(st, order, what, loc)
            self.pushable(st, t, what, loc, live=True)
            self.published(st, t, loc)
            return
        if st.facts.eq(r, z) and not (self.obs_of_ref(st, self.ref(V)) is not None and False):
            # take all - or the last one, when null was read as the successor
            if not (is_const(r) or as_atom(r) is not None or True):
                pass
            what = "all elements are taken"
            self.cfg.ob("stack-popall", self.name, loc)
            self.need(st.facts.ne(self.ref(E), z), "stack-popall", "all elements are taken from a stack that may be empty", loc) if self.kind not in () else None
            self.need_bump(st, V, E, 1, what, loc)
            self.win(st, E, loc, self.order_of(st, E, order))
            rest = Tok(self.ref(E), "stack", single=False, dir="lifo")
            rest.rest = True
            rest.pay = "live"
            # the link, when it was read before, is known
            x = [e for e in st.trace if e.k == "LINKLOAD" and st.facts.eq(e.ref, self.ref(E))]
            if x and st.facts.eq(self.ref(atomv(x[-1].obs)), z):
                one = Tok(self.ref(E), "stack")
                one.pay = "live"
                rstore(one.mem, 0, c.rw // 8 if c.rw % 8 == 0 else c.linkbytes, self.ref(V))
                st.toks.append(one)
            else:
                st.toks.append(rest)
            st.ghost["tookall"] = True
            return
        x = self.obs_of_ref(st, r)
        if x is not None and x.a["loc"][0] == "N" and st.facts.eq(x.a["loc"][1], self.ref(E)) or self.known_link(st, self.ref(E), r):
            what = "an element is popped"
            self.cfg.ob("stack-pop", self.name, loc)
            if not self.excl:
                e = self.obs_atom(st, E, ("C", self.role_off("tos")))
                self.need(e is not None and x is not None and x.a["t"] > e.a["t"], "stack-pop", "the successor was read before the top that is replaced", loc)
            self.need(st.facts.ne(self.ref(E), z), "stack-pop", "an element is popped from a stack that may be empty", loc)
            self.need_bump(st, V, E, 1, what, loc)
            self.win(st, E, loc, self.order_of(st, E, order))
            t = Tok(self.ref(E), "stack")
            t.pay = "live"
            base = fresh(8 * c.wbytes, "own", link=True)
            rstore(t.mem, 0, c.linkbytes, r if c.linkbytes * 8 == c.rw else zext(r, 8 * c.linkbytes))
            st.toks.append(t)
            return
        self.find("illegal-transition", "the top is set to a value that is neither an owned node, nor its successor, nor null", loc)

    def order_of(self, st, E, order):
        return order

    def win(self, st, E, loc, order):
        """the thread obtained an element"""
        if self.kind != "dtor":
            st.ghost["won"] = min(3, st.ghost.get("won", 0) + 1)
        if not self.excl:
            e = self.obs_atom(st, E, ("C", self.role_off("tos")))
            if e is not None:
                self.need(self.acquired(st, e) or order in ACQ or self.fences(), "mo-acquire", "the obtained node is accessed although its reference was read with memory order %s" % e.a["order"], loc)

    def published(self, st, t, loc):
        c = self.cfg
        if self.range and (t.last is None or st.facts.eq(t.first, t.last)):
            self.from_range(st, t, const(64, 0), loc)
        st.toks.remove(t)
        st.gone = st.gone + ((t.first, "published"),)
        if t.last is not None:
            st.gone = st.gone + ((t.last, "published"),)
        st.ghost["inserted"] = lin(64, 0, [(st.ghost["inserted"], 1), (t.count, 1)])
        st.ghost["npub"] = min(3, st.ghost.get("npub", 0) + 1)
        # the element is the caller's value
        if self.kind in ("push", "bounded_push", "upush") and not self.range:
            v = rload(t.mem, c.pay[0], c.esize, lambda o, m: fresh(8 * m, "own"))
            want = rload(st.mem.setdefault(("A", self.args[1]), {}), 0, c.esize, lambda o, m: self.argval(self.args[1], const(64, o), m))
            self.need(st.facts.eq(v, want), "altered-value", "the element that is inserted is not a copy of the caller's value", loc)

    # queue -----------------------------------------------------------------------------------------------------------
    def link(self, st, ref, off, n, V, E, order, forder, I):
        """the link of node `ref` (not owned) becomes V"""
        c = self.cfg
        loc = I["loc"]
        if c.kind != "queue":
            self.find("shared-write", "the link of a node that is visible to others is changed", loc)
            return
        if n != c.wbytes or off != 0:
            self.find("partial-word", "only part of a link is exchanged", loc)
            return
        z = self.nullref(st)
        self.cfg.ob("queue-link", self.name, loc)
        t = self.token(st, self.ref(V))
        if t is None:
            self.find("illegal-transition", "a link is set to a reference that is not a node owned by the thread", loc)
            return
        tail = self.role_off("tail")
        if self.excl:
            cur = rload(st.mem.setdefault(("C",), {}), tail, c.wbytes, lambda o, m: self.role_init(st, tail, o, m, "excl"))
            self.need(st.facts.eq(self.ref(cur), ref), "queue-link", "a node is linked behind a node that is not the tail", loc)
            if E is None:
                cu = None
                for (r2, o2, n2, v2, wr) in reversed(st.nmem):
                    if st.facts.eq(r2, ref) and o2 <= 0 and n2 >= c.wbytes:
                        cu = v2
                        break
                if cu is None and not st.ghost.get("npub"):
                    for a in self.links_observed(st):
                        if st.facts.eq(a.a["loc"][1], ref) and st.facts.eq(self.ref(atomv(a)), z):
                            cu = atomv(a)
                E = cu
            self.need(E is not None and st.facts.eq(self.ref(E), z), "queue-link", "a node is linked behind a node whose link was not seen null", loc)
        else:
            e = self.obs_atom(st, E, ("N", ref, off))
            if self.need(e is not None, "stale-expected", "the expected value of the link exchange is not a value that was read from that link", loc):
                self.need(st.facts.eq(self.ref(E), z), "queue-link", "a link that was not seen null is overwritten", loc)
                T = self.obs_of_ref(st, ref)
                if self.need(T is not None and T.a["loc"] == ("C", tail), "queue-link", "a node is linked behind a node that was not read from the tail", loc):
                    ok = e.a["t"] > T.a["t"]
                    re_ = [x for x in self.observed(st, "tail") if x.a["t"] > e.a["t"] and st.facts.eq(self.ref(atomv(x)), ref)]
                    self.need(ok and re_, "queue-link", "the tail is not re-read after its link was read: the node may have been recycled in between", loc)
                    self.need(self.acquired(st, e), "mo-acquire", "the link is read with memory order %s before the tail is checked again" % e.a["order"], loc)
            d = self.tagdiff(st, V, E)
            lk = self.tok_load(st, t, t.first, 0, c.wbytes)
            d2 = None
            if t.base is not None:
                x = sub(st.facts.resolve(self.tag(lk)), st.facts.resolve(self.tag(t.base)))
                d2 = signed(cval(x), x.w) if is_const(x) else None
            if d is None or d < 0:
                self.need(False, "tag", "linking: the link's version tag is not derived from the one that is replaced", loc)
            else:
                if t.base is not None and d2 is None:
                    self.need(False, "tag", "the version tag in the link of a recycled node is not derived from its previous one", loc)
                else:
                    self.need(d + (d2 or 0) >= 1 and (d2 is None or d2 >= 0) and d + (d2 or 0) < 256 or (t.base is None and d >= 0 and d + 1 >= 1), "tag",
                              "linking: neither linking nor recycling a node changes the version tag of its link", loc)
            self.need_release(st, order, "a node is linked", loc)
        if t.last is not None and not st.facts.eq(t.first, t.last):
            self.find("queue-link", "a chain is linked", loc)
        self.link_null(st, t, loc, "queue-link", "the new node's own link is not null when it is published")
        self.pushable(st, t, "linking", loc, live=True)
        r = t.first
        self.published(st, t, loc)
        st.ghost["linked"] = (ref, r)
        st.ghost.pop("swung", None)
        st.flag("progress")

    def role_off(self, name):
        for o, r in self.cfg.roles.items():
            if r == name:
                return o

    def tr_tail(self, st, E, V, order, loc):
        c = self.cfg
        what = "the tail is moved"
        r = self.ref(V)
        z = self.nullref(st)
        self.cfg.ob("queue-tail", self.name, loc)
        lk = st.ghost.get("linked")
        ok = False
        if lk is not None and st.facts.eq(lk[0], self.ref(E)) and st.facts.eq(lk[1], r):
            ok = True
            st.ghost["swung"] = True
        else:
            x = self.obs_of_ref(st, r)
            if x is not None and x.a["loc"][0] == "N" and st.facts.eq(x.a["loc"][1], self.ref(E)):
                ok = True
                self.need(st.facts.ne(r, z), "queue-tail", "the tail is moved to a link that may be null", loc)
                if not self.excl:
                    e = self.obs_atom(st, E, ("C", self.role_off("tail")))
                    self.need(e is not None and (x.a["t"] > e.a["t"] or self.stayed_head(st, self.ref(E), x.a["t"], e.a["t"])), "queue-tail", "the link was read before the tail that is replaced", loc)
                    self.need(self.acquired(st, x), "mo-acquire", "the tail is moved to a node whose reference was read with memory order %s" % x.a["order"], loc)
            elif self.known_link(st, self.ref(E), r):
                ok = True
                self.need(st.facts.ne(r, z), "queue-tail", "the tail is moved to a link that may be null", loc)
        self.need(ok, "illegal-transition", "the tail is set to a node that is not the successor of the one it replaces", loc)
        self.need_bump(st, V, E, 1, what, loc)
        self.need_release(st, order, what, loc)
        st.flag("progress")

    def stayed_head(self, st, ref, t0, t1):
        """the node was the head before t0 and, version tag included, still is after t1: its link, once set, did not change in between"""
        hs = [q for q in self.observed(st, "head") if st.facts.eq(self.ref(atomv(q)), ref)]
        return any(a.a["t"] < t0 and b.a["t"] > t1 and st.facts.eq(atomv(a), atomv(b)) for a in hs for b in hs)

    def tr_head(self, st, E, V, order, loc):
        c = self.cfg
        what = "the head is moved"
        r = self.ref(V)
        z = self.nullref(st)
        self.cfg.ob("queue-head", self.name, loc)
        x = self.obs_of_ref(st, r)
        tail = self.role_off("tail")
        ok = x is not None and x.a["loc"][0] == "N" and st.facts.eq(x.a["loc"][1], self.ref(E)) or self.known_link(st, self.ref(E), r)
        if not self.need(ok, "illegal-transition", "the head is set to a node that is not the successor of the one it replaces", loc):
            return
        self.need(st.facts.ne(r, z), "queue-head", "the head is moved to a link that may be null", loc)
        e = self.obs_atom(st, E, ("C", self.role_off("head")))
        if self.excl:
            cur = rload(st.mem.setdefault(("C",), {}), tail, c.wbytes, lambda o, m: self.role_init(st, tail, o, m, "excl"))
            self.need(st.facts.ne(self.ref(cur), self.ref(E)) or st.facts.eq(self.ref(cur), r), "queue-head", "the head may overtake the tail", loc)
        else:
            self.need(e is not None and x is not None and x.a["t"] > e.a["t"], "queue-head", "the successor was read before the head that is replaced", loc)
            ts = [q for q in self.observed(st, "tail") if e is not None and q.a["t"] > e.a["t"] and st.facts.ne(self.ref(atomv(q)), self.ref(E))]
            self.need(bool(ts), "queue-head", "the head may overtake the tail: no tail different from the head was read after it", loc)
            if self.kind in ("pop", "consume_one", "consume_all"):
                ps = [q for q in st.trace if q.k == "PAYLOAD" and st.facts.eq(q.ref, r)]
                self.need(bool(ps), "queue-head", "the head is moved without the element having been copied out before", loc)
            if x is not None:
                self.need(self.acquired(st, x), "mo-acquire", "the element is read through a reference that was read with memory order %s" % x.a["order"], loc)
        self.need_bump(st, V, E, 1, what, loc)
        self.need_release(st, order, what, loc)
        if self.kind != "dtor":
            st.ghost["won"] = min(3, st.ghost.get("won", 0) + 1)
            st.ghost["wonref"] = r
        t = Tok(self.ref(E), "dummy")
        t.pay = "dead"
        base = fresh(8 * c.wbytes, "own", link=True)
        rstore(t.mem, 0, c.wbytes, base)
        t.base = base
        st.toks.append(t)
        # the new first node's element belongs to the past: it must not be read any more
        st.ghost["spent"] = r

    # constructor of an index pool: the nodes are the block's indices, each once
    def ctor_push(self, st, E, V, loc):
        c = self.cfg
        r = self.ref(V)
        t = self.token(st, r)
        if t is not None or self.obs_of_ref(st, r) is not None and self.obs_of_ref(st, r).a["loc"][0] == "N":
            return self.tr_pool(st, E, V, "excl", loc)
        self.cfg.ob("ctor-pool", self.name, loc)
        rel = st.ghost["released"]
        if not self.known_link(st, r, self.ref(E)):
            self.find("pool-push", "the node's link is not the pool value that is replaced", loc)
        if is_const(rel) and cval(rel) == 0 and not st.facts.eq(r, const(16, 0)):
            # from the last index down to the first one; the exit compares the number of nodes
            st.ghost["down"] = addc(r, 1)
        n = st.ghost.get("down")
        ok = st.facts.eq(r, bits(rel, 0, 16) if n is None else addc(sub(n, bits(rel, 0, 16)), -1))
        self.need(ok, "ctor-pool", "the constructor does not put each node of its block into the pool exactly once", loc)
        st.ghost["released"] = addc(rel, 1)
        st.ghost["avail"] = True

    def block_count(self, st):
        c = self.cfg
        if c.storage == "ct":
            return const(64, c.capacity + (1 if c.kind == "queue" else 0))
        return st.ghost.get("block")

    # ---- memory operations ------------------------------------------------------------------------------------------------
    def memop(self, st, m, args, I):
        loc = I["loc"]
        c = self.cfg
        n = st.facts.resolve(args[2])
        k = self.cls(st, args[0])
        if m == "memset":
            v = st.facts.resolve(args[1])
            bc, be = st.ghost.get("blockcount"), st.ghost.get("blockes")
            if self.kind == "ctor" and bc is not None and is_const(be):
                # the memory that was obtained is not exceeded
                d = lin(64, 0, [(bc, cval(be)), (st.ghost["blockptr"], 1), (args[0], -1), (n, -1)])
                k0, ts = lin_parts(st.facts.resolve(d))
                # at least: an address rounded down is at most what it was
                d = const(64, k0)
                for t, q in ts.items():
                    a = as_atom(t)
                    if a is not None and a.kind == "op" and a.a["op"] == "aligndown" and signed(q, 64) < 0:
                        t = a.a["args"][0]
                    d = lin(64, 0, [(d, 1), (t, q)])
                d = st.facts.resolve(d)
                self.need(not (is_const(d) and signed(cval(d), 64) < 0), "overrun", "more memory is written than was obtained", loc)
            if not is_const(n):
                if k[0] in ("H", "N") and self.kind == "ctor":
                    return [st]
                raise Inconclusive("%s: memset of unknown size (%s)" % (self.name, srcline(loc)))
            sz = cval(n)
            if k[0] == "N" and self.token(st, k[1]) is None and self.kind == "ctor" and c.refkind == "idx":
                return [st]
            if k[0] == "C":
                if self.kind == "ctor":
                    return [st]
                self.find("cfg-write", "container memory is overwritten", loc)
                return [st]
            if k[0] == "N":
                t = self.token(st, k[1])
                if t is None:
                    self.find("shared-write", "a node that is visible to other threads is overwritten", loc)
                    return [st]
                if c.refkind != "idx":
                    self.need(0 <= k[2] and k[2] + sz <= c.S, "overrun", "memory outside the node is written (offset %d, %d bytes)" % (k[2], sz), loc)
                if is_const(v):
                    rstore(t.mem, k[2], sz, const(8 * sz, int.from_bytes(bytes([cval(v)]) * sz, "little")))
                return [st]
            if k[0] == "L":
                x = const(8 * sz, int.from_bytes(bytes([cval(v)]) * sz, "little")) if is_const(v) else fresh(8 * sz, "undef")
                rstore(st.mem.setdefault(("L", k[1]), {}), k[2], sz, x)
                return [st]
            if k[0] in ("H", "X", "G"):
                return [st]
            raise Inconclusive("%s: memset at an unknown address (%s)" % (self.name, srcline(loc)))
        if not is_const(n):
            raise Inconclusive("%s: memory copy of unknown size (%s)" % (self.name, srcline(loc)))
        sz = cval(n)
        if sz == 0:
            return [st]
        outs = []
        for s2, v in self.load(st, args[1], 8 * sz, "na", I):
            outs.extend(self.store(s2, args[0], v, "na", I))
        return outs

    # ---- calls ---------------------------------------------------------------------------------------------------------------
    def call(self, st, name, args, I):
        loc = I["loc"]
        d = _dem.get(name, name)
        nounwind = I.get("nounwind", False)
        if name == "vpx_alloc":
            return self.alloc(st, args, I)
        if name == "vpx_dealloc":
            self.dealloc(st, args, I)
            return [(st, "ok")]
        m = re.search(r"(?:^|[ &*])(vp::\w+(?:<.*?>)?::(~?\w+|operator=|operator\(\))[<(].*)$", d)
        if m:
            return self.elem_call(st, m.group(1), args, I)
        if name == "__atomic_is_lock_free" and self.kind == "is_lock_free":
            st.env[I["id"]] = fresh(I["w"], "lockfree", size=st.facts.resolve(args[0]), arg=st.facts.resolve(args[1]))
            return [(st, "ok")]
        if name == "vpx_lockfree":
            st.env[I["id"]] = fresh(1, "lockfree", arg=st.facts.resolve(args[0]))
            return [(st, "ok")]
        if re.match(r"(std::(runtime_error|logic_error|bad_alloc|exception|length_error|invalid_argument)|boost::(exception|wrapexcept|source_location|throw_exception))", d) or "throw_exception" in d or "std::runtime_error" in d or "clone_base" in d:
            if "id" in I:
                st.env[I["id"]] = fresh(I["w"] or 64, "exc", ptr=True, nonnull=True)
            if I.get("noreturn"):
                self.on_raise(st, I)
                return [(st, "throw")]
            return [(st, "ok")]
        if name in ("_Znwm", "_Znam", "malloc", "calloc", "_ZnwmSt11align_val_t", "_ZnamSt11align_val_t", "aligned_alloc", "posix_memalign", "realloc") or d.startswith("operator new"):
            self.find("foreign-alloc", "memory is obtained by %s, not from the container's allocator" % d, loc)
            if "id" in I:
                st.env[I["id"]] = atomv(Atom(64, "heap", {}, True, True))
            return [(st, "ok")]
        if name in ("free",) or d.startswith("operator delete"):
            self.find("foreign-alloc", "memory is returned by %s, not to the container's allocator" % d, loc)
            return [(st, "ok")]
        if I.get("noreturn"):
            self.find("unknown-call", "%s is called" % d, loc)
            return [(st, "throw")] if not nounwind else []
        self.find("unknown-call", "%s is called; it may block or have effects of its own" % d, loc)
        if "id" in I:
            st.env[I["id"]] = fresh(I["w"] or 64, "unknown")
        return [(st, "ok")]

    def on_raise(self, st, I):
        """the library itself throws"""
        if self.kind == "ctor" and self.cfg.refkind == "idx":
            # the constructor refuses: only more nodes than the index type can tell apart are a reason
            n = const(64, self.cfg.capacity) if self.cfg.storage == "ct" else self.args[1]
            total = addc(n, 1) if self.cfg.kind == "queue" else n
            self.need(st.facts.cmp("ult", const(64, 65535), total) is True, "capacity", "a number of elements that can be indexed is refused", I["loc"])

    def growing(self):
        return self.cfg.storage == "grow"

    def alloc(self, st, args, I):
        loc = I["loc"]
        c = self.cfg
        state, count, es = [st.facts.resolve(a) for a in args]
        outs = []
        self.cfg.ob("alloc-allowed", self.name, loc)
        if self.kind in ("ctor", "reserve", "reserve_unsafe"):
            pass
        elif self.kind in ("push", "upush") and self.growing():
            self.need(self.pool_seen_empty(st), "alloc-needless", "memory is allocated although the pool was not seen empty", loc)
        else:
            self.find("alloc-forbidden", "memory is allocated by an operation that must not allocate", loc)
        if self.kind != "ctor":
            self.need(is_const(count) and cval(count) == 1, "alloc-count", "memory for other than one node is allocated", loc)
        self.check_state(st, state, loc, "obtained from")
        s2 = None
        if not I.get("nounwind", True):
            s2 = st.copy()
        if c.refkind == "idx":
            a = Atom(64, "heap", {"block": True, "count": count, "es": es}, True, True)
            if self.kind == "ctor":
                if st.ghost.get("blockptr") is not None:
                    self.find("alloc-args", "the constructor allocates twice", loc)
                st.ghost["blockptr"] = atomv(a)
                st.ghost["blockcount"] = count
                st.ghost["blockes"] = es
                st.ghost["blockstate"] = state
            st.env[I["id"]] = atomv(a)
        else:
            self.need(is_const(count) and cval(count) == 1, "alloc-count", "memory for other than one node is allocated", loc)
            self.need(is_const(es) and cval(es) == c.S, "alloc-args", "the allocation is not of the size of a node", loc)
            a = Atom(64, "heap", {}, True, True)
            v = atomv(a)
            t = Tok(bits(v, 0, c.rw), "alloc")
            st.toks.append(t)
            st.facts.add_ne(t.first, const(c.rw, 0))
            st.env[I["id"]] = v
            st.ghost["allocs"] = addc(st.ghost.get("allocs", const(64, 0)), 1)
        outs.append((st, "ok"))
        if s2 is not None:
            outs.append((s2, "throw"))
        return outs

    def alloc_off(self):
        """container offset of the allocator's state"""
        c = self.cfg
        for x in c.leaves:
            if x[0].endswith("/state"):
                return x[1]
        return None

    def check_state(self, st, state, loc, what):
        o = self.alloc_off()
        if o is None:
            return
        cur = self.cload(st, o, 8)
        self.need(st.facts.eq(cur, state), "allocator", "memory is %s another allocator than the container's" % what, loc)

    def pool_seen_empty(self, st):
        z = self.nullref(st)
        po = self.role_off("pool")
        if self.excl:
            cur = st.mem.get(("C",), {}).get(po)
            return cur is not None and st.facts.eq(self.ref(cur[1]), z)
        return "lastpool" in st.ghost and st.facts.eq(self.ref(st.ghost["lastpool"]), z)

    def dealloc(self, st, args, I):
        loc = I["loc"]
        c = self.cfg
        state, p, count, es = [st.facts.resolve(a) for a in args]
        self.cfg.ob("dealloc", self.name, loc)
        if self.kind != "dtor":
            if not (self.kind == "ctor" and st.exc):
                self.find("dealloc-forbidden", "memory is returned by an operation other than the destructor", loc)
        self.check_state(st, state, loc, "returned to")
        k = self.cls(st, p)
        if c.refkind == "idx":
            if self.kind == "dtor":
                st.ghost["freed"] = min(3, st.ghost.get("freed", 0) + 1)
                for b in c.ctor.get("block", ()):
                    # (what the words the constructor left behind are known to be equal to is of no use here)
                    self.block_match(b, args[1], args[2], args[3], loc)
            return
        self.need(is_const(count) and cval(count) == 1 and is_const(es) and cval(es) == c.S, "dealloc-args", "memory is returned with another size than it was obtained with", loc)
        if k[0] != "N" or k[2] != 0:
            self.find("dealloc-args", "the address that is returned is not that of a node", loc)
            return
        ref = k[1]
        self.claim_dummy(st, ref)
        self.drained(st)
        t = self.token(st, ref)
        if t is not None:
            if c.opaque and t.pay == "live":
                self.find("element-leak", "memory of an element that was not destroyed is returned", loc)
            st.toks.remove(t)
            st.gone = st.gone + ((ref, "freed"),)
            return
        if self.gone(st, ref) == "freed":
            self.find("double-free", "memory is returned twice", loc)
            return
        # the destructor walks the pool
        po = self.role_off("pool")
        vp = st.ghost.get("vpool")
        if vp is None:
            cur = rload(st.mem.setdefault(("C",), {}), po, c.wbytes, lambda o, m: self.role_init(st, po, o, m, "excl"))
            vp = self.ref(cur)
        if not self.need(st.facts.eq(vp, ref), "dtor-walk", "the memory that is returned is not that of the first node left in the pool", loc):
            return
        z = self.nullref(st)
        self.need(st.facts.ne(ref, z), "dtor-walk", "memory is returned at a null address", loc)
        nx = None
        for (r2, o2, n2, v2, wr) in reversed(st.nmem):
            if st.facts.eq(r2, ref) and o2 == 0 and 8 * n2 >= c.rw:
                nx = self.ref(v2)
                break
        if not self.need(nx is not None, "dtor-walk", "a node's memory is returned before its successor was read", loc):
            nx = fresh(c.rw, "gen")
        st.ghost["vpool"] = nx
        st.gone = st.gone + ((ref, "freed"),)
        st.flag("progress")

    # ---- elements ----------------------------------------------------------------------------------------------------------
    def elem_call(self, st, d, args, I):
        st.ghost.pop("relfence", None)
        c = self.cfg
        loc = I["loc"]
        throws = not I.get("nounwind", True)
        m = re.match(r"vp::(\w+)(?:& vp::\w+)?(?:<.*?>)?::(~?\w+|operator=|operator\(\))", d)
        isfn = "::operator()" in d
        isassign = "::operator=" in d
        isdtor = "::~" in d
        mm = re.search(r"vp::(\w+)::\1", d)
        isctor = mm is not None
        outs = []
        s2 = st.copy() if throws else None
        if isfn:
            self.functor(st, args, I)
        elif isdtor:
            self.destroy(st, args[0], I)
        elif isctor and (d.endswith("()") and not "(vp::" in d and len(args) == 1):
            self.construct(st, args[0], None, c.esize, I, d)
        elif isctor:
            self.construct(st, args[0], args[1], c.esize, I, d)
        elif isassign:
            self.assign(st, args[0], args[1], c.esize, I, d)
            if "id" in I:
                st.env[I["id"]] = args[0]
        else:
            raise Inconclusive("%s: call of %s not understood" % (self.name, d))
        outs.append((st, "ok"))
        if s2 is not None:
            outs.append((s2, "throw"))
        return outs

    def isT(self, d):
        """the object is of the element type itself"""
        t = self.cfg.elem.split("::")[-1]
        return re.search(r"vp::%s(& vp::%s)?::" % (t, t), d) is not None

    def getobj(self, st, src, n, I):
        """the value of the object at src, which has to hold an element"""
        c = self.cfg
        k = self.cls(st, src)
        if k[0] == "N":
            if k[2] != c.pay[0]:
                self.find("element-address", "an element is accessed where none is stored", I["loc"])
            for s2 in self.unfold(st, st.facts.resolve(k[1]), I):
                pass
            t = self.token(st, k[1])
            if t is not None and c.opaque:
                self.need(t.pay == "live", "element-dead", "storage that holds no live element is read", I["loc"])
            g = self.gone(st, k[1])
            if t is None and g:
                self.find("element-after-release", "an element is read after its node was %s" % g, I["loc"])
        if k[0] == "A":
            self.src_in_range(st, src, I["loc"]) if self.range else None
        r = self.load(st, src, 8 * n, "na", I)
        if not r:
            return fresh(8 * n, "undef")
        return r[0][1]

    def construct(self, st, dst, src, n, I, d):
        c = self.cfg
        loc = I["loc"]
        k = self.cls(st, dst)
        if src is not None:
            v = self.getobj(st, src, n, I)
            if not self.isT(d) or self.conv_src(d):
                v = op("conv", v.w, (v,))
                self.conversion(st, src, I)
        else:
            v = fresh(8 * n, "dflt")
        if k[0] == "N":
            t = self.token(st, k[1])
            if t is None:
                self.find("shared-write", "an element is constructed in a node that is not owned", loc)
                return
            if k[2] != c.pay[0]:
                self.find("element-address", "an element is constructed at the wrong place", loc)
            if t.pay == "live" and c.opaque:
                self.find("element-overwrite", "an element is constructed over a live one", loc)
            t.pay = "live"
            rstore(t.mem, k[2], n, v)
            return
        if k[0] == "A":
            self.user_write(st, dst, k, n, v, loc, conv=False)
            return
        if k[0] == "L":
            rstore(st.mem.setdefault(("L", k[1]), {}), k[2], n, v)
            if c.opaque and self.isT(d) and not c.rawcopy:
                st.ghost["locals"] = st.ghost.get("locals", frozenset()) | {(k[1], k[2])}
            return
        raise Inconclusive("%s: an object is constructed at an unknown place (%s)" % (self.name, srcline(loc)))

    def conv_src(self, d):
        """constructor or assignment from another type"""
        t = self.cfg.elem.split("::")[-1]
        m = re.search(r"\((.*)\)", d)
        return m is not None and ("vp::" + t) not in m.group(1) and not self.isT(d)

    def conversion(self, st, src, I):
        """a user conversion is applied to an element"""
        k = self.cls(st, src)
        if not self.excl:
            self.need(st.ghost.get("won", 0) >= 1, "conversion-early", "a conversion is applied to an element that another thread may obtain", I["loc"])

    def from_range(self, st, t, idx, loc):
        """the element in a private node is the one the range has at position idx"""
        c = self.cfg
        base = self.args[1]
        po, n = c.pay
        ok = True
        for o in sorted(t.mem):
            m, v = t.mem[o]
            if o + m <= po or o >= po + n:
                continue
            v = st.facts.resolve(v)
            pos = o - po
            for p in v.p:
                a = p[1] if p[0] == "s" else None
                if a is None or a.kind != "uval" or a.a["base"] != base:
                    ok = False
                else:
                    want = lin(64, pos - p[2] // 8, [(idx, c.esize)])
                    ok = ok and p[2] % 8 == 0 and st.facts.eq(a.a["off"], want)
                pos += pw(p) // 8
        self.need(ok, "range-order", "the element in the batch is not the one that is due at its place in the range", loc)

    def assign(self, st, dst, src, n, I, d):
        c = self.cfg
        loc = I["loc"]
        v = self.getobj(st, src, n, I)
        k = self.cls(st, dst)
        ks = self.cls(st, src)
        m = re.search(r"operator=(<.*>)?\((.*)\)", d)
        srcT = m.group(2) if m else ""
        own = re.match(r"vp::(\w+)", d).group(1)
        if "vp::" + own not in srcT:
            v = op("conv", v.w, (v,))
            self.conversion(st, src, I)
        if k[0] == "A":
            self.user_write(st, dst, k, n, v, loc, conv=False)
            return
        if k[0] == "L":
            rstore(st.mem.setdefault(("L", k[1]), {}), k[2], n, v)
            return
        if k[0] == "N":
            t = self.token(st, k[1])
            if t is None:
                self.find("shared-write", "an element in a node that is not owned is assigned", loc)
                return
            if (c.opaque or c.elem == "vp::CElem") and t.pay != "live":
                self.find("element-dead", "storage that holds no live element is assigned", loc)
            rstore(t.mem, k[2], n, v)
            t.pay = "live"
            return
        raise Inconclusive("%s: assignment at an unknown place" % self.name)

    def destroy(self, st, ptr, I):
        c = self.cfg
        loc = I["loc"]
        k = self.cls(st, ptr)
        self.cfg.ob("element-destroy", self.name, loc)
        if k[0] == "N":
            for s2 in self.unfold(st, st.facts.resolve(k[1]), I):
                pass
            t = self.token(st, k[1])
            if t is None:
                self.find("element-not-owned", "an element is destroyed in a node that the thread has not removed", loc)
                return
            if k[2] != c.pay[0]:
                self.find("element-address", "something is destroyed where no element is stored", loc)
            self.need(t.pay == "live", "element-dead", "an element is destroyed that was never constructed or is already destroyed", loc)
            t.pay = "dead"
            return
        if k[0] == "L":
            key = (k[1], k[2])
            ls = st.ghost.get("locals", frozenset())
            self.need(key in ls or c.rawcopy, "element-dead", "a local element is destroyed twice", loc)
            st.ghost["locals"] = ls - {key}
            return
        raise Inconclusive("%s: a destructor is called at an unknown place (%s)" % (self.name, srcline(loc)))

    def functor(self, st, args, I):
        c = self.cfg
        loc = I["loc"]
        self.cfg.ob("functor", self.name, loc)
        if not self.kind.startswith("consume"):
            self.find("functor", "a functor is called", loc)
            return
        k0 = self.cls(st, args[0])
        if not (k0[0] == "A" and as_atom(k0[1]).a["n"] == 1):
            self.find("functor", "the functor that is called is not the caller's object", loc)
        k = self.cls(st, args[1])
        v = self.getobj(st, args[1], c.esize, I)
        if c.kind == "queue":
            won = st.ghost.get("wonref")
            self.need(st.ghost.get("won", 0) == 1 and won is not None, "functor", "the functor is called on an element that the thread has not obtained", loc)
            p = as_atom(v)
            self.need(won is not None and self.is_pay(st, v, won), "altered-value", "the functor is not given the element that was removed", loc)
            st.ghost["won"] = 0
            st.ghost.pop("wonref", None)
        else:
            t = self.token(st, k[1]) if k[0] == "N" else None
            if self.need(t is not None and t.origin == "stack", "functor", "the functor is called on an element that the thread has not removed", loc):
                self.need(t.deliv == 0, "functor", "the functor is called twice on an element", loc)
                t.deliv = 1
                z = self.nullref(st)
                if self.kind == "consume_all_atomic":
                    bad = [x for x in st.toks if x is not t and x.origin == "stack" and (x.dir == "rev" or (not x.rest and x.deliv == 0))]
                    self.need(not bad and t.dir == "lifo", "consume-order", "the elements are not consumed from the top downwards", loc)
                if self.kind == "consume_all_atomic_reversed":
                    ok = t.dir == "rev" or self.is_last(st, t)
                    bad = [x for x in st.toks if x is not t and x.rest and x.dir == "lifo" and not st.facts.eq(x.first, z)]
                    self.need(ok and not bad, "consume-order", "the elements are not consumed from the bottom upwards", loc)
                if self.kind in ("consume_one", "consume_all"):
                    self.need(st.ghost.get("won", 0) == 1, "functor", "the functor is called on more than the removed element", loc)
                    st.ghost["won"] = 0
        st.ghost["consumed"] = addc(st.ghost["consumed"], 1)
        st.flag("progress")

    def is_last(self, st, t):
        return t.deliv >= 0 and t.dir == "lifo" and t.base == "last"

    def is_pay(self, st, v, ref):
        v = st.facts.resolve(v)
        a = as_atom(v)
        if a is not None and a.kind == "op" and a.a["op"] == "conv":
            return self.is_pay(st, a.a["args"][0], ref)
        off = self.cfg.pay[0]
        for p in v.p:
            if p[0] != "s" or p[1].kind != "pay" or p[2] != 0:
                return False
            if not st.facts.eq(p[1].a["ref"], ref) or p[1].a["off"] != off:
                return False
            off += p[3] // 8
        return True

    # ---- numbers, conditions -------------------------------------------------------------------------------------------
    def mask(self, ex, st, x, y, I):
        return None

    def divrem(self, ex, st, opn, I):
        x, y = [st.facts.resolve(ex.val(st, o)) for o in I["ops"]]
        v = None
        if is_const(y) and opn in ("sdiv", "udiv"):
            v = divexact(x, cval(y))
            if v is None:
                # difference of two node addresses
                v = op(opn, x.w, (x, y))
        if v is None:
            v = op(opn, x.w, (x, y))
        st.env[I["id"]] = v
        return [st]

    def assume_cmp(self, st, pred, x, y):
        if not st.facts.add_cmp(pred, x, y):
            return False
        if self.excl and self.cfg.kind == "queue" and self.kind != "ctor":
            # a node in front of the tail has a successor
            z = self.nullref(st)
            reg = st.mem.get(("C",), {})
            t, h = reg.get(self.role_off("tail")), reg.get(self.role_off("head"))
            if t and h and z is not None and t[0] == h[0] == self.cfg.wbytes:
                hr = self.ref(h[1])
                if st.facts.ne(self.ref(t[1]), hr) and self.known_link(st, hr, z):
                    return False
        return True

    def decide_cmp(self, st, pred, a, b):
        return None

    def on_assume(self, ex, st, c, I):
        d = ex.decide(st, c)
        self.cfg.ob("undefined", self.name, I["loc"])
        if d is True:
            return [st]
        self.find("null-deref", "a reference that may be null is followed", I["loc"])
        if d is False:
            return []
        return ex.assume(st, c, True)

    def on_unreachable(self, st, I):
        self.find("null-deref", "undefined behaviour is reached", I["loc"])

    # ---- loops -------------------------------------------------------------------------------------------------------------
    def signature(self, st, h, back):
        z = self.nullref(st)
        toks = tuple(sorted((t.origin, str(t.dir), t.rest, t.pay, t.deliv, t.last is not None and not st.facts.eq(t.first, t.last)) for t in st.toks))
        gh = tuple(sorted((k, v) for k, v in st.ghost.items() if isinstance(v, (bool, int, str)) and not k.startswith("@")))
        kinds = ()
        if self.cfg.refkind == "idx":
            l = []
            for k, v in sorted(st.env.items()):
                if isinstance(v, Val) and is_ptr(v):
                    a = as_atom(v)
                    bs = [as_atom(t) for t, q in lin_parts(v)[1].items() if is_ptr(t)]
                    l.append((k, tuple(sorted(b.a.get("op", b.kind) if b is not None else "?" for b in bs))))
            kinds = tuple(l)
        return (toks, gh, kinds, len(st.ghost.get("locals", ())), tuple(sorted(w for _, w in st.gone)))

    def fold(self, st):
        z = self.nullref(st)
        eq = st.facts.eq
        c = self.cfg
        changed = True
        while changed:
            changed = False
            # an untouched node in front of the rest of its list
            for t in list(st.toks):
                if t.rest or t.deliv or t.pay != "live" or t.origin != "stack":
                    continue
                lk = self.ref(self.tok_load(st, t, t.first, 0, c.linkbytes))
                if t.dir == "lifo":
                    r = [x for x in st.toks if x.rest and x.dir == "lifo" and eq(x.first, lk)]
                    if r and z is not None and eq(r[0].first, z) and self.kind == "consume_all_atomic_reversed":
                        # a list of one element is its own reverse
                        st.toks.remove(r[0])
                        r = []
                    if r and (self.held(st, r[0].first) or self.excl and z is not None and eq(r[0].first, z)):
                        continue
                    if self.excl and not r and not is_const(lk):
                        # (the end of the list that was read, not a link that was written)
                        continue
                    if r:
                        r[0].first = t.first
                        st.toks.remove(t)
                        changed = True
                        break
                    rv = [x for x in st.toks if x.rest and x.dir == "rev"]
                    if self.excl and not rv and not any(x.rest and x.dir == "lifo" for x in st.toks):
                        continue
                    if self.excl and rv and self.held(st, rv[0].first):
                        continue
                    other = [x for x in st.toks if x is not t and not x.rest and x.origin == "stack"]
                    if z is not None and ((not rv and eq(lk, z)) or (rv and eq(rv[0].first, lk))) and not other:
                        if rv:
                            rv[0].first = t.first
                            st.toks.remove(t)
                        else:
                            n = Tok(t.first, "stack", single=False, dir="rev")
                            n.rest = True
                            n.pay = "live"
                            st.toks[st.toks.index(t)] = n
                        changed = True
                        break
                elif t.dir == "rev":
                    r = [x for x in st.toks if x.rest and x.dir == "rev" and eq(x.first, lk)]
                    if r and self.excl and (self.held(st, r[0].first) or z is not None and eq(r[0].first, z)):
                        continue
                    if r:
                        r[0].first = t.first
                        st.toks.remove(t)
                        changed = True
                        break
            if changed:
                continue
            # private chains of new nodes
            news = [t for t in st.toks if not t.rest and t.origin in ("pool", "alloc", "chain") and t.pay == "live" and t.last is not None]
            for t in news:
                if t.dir == "seg":
                    continue
                lk = self.ref(self.tok_load(st, t, t.first, 0, c.linkbytes))
                for s in news:
                    if s is not t and eq(s.first, lk) and not (s.dir == "seg" and self.held(st, s.first)):
                        loc = self.block_loc(self.here) if self.here else None
                        if s.last is None or eq(s.first, s.last):
                            self.from_range(st, s, const(64, 0), loc)
                        self.from_range(st, t, s.count, loc)
                        n = Tok(t.first, "chain", dir="seg")
                        n.last = s.last
                        n.lastnext = self.lastlink(st, s)
                        n.pay = "live"
                        n.count = lin(64, 0, [(t.count, 1), (s.count, 1)])
                        st.toks.remove(t)
                        st.toks[st.toks.index(s)] = n
                        changed = True
                        break
                if changed:
                    break
        # empty rests
        st.toks = [t for t in st.toks if not (t.rest and z is not None and eq(t.first, z))]
        for t in st.toks:
            if t.origin in ("pool", "alloc") and self.range and t.pay == "live":
                t.origin = "chain"
            if t.rest and t.origin == "chain":
                pass
        st.toks.sort(key=lambda t: (t.rest, str(t.dir), t.origin, t.pay, t.deliv))

    def held(self, st, ref):
        """a local variable that is still used refers to the node"""
        refs = atoms_of(st.facts.resolve(ref))
        if not refs:
            return False
        return any(k[0] not in ("t", "g") and atoms_of(st.facts.resolve(v)) & refs for k, v in self.ex.slots(st).items())

    def kept(self, st, ref):
        """a local variable that is still used holds the reference itself"""
        for k, v in self.ex.slots(st).items():
            if k[0] in ("t", "g", "x") or not isinstance(v, Val):
                continue
            v = st.facts.resolve(v)
            if v.w == 64 and is_ptr(v):
                p = self.cls(st, v)
                if p[0] == "N" and st.facts.eq(p[1], ref):
                    return True
            elif v.w >= ref.w and st.facts.eq(self.ref(v) if v.w != ref.w else v, ref):
                return True
        return False

    def at_header(self, ex, st, h, back):
        c = self.cfg
        self.ex = ex
        self.here = h
        if self.kind in ("pop", "consume_one", "consume_all", "consume_all_atomic", "consume_all_atomic_reversed", "upop") and not st.ghost.get("sawempty"):
            if self.nullref(st) is not None and self.saw_empty(st):
                st.ghost["sawempty"] = True
        if "lastpool" in st.ghost and not self.excl:
            z = self.nullref(st)
            st.ghost["poolempty"] = z is not None and st.facts.eq(self.ref(st.ghost["lastpool"]), z)
        if any(t.origin in ("stack", "chain", "pool", "alloc") for t in st.toks):
            self.fold(st)
        if back:
            self.progress(ex, st, h)
        # nodes that nothing refers to any more are lost
        if st.toks:
            slots = ex.slots(st)
            for i, t in list(enumerate(st.toks)):
                refs = atoms_of(st.facts.resolve(t.first)) | (atoms_of(st.facts.resolve(t.last)) if t.last is not None else set())
                if not refs:
                    continue
                found = False
                for k, v in slots.items():
                    if k[0] == "t" and k[1] == i:
                        continue
                    if k[0] == "g":
                        continue
                    if atoms_of(st.facts.resolve(v)) & refs:
                        found = True
                        break
                if not found:
                    if not (t.rest and self.nullref(st) is not None and st.facts.eq(t.first, self.nullref(st))):
                        self.find("leak", "a node taken from the pool or the container is lost when the loop is repeated", self.block_loc(h))
                    st.toks.remove(t)
                    return self.at_header(ex, st, h, False)
        if self.kind == "dtor":
            self.drained(st)
            po = self.role_off("pool")
            cur = st.mem.get(("C",), {}).get(po)
            if cur is not None and cur[0] == c.wbytes and "vpool" not in st.ghost:
                st.ghost["vpool"] = self.ref(cur[1])
        if self.kind == "ctor" and c.refkind == "idx" and st.ghost.get("avail"):
            # the pool is described by the number of its nodes
            reg = st.mem.get(("C",), {})
            po = self.role_off("pool")
            cur = reg.get(po)
            if cur is not None and cur[0] == c.wbytes:
                del reg[po]
        st.nmem = ()
        if st.gone:
            live = set()
            for k, v in ex.slots(st).items():
                if k[0] not in ("x", "g"):
                    live |= atoms_of(st.facts.resolve(v))
            st.gone = tuple(g for g in st.gone if atoms_of(st.facts.resolve(g[0])) & live)
        st.ghost.pop("linked", None)
        st.ghost.pop("swung", None)
        st.ghost.pop("spent", None)

    def block_loc(self, h):
        for i in self.ex.fn.blocks[h]["insts"]:
            if i.get("loc") and i["loc"][0][1]:
                return i["loc"]
        return self.ex.fn.blocks[h]["insts"][-1].get("loc")

    def progress(self, ex, st, h):
        """a loop may be repeated only for a reason"""
        c = self.cfg
        fl = st.flags.get(h, frozenset())
        t0 = st.ghost.get("@" + h, 0)
        loc = self.block_loc(h)
        self.cfg.ob("retry", self.name, loc)
        why = None
        if "progress" in fl:
            why = "progress"
        elif "cas-fail" in fl:
            why = "exchange lost"
            # the next attempt must not use the same expected value
            live = set()
            for k, v in ex.slots(st).items():
                if k[0] in ("e", "m"):
                    live |= atoms_of(st.facts.resolve(v))
            for l, exp in st.ghost.get("failed", ()):
                a = self.obs_atom(st, exp, l)
                if a is not None and a.a["t"] <= t0 and a in live and not self.cls_changed(ex, st, h, a):
                    self.find("stale-retry", "a lost exchange is tried again with the same expected value: it can never succeed", loc)
        else:
            evs = [e for e in st.trace if e.k in ("LOAD", "LINKLOAD") and e.obs.a["t"] > t0]
            for i, e in enumerate(evs):
                for f in evs[i + 1 :]:
                    if e.obs.a["loc"][0] == f.obs.a["loc"][0] and (e.obs.a["loc"] == f.obs.a["loc"] or e.k == f.k == "LINKLOAD" and st.facts.eq(e.ref, f.ref)) and e.obs.w == f.obs.w:
                        if st.facts.ne(atomv(e.obs), atomv(f.obs)):
                            why = "snapshot invalidated"
            if why is None:
                # the same with a word that was read before the loop was entered, or at the end of the last round
                live = set()
                for k, v in ex.slots(st).items():
                    if k[0] in ("e", "m"):
                        live |= atoms_of(st.facts.resolve(v))
                for a in {x for p in st.facts.nes for v in p[:2] if isinstance(v, Val) for x in atoms_of(v)} | set(st.facts.rep):
                    if a.kind == "obs" and a.a["loc"][0] == "C" and a.a["t"] <= t0 and a not in live:
                        if any(f.k == "LOAD" and f.obs.a["loc"] == a.a["loc"] and f.obs.w == a.w and st.facts.ne(atomv(a), atomv(f.obs)) for f in evs):
                            why = "snapshot invalidated"
            z = self.nullref(st)
            if why is None and c.kind == "queue":
                for e in evs:
                    if e.k == "LINKLOAD" and z is not None and st.facts.eq(self.ref(atomv(e.obs)), z):
                        hs = [q for q in evs if q.k == "LOAD" and q.role == "head" and st.facts.eq(self.ref(atomv(q.obs)), e.ref)]
                        for q in hs:
                            ts = [u for u in evs if u.k == "LOAD" and u.role == "tail" and st.facts.ne(self.ref(atomv(u.obs)), e.ref)]
                            if ts:
                                why = "contradictory snapshot"
        if why is None:
            # counted loops over private data end by themselves
            if self.counted(ex, st, h):
                why = "counted"
        if why is None:
            self.find("wait", "the loop is repeated although no exchange was lost, no snapshot was invalidated and nothing was completed: it waits for another thread", loc)
        st.ghost["failed"] = frozenset()

    def cls_changed(self, ex, st, h, a):
        return False

    def counted(self, ex, st, h):
        """some variable moves by a constant, or a list that nobody else can see gets shorter"""
        pre = "^%s:" % h
        for k, v in st.ghost.items():
            if k.startswith(pre):
                x = k[len(pre):]
                if x.startswith("rest "):
                    _, origin, dir_ = x.split(" ")
                    if not any(t.rest and t.origin == origin and str(t.dir) == dir_ and st.facts.eq(t.first, v) for t in st.toks):
                        return True
                elif isinstance(st.env.get(x), Val) and x in ex.fn.exitdeps[h]:
                    d = st.facts.resolve(sub(st.env[x], v))
                    if is_const(d) and cval(d):
                        return True
        return False

    def loop_candidates(self, ex, G, new, s, out, key):
        """counter <= bound"""
        res = []
        K = s.ghost.get("#K")
        if K is not None:
            kv = atomv(K)
            res.append((0, {kv: -1}))
            for a in self.args[1:]:
                if a.w == 64 and not is_ptr(a):
                    res.append((0, {kv: 1, a: -1}))
                    res.append((-1, {kv: 1, a: -1}))
                    res.append((1, {kv: 1, a: -1}))
            if self.range:
                b, e = self.args[1], self.args[2]
                es = self.cfg.esize
                res.append((0, {b: 1, kv: es, e: -1}))
                res.append((es, {b: 1, kv: es, e: -1}))
            n = self.block_count(s)
            if n is not None:
                c, ts = toint(n)
                res.append((-c, {kv: 1, **{t: -k for t, k in ts.items()}}))
                res.append((1 - c, {kv: 1, **{t: -k for t, k in ts.items()}}))
            if self.cfg.storage == "ct":
                res.append((-(self.cfg.capacity + 1), {kv: 1}))
                res.append((-self.cfg.capacity, {kv: 1}))
        return res

    def obs_join(self, A, B, gv):
        if A.kind == "pay":
            if A.a["off"] != B.a["off"] or A.w != B.w:
                return None
            return {"ref": A.a["ref"] if gv is None else gv(A.a["ref"], B.a["ref"]), "off": A.a["off"], "t": 0}
        la, lb = A.a["loc"], B.a["loc"]
        if la[0] != lb[0]:
            return None
        if la[0] == "C":
            if la != lb:
                return None
            loc = la
        else:
            if la[2] != lb[2]:
                return None
            loc = la if gv is None else ("N", gv(la[1], lb[1]), la[2])
        return {"loc": loc, "order": weaker(A.a["order"], B.a["order"]) if A.a["order"] != "na" and B.a["order"] != "na" else "na", "t": 0}

    def obs_instance(self, a, b, unify, new):
        if a.kind == "pay":
            return a.a["off"] == b.a["off"] and a.w == b.w and unify(a.a["ref"], b.a["ref"])
        la, lb = a.a["loc"], b.a["loc"]
        if la[0] != lb[0]:
            return False
        if la[0] == "C":
            if la != lb:
                return False
        elif la[2] != lb[2] or not unify(la[1], lb[1]):
            return False
        oa, ob_ = a.a["order"], b.a["order"]
        return oa == ob_ or WEAK[oa] <= WEAK[ob_]

    def ghost_join(self, k, a, b):
        if isinstance(a, frozenset):
            return a | b
        if isinstance(a, int) and not isinstance(a, bool):
            return max(a, b)
        return a if a == b else None

    # ---- exits --------------------------------------------------------------------------------------------------------------
    def leaks(self, st, loc, how):
        z = self.nullref(st)
        for t in st.toks:
            if t.rest and z is not None and st.facts.eq(t.first, z):
                continue
            self.find("leak", "%s without a node that was taken (%s) having been inserted or returned" % (how, t.origin), loc)
        self.cfg.ob("leak", self.name, loc)
        if st.ghost.get("locals"):
            self.find("element-leak", "%s with a local copy of an element not destroyed" % how, loc)

    def ret_loc(self, st, I):
        return I["loc"]

    def on_ret(self, st, val, I):
        self.nrets += 1
        loc = I["loc"]
        c = self.cfg
        k = self.kind
        if any(t.origin in ("stack", "chain") for t in st.toks):
            self.fold(st)
        self.leaks(st, loc, "the operation returns")
        self.need(not st.exc, "throw-lost", "an exception thrown by an element, the functor or the allocator does not reach the caller", loc)
        g = st.ghost
        z = self.nullref(st)
        if k in ("push", "bounded_push", "upush"):
            return self.ret_push(st, val, loc)
        if k in ("pop", "upop"):
            return self.ret_pop(st, val, loc)
        if k == "consume_one":
            b = cval(val)
            self.cfg.ob("result", self.name, loc)
            if b:
                self.need(st.facts.eq(g["consumed"], const(64, 1)), "result", "true is returned although the functor was not called exactly once", loc)
            else:
                self.need(st.facts.eq(g["consumed"], const(64, 0)), "result", "false is returned although the functor was called", loc)
                self.need_empty(st, loc)
            self.no_unused_win(st, loc)
            return
        if k.startswith("consume_all"):
            self.need(st.facts.eq(g["consumed"], val), "count", "the returned count is not the number of elements consumed", loc)
            self.no_unused_win(st, loc)
            if k == "consume_all":
                self.need_empty(st, loc)
            elif not g.get("tookall"):
                self.need_empty(st, loc)
            return
        if k == "empty":
            return self.ret_empty(st, val, loc)
        if k == "ctor":
            return self.ret_ctor(st, loc)
        if k == "dtor":
            return self.ret_dtor(st, loc)
        if k in ("reserve", "reserve_unsafe"):
            n = self.args[1]
            self.need(st.facts.eq(g["released"], n), "capacity", "reserve(n) does not add n nodes to the pool", loc)
            return

    def no_unused_win(self, st, loc):
        if self.cfg.kind == "queue" and st.ghost.get("won", 0):
            self.find("lost-element", "an element was removed but not handed over", loc)
        if self.cfg.kind == "stack" and st.ghost.get("won", 0) and not st.ghost.get("tookall"):
            self.find("lost-element", "an element was removed but not handed over", loc)

    def ret_push(self, st, val, loc):
        c = self.cfg
        g = st.ghost
        npub = g.get("npub", 0)
        if self.range:
            es = c.esize
            want = lin(64, 0, [(self.args[1], 1), (g["inserted"], es)])
            self.need(st.facts.eq(val, want), "range-result", "the returned iterator is not past exactly the elements that were inserted", loc)
            self.need(npub <= 1, "range-atomic", "the range is inserted in more than one step", loc)
            if not st.facts.eq(val, self.args[2]):
                self.need(self.pool_seen_empty(st) and (c.storage != "grow" or self.kind == "bounded_push"), "push-fails", "the range push stops although neither the range nor the pool is exhausted", loc)
            return
        b = cval(val)
        if b:
            self.need(npub == 1, "result", "true is returned although %s was inserted" % ("nothing" if npub == 0 else "more than one element"), loc)
            self.tail_moved(st, loc)
        else:
            self.need(npub == 0, "result", "false is returned although an element was inserted", loc)
            self.need(self.pool_seen_empty(st), "push-fails", "the push fails although the pool was not seen exhausted", loc)
            if c.storage == "grow" and self.kind != "bounded_push":
                self.find("push-fails", "a push on a growing container gives up without asking for memory", loc)

    def tail_moved(self, st, loc):
        """empty() compares head and tail: at rest the tail has to be the last node"""
        g = st.ghost
        if self.cfg.kind != "queue" or "linked" not in g or not self.cfg.ctor.get("empty-by-tail"):
            return
        ok = g.get("swung")
        if not ok:
            old = [q for q in self.observed(st, "tail") if st.facts.eq(self.ref(atomv(q)), g["linked"][0])]
            ok = any(st.facts.ne(atomv(q), atomv(p)) for q in self.observed(st, "tail") for p in old if q.a["t"] > p.a["t"])
        self.need(ok, "tail-lags", "the push is complete although the tail may still be the node before the new one: empty() then returns true with an element stored", loc)

    def ret_pop(self, st, val, loc):
        c = self.cfg
        g = st.ghost
        b = cval(val)
        won = g.get("won", 0)
        reg = st.mem.get(("A", self.args[1]), {})
        if b:
            if not self.need(won == 1, "result", "true is returned although %s was removed" % ("nothing" if won == 0 else "more than one element"), loc):
                return
            v = rload(dict(reg), 0, c.esize, lambda o, m: fresh(8 * m, "undef"))
            if c.kind == "queue":
                r = g.get("wonref")
                self.need(r is not None and self.is_pay(st, v, r), "altered-value", "the result is not the element that was removed", loc)
            else:
                self.need(self.is_own_pay(st, v), "altered-value", "the result is not the element that was removed", loc)
            if c.kind == "stack" or g.get("wrote", 0) == 0:
                self.need(g.get("wrote", 0) == 1, "assign-once", "the result is assigned %d times" % g.get("wrote", 0), loc)
        else:
            self.need(won == 0, "result", "false is returned although an element was removed", loc)
            if not g.get("wrote", 0) == 0 and c.kind == "stack":
                self.find("target-touched", "the result is written although the operation fails", loc)
            self.need_empty(st, loc)

    def is_own_pay(self, st, v):
        v = st.facts.resolve(v)
        a = as_atom(v)
        if a is not None and a.kind == "op" and a.a["op"] == "conv":
            return self.is_own_pay(st, a.a["args"][0])
        return all(p[0] == "s" and p[1].kind in ("own", "pay") and p[2] == 0 for p in v.p)

    def need_empty(self, st, loc):
        """'nothing there' is justified by an instant at which there was nothing"""
        self.need(st.ghost.get("sawempty") or self.saw_empty(st, loc), "empty-evidence",
                  "'empty' is reported without the container having been seen empty at one instant", loc)

    def saw_empty(self, st, loc=None):
        c = self.cfg
        z = self.nullref(st)
        ok = False
        if c.kind == "stack":
            to = self.role_off("tos")
            known = [st.facts.resolve(v) for v in self.ex.slots(st).values()]
            known += [v for l in st.facts.rep.values() for _, _, v in l]
            for v in known + [atomv(e.obs) for e in st.trace if e.k == "LOAD"]:
                for p in v.p:
                    if p[0] == "s" and p[1].kind == "obs" and p[1].a["loc"] == ("C", to) and st.facts.eq(self.ref(atomv(p[1])), z):
                        ok = True
            for a, l in st.facts.rep.items():
                if a.kind == "obs" and a.a["loc"] == ("C", to) and st.facts.eq(self.ref(atomv(a)), z):
                    ok = True
            cur = st.mem.get(("C",), {}).get(to)
            if self.excl and cur is not None and cur[0] == c.wbytes and st.facts.eq(self.ref(cur[1]), z):
                ok = True
        else:
            hs = self.observed(st, "head")
            for e in self.links_observed(st):
                if not st.facts.eq(self.ref(atomv(e)), z):
                    continue
                for q in hs:
                    if not st.facts.eq(self.ref(atomv(q)), e.a["loc"][1]):
                        continue
                    if self.excl:
                        ok = True
                    elif q.a["t"] < e.a["t"]:
                        for q2 in hs:
                            if q2.a["t"] > e.a["t"] and st.facts.eq(atomv(q), atomv(q2)):
                                self.need(self.acquired(st, e), "mo-acquire", "the link is read with memory order %s before the head is checked again" % e.a["order"], loc)
                                ok = True
            if self.excl and not ok:
                ho = self.role_off("head")
                cur = st.mem.get(("C",), {}).get(ho)
                if cur is not None:
                    for (r2, o2, n2, v2, wr) in st.nmem:
                        if st.facts.eq(r2, self.ref(cur[1])) and st.facts.eq(self.ref(v2), z):
                            ok = True
        return ok

    def ret_empty(self, st, val, loc):
        c = self.cfg
        b = cval(val)
        z = self.nullref(st)
        ld = {}
        for e in st.trace:
            if e.k == "LOAD":
                ld.setdefault(e.role, []).append(atomv(e.obs))
        if c.kind == "stack":
            ts = ld.get("tos", [])
            if b:
                self.need(any(st.facts.eq(self.ref(t), z) for t in ts), "empty", "empty() returns true without the top having been seen null", loc)
            else:
                self.need(any(st.facts.ne(self.ref(t), z) for t in ts), "empty", "empty() returns false without an element having been seen", loc)
            return
        hs, ts = ld.get("head", []), ld.get("tail", [])
        links = [e for e in st.trace if e.k == "LINKLOAD"]
        lk = [e for e in links if any(st.facts.eq(self.ref(h), e.ref) for h in hs)]
        if b:
            ok = any(st.facts.eq(self.ref(h), self.ref(t)) for h in hs for t in ts) or any(st.facts.eq(self.ref(atomv(e.obs)), z) for e in lk)
            self.need(ok, "empty", "empty() returns true without head and tail having been seen equal", loc)
            if not any(st.facts.eq(self.ref(atomv(e.obs)), z) for e in lk):
                c.ctor["empty-by-tail"] = True
        else:
            ok = any(st.facts.ne(self.ref(h), self.ref(t)) for h in hs for t in ts) or any(st.facts.ne(self.ref(atomv(e.obs)), z) for e in lk)
            self.need(ok, "empty", "empty() returns false without head and tail having been seen different", loc)

    def ret_ctor(self, st, loc):
        c = self.cfg
        g = st.ghost
        for role in set(c.roles.values()):
            self.need(bool(g.get("init:" + role)), "ctor-init", "the constructor does not leave '%s' in its empty state" % role, loc)
        n = None
        if c.storage == "ct":
            n = const(64, c.capacity)
        else:
            n = self.args[1]
        have = sub(g["released"], g["popped"])
        self.need(st.facts.eq(have, n), "capacity", "a container constructed for n elements has room for %s (n = %s)" % (show(st.facts.resolve(have)), show(n)), loc)
        if c.storage == "ct":
            at = self.ct_nodes()
            self.elements_aligned(min(c.align, at & -at or c.align), loc)
        elif c.storage == "grow":
            self.elements_aligned(1 << 30, loc)
        if c.refkind == "idx":
            nul = g.get("null")
            reg = st.mem.get(("C",), {})
            if c.storage == "ct":
                self.need(nul is not None and is_const(nul), "ctor-init", "the null index is not a constant", loc)
                if nul is not None and is_const(nul):
                    c.ctor.setdefault("null", set()).add(cval(nul))
                    total = self.block_count(st)
                    self.need("down" not in g or st.facts.eq(bits(total, 0, 16), g["down"]), "ctor-pool", "the number of nodes is not the number put into the pool", loc)
                    self.need(self.ct_nodes() + cval(total) * c.S <= c.nodes_end, "room", "the storage inside the container is smaller than its nodes", loc)
                    self.need(cval(nul) >= cval(total), "ctor-init", "the null index is the index of a node", loc)
            else:
                found = None
                for o in sorted(reg):
                    nb, v = reg[o]
                    if nb == 8 and self.isrole(o, 8) is None and nul is not None and st.facts.eq(bits(v, 0, 16), nul) and not is_const(v):
                        found = o
                        total = v
                if self.need(found is not None, "ctor-init", "the null index is not the recorded number of nodes", loc):
                    c.ctor.setdefault("null", set()).add(("cfg", found))
                    ok = st.facts.eq(g["released"], total) and ("down" not in g or st.facts.eq(bits(total, 0, 16), g["down"]))
                    self.need(ok, "ctor-pool", "the recorded number of nodes is not the number put into the pool", loc)
                    # index range
                    self.need(st.facts.cmp("ule", total, const(64, 65535)) is True, "index-range", "a number of nodes that cannot be indexed is not refused", loc)
                    self.cfg.ctor.setdefault("block", []).append(dict(count=g.get("blockcount"), es=g.get("blockes"), ptr=g.get("blockptr"), total=total, reg={o: (x[0], st.facts.resolve(x[1])) for o, x in reg.items()}, heap={k: {o: (x[0], st.facts.resolve(x[1])) for o, x in v.items()} for k, v in st.mem.items() if k[0] == "H"}, facts=st.facts.copy(), loc=loc))
                    self.block_size(st, total, loc)
                    self.block_align(st, reg, loc)
        # allocator
        o = self.alloc_off()
        if o is not None and "alloc" in self.name:
            want = self.argval(self.args[-1], const(64, 0), 8)
            cur = st.mem.get(("C",), {}).get(o)
            self.need(cur is not None and st.facts.eq(cur[1], want), "allocator", "the allocator that was passed to the constructor is not kept", loc)

    def elements_aligned(self, start, loc):
        c = self.cfg
        ok = all(x % c.ealign == 0 for x in (start, c.pay[0], c.S))
        self.need(ok, "element-align", "nodes that begin at a multiple of %d, of %d bytes each and with the element at offset %d, do not give it its alignment of %d" % (start, c.S, c.pay[0], c.ealign), loc)

    def block_match(self, b, p, count, es, loc):
        """what the destructor returns, in terms of what a constructor left behind, is the block that the constructor obtained"""
        lost = []

        def f(pc):
            a = pc[1]
            if a.kind == "cfg":
                e = b["reg"].get(a.a["off"])
                if e is None or e[0] * 8 < a.w:
                    lost.append(a)
                    return None
                return bits(e[1], pc[2], pc[3])
            if a.kind == "hdr":
                base = rebuild(a.a["base"], f)
                for k, cells in b["heap"].items():
                    e = cells.get(a.a["off"])
                    if e is not None and 8 * e[0] >= a.w and b["facts"].eq(k[1], base):
                        return bits(e[1], pc[2], pc[3])
                lost.append(a)
            return None

        p, count, es = [rebuild(x, f) for x in (p, count, es)]
        if lost:
            raise Inconclusive("%s: memory is returned through a value that no constructor leaves behind: %r (%s)" % (self.name, lost[0], srcline(loc)))
        fa = b["facts"]
        self.need(fa.eq(p, b["ptr"]), "dealloc-args", "what is returned is not the block the constructor obtained", loc)
        self.need(fa.eq(count, b["count"]) and fa.eq(es, b["es"]), "dealloc-args", "memory is returned with another size than it was obtained with: %s instead of %s" % (show(count), show(b["count"])), loc)

    def block_align(self, st, reg, loc):
        """the place where the nodes begin"""
        bp = st.ghost.get("blockptr")
        if bp is None:
            return
        kept = [st.facts.resolve(v) for o, (nb, v) in reg.items() if nb == 8 and as_atom(bp) in atoms_of(st.facts.resolve(v))]
        if kept:
            al = max(known_align(v) for v in kept)
            # an allocator of nodes takes care of their alignment itself
            if st.facts.eq(st.ghost["blockes"], const(64, self.cfg.S)) and any(st.facts.eq(v, bp) for v in kept):
                al = 1 << 30
            if self.cfg.kind == "queue":
                self.need(al >= 64, "node-align", "the nodes do not begin at a cache line", loc)
            self.elements_aligned(al, loc)

    def block_size(self, st, total, loc):
        c = self.cfg
        cnt, es = st.ghost.get("blockcount"), st.ghost.get("blockes")
        if cnt is None:
            self.find("capacity", "the constructor allocates no memory for its nodes", loc)
            return
        by = mul(cnt, es)
        need_ = mul(total, const(64, c.S))
        # bytes obtained must cover all nodes from the aligned start on
        d = st.facts._ints(sub(by, need_)) if True else None
        ok = st.facts.le0(0 - d[0], {t: -k for t, k in d[1].items()})
        self.need(ok, "room", "the block the constructor allocates is smaller than its nodes", loc)

    def ret_dtor(self, st, loc):
        c = self.cfg
        g = st.ghost
        z = self.nullref(st)
        if c.opaque or c.kind == "queue":
            self.need_empty(st, loc) if c.opaque else None
        if c.refkind == "idx":
            if c.storage == "ct":
                self.need(g.get("freed", 0) == 0, "dealloc-args", "memory that is part of the object is returned", loc)
            else:
                self.need(g.get("freed", 0) == 1, "memory-leak", "the destructor returns the node block %d times" % g.get("freed", 0), loc)
            return
        # everything is in the pool, and the pool was walked to its end
        vp = g.get("vpool")
        po = self.role_off("pool")
        if vp is None:
            cur = st.mem.get(("C",), {}).get(po)
            vp = self.ref(cur[1]) if cur is not None else None
        self.need(vp is not None and st.facts.eq(vp, z), "memory-leak", "the destructor does not return all memory of the pool", loc)
        if c.kind == "queue":
            # drained, and the dummy recycled
            self.need(self.drained(st), "memory-leak", "the destructor does not drain the queue before it returns the pool's memory", loc)
            self.need(g.get("dummy_released", False), "memory-leak", "the destructor does not return the dummy node", loc)
        else:
            self.need(self.drained(st), "memory-leak", "the destructor does not drain the stack before it returns the pool's memory", loc)

    def drained(self, st):
        """single-threaded: the container is known to be empty"""
        if not st.ghost.get("drained"):
            c = self.cfg
            z = self.nullref(st)
            o = self.role_off("head" if c.kind == "queue" else "tos")
            cur = st.mem.get(("C",), {}).get(o)
            if cur is None or z is None or cur[0] != c.wbytes:
                return False
            r = self.ref(cur[1])
            if c.kind == "stack":
                ok = st.facts.eq(r, z)
            else:
                ok = self.known_link(st, r, z)
            if not ok:
                return False
            st.ghost["drained"] = True
        return True

    def claim_dummy(self, st, ref):
        """the destructor of a drained queue owns the dummy node"""
        if self.kind != "dtor" or self.cfg.kind != "queue" or st.ghost.get("dummy_released") or not self.drained(st):
            return
        o = self.role_off("head")
        cur = rload(st.mem.setdefault(("C",), {}), o, self.cfg.wbytes, lambda p, m: self.role_init(st, o, p, m, "excl"))
        if st.facts.eq(self.ref(cur), ref):
            t = Tok(ref, "dummy")
            t.pay = "dead"
            st.toks.append(t)
            st.ghost["dummy_released"] = True

    def on_throw(self, st, I):
        self.nthrows += 1
        loc = I["loc"]
        if any(t.origin in ("stack", "chain") for t in st.toks):
            self.fold(st)
        for t in st.toks:
            if t.rest and self.nullref(st) is not None and st.facts.eq(t.first, self.nullref(st)):
                continue
            if self.kind not in ("pop", "upop", "consume_one", "consume_all", "consume_all_atomic", "consume_all_atomic_reversed"):
                # (user code that throws out of a removal is outside of what the library promises)
                self.find("throw-leak", "a node is lost when the operation fails with an exception", loc)
        self.cfg.ob("throw", self.name, loc)
        if self.kind in ("push", "bounded_push", "upush"):
            self.need(st.ghost.get("npub", 0) == 0, "throw-effect", "an element is inserted although the push fails with an exception", loc)
        if self.kind == "ctor" and self.cfg.refkind == "idx" and st.ghost.get("blockptr") is not None:
            pass


def strip_mem(e):
    return e
