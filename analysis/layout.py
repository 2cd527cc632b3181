"""C20 and C21: what the compiler's record layouts say.  C15: is_lock_free() as a boolean function of the answers of the
atomic objects."""
import itertools
import os
import re

import build
from api import empty_result, finding, short
from mpmc import demangle, _dem

# documented cache-line sizes, by the platform macros that select them
LINES = {"": 64, "-D__s390x__": 256, "-D__s390__": 256, "-D__powerpc__": 128, "-Dpowerpc": 128, "-D__ppc__": 128}
KINDNAME = {"queue": "queue", "stack": "stack", "spsc": "spsc_queue"}


class Record:
    def __init__(self, name):
        self.name = name
        self.size = self.align = 0
        self.fields = []  # (offset, depth, type, name)

    def atomics(self):
        """(offset, type, path) of the atomic objects inside"""
        out = []
        skip = None
        path = []
        for off, depth, ty, nm in self.fields:
            if skip is not None:
                if depth > skip:
                    continue
                skip = None
            path = path[: depth - 1] + [nm]
            if re.match(r"(class|struct) (std|boost)::(atomics::)?atomic<", ty):
                skip = depth
                out.append((off, ty, ".".join(x for x in path if x)))
        return out

    def pointers(self, element):
        out = []
        for off, depth, ty, nm in self.fields:
            t = ty.replace(" ", "")
            if t.endswith("*") or t.endswith("&") or t.endswith("*const") or "(*)" in t or "::*" in t or t.startswith("(") and "vtable" in t or re.search(r"\*\[\d", t):
                out.append((off, ty, nm))
        return out


def split_field(s):
    """'type name' of one line"""
    s = s.rstrip()
    s = re.sub(r" \((empty|base|primary base|virtual base|primary virtual base)\)( \(empty\))?$", "", s)
    m = re.match(r"^(.*[]>*&\w])\s+(\w+)$", s)
    if m and not re.match(r"^(class|struct|union|enum)$", m.group(1)):
        # "class X" alone is a base without a name
        depth = m.group(1).count("<") - m.group(1).count(">")
        if depth == 0:
            return m.group(1), m.group(2)
    return s, ""


def parse(text):
    recs = {}
    cur = None
    for l in text.split("\n"):
        if l.startswith("*** Dumping"):
            cur = None
            continue
        m = re.match(r"^ *(\d+)(?::[\d-]+)? \| ( *)(.*)$", l)
        if m:
            off, ind, rest = int(m.group(1)), len(m.group(2)) // 2, m.group(3)
            if cur is None:
                cur = Record(re.sub(r" \(empty\)$", "", rest))
                recs.setdefault(cur.name, cur)
                continue
            if "(empty)" in rest:
                continue
            isbase = "base)" in rest
            ty, nm = split_field(rest)
            if isbase:
                ty, nm = re.sub(r" \(.*base\)$", "", rest), ""
            cur.fields.append((off, ind, ty, nm))
            continue
        m = re.search(r"\[sizeof=(\d+).* align=(\d+)", l)
        if m and cur is not None:
            cur.size, cur.align = int(m.group(1)), int(m.group(2))
    return recs


def layouts(kind, cfg, T, flags, tmp, tag):
    src = os.path.join(build.HERE, "witness", kind + ".cpp")
    cmd = [build.CLANG, "-std=gnu++17", "-w", "-I" + build.INC, "-I" + os.path.join(build.HERE, "witness"), "-DVP_CFG=%d" % cfg, "-DVP_T=" + T]
    r = build.sh(cmd + [f for f in flags if f] + ["-c", "-emit-llvm", "-o", os.path.join(tmp, tag + ".bc"), "-Xclang", "-fdump-record-layouts-canonical", src])
    if r.returncode:
        raise build.BuildError(build.first_error(r.stderr))
    return parse(r.stdout)


def container(recs, kind):
    c = [r for n, r in recs.items() if re.match(r"(class|struct) boost::lockfree::%s<" % KINDNAME[kind], n) and r.size and not n.split("<", 1)[1].count(">::")]
    c = [r for r in c if re.match(r".*>$", r.name)]
    if len(c) != 1:
        raise build.BuildError("%d layouts of the container" % len(c))
    return c[0]


def run_layout(arg):
    kind, cfg, T, plat, tmp = arg
    storage = ("growing", "fixed_sized", "capacity<>")[cfg]
    name = "%s<%s> %s%s" % (KINDNAME[kind], T, storage, " " + plat[2:] if plat else "")
    res = empty_result(name, kind)
    try:
        recs = layouts(kind, cfg, T, [plat], tmp, re.sub(r"\W", "_", name))
        c = container(recs, kind)
    except build.BuildError as x:
        res["error"] = "inconclusive: %s" % x
        return res
    L = LINES[plat]
    at = "include/boost/lockfree/%s.hpp" % {"spsc": "spsc_queue"}.get(kind, kind)
    res["functions"] = 1
    words = c.atomics()
    res["atomics"] = words
    want = {"queue": 3, "stack": 2, "spsc": 2}[kind]
    if len(words) < want:
        res["error"] = "inconclusive: %d atomic members" % len(words)
        return res
    sizes = {ty: recs[ty].size for _, ty, _ in words if ty in recs}
    for off, ty, nm in words:
        sz = sizes.get(ty, 0)
        res["obl"]["word-straddles|%s|" % nm] = 1
        if sz and (off % sz or c.align % min(sz, 16)):
            res["findings"].append(finding("word-straddles", "the atomic word at offset %d is not aligned to its size %d" % (off, sz), at, nm, name, kind))
    for a, b in itertools.combinations(sorted(words), 2):
        res["obl"]["line-shared|%s/%s|" % (a[2], b[2])] = 1
        apart = b[0] - a[0] >= L
        if not apart and c.align % L == 0 and a[0] // L != b[0] // L:
            apart = True
        if not apart:
            res["findings"].append(finding("line-shared", "two words that are written independently, at offsets %d and %d, share a cache line of %d bytes" % (a[0], b[0], L), at, a[2] + "/" + b[2], name, kind))
    # nodes with atomic links
    for n, r in others(recs, c):
        res["obl"]["node-line|%s|" % n[:120]] = 1
        if r.align % L or r.size % L:
            res["findings"].append(finding("node-line", "nodes of %d bytes with alignment %d share cache lines of %d bytes" % (r.size, r.align, L), at, n[:120], name, kind))
    if kind == "queue" and not any(k.startswith("node-line") for k in res["obl"]):
        res["entries"].append(("nodes", "inconclusive: no node type with an atomic link found", 0, 0, 0))
    # no addresses in a compile-time sized container, nor in the nodes of a fixed-sized one
    if cfg == 2:
        res["obl"]["address|%s|" % c.name[:80]] = 1
        for off, ty, nm in c.pointers(T):
            res["findings"].append(finding("address", "a container with compile-time capacity holds an address: %s %s at offset %d" % (ty, nm, off), at, nm, name, kind))
        res["obl"]["inside|%s|" % c.name[:80]] = 1
        esz = {"char": 1, "long": 8, "vp::Big": 100, "vp::Wide": 512}[T]
        if c.size < 37 * esz:
            res["findings"].append(finding("inside", "the object (%d bytes) is too small for its %d elements of %d bytes" % (c.size, 37, esz), at, "", name, kind))
    if cfg and kind != "spsc":
        for n, r in recs.items():
            if re.search(r">::\w+$", n) and "boost::lockfree::%s<" % kind in n and any(nm and ty.startswith(("class", "struct")) is not None for _, _, ty, nm in r.fields) and node_like(r, T):
                res["obl"]["node-address|%s|" % n[:80]] = 1
                p = r.pointers(T)
                if p:
                    res["findings"].append(finding("node-address", "a node that is addressed by index holds an address: %s %s at offset %d" % (p[0][1], p[0][2], p[0][0]), at, n[:80], name, kind))
    return res


def others(recs, c):
    """records of the library with atomic members that are no part of the container object: its nodes"""
    inside = {ty for _, _, ty, _ in c.fields} | {c.name}
    for n, r in recs.items():
        if n in inside or not r.size or "lockfree" not in n or re.match(r"(class|struct) (std|boost)::(atomics::)?(__)?atomic", n):
            continue
        if re.search(r"::(queue|stack|spsc_queue|\w*freelist\w*|\w*ringbuffer\w*)<.*>$", n):
            continue
        if r.atomics():
            yield n, r


def node_like(r, T):
    """holds an element and something else"""
    t = {"vp::Big": "struct vp::Big", "vp::Wide": "struct vp::Wide"}.get(T, T)
    el = [f for f in r.fields if f[2].replace("const ", "") == t]
    return bool(el) and len(r.fields) > 1


ALLOCFN = {"posix_memalign": (1, 2), "aligned_alloc": (0, 1), "_ZnwmSt11align_val_t": (1, 0), "_ZnamSt11align_val_t": (1, 0), "memalign": (0, 1)}
PLAINFN = {"malloc": 0, "_Znwm": 0, "_Znam": 0, "calloc": 1}


def run_default_alloc(arg):
    """single nodes and node blocks obtained from the default allocator begin at a cache line; nodes and arrays of elements are aligned for the element"""
    kind, cfg, T, plat, tmp = arg
    name = "%s<%s> %s, default allocator%s" % (KINDNAME[kind], T, "run-time sized" if kind == "spsc" else ("growing", "fixed_sized")[cfg], " " + plat[2:] if plat else "")
    res = empty_result(name, kind)
    try:
        d, drop = build.lower(kind + ".cpp", tmp, re.sub(r"\W", "_", name), ["-DVP_CFG=%d" % cfg, "-DVP_T=" + T, "-DVP_DEFALLOC"] + ([plat] if plat else []))
    except build.BuildError as x:
        res["error"] = "inconclusive: %s" % str(x).split("\n")[0]
        return res
    L = LINES[plat]
    ea = d["globals"]["vpg_ealign"]
    for fn, f in sorted(d["functions"].items()):
        res["functions"] += 1
        for b in f["blocks"]:
            for i in b["insts"]:
                cal = i.get("callee")
                if cal not in ALLOCFN and cal not in PLAINFN:
                    continue
                loc = place(i.get("loc"))
                if "exception" in str(i.get("loc")) and cal == "_Znwm":
                    continue
                if kind == "spsc" or cfg == 0:
                    res["obl"]["element-align|%s|%s" % (fn, loc)] = 1
                    a = i["args"][ALLOCFN[cal][0]] if cal in ALLOCFN else {"k": "c", "v": 16}
                    if a.get("k") != "c":
                        res["error"] = "inconclusive: alignment of a block is not a constant in %s" % fn
                    elif int(a["v"]) % ea:
                        res["findings"].append(finding("element-align", "memory from the default allocator is aligned to %s bytes only, an element needs %d" % (a["v"], ea), loc, fn, name, kind))
                if kind == "spsc":
                    continue
                res["obl"]["block-line|%s|%s" % (fn, loc)] = 1
                if cal in ALLOCFN:
                    a = i["args"][ALLOCFN[cal][0]]
                    if a.get("k") != "c":
                        res["error"] = "inconclusive: alignment of a block is not a constant in %s" % fn
                    elif int(a["v"]) % L:
                        res["findings"].append(finding("block-line", "memory from the default allocator is aligned to %s bytes only, a cache line has %d" % (a["v"], L), loc, fn, name, kind))
                else:
                    res["findings"].append(finding("block-line", "memory from the default allocator is not aligned to a cache line", loc, fn, name, kind))
    return res


def place(loc):
    from mpmc import srcline
    return srcline(loc) if loc else ""


# ---- C15


def norm(ty):
    """one spelling for the type names of record layouts and of the demangler"""
    ty = re.sub(r"\b(class|struct|union) ", "", ty).replace(" ", "")
    ty = re.sub(r"\b(\d+)u?l?\b", r"\1", ty)
    return ty.replace("(bool)1", "true").replace("(bool)0", "false")


class Unknown(Exception):
    pass


def truth(f, answers, asked):
    """the value f returns when the atomic at each offset answers as given; `asked` collects (key, type)"""
    blocks = {b["id"]: b for b in f["blocks"]}
    env = {"a0": ("p", 0)}
    cur, prev = f["blocks"][0]["id"], None

    def val(o):
        if o["k"] == "c":
            return int(o["v"])
        if o["k"] == "v":
            if o["v"] not in env:
                raise Unknown("a value outside the fragment")
            return env[o["v"]]
        if o["k"] == "g":
            return ("g", o["v"])
        raise Unknown("operand %r" % (o,))

    for _ in range(2000):
        for i in blocks[cur]["insts"]:
            op = i["op"]
            if op == "phi":
                for inc in i["in"]:
                    if inc[0] == prev:
                        env[i["id"]] = val(inc[1])
            elif op == "getelementptr":
                b = val(i["base"])
                if b[0] == "p" and b[1] is not None and not i["var"]:
                    env[i["id"]] = ("p", b[1] + i["off"])
                else:
                    env[i["id"]] = ("p", None)
            elif op == "load":
                env[i["id"]] = ("p", None) if i["ty"] == "ptr" else ("?",)
            elif op in ("call", "invoke"):
                m = re.match(r"(?:std|boost)::(?:atomics::)?(?:__)?atomic(?:_base)?<(.*)>::is_lock_free\(\)", _dem.get(i["callee"], i["callee"]) or "")
                if not m:
                    if (i["callee"] or "").startswith("llvm."):
                        continue
                    raise Unknown("call of %s" % _dem.get(i["callee"], i["callee"]))
                p = val(i["args"][0])
                key = p[1] if p[0] == "p" and p[1] is not None else ("type", norm(m.group(1)))
                asked.add((key, norm(m.group(1))))
                env[i["id"]] = answers(key, norm(m.group(1)))
                if op == "invoke":
                    prev, cur = cur, i["normal"]
                    break
            elif op == "br":
                s = i["succ"]
                nxt = s[0]
                if len(s) > 1:
                    v = val(i["cond"])
                    if not isinstance(v, int):
                        raise Unknown("a branch on something else")
                    nxt = s[0] if v & 1 else s[1]
                prev, cur = cur, nxt
                break
            elif op == "ret":
                v = val(i["val"] if "val" in i else i["ops"][0])
                if not isinstance(v, int):
                    raise Unknown("an unknown result")
                return v & 1
            elif op in ("zext", "trunc", "sext", "freeze", "bitcast"):
                env[i["id"]] = val(i["ops"][0])
            elif op in ("and", "or", "xor", "icmp", "add", "mul"):
                a, b = val(i["ops"][0]), val(i["ops"][1])
                if not isinstance(a, int) or not isinstance(b, int):
                    raise Unknown("arithmetic on something else")
                w = 1 << 64
                env[i["id"]] = {"and": a & b, "or": a | b, "xor": a ^ b, "add": (a + b) % w, "mul": a * b % w,
                                "icmp": {"eq": a == b, "ne": a != b, "ugt": a > b, "ult": a < b, "uge": a >= b, "ule": a <= b, "sgt": a > b, "slt": a < b, "sge": a >= b, "sle": a <= b}.get(i.get("pred"), 0)}[op]
                env[i["id"]] = int(env[i["id"]])
            elif op == "select":
                env[i["id"]] = val(i["ops"][1] if val(i["ops"][0]) & 1 else i["ops"][2])
            elif op == "store":
                raise Unknown("a store")
            else:
                raise Unknown("instruction %s" % op)
        else:
            raise Unknown("no terminator")
    raise Unknown("a loop")


def asks_constant():
    """the source mentions the compile-time answer, which leaves no trace in the lowered code"""
    d = os.path.join(build.INC, "boost", "lockfree")
    for root, _, files in os.walk(d):
        for f in files:
            if re.search(r"is_always_lock_free|ATOMIC_\w+_LOCK_FREE", open(os.path.join(root, f), errors="replace").read()):
                return True
    return False


def run_lockfree(arg):
    kind, cfg, T, dcas, tmp = arg
    name = "%s<%s> %s%s" % (KINDNAME[kind], T, ("growing", "fixed_sized", "capacity<>")[cfg], " dcas" if dcas else "")
    res = empty_result(name, kind)
    flags = ["-DVP_CFG=%d" % cfg, "-DVP_T=" + T] + (["-DVP_DCAS", "-mcx16"] if dcas else [])
    tag = re.sub(r"\W", "_", name) + "_lf"
    at = "include/boost/lockfree/%s.hpp" % KINDNAME[kind]
    try:
        d, drop = build.lower(kind + ".cpp", tmp, tag, flags, keep="is_lock_free")
        recs = layouts(kind, cfg, T, flags[2:], tmp, tag)
        c = container(recs, kind)
    except build.BuildError as x:
        res["error"] = "inconclusive: %s" % str(x).split("\n")[0]
        return res
    if "vpe_is_lock_free" not in d["functions"]:
        res["error"] = "inconclusive: is_lock_free() does not compile"
        return res
    f = d["functions"]["vpe_is_lock_free"]
    demangle(sorted({i["callee"] for b in f["blocks"] for i in b["insts"] if i.get("callee")}))
    res["functions"] = 1
    words = c.atomics()

    def inner(ty):
        return norm(re.sub(r"^.*?atomic<(.*)>$", r"\1", ty))

    # atomic types that occur in nodes only
    nodetypes = {}
    for n, r in others(recs, c):
        for _, ty, _ in r.atomics():
            nodetypes[inner(ty)] = n
    try:
        asked = set()
        all_true = truth(f, lambda k, t: 1, asked)
        # every object that can be asked at all
        for _ in range(3):
            for k in list(asked):
                truth(f, lambda kk, t: 0 if kk == k[0] else 1, asked)
            truth(f, lambda kk, t: 0, asked)
        res["obl"]["lockfree-all|vpe_is_lock_free|%s" % at] = 1
        if not asked and all_true and asks_constant():
            raise Unknown("is_lock_free() is computed from compile-time constants")
        if not asked and not all_true:
            # the answer is a constant; is that what every object would say?
            res["findings"].append(finding("lockfree-all", "is_lock_free() is false whatever the atomic objects say", at, "vpe_is_lock_free", name, kind))
            return res
        if not all_true:
            res["findings"].append(finding("lockfree-all", "is_lock_free() is false although every atomic object is lock-free", at, "vpe_is_lock_free", name, kind))
        for off, ty, nm in words:
            res["obl"]["lockfree-each|%s|%s" % (nm, at)] = 1
            r = truth(f, lambda k, t: 0 if k == off or k == ("type", inner(ty)) else 1, asked)
            if r:
                res["findings"].append(finding("lockfree-each", "is_lock_free() is true although the atomic member at offset %d is not lock-free" % off, at, nm, name, kind))
        for ty in nodetypes:
            res["obl"]["lockfree-type|%s|%s" % (ty[:60], at)] = 1
            r = truth(f, lambda k, t: 0 if t == ty else 1, asked)
            if r:
                res["findings"].append(finding("lockfree-type", "is_lock_free() is true although atomic<%s> is not lock-free" % ty[:100], at, ty[:60], name, kind))
        # exactness: any combination
        keys = sorted({k for k, _ in asked}, key=str)
        if len(keys) <= 6:
            for bits_ in itertools.product((0, 1), repeat=len(keys)):
                a = dict(zip(keys, bits_))
                r = truth(f, lambda k, t: a.get(k, 1), asked)
                res["steps"] += 1
                res["obl"]["lockfree-table|%s|%s" % (bits_, at)] = 1
                if r and not all(bits_):
                    res["findings"].append(finding("lockfree-table", "is_lock_free() is true although of the %d atomic objects asked only %d are lock-free" % (len(keys), sum(bits_)), at, "vpe_is_lock_free", name, kind))
                    break
    except Unknown as x:
        res["entries"].append(("vpe_is_lock_free", "inconclusive: %s" % x, 0, 0, 0))
    return res
