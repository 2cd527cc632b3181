"""Value domain of the analysis.

A value is a fixed-width bit vector in a normal form: a concatenation of constant bits and slices of atoms.  Atoms are
opaque unknowns (arguments, results of loads, calls, allocations), linear combinations modulo 2^w, or uninterpreted
operations.  Packing and unpacking of {pointer,tag} and {index,tag} words normalises away, so two spellings of the same
word are the same value.
"""
import itertools

_ids = itertools.count(1)
M64 = (1 << 64) - 1


class Atom:
    __slots__ = ("id", "w", "kind", "a", "ptr", "nonnull")

    def __hash__(self):
        return self.id

    def __init__(self, w, kind, a=None, ptr=False, nonnull=False):
        self.id = next(_ids)
        self.w = w
        self.kind = kind
        self.a = a if a is not None else {}
        self.ptr = ptr  # a user-space address: the 16 top bits are zero
        self.nonnull = nonnull

    def __repr__(self):
        return "%s#%d" % (self.kind, self.id)


class Val:
    __slots__ = ("w", "p", "_h")

    def __init__(self, w, p):
        self.w = w
        self.p = p
        self._h = hash((w, p))

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return self is o or (isinstance(o, Val) and self._h == o._h and self.w == o.w and self.p == o.p)

    def __ne__(self, o):
        return not self == o

    def __repr__(self):
        return show(self)


# pieces: ('c', width, int) or ('s', atom, lo, width)
def pw(p):
    return p[1] if p[0] == "c" else p[3]


def norm(pieces):
    out = []
    for p in pieces:
        if pw(p) == 0:
            continue
        if p[0] == "s" and p[1].ptr and p[1].w >= 64 and p[2] + p[3] > 48 and p[2] < 64:
            # the bits 48 to 63 of an address are zero
            lo, w = p[2], p[3]
            pieces2 = []
            if lo < 48:
                pieces2.append(("s", p[1], lo, 48 - lo))
            a, b = max(lo, 48), min(lo + w, 64)
            pieces2.append(("c", b - a, 0))
            if lo + w > 64:
                pieces2.append(("s", p[1], 64, lo + w - 64))
        else:
            pieces2 = [p]
        for q in pieces2:
            if out:
                l = out[-1]
                if l[0] == "c" and q[0] == "c":
                    out[-1] = ("c", l[1] + q[1], l[2] | (q[2] << l[1]))
                    continue
                if l[0] == "s" and q[0] == "s" and l[1] is q[1] and l[2] + l[3] == q[2]:
                    out[-1] = ("s", l[1], l[2], l[3] + q[3])
                    continue
            out.append(q)
    return tuple(out)


def mk(pieces):
    p = norm(pieces)
    return Val(sum(pw(x) for x in p), p)


def const(w, v):
    return Val(w, (("c", w, v & ((1 << w) - 1)),)) if w else Val(0, ())


def atomv(a):
    return mk([("s", a, 0, a.w)])


def fresh(w, kind, ptr=False, nonnull=False, **attrs):
    return atomv(Atom(w, kind, attrs, ptr, nonnull))


def is_const(v):
    return len(v.p) == 1 and v.p[0][0] == "c" or v.w == 0


def cval(v):
    return v.p[0][2] if v.p else 0


def as_atom(v):
    """the atom of which v is the whole value, or None"""
    p = v.p
    if len(p) == 1 and p[0][0] == "s" and p[0][2] == 0 and p[0][3] == p[0][1].w:
        return p[0][1]
    if (
        len(p) == 2
        and v.w == 64
        and p[0][0] == "s"
        and p[0][1].ptr
        and p[0][1].w == 64
        and p[0][2] == 0
        and p[0][3] == 48
        and p[1][0] == "c"
        and p[1][2] == 0
    ):
        return p[0][1]
    if len(p) == 3 and v.w == 128 and p[0][0] == p[2][0] == "s" and p[0][1] is p[2][1] and p[0][1].ptr and p[0][1].w == 128 and p[0][2] == 0 and p[0][3] == 48 and p[1] == ("c", 16, 0) and p[2][2] == 64:
        return p[0][1]
    return None


def _slice_piece(p, lo, w):
    if p[0] == "c":
        return ("c", w, (p[2] >> lo) & ((1 << w) - 1))
    return ("s", p[1], p[2] + lo, w)


def bits(v, lo, w):
    """the bits [lo, lo+w) of v"""
    out = []
    pos = 0
    for p in v.p:
        n = pw(p)
        a, b = max(lo, pos), min(lo + w, pos + n)
        if a < b:
            q = _slice_piece(p, a - pos, b - a)
            # low slices commute with modular linear arithmetic
            if q[0] == "s" and q[1].kind == "lin" and q[2] == 0 and q[3] < q[1].w:
                c, ts = q[1].a["lin"]
                ok = not (q[1].ptr and q[3] == 48)
                if ok:
                    sub = lin(q[3], c, [(bits(t, 0, q[3]), k) for t, k in ts])
                    out.extend(sub.p)
                    pos += n
                    continue
            out.append(q)
        pos += n
    return mk(out)


def cat(*vs):
    return mk([p for v in vs for p in v.p])


def zext(v, w):
    return cat(v, const(w - v.w, 0)) if w > v.w else bits(v, 0, w)


def sext(v, w):
    if is_const(v):
        x = cval(v)
        if x >> (v.w - 1):
            x -= 1 << v.w
        return const(w, x)
    if v.p[-1][0] == "c" and not (v.p[-1][2] >> (v.p[-1][1] - 1)):
        return zext(v, w)
    return op("sext", w, (v,))


_lin = {}
_op = {}


def lin_parts(v):
    """(const, {Val: coef}) with v == const + sum mod 2^w"""
    if is_const(v):
        return cval(v), {}
    a = as_atom(v)
    if a is not None and a.kind == "lin" and a.w == v.w:
        c, ts = a.a["lin"]
        return c, dict(ts)
    return 0, {v: 1}


def lin(w, c, terms):
    m = (1 << w) - 1
    acc = {}
    c &= m
    for v, k in terms:
        if k & m == 0:
            continue
        vc, vt = lin_parts(v)
        c = (c + k * vc) & m
        for t, q in vt.items():
            acc[t] = (acc.get(t, 0) + q * k) & m
    acc = {t: k for t, k in acc.items() if k}
    if not acc:
        return const(w, c)
    if c == 0 and len(acc) == 1:
        (t, k), = acc.items()
        if k == 1:
            return t
    key = (w, c, frozenset(acc.items()))
    a = _lin.get(key)
    if a is None:
        ptrs = [t for t, k in acc.items() if k == 1 and is_ptr(t)]
        # base + scaled offsets stays a user-space address
        ptr = w == 64 and len(ptrs) == 1 and not any(is_ptr(t) for t, k in acc.items() if k != 1)
        a = Atom(w, "lin", {"lin": (c, tuple(sorted(acc.items(), key=lambda x: (repr(x[0]), x[1]))))}, ptr)
        if ptr:
            b = as_atom(ptrs[0])
            a.nonnull = bool(b and b.nonnull)
        _lin[key] = a
    return atomv(a)


def is_ptr(v):
    a = as_atom(v)
    if a is not None:
        return a.ptr
    # pointer part of an observed word
    return v.w == 64 and len(v.p) == 2 and v.p[0][0] == "s" and v.p[0][3] == 48 and v.p[1][0] == "c" and v.p[1][2] == 0


def op(name, w, args, **kw):
    key = (name, w, args, tuple(sorted(kw.items())))
    a = _op.get(key)
    if a is None:
        a = Atom(w, "op", {"op": name, "args": args, **kw})
        _op[key] = a
    return atomv(a)


def add(a, b):
    if (len(a.p) > 1 or len(b.p) > 1) and not is_const(a) and not is_const(b) and all(is_const(x) and cval(x) == 0 or is_const(y) and cval(y) == 0 for _, x, y in align(a, b)):
        return bor(a, b)
    if len(a.p) > 1 or len(b.p) > 1:
        # nothing is carried out of low bits where one operand is zero
        cut = 0
        for pos, x, y in align(a, b):
            if not (is_const(x) and cval(x) == 0 or is_const(y) and cval(y) == 0):
                break
            if pos + x.w < a.w and all(is_const(v) or boundary(v, pos + x.w) for v in (a, b)):
                cut = pos + x.w
        if cut:
            lo = bor(bits(a, 0, cut), bits(b, 0, cut))
            return cat(lo, add(bits(a, cut, a.w - cut), bits(b, cut, a.w - cut)))
    return lin(a.w, 0, [(a, 1), (b, 1)])


def boundary(v, k):
    pos = 0
    for p in v.p:
        if pos == k:
            return True
        pos += pw(p)
    return False


def sub(a, b):
    return lin(a.w, 0, [(a, 1), (b, -1)])


def addc(a, c):
    if len(a.p) > 1:
        return add(a, const(a.w, c))
    return lin(a.w, c, [(a, 1)])


def mul(a, b):
    if is_const(a):
        a, b = b, a
    if is_const(b):
        return lin(a.w, 0, [(a, cval(b))])
    return op("mul", a.w, tuple(sorted((a, b), key=repr)))


def signed(x, w):
    x &= (1 << w) - 1
    return x - (1 << w) if x >> (w - 1) else x


def align(a, b):
    """split two values of one width at common boundaries: list of (pos, piece-val, piece-val)"""
    cuts = {0, a.w}
    for v in (a, b):
        pos = 0
        for p in v.p:
            cuts.add(pos)
            pos += pw(p)
    cuts = sorted(cuts)
    return [(lo, bits(a, lo, hi - lo), bits(b, lo, hi - lo)) for lo, hi in zip(cuts, cuts[1:])]


def bor(a, b):
    out = []
    for _, x, y in align(a, b):
        if is_const(x) and cval(x) == 0:
            out.append(y)
        elif is_const(y) and cval(y) == 0:
            out.append(x)
        elif is_const(x) and is_const(y):
            out.append(const(x.w, cval(x) | cval(y)))
        elif is_const(y) or is_const(x):
            if is_const(x):
                x, y = y, x
            for i, one, n in runs(cval(y), y.w):
                out.append(const(n, (1 << n) - 1) if one else bits(x, i, n))
        elif x == y:
            out.append(x)
        else:
            out.append(op("or", x.w, tuple(sorted((x, y), key=repr))))
    return cat(*out)


def runs(v, w):
    i = 0
    while i < w:
        one = (v >> i) & 1
        n = 0
        while i + n < w and ((v >> (i + n)) & 1) == one:
            n += 1
        yield i, one, n
        i += n


def known_align(t):
    """a power of two that divides the value"""
    if is_const(t):
        v = cval(t)
        return (v & -v) if v else 1 << 30
    a = as_atom(t)
    if a is not None:
        if a.kind == "lin":
            c, ts = a.a["lin"]
            m = (c & -c) if c else 1 << 30
            for x, k in ts:
                m = min(m, known_align(x) * (k & -k))
            return m
        if a.kind == "op" and a.a["op"] == "aligndown":
            return a.a["n"]
        return a.a.get("align", 1)
    n = 0
    if t.p and t.p[0][0] == "c" and t.p[0][2] == 0:
        n = t.p[0][1]
    return 1 << n


def has_address(v):
    """an address with something added or taken away"""
    if v.w != 64 or is_const(v):
        return False
    if is_ptr(v):
        return True
    c, ts = lin_parts(v)
    return sum(k for x, k in ts.items() if x != v and has_address(x)) not in (0,)


def aligndown(x, n):
    """x & ~(n-1) for an address x"""
    c, ts = lin_parts(x)
    if all(known_align(t) * (k & -k) >= n for t, k in ts.items()):
        return lin(x.w, c - (c & (n - 1)), ts.items())
    v = op("aligndown", x.w, (x,), n=n)
    a = as_atom(v)
    a.ptr = True
    a.nonnull = True
    return v


def band(a, b):
    if is_const(a):
        a, b = b, a
    if is_const(b) and a.w == 64 and is_ptr(a):
        low = ((1 << 64) - 1) ^ cval(b)
        if 0 < low < 4096 and low & (low + 1) == 0:
            return aligndown(a, low + 1)
    out = []
    for _, x, y in align(a, b):
        if is_const(x):
            x, y = y, x
        if is_const(y):
            if is_const(x):
                out.append(const(x.w, cval(x) & cval(y)))
            else:
                for i, one, n in runs(cval(y), y.w):
                    out.append(bits(x, i, n) if one else const(n, 0))
        elif x == y:
            out.append(x)
        else:
            out.append(op("and", x.w, tuple(sorted((x, y), key=repr))))
    return cat(*out)


def bxor(a, b):
    out = []
    for _, x, y in align(a, b):
        if is_const(x):
            x, y = y, x
        if is_const(y):
            if is_const(x):
                out.append(const(x.w, cval(x) ^ cval(y)))
                continue
            if cval(y) == 0:
                out.append(x)
                continue
        elif x == y:
            out.append(const(x.w, 0))
            continue
        out.append(op("xor", x.w, tuple(sorted((x, y), key=repr))))
    return cat(*out)


def shl(a, k):
    return cat(const(k, 0), bits(a, 0, a.w - k)) if k < a.w else const(a.w, 0)


def lshr(a, k):
    return cat(bits(a, k, a.w - k), const(k, 0)) if k < a.w else const(a.w, 0)


def divexact(v, d):
    """v/d when v is a linear form all of whose (signed) coefficients are divisible by d, else None"""
    c, ts = lin_parts(v)
    c = signed(c, v.w)
    out = []
    if c % d:
        return None
    for t, k in ts.items():
        k = signed(k, v.w)
        if k % d:
            return None
        out.append((t, k // d))
    return lin(v.w, c // d, out)


def atoms_of(v, seen=None):
    """all atoms a value is built from, through linear forms and operations"""
    if seen is None:
        seen = set()
    for p in v.p:
        if p[0] == "s" and p[1] not in seen:
            a = p[1]
            seen.add(a)
            if a.kind == "lin":
                for t, _ in a.a["lin"][1]:
                    atoms_of(t, seen)
            elif a.kind == "op":
                for t in a.a["args"]:
                    atoms_of(t, seen)
    return seen


def rebuild(v, f):
    """apply f: piece ('s',atom,lo,w) of a leaf atom -> Val | None over a value, through linear forms and operations"""
    out = []
    changed = False
    for p in v.p:
        if p[0] == "c":
            out.append(Val(p[1], (p,)))
            continue
        r = f(p)
        if r is not None:
            changed = True
            out.append(r)
            continue
        a = p[1]
        n = None
        if a.kind == "lin":
            c, ts = a.a["lin"]
            nts = [(rebuild(t, f), k) for t, k in ts]
            if any(x is not y[0] and x != y[0] for (x, _), y in zip(nts, ts)):
                n = lin(a.w, c, nts)
        elif a.kind == "op":
            na = tuple(rebuild(t, f) for t in a.a["args"])
            if na != a.a["args"]:
                kw = {k: x for k, x in a.a.items() if k not in ("op", "args")}
                n = op(a.a["op"], a.w, na, **kw)
        if n is not None:
            changed = True
            out.append(bits(n, p[2], p[3]))
        else:
            out.append(Val(p[3], (p,)))
    return cat(*out) if changed else v


def show(v):
    def sp(p):
        if p[0] == "c":
            return "%d:%d" % (p[2], p[1])
        a = p[1]
        if a.kind == "lin":
            c, ts = a.a["lin"]
            s = "(" + "+".join(["%s%s" % ("" if k == 1 else "%d*" % signed(k, a.w), show(t)) for t, k in ts])
            s += ("%+d" % signed(c, a.w) if c else "") + ")"
        elif a.kind == "op":
            s = "%s(%s)" % (a.a["op"] + a.a.get("pred", ""), ",".join(show(x) for x in a.a["args"]))
        else:
            s = "%s%s#%d" % (a.kind, "" if "n" not in a.a else ":" + str(a.a["n"]), a.id)
        if p[2] == 0 and (p[3] == a.w or (a.ptr and p[3] == 48)):
            return s
        return "%s[%d+%d]" % (s, p[2], p[3])

    if is_const(v):
        return str(cval(v))
    if as_atom(v) is not None:
        return sp(v.p[0])
    return "|".join(sp(p) for p in v.p)
