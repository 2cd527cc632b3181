"""Branch facts known on a path: equalities, disequalities and linear inequalities over the value domain."""
from fractions import Fraction
from math import gcd

from terms import *

LIM = 40  # constraints kept by the elimination before it gives up (and proves nothing)


def sigbits(v):
    """number of low bits outside of which the value is known to be zero"""
    n = pos = 0
    for p in v.p:
        pos += pw(p)
        x = Val(pw(p), (p,))
        if not (is_const(x) and cval(x) == 0):
            n = pos
    return n


class Facts:
    __slots__ = ("rep", "nes", "les", "_rc")

    def __init__(self, rep=None, nes=(), les=()):
        self.rep = rep or {}
        self.nes = nes
        self.les = les
        self._rc = {}

    def copy(self):
        return Facts(dict(self.rep), self.nes, self.les)

    # ---- equalities -------------------------------------------------------------------------------------------
    def _piece(self, p):
        known = self.rep.get(p[1])
        if not known:
            return None
        lo, hi = p[2], p[2] + p[3]
        out = []
        pos = lo
        hit = False
        for klo, kw, kv in known:
            a, b = max(lo, klo), min(hi, klo + kw)
            if a >= b:
                continue
            hit = True
            if a > pos:
                out.append(Val(a - pos, (("s", p[1], pos, a - pos),)))
            out.append(bits(kv, a - klo, b - a))
            pos = b
        if not hit:
            return None
        if pos < hi:
            out.append(Val(hi - pos, (("s", p[1], pos, hi - pos),)))
        return cat(*out)

    def resolve(self, v):
        if not self.rep:
            return v
        r = self._rc.get(v)
        if r is not None:
            return r
        cur = v
        for _ in range(12):
            n = rebuild(cur, self._piece)
            if n == cur:
                break
            cur = n
        self._rc[v] = cur
        return cur

    def _bind(self, p, v):
        l = list(self.rep.get(p[1], ()))
        l.append((p[2], p[3], v))
        l.sort(key=lambda x: x[0])
        self.rep[p[1]] = tuple(l)
        self._rc = {}

    def eq(self, a, b):
        return a == b or self.resolve(a) == self.resolve(b) or self._num_eq(a, b)

    def _num_eq(self, a, b):
        if not self.les or a.w != 64 or b.w != 64:
            return False
        d = sub(self.resolve(a), self.resolve(b))
        c, ts = toint(d)
        if not ts:
            return c == 0
        if any(is_ptr(t) for t in ts):
            return False
        return self.le0(c, ts) and self.le0(-c, {t: -k for t, k in ts.items()})

    def ne(self, a, b):
        a, b = self.resolve(a), self.resolve(b)
        if a == b:
            return False
        n = self.scaled(a, b)
        if n:
            return self.ne(*n)
        if a.w == b.w == 64 or a.w == b.w:
            d = sub(a, b)
            if is_const(d) and cval(d):
                return True
        for _, x, y in align(a, b):
            if is_const(x) and is_const(y) and cval(x) != cval(y):
                return True
        for x, y in ((a, b), (b, a)):
            if is_const(y) and cval(y) == 0 and nonnull(x):
                return True
        for x, y in self.nes:
            x, y = self.resolve(x), self.resolve(y)
            if x.w == a.w:
                if (x == a and y == b) or (x == b and y == a):
                    return True
            elif x.w < a.w:
                cuts = set()
                for v in (a, b):
                    pos = 0
                    for p in v.p:
                        cuts.add(pos)
                        for q in (x.p[0], y.p[0]):
                            if p[0] == "s" and q[0] == "s" and q[1] is p[1] and p[2] < q[2] < p[2] + p[3]:
                                cuts.add(pos + q[2] - p[2])
                        pos += pw(p)
                for lo in cuts:
                    if lo + x.w <= a.w:
                        s, t = bits(a, lo, x.w), bits(b, lo, x.w)
                        if (s == x and t == y) or (s == y and t == x):
                            return True
        if self.les and a.w == 64:
            d = sub(a, b)
            c, ts = toint(d)
            if ts and not any(is_ptr(t) for t in ts):
                # d >= 1 or d <= -1
                if self.le0(1 - c, {t: -k for t, k in ts.items()}) or self.le0(c + 1, ts):
                    return True
        return False

    def scaled(self, a, b):
        """(x, y) when a == b is the same as x == y because both are positions in one array: base + k*x, base + k*y"""
        if a.w != 64:
            return None
        c, ts = lin_parts(sub(a, b))
        if c or len(ts) != 2:
            return None
        (x, k), (y, q) = [(t, signed(k, 64)) for t, k in ts.items()]
        if k != -q or abs(k) < 2 or max(sigbits(x), sigbits(y)) + abs(k).bit_length() > 62:
            return None
        return x, y

    def add_eq(self, a, b):
        """False when the equality contradicts what is known"""
        a, b = self.resolve(a), self.resolve(b)
        if a == b:
            return True
        n = self.scaled(a, b)
        if n:
            return self.add_eq(*n)
        if self.ne(a, b):
            return False
        if a.w == 64:
            c, ts = toint(sub(a, b))
            if ts and not any(is_ptr(t) and abs(k) == 1 and False for t, k in ts.items()):
                g = 0
                for k in ts.values():
                    g = gcd(g, abs(k))
                if not any(is_ptr(t) for t in ts):
                    if c % g:
                        return False
                    self.les = self.les + ((c // g, {t: k // g for t, k in ts.items()}), (-c // g, {t: -k // g for t, k in ts.items()}))
                # solve for an unknown with a unit coefficient
                la, lb = lin_parts(a), lin_parts(b)
                if len(ts) >= 1 and (len(la[1]) > 1 or len(lb[1]) > 1 or la[0] or lb[0]):
                    order = sorted(ts.items(), key=lambda x: -max([q.id for q in atoms_of(x[0])] or [0]))
                    for args in (False, True):
                        for t, k in order:
                            if abs(k) == g and c % g == 0 and t.p[0][0] == "s" and t.w == 64 and (len(t.p) == 1 and not args and t.p[0][1].kind != "arg" or as_atom(t) is not None and is_ptr(t) and args and t.p[0][1].kind == "arg"):
                                rest = lin(64, -(c // g) * (k // g), [(u, -(q // g) * (k // g)) for u, q in ts.items() if u != t])
                                if t.p[0][1] not in atoms_of(rest):
                                    if self.les and not any(is_ptr(u) for u in ts) and as_atom(t) is not None:
                                        self.les = self.les + ((0, {t: -1}),)
                                    self._bind(t.p[0], bits(rest, 0, t.p[0][3]))
                                    return self._consistent()
        for _, x, y in align(a, b):
            x, y = self.resolve(x), self.resolve(y)
            if x == y:
                continue
            if is_const(x):
                x, y = y, x
            if is_const(x):
                return False
            if not is_const(y) and len(y.p) == 1 and len(x.p) == 1:
                # bind the younger unknown to the older one; what a constructor or the caller left is kept
                kx, ky = x.p[0][1].kind in ("hdr", "arg", "cfg"), y.p[0][1].kind in ("hdr", "arg", "cfg")
                if (kx and not ky) or (kx == ky and y.p[0][1].id > x.p[0][1].id):
                    x, y = y, x
            if len(x.p) != 1:
                for _, x1, y1 in align(x, y):
                    if not self.add_eq(x1, y1):
                        return False
                continue
            if x.p[0][1] in atoms_of(y):
                if len(y.p) == 1 and y.p[0][1] not in atoms_of(x):
                    x, y = y, x
                else:
                    continue
            p = x.p[0]
            if p[1].kind == "lin" and p[2] == 0 and is_const(y):
                # c + k*t == const with odd k = +-1
                c, ts = p[1].a["lin"]
                if len(ts) == 1 and p[3] == p[1].w and signed(ts[0][1], p[3]) in (1, -1):
                    s = signed(ts[0][1], p[3])
                    if not self.add_eq(ts[0][0], const(p[3], s * (cval(y) - c))):
                        return False
                    continue
            self._bind(p, y)
        return self._consistent()

    def add_ne(self, a, b):
        a, b = self.resolve(a), self.resolve(b)
        if a == b:
            return False
        n = self.scaled(a, b)
        if n:
            return self.add_ne(*n)
        if self.ne(a, b):
            return True
        parts = [(x, y) for _, x, y in align(a, b) if x != y]
        if len(parts) == 1 and not (a.w == 64 and (len(lin_parts(a)[1]) > 1 or len(lin_parts(b)[1]) > 1 or lin_parts(a)[0] or lin_parts(b)[0])):
            self.nes = self.nes + (parts[0],)
        else:
            self.nes = self.nes + ((a, b),)
        if a.w == 64 and self.les is not None:
            c, ts = toint(sub(a, b))
            if ts and not any(is_ptr(t) for t in ts):
                # a <= b known => a < b
                if self.les:
                    neg = {t: -k for t, k in ts.items()}
                    if self.le0(c, ts):
                        self.les = self.les + ((c + 1, ts),)
                    elif self.le0(-c, neg):
                        self.les = self.les + ((-c + 1, neg),)
        return self._consistent()

    def _consistent(self):
        for x, y in self.nes:
            if self.resolve(x) == self.resolve(y):
                return False
        return True

    # ---- linear inequalities: (c, {v: k}) means c + sum k*v <= 0 over the integers -------------------------------
    def _ints(self, v):
        return toint(self.resolve(v))

    def le0(self, c, ts):
        """c + sum <= 0 follows"""
        ts = {t: k for t, k in ts.items() if k}
        if not ts:
            return c <= 0
        # negation: c + sum >= 1
        cons = [(1 - c, {t: -k for t, k in ts.items()})]
        return self._infeasible(cons)

    def _system(self, extra):
        cons = []
        vs = set()
        for c, ts in list(extra) + list(self.les):
            acc = {}
            cc = c
            for t, k in ts.items():
                tc, tt = toint(self.resolve(t)) if self.rep else (0, {t: 1})
                cc += k * tc
                for u, q in tt.items():
                    acc[u] = acc.get(u, 0) + q * k
            acc = {t: k for t, k in acc.items() if k}
            cons.append((cc, acc))
            vs |= set(acc)
        for v in vs:
            cons.append((0, {v: -1}))
            a = as_atom(v)
            if a is not None and a.kind == "op" and a.a["op"] == "alignrem":
                cons.append((1 - a.a["n"], {v: 1}))
        return cons

    def _infeasible(self, extra):
        return fm_infeasible(self._system(extra))

    def tidy(self, alive):
        """forget the unknowns that are not alive (their consequences for the others are kept) and what is redundant"""
        sys_ = {}
        dead = set()
        for c, ts in self.les:
            acc = {}
            for t, k in ts.items():
                tc, tt = toint(self.resolve(t)) if self.rep else (0, {t: 1})
                c += k * tc
                for u, q in tt.items():
                    acc[u] = acc.get(u, 0) + q * k
            acc = {t: k for t, k in acc.items() if k}
            if not acc:
                continue
            dead |= {t for t in acc if not atoms_of(t) <= alive}
            c, acc = fm_tight(c, acc)
            key = frozenset(acc.items())
            if key not in sys_ or sys_[key] < c:
                sys_[key] = c
        for t in dead:
            pos, neg, rest = [], [(0, {t: -1}, 1)], {}
            for key, c in sys_.items():
                d = dict(key)
                k = d.get(t, 0)
                if k > 0:
                    pos.append((c, d, k))
                elif k < 0:
                    neg.append((c, d, -k))
                else:
                    rest[key] = c
            if len(pos) * len(neg) + len(rest) < 80:
                for c1, d1, k1 in pos:
                    for c2, d2, k2 in neg:
                        acc = {}
                        for d, m in ((d1, k2), (d2, k1)):
                            for u, q in d.items():
                                acc[u] = acc.get(u, 0) + q * m
                        acc = {u: q for u, q in acc.items() if q}
                        if not acc:
                            continue
                        c, acc = fm_tight(c1 * k2 + c2 * k1, acc)
                        key = frozenset(acc.items())
                        if key not in rest or rest[key] < c:
                            rest[key] = c
            sys_ = rest
        les = [(c, dict(k)) for k, c in sys_.items()]
        les.sort(key=lambda x: (len(x[1]), abs(x[0])))
        i = len(les) - 1
        while i >= 0:
            c, ts = les[i]
            self.les = tuple(les[:i] + les[i + 1 :])
            if self.le0(c, ts):
                del les[i]
            i -= 1
        self.les = tuple(les)
        nes = []
        for x, y in self.nes:
            x, y = self.resolve(x), self.resolve(y)
            if x.w == 64 and is_ptr(x) and is_ptr(y):
                c, ts = lin_parts(sub(x, y))
                g = 0
                for k in ts.values():
                    g = gcd(g, abs(signed(k, 64)))
                c = signed(c, 64)
                if ts and not any(is_ptr(t) for t in ts):
                    if c % g:
                        continue
                    x, y = lin(64, c // g, [(t, signed(k, 64) // g) for t, k in ts.items()]), const(64, 0)
            if atoms_of(x) | atoms_of(y) <= alive and (x, y) not in nes:
                nes.append((x, y))
        self.nes = tuple(nes)

    def feasible(self, extra=()):
        return not self._infeasible(list(extra))

    def as_int(self, v):
        """an integer linear form equal to the unsigned value of v, or None"""
        v = self.resolve(v)
        if v.w < 64:
            v = zext(v, 64)
        c, ts = toint(v)
        if not ts:
            return (c % (1 << 64), {})
        if len(ts) == 1 and c == 0 and list(ts.values())[0] == 1:
            return c, ts
        if self.le0(-c, {t: -k for t, k in ts.items()}):
            return c, ts
        if self.le0(c + 1, ts):
            return c + (1 << 64), ts
        return None

    @staticmethod
    def _as_eq(pred, a, b):
        """comparisons with the ends of the range are equalities"""
        if is_const(a) and not is_const(b):
            a, b = b, a
            pred = {"ult": "ugt", "ule": "uge", "ugt": "ult", "uge": "ule"}.get(pred, pred)
        if is_const(b) and pred in ("ult", "ule", "ugt", "uge"):
            k = cval(b)
            if (pred, k) in (("ugt", 0), ("uge", 1)):
                return "ne", a, const(a.w, 0)
            if (pred, k) in (("ule", 0), ("ult", 1)):
                return "eq", a, const(a.w, 0)
        return None

    def add_cmp(self, pred, a, b):
        """record an integer comparison; False when contradictory"""
        e = self._as_eq(pred, self.resolve(a), self.resolve(b))
        if e is not None:
            pred, a, b = e
        if pred == "eq":
            return self.add_eq(a, b)
        if pred == "ne":
            return self.add_ne(a, b)
        r = self._cmp_con(pred, a, b)
        if r is None:
            return True
        if self._infeasible([r]):
            return False
        self.les = self.les + (r,)
        # both directions known: equal
        return True

    def _cmp_con(self, pred, a, b):
        if pred[0] == "s":
            # signed comparisons of values known non-negative coincide with unsigned ones
            pred = "u" + pred[1:]
        if is_ptr(a) or is_ptr(b):
            c, ts = toint(sub(self.resolve(a), self.resolve(b)))
            if any(is_ptr(t) for t in ts):
                return None
            x = (c, ts)
            y = (0, {})
        else:
            x, y = self.as_int(a), self.as_int(b)
            if x is None or y is None:
                return None
        if pred in ("ugt", "uge"):
            x, y = y, x
            pred = {"ugt": "ult", "uge": "ule"}[pred]
        c = x[0] - y[0]
        ts = dict(x[1])
        for t, k in y[1].items():
            ts[t] = ts.get(t, 0) - k
        ts = {t: k for t, k in ts.items() if k}
        if pred == "ult":
            c += 1
        elif pred != "ule":
            return None
        return (c, ts)

    def cmp(self, pred, a, b):
        """True / False / None"""
        e = self._as_eq(pred, self.resolve(a), self.resolve(b))
        if e is not None:
            pred, a, b = e
        if pred == "eq":
            return True if self.eq(a, b) else False if self.ne(a, b) else None
        if pred == "ne":
            return False if self.eq(a, b) else True if self.ne(a, b) else None
        ra, rb = self.resolve(a), self.resolve(b)
        if is_const(ra) and is_const(rb):
            x, y = cval(ra), cval(rb)
            if pred[0] == "s":
                x, y = signed(x, ra.w), signed(y, rb.w)
            return {"lt": x < y, "le": x <= y, "gt": x > y, "ge": x >= y}[pred[1:]]
        if ra == rb:
            return pred[1:] in ("le", "ge")
        r = self._cmp_con(pred, ra, rb)
        if r is None:
            return None
        if self.le0(*r):
            return True
        if self._infeasible([r]):
            return False
        return None


def nonnull(v):
    a = as_atom(v)
    if a is not None:
        return a.nonnull
    if len(v.p) == 1 and v.p[0][0] == "s" and v.p[0][2] == 0 and v.p[0][1].ptr and v.p[0][3] == 48:
        return v.p[0][1].nonnull
    return False


def toint(v):
    c, ts = lin_parts(v)
    if any(as_atom(t) is not None and as_atom(t).kind == "op" and as_atom(t).a["op"] == "aligndown" for t in ts):
        # an aligned-down address is the address minus a small remainder
        l = []
        for t, k in ts.items():
            a = as_atom(t)
            if a is not None and a.kind == "op" and a.a["op"] == "aligndown":
                x = a.a["args"][0]
                l += [(x, k), (op("alignrem", 64, (x,), n=a.a["n"]), -k)]
            else:
                l.append((t, k))
        c, ts = lin_parts(lin(v.w, c, l))
    out = {}
    for t, k in ts.items():
        # a zero-extended narrow value is its own unknown
        if len(t.p) > 1 and t.p[-1][0] == "c" and t.p[-1][2] == 0 and not is_ptr(t):
            t = bits(t, 0, t.w - t.p[-1][1])
        out[t] = out.get(t, 0) + signed(k, v.w)
    return signed(c, v.w), out


def fm_tight(c, ts):
    g = 0
    for k in ts.values():
        g = gcd(g, abs(k))
    if g > 1:
        # sum <= -c  ->  sum/g <= floor(-c/g)
        return -((-c) // g), {t: k // g for t, k in ts.items()}
    return c, ts


def fm_infeasible(cons):
    """True only when the system has no integer solution"""
    if fm_rational(cons):
        return True
    if not any(abs(k) > 1 for _, ts in cons for k in ts.values()):
        return False
    b = fm_bounds(cons)
    return b is None or fm_rational(list(cons) + b)


def fm_bounds(cons):
    """the bounds of single unknowns that follow with rounding; None when there is no solution"""
    rows = []
    for c, ts in cons:
        ts = {t: k for t, k in ts.items() if k}
        if ts:
            c, ts = fm_tight(c, ts)
            rows.append((c, list(ts.items())))
    lo, hi = {}, {}
    for _ in range(6):
        changed = False
        for c, ts in rows:
            # k*t <= -c - sum of the least values of the others
            open_, s = [], -c
            for t, k in ts:
                v = lo.get(t) if k > 0 else hi.get(t)
                if v is None:
                    open_.append(t)
                else:
                    s -= k * v
            if len(open_) > 1:
                continue
            for t, k in ts:
                if open_ and t is not open_[0]:
                    continue
                r = s
                if not open_:
                    r += k * (lo[t] if k > 0 else hi[t])
                if k > 0:
                    v = r // k
                    if t not in hi or v < hi[t]:
                        hi[t] = v
                        changed = True
                else:
                    v = -(r // -k)
                    if t not in lo or v > lo[t]:
                        lo[t] = v
                        changed = True
                if t in lo and t in hi and lo[t] > hi[t]:
                    return None
        if not changed:
            break
    return [(-v, {t: 1}) for t, v in hi.items()] + [(v, {t: -1}) for t, v in lo.items()]


def fm_rational(cons):
    """Fourier-Motzkin with integer tightening"""
    tight = fm_tight
    sys_ = {}
    for c, ts in cons:
        if not ts:
            if c > 0:
                return True
            continue
        c, ts = tight(c, ts)
        key = frozenset(ts.items())
        if key not in sys_ or sys_[key] < c:
            sys_[key] = c
    for _ in range(16):
        if not sys_:
            return False
        vs = {}
        for key in sys_:
            for t, k in key:
                p, n = vs.get(t, (0, 0))
                vs[t] = (p + (k > 0), n + (k < 0))
        t = min(vs, key=lambda t: (vs[t][0] * vs[t][1] - vs[t][0] - vs[t][1]))
        pos, neg, rest = [], [], {}
        for key, c in sys_.items():
            d = dict(key)
            k = d.get(t, 0)
            if k > 0:
                pos.append((c, d, k))
            elif k < 0:
                neg.append((c, d, -k))
            else:
                rest[key] = c
        for c1, d1, k1 in pos:
            for c2, d2, k2 in neg:
                acc = {}
                for u, q in d1.items():
                    acc[u] = acc.get(u, 0) + q * k2
                for u, q in d2.items():
                    acc[u] = acc.get(u, 0) + q * k1
                acc = {u: q for u, q in acc.items() if q}
                c = c1 * k2 + c2 * k1
                if not acc:
                    if c > 0:
                        return True
                    continue
                c, acc = tight(c, acc)
                key = frozenset(acc.items())
                if key not in rest or rest[key] < c:
                    rest[key] = c
        sys_ = rest
        if len(sys_) > 400:
            return False
    return False
