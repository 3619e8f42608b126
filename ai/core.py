"""Numeric abstract domain.

Integers are abstracted by exact polynomials over *atoms* (unknown integers
with an interval), guarded by a decision diagram over boolean atoms.  Truncation
low_k(x) of a value that may exceed k bits introduces an atom which remembers
its definition, so x >> k == (x - low_k(x)) / 2^k stays exact.  Booleans are
reduced ordered BDDs whose variables are comparisons of polynomials against
constants, bits of small values, or opaque predicates.
"""
from math import gcd
import sys

sys.setrecursionlimit(100000)


class Unsupported(Exception):
    pass


# --------------------------------------------------------------------------
# atoms


class Atom:
    __slots__ = ("id", "lo", "hi", "name", "dfn")

    def __init__(self, id, lo, hi, name, dfn):
        self.id = id
        self.lo = lo
        self.hi = hi
        self.name = name
        self.dfn = dfn


ATOMS = []
ATOM_MEMO = {}


def new_atom(lo, hi, name="", dfn=None):
    a = Atom(len(ATOMS), lo, hi, name, dfn)
    ATOMS.append(a)
    return Poly({(a.id,): 1}, 0)


def memo_atom(key, lo, hi, name=""):
    p = ATOM_MEMO.get(key)
    if p is None:
        p = new_atom(lo, hi, name, key)
        ATOM_MEMO[key] = p
    return p


INF = None  # unbounded


class Poly:
    """sum(coeff * monomial) / 2^s ; monomial = sorted tuple of atom ids."""

    __slots__ = ("t", "s", "_key", "_iv", "_h", "_c")

    def __init__(self, t, s=0, norm=True):
        if norm:
            t = {m: c for m, c in t.items() if c}
            if s:
                g = 0
                for c in t.values():
                    g |= c
                    if g & 1:
                        break
                if g and not g & 1:
                    k = min(s, (g & -g).bit_length() - 1)
                    t = {m: c >> k for m, c in t.items()}
                    s -= k
                if not t:
                    s = 0
        self.t = t
        self.s = s
        self._key = None
        self._iv = None
        self._c = None

    @property
    def key(self):
        k = self._key
        if k is None:
            k = self._key = (self.s, frozenset(self.t.items()))
        return k

    def __hash__(self):
        return hash(self.key)

    def __eq__(self, o):
        if self is o:
            return True
        if isinstance(o, Poly):
            return self.s == o.s and self.t == o.t
        if isinstance(o, int):
            return self.is_const() and self.const_value() == o
        return False

    def __ne__(self, o):
        return not self == o

    def is_const(self):
        t = self.t
        return not t or (len(t) == 1 and () in t)

    def const_value(self):
        c = self.t.get((), 0)
        assert self.s == 0
        return c

    def atoms(self):
        r = set()
        for m in self.t:
            r.update(m)
        return r

    def __repr__(self):
        if len(self.t) > 12:
            return "<poly %d terms /2^%d>" % (len(self.t), self.s)
        ts = []
        for m, c in sorted(self.t.items(), key=lambda z: (len(z[0]), z[0])):
            n = "*".join(ATOMS[a].name or ("a%d" % a) for a in m)
            if not m:
                ts.append(str(c))
            elif c == 1:
                ts.append(n)
            else:
                ts.append("%d*%s" % (c, n))
        r = " + ".join(ts) or "0"
        return r if not self.s else "(%s)/2^%d" % (r, self.s)


def P(x):
    if isinstance(x, Poly):
        return x
    return Poly({(): int(x)} if x else {}, 0, False)


def simp(p):
    """Poly -> int when constant."""
    if isinstance(p, Poly) and p.is_const() and p.s == 0:
        return p.const_value()
    return p


def _padd(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a + b
    a, b = P(a), P(b)
    if a.s == b.s:
        t = dict(a.t)
        for m, c in b.t.items():
            v = t.get(m, 0) + c
            if v:
                t[m] = v
            else:
                t.pop(m, None)
        return simp(Poly(t, a.s))
    if a.s < b.s:
        a, b = b, a
    k = a.s - b.s
    t = dict(a.t)
    for m, c in b.t.items():
        v = t.get(m, 0) + (c << k)
        if v:
            t[m] = v
        else:
            t.pop(m, None)
    return simp(Poly(t, a.s))


def _pneg(a):
    if isinstance(a, int):
        return -a
    return Poly({m: -c for m, c in a.t.items()}, a.s, False)


def _psub(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a - b
    return _padd(a, _pneg(b))


def _pscale(a, k):
    if isinstance(a, int):
        return a * k
    if k == 0:
        return 0
    if k == 1:
        return a
    return Poly({m: c * k for m, c in a.t.items()}, a.s)


def _pdiv2k(a, k):
    """a / 2^k exactly (the caller guarantees integrality of the value)."""
    if isinstance(a, int):
        assert a & ((1 << k) - 1) == 0
        return a >> k
    return simp(Poly(dict(a.t), a.s + k))


def _pmul(a, b):
    if isinstance(a, int):
        return _pscale(b, a) if not isinstance(b, int) else a * b
    if isinstance(b, int):
        return _pscale(a, b)
    if len(a.t) * len(b.t) > 400000:
        raise Unsupported("polynomial product too large")
    t = {}
    for m1, c1 in a.t.items():
        for m2, c2 in b.t.items():
            if not m1:
                m = m2
            elif not m2:
                m = m1
            else:
                m = tuple(sorted(m1 + m2))
                if len(m) > 12:
                    raise Unsupported("polynomial degree too large")
            v = t.get(m, 0) + c1 * c2
            if v:
                t[m] = v
            else:
                t.pop(m, None)
    return simp(Poly(t, a.s + b.s))



# The public operations also propagate intervals compositionally: the interval
# of a + b is the intersection of the one computed from the expanded polynomial
# with the sum of the operands' intervals.


def _set(r, lo, hi):
    if isinstance(r, Poly):
        c = r._c
        if c is None:
            r._c = (lo, hi)
        else:
            r._c = (c[0] if lo is None else lo if c[0] is None else max(lo, c[0]),
                    c[1] if hi is None else hi if c[1] is None else min(hi, c[1]))
        r._iv = None
        if r.s:
            k = r.key
            o = KNOWN.get(k)
            KNOWN[k] = r._c if o is None else (
                o[0] if r._c[0] is None else r._c[0] if o[0] is None else max(o[0], r._c[0]),
                o[1] if r._c[1] is None else r._c[1] if o[1] is None else min(o[1], r._c[1]))
    return r


def padd(a, b):
    r = _padd(a, b)
    if isinstance(r, Poly) and r is not a and r is not b:
        x, y = iv(a), iv(b)
        _set(r, None if x[0] is None or y[0] is None else x[0] + y[0],
             None if x[1] is None or y[1] is None else x[1] + y[1])
    return r


def pneg(a):
    r = _pneg(a)
    if isinstance(r, Poly):
        x = iv(a)
        _set(r, None if x[1] is None else -x[1], None if x[0] is None else -x[0])
    return r


def psub(a, b):
    r = _psub(a, b)
    if isinstance(r, Poly) and r is not a:
        x, y = iv(a), iv(b)
        _set(r, None if x[0] is None or y[1] is None else x[0] - y[1],
             None if x[1] is None or y[0] is None else x[1] - y[0])
    return r


def pscale(a, k):
    r = _pscale(a, k)
    if isinstance(r, Poly) and r is not a:
        x = iv(a)
        if k > 0:
            _set(r, None if x[0] is None else x[0] * k, None if x[1] is None else x[1] * k)
        else:
            _set(r, None if x[1] is None else x[1] * k, None if x[0] is None else x[0] * k)
    return r


def pmul(a, b):
    r = _pmul(a, b)
    if isinstance(r, Poly) and r is not a and r is not b:
        x, y = iv(a), iv(b)
        if None not in x and None not in y:
            v = (x[0] * y[0], x[0] * y[1], x[1] * y[0], x[1] * y[1])
            lo = min(v)
            if a is b or (isinstance(a, Poly) and a == b):
                lo = max(lo, 0)
            _set(r, lo, max(v))
    return r


def pdiv2k(a, k):
    r = _pdiv2k(a, k)
    if isinstance(r, Poly) and r is not a:
        x = iv(a)
        _set(r, None if x[0] is None else -((-x[0]) >> k), None if x[1] is None else x[1] >> k)
    return r


def _mono_iv(m, ref):
    lo, hi = 1, 1
    i = 0
    n = len(m)
    while i < n:
        a = m[i]
        j = i
        while j < n and m[j] == a:
            j += 1
        e = j - i
        i = j
        al, ah = ref.get(a) or (ATOMS[a].lo, ATOMS[a].hi)
        if al is None or ah is None:
            return None
        if e > 1:
            if al >= 0:
                al, ah = al**e, ah**e
            else:
                vs = [al**e, ah**e]
                al, ah = (0 if e % 2 == 0 and al < 0 < ah else min(vs)), max(vs)
        if lo >= 0 and al >= 0:
            lo, hi = lo * al, hi * ah
        else:
            vs = (lo * al, lo * ah, hi * al, hi * ah)
            lo, hi = min(vs), max(vs)
    return lo, hi


def raw_iv(p, ref):
    lo = hi = 0
    for m, c in p.t.items():
        if not m:
            lo += c
            hi += c
            continue
        iv = _mono_iv(m, ref)
        if iv is None:
            return None
        if c > 0:
            lo += c * iv[0]
            hi += c * iv[1]
        else:
            lo += c * iv[1]
            hi += c * iv[0]
    return lo, hi


def split_iv(p, ref):
    """raw_iv which treats low_k(a) and a as digits of one number."""
    r = raw_iv(p, ref)
    if r is None:
        return r
    groups = None
    t = p.t
    for m in t:
        if len(m) == 1:
            d = ATOMS[m[0]].dfn
            if d and d[0] == "low" and d[1].s == 0 and len(d[1].t) == 1:
                (bm, bc), = d[1].t.items()
                if bc == 1 and len(bm) == 1:
                    groups = groups or {}
                    groups.setdefault(bm[0], []).append((d[2], m))
    if not groups:
        return r
    rest = dict(t)
    lo = hi = 0
    for a, ls in groups.items():
        al, ah = ref.get(a) or (ATOMS[a].lo, ATOMS[a].hi)
        if al is None or ah is None or al < 0:
            continue
        ls.sort()
        cs = [rest.pop(m) for k, m in ls] + [rest.pop((a,), 0)]
        ks = [0] + [k for k, m in ls]
        for j in range(len(ks)):
            w = sum(cs[j:]) << ks[j]
            if j + 1 < len(ks):
                d0, d1 = 0, (1 << (ks[j + 1] - ks[j])) - 1
                if j == 0:
                    e = ref.get(ls[0][1][0])
                    if e:
                        d0, d1 = max(d0, e[0]), min(d1, e[1])
            else:
                d0, d1 = al >> ks[j], ah >> ks[j]
            lo += w * (d0 if w > 0 else d1)
            hi += w * (d1 if w > 0 else d0)
    x = raw_iv(Poly(rest, 0, False), ref)
    if x is None:
        return r
    return max(r[0], lo + x[0]), min(r[1], hi + x[1])


def round_iv(lo, hi, s):
    if s:
        lo = -((-lo) >> s)
        hi = hi >> s
    return lo, hi


def iv(p):
    """Unconditional integer interval of a poly (or None)."""
    if isinstance(p, int):
        return p, p
    r = p._iv
    if r is None:
        x = raw_iv(p, {})
        if x is None:
            r = (None, None)
        else:
            r = round_iv(x[0], x[1], p.s)
        k = KNOWN.get(p.key) if KNOWN else None
        kn = None
        if p.s:
            kn = KNOWN.get((p.s, frozenset((m, -c) for m, c in p.t.items())))
            if kn is not None:
                kn = (None if kn[1] is None else -kn[1], None if kn[0] is None else -kn[0])
        for c in (k, p._c, kn):
            if c is not None:
                r = (c[0] if r[0] is None else r[0] if c[0] is None else max(r[0], c[0]),
                     c[1] if r[1] is None else r[1] if c[1] is None else min(r[1], c[1]))
        p._iv = r
    return r


KNOWN = {}


def in_range(p, lo, hi):
    l, h = iv(p)
    return l is not None and l >= lo and h <= hi


# --------------------------------------------------------------------------
# BDDs.  Node = int id; 0 = False, 1 = True.

BV = [None, None]  # (var, hi, lo)
_UNIQ = {}
_ITE = {}


class Var:
    __slots__ = ("id", "kind", "data", "poly")

    def __init__(self, id, kind, data, poly=None):
        self.id = id
        self.kind = kind  # 'ge' (poly, c) | 'op' (opaque key)
        self.data = data
        self.poly = poly  # 0/1 valued poly equal to the variable, if natural

    def __repr__(self):
        if self.kind == "ge":
            return "[%r >= %d]" % self.data
        return "[%s]" % (self.data,)


VARS = []
_VAR_MEMO = {}


def mkvar(kind, data, poly=None):
    k = (kind, data)
    v = _VAR_MEMO.get(k)
    if v is None:
        v = Var(len(VARS), kind, data, poly)
        VARS.append(v)
        _VAR_MEMO[k] = v
        if poly is not None and isinstance(poly, Poly):
            FLAGS[_direction(poly)] = v
    return v


FLAGS = {}


def _direction(p):
    """the non-constant part up to a factor"""
    t = sorted((m, c) for m, c in p.t.items() if m)
    lead = t[0][1]
    g = 0
    for m, c in t:
        g = gcd(g, c)
    if lead < 0:
        g = -g
    return tuple((m, c // g) for m, c in t)


def two_valued(p):
    """(guard, value if set, value if not) for a quantity that is an affine
    function of one comparison, else None"""
    v = FLAGS.get(_direction(p))
    if v is None:
        return None
    z = v.poly
    m = next(m for m in sorted(z.t) if m)
    num, den = p.t[m] << z.s, z.t[m] << p.s
    if num % den:
        return None
    k = num // den
    lo = psub(p, pscale(z, k))
    if not isinstance(lo, int):
        return None
    return bvar(v), lo + k, lo


def bnode(var, hi, lo):
    if hi == lo:
        return hi
    k = (var, hi, lo)
    r = _UNIQ.get(k)
    if r is None:
        r = len(BV)
        BV.append(k)
        _UNIQ[k] = r
    return r


def bvar(v):
    return bnode(v.id, 1, 0)


def bite(f, g, h):
    if f == 1:
        return g
    if f == 0:
        return h
    if g == h:
        return g
    if g == 1 and h == 0:
        return f
    k = (f, g, h)
    r = _ITE.get(k)
    if r is not None:
        return r
    v = BV[f][0]
    if g > 1:
        v = min(v, BV[g][0])
    if h > 1:
        v = min(v, BV[h][0])

    def co(n):
        if n > 1 and BV[n][0] == v:
            return BV[n][1], BV[n][2]
        return n, n

    f1, f0 = co(f)
    g1, g0 = co(g)
    h1, h0 = co(h)
    r = bnode(v, bite(f1, g1, h1), bite(f0, g0, h0))
    _ITE[k] = r
    return r


def band(a, b):
    return bite(a, b, 0)


def bor(a, b):
    return bite(a, 1, b)


def bnot(a):
    return bite(a, 0, 1)


def bxor(a, b):
    return bite(a, bnot(b), b)


def bimp(a, b):
    return bite(a, b, 1)


_SUP = {}


def bsupport(n):
    if n < 2:
        return frozenset()
    r = _SUP.get(n)
    if r is None:
        v, h, l = BV[n]
        r = frozenset([v]) | bsupport(h) | bsupport(l)
        _SUP[n] = r
    return r


def bexists(n, keep, memo=None):
    """Quantify away every variable not in keep."""
    if memo is None:
        memo = {}
    if n < 2:
        return n
    r = memo.get(n)
    if r is None:
        v, h, l = BV[n]
        h2 = bexists(h, keep, memo)
        l2 = bexists(l, keep, memo)
        r = bnode(v, h2, l2) if v in keep and True else None
        if r is None:
            r = bor(h2, l2)
        else:
            # order is preserved since children only mention later variables
            pass
        memo[n] = r
    return r


def bcubes(n, limit=20000):
    """All paths to True as dicts var->bool."""
    out = []

    def go(n, cur):
        if n == 0:
            return
        if n == 1:
            out.append(dict(cur))
            if len(out) > limit:
                raise Unsupported("too many cases")
            return
        v, h, l = BV[n]
        cur[v] = True
        go(h, cur)
        cur[v] = False
        go(l, cur)
        del cur[v]

    go(n, {})
    return out


def brestrict(n, asg, memo=None):
    if n < 2:
        return n
    if memo is None:
        memo = {}
    r = memo.get(n)
    if r is None:
        v, h, l = BV[n]
        if v in asg:
            r = brestrict(h if asg[v] else l, asg, memo)
        else:
            r = bnode(v, brestrict(h, asg, memo), brestrict(l, asg, memo))
        memo[n] = r
    return r


def bconstrain(f, c, memo=None):
    """Generalised cofactor (restrict): simplify f assuming c."""
    if c == 0 or c == 1 or f < 2:
        return f
    if memo is None:
        memo = {}
    k = (f, c)
    r = memo.get(k)
    if r is not None:
        return r
    fv = BV[f][0]
    cv = BV[c][0]
    if cv < fv:
        r = bconstrain(f, bor(BV[c][1], BV[c][2]), memo)
    else:
        f1, f0 = BV[f][1], BV[f][2]
        if cv == fv:
            c1, c0 = BV[c][1], BV[c][2]
        else:
            c1 = c0 = c
        if c1 == 0:
            r = bconstrain(f0, c0, memo)
        elif c0 == 0:
            r = bconstrain(f1, c1, memo)
        else:
            r = bnode(fv, bconstrain(f1, c1, memo), bconstrain(f0, c0, memo))
    memo[k] = r
    return r


# --------------------------------------------------------------------------
# guarded values (MTBDD)


class Node:
    """ite(var, hi, lo) over arbitrary leaf values."""

    __slots__ = ("var", "hi", "lo", "_h")

    def __init__(self, var, hi, lo):
        self.var = var
        self.hi = hi
        self.lo = lo
        self._h = None

    def __hash__(self):
        if self._h is None:
            self._h = hash((self.var, self.hi, self.lo))
        return self._h

    def __eq__(self, o):
        return self is o or (
            isinstance(o, Node) and self.var == o.var and self.hi == o.hi and self.lo == o.lo
        )

    def __repr__(self):
        return "ite(%r, %r, %r)" % (VARS[self.var], self.hi, self.lo)


class B:
    """Boolean value."""

    __slots__ = ("n",)

    def __init__(self, n):
        self.n = n

    def __eq__(self, o):
        return isinstance(o, B) and self.n == o.n

    def __hash__(self):
        return hash(("B", self.n))

    def __repr__(self):
        return "B%s" % bshow(self.n)


def bshow(n, depth=0):
    if n == 0:
        return "F"
    if n == 1:
        return "T"
    if depth > 6:
        return "..."
    v, h, l = BV[n]
    return "(%r ? %s : %s)" % (VARS[v], bshow(h, depth + 1), bshow(l, depth + 1))


TRUE = B(1)
FALSE = B(0)


class Undef:
    def __repr__(self):
        return "undef"

    def __eq__(self, o):
        return isinstance(o, Undef)

    def __hash__(self):
        return 7


UNDEF = Undef()


class EnumV:
    __slots__ = ("var", "f")

    def __init__(self, var, f):
        self.var = var
        self.f = f

    def __eq__(self, o):
        return isinstance(o, EnumV) and self.var == o.var and self.f == o.f

    def __hash__(self):
        return hash((self.var, self.f))

    def __repr__(self):
        return "v%d%r" % (self.var, self.f)


class Opaque:
    """Base of analysis-specific abstract leaf values (compare by ==)."""

    __slots__ = ()


class Forgotten(Opaque):
    """a value the analysis dropped; any use of it is undecided"""
    __slots__ = ()


FORGOTTEN = Forgotten()


def is_num(x):
    return isinstance(x, (int, Poly))


def mknode(v, hi, lo):
    """Guarded value with the structural merging rules."""
    if hi is lo or (type(hi) is type(lo) and hi == lo):
        return hi
    if is_num(hi) and is_num(lo):
        if hi == lo:
            return hi
        q = VARS[v].poly
        if q is not None:
            d = psub(hi, lo)
            if isinstance(d, int):
                return padd(lo, pscale(q, d))
        if isinstance(hi, int) != isinstance(lo, int):
            # a flag or carry that is implied by the other condition
            if isinstance(hi, Poly):
                x = iv(hi)
                if x[0] is not None and x[1] is not None and x[1] - x[0] <= 2:
                    b = bounds(hi, bnode(v, 0, 1))
                    if b is not None and b[0] == b[1] == lo:
                        return hi
                    b = bounds(hi, bnode(v, 1, 0))
                    if b is not None and b[0] == b[1]:
                        return mknode(v, b[0], lo)
            else:
                x = iv(lo)
                if x[0] is not None and x[1] is not None and x[1] - x[0] <= 2:
                    b = bounds(lo, bnode(v, 1, 0))
                    if b is not None and b[0] == b[1] == hi:
                        return lo
                    b = bounds(lo, bnode(v, 0, 1))
                    if b is not None and b[0] == b[1]:
                        return mknode(v, hi, b[0])
        return Node(v, hi, lo)
    if isinstance(hi, B) and isinstance(lo, B):
        return B(bite(bnode(v, 1, 0), hi.n, lo.n))
    if isinstance(hi, tuple) and isinstance(lo, tuple) and len(hi) == len(lo):
        return tuple(mknode(v, a, b) for a, b in zip(hi, lo))
    if isinstance(hi, EnumV) and isinstance(lo, EnumV) and hi.var == lo.var:
        return EnumV(hi.var, tuple(mknode(v, a, b) for a, b in zip(hi.f, lo.f)))
    if hasattr(hi, "merge"):
        r = hi.merge(v, lo)
        if r is not None:
            return r
    if isinstance(hi, Undef):
        # an undefined value may be refined arbitrarily
        return lo
    if isinstance(lo, Undef):
        return hi
    return Node(v, hi, lo)


def top_var(*xs):
    v = None
    for x in xs:
        if isinstance(x, Node):
            if v is None or x.var < v:
                v = x.var
        elif isinstance(x, B) and x.n > 1:
            w = BV[x.n][0]
            if v is None or w < v:
                v = w
    return v


def cof(x, v, s):
    if isinstance(x, Node):
        if x.var == v:
            return x.hi if s else x.lo
        return x
    if isinstance(x, B) and x.n > 1 and BV[x.n][0] == v:
        return B(BV[x.n][1] if s else BV[x.n][2])
    return x


def has_node(x):
    return isinstance(x, Node)


def vite(f, a, b):
    """ite over values; f is a BDD node."""
    if f == 1:
        return a
    if f == 0:
        return b
    if a is b:
        return a
    memo = {}

    def go(f, a, b):
        if f == 1:
            return a
        if f == 0:
            return b
        if a is b or (type(a) is type(b) and a == b):
            return a
        if a is FORGOTTEN or b is FORGOTTEN:
            return FORGOTTEN
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            return tuple(go(f, x, y) for x, y in zip(a, b))
        if isinstance(a, EnumV) and isinstance(b, EnumV) and a.var == b.var:
            return EnumV(a.var, tuple(go(f, x, y) for x, y in zip(a.f, b.f)))
        if isinstance(a, B) and isinstance(b, B):
            return B(bite(f, a.n, b.n))
        if isinstance(a, Undef):
            return b
        if isinstance(b, Undef):
            return a
        k = (f, id(a), id(b))
        r = memo.get(k)
        if r is not None:
            return r[0]
        v = BV[f][0]
        for x in (a, b):
            if isinstance(x, Node) and x.var < v:
                v = x.var
        if BV[f][0] == v:
            f1, f0 = BV[f][1], BV[f][2]
        else:
            f1 = f0 = f
        hi = go(f1, cofn(a, v, 1), cofn(b, v, 1))
        lo = go(f0, cofn(a, v, 0), cofn(b, v, 0))
        r = mknode(v, hi, lo)
        memo[k] = (r, a, b)
        return r

    return go(f, a, b)


def cofn(x, v, s):
    if isinstance(x, Node) and x.var == v:
        return x.hi if s else x.lo
    return x


def mapply(fn, *xs):
    """Apply fn to guarded operands leaf-wise (Nodes only, not BDD bools)."""
    if not any(isinstance(x, Node) for x in xs):
        return fn(*xs)
    memo = {}

    def go(xs):
        v = None
        for x in xs:
            if isinstance(x, Node) and (v is None or x.var < v):
                v = x.var
        if v is None:
            return fn(*xs)
        k = tuple(id(x) if isinstance(x, Node) else x for x in xs)
        try:
            r = memo.get(k)
        except TypeError:
            r = None
        if r is not None:
            return r
        hi = go(tuple(cofn(x, v, 1) for x in xs))
        lo = go(tuple(cofn(x, v, 0) for x in xs))
        r = combine(v, hi, lo)
        try:
            memo[k] = r
        except TypeError:
            pass
        return r

    return go(xs)


def combine(v, hi, lo):
    if isinstance(hi, B) and isinstance(lo, B):
        return B(bite(bnode(v, 1, 0), hi.n, lo.n))
    # children may contain variables above v only if fn introduced them
    return vite(bnode(v, 1, 0), hi, lo)


def vconstrain(x, c, memo=None):
    """Simplify a guarded value assuming BDD c (c satisfiable)."""
    if c < 2:
        return x
    if isinstance(x, B):
        return B(bconstrain(x.n, c)) if x.n > 1 else x
    if not isinstance(x, Node):
        return x
    if memo is None:
        memo = {}
    k = (id(x), c)
    r = memo.get(k)
    if r is not None:
        return r
    cv = BV[c][0]
    if cv < x.var:
        r = vconstrain(x, bor(BV[c][1], BV[c][2]), memo)
    else:
        if cv == x.var:
            c1, c0 = BV[c][1], BV[c][2]
        else:
            c1 = c0 = c
        if c1 == 0:
            r = vconstrain(x.lo, c0, memo)
        elif c0 == 0:
            r = vconstrain(x.hi, c1, memo)
        else:
            h, l = vconstrain(x.hi, c1, memo), vconstrain(x.lo, c0, memo)
            r = x if (h is x.hi and l is x.lo) else mknode(x.var, h, l)
    memo[k] = r
    return r


def leafset(x):
    """the distinct leaves of a guarded value"""
    if not isinstance(x, Node):
        return [x]
    out, seen, todo = [], set(), [x]
    while todo:
        x = todo.pop()
        if isinstance(x, Node):
            if id(x) not in seen:
                seen.add(id(x))
                todo.append(x.lo)
                todo.append(x.hi)
        elif not any(y is x or type(y) is type(x) and y == x for y in out):
            out.append(x)
    return out


def leaves(x, g=1):
    """[(guard, leaf)] of a guarded value."""
    if not isinstance(x, Node):
        return [(g, x)] if g else []
    out = []
    for l in leafset(x):
        memo = {}

        def ind(n):
            if not isinstance(n, Node):
                return 1 if n is l or type(n) is type(l) and n == l else 0
            r = memo.get(id(n))
            if r is None:
                r = memo[id(n)] = bnode(n.var, ind(n.hi), ind(n.lo))
            return r
        h = ind(x)
        if g != 1:
            h = band(g, h)
        if h:
            out.append((h, l))
    return out


# --------------------------------------------------------------------------
# conditional bounds


def _refinements(cube):
    """cube var->bool to (atom intervals, composite constraints) or None if
    contradictory."""
    ref = {}
    comp = {}
    for v, val in cube.items():
        var = VARS[v]
        if var.kind != "ge":
            continue
        p, c = var.data
        lo, hi = (c, None) if val else (None, c - 1)
        k = p.key
        e = comp.get(k)
        if e is None:
            e = comp[k] = [p, None, None]
        if lo is not None:
            e[1] = lo if e[1] is None else max(e[1], lo)
        if hi is not None:
            e[2] = hi if e[2] is None else min(e[2], hi)
    comps = []
    items = list(comp.values())
    for p, lo, hi in list(items):
        # floor(Q / 2^s) >= c  <=>  Q >= c * 2^s
        if p.s:
            Q = floor_of(p)
            if Q is not None:
                items.append([Q, None if lo is None else lo << p.s, None if hi is None else ((hi + 1) << p.s) - 1])
    for p, lo, hi in items:
        l0, h0 = iv(p)
        if lo is None or (l0 is not None and l0 > lo):
            lo = l0
        if hi is None or (h0 is not None and h0 < hi):
            hi = h0
        if lo is not None and hi is not None and lo > hi:
            return None
        # single atom: a*c0/2^s
        if len(p.t) == 1 and p.s == 0:
            (m, c), = p.t.items()
            if len(m) == 1 and c == 1:
                a = m[0]
                o = ref.get(a, (ATOMS[a].lo, ATOMS[a].hi))
                nl = lo if o[0] is None else (o[0] if lo is None else max(lo, o[0]))
                nh = hi if o[1] is None else (o[1] if hi is None else min(hi, o[1]))
                if nl is not None and nh is not None and nl > nh:
                    return None
                ref[a] = (nl, nh)
                continue
        comps.append((p, lo, hi))
    # propagate: composite constraints refine their atoms (linear, two rounds)
    for _ in range(2):
        for p, lo, hi in comps:
            for m, c in p.t.items():
                if len(m) != 1:
                    continue
                a = m[0]
                rest = Poly({k: v for k, v in p.t.items() if k != m}, 0, False)
                if any(a in k for k in rest.t):
                    continue
                r = raw_iv(rest, ref)
                if r is None:
                    continue
                # c*a = p*2^s - rest
                L = None if lo is None else (lo << p.s) - r[1]
                H = None if hi is None else (hi << p.s) - r[0]
                if c < 0:
                    L, H, cc = (None if H is None else -H), (None if L is None else -L), -c
                else:
                    cc = c
                al = None if L is None else -((-L) // cc)
                ah = None if H is None else H // cc
                o = ref.get(a, (ATOMS[a].lo, ATOMS[a].hi))
                nl = o[0] if al is None else (al if o[0] is None else max(al, o[0]))
                nh = o[1] if ah is None else (ah if o[1] is None else min(ah, o[1]))
                if nl is not None and nh is not None and nl > nh:
                    return None
                ref[a] = (nl, nh)
    # two constraints whose difference is bounded
    lin = [x for x in comps if x[0].s == 0 and 2 <= len(x[0].t) <= 6]
    if len(lin) <= 12:
        for p, plo, phi in lin:
            if phi is None:
                continue
            for q, qlo, qhi in lin:
                if qlo is None or q is p or not any(m in q.t for m in p.t):
                    continue
                d = _psub(p, q)
                if isinstance(d, int):
                    lo = d
                elif len(d.t) > 2:
                    continue
                else:
                    r = raw_iv(d, ref)
                    if r is None:
                        continue
                    lo = r[0]
                if qlo + lo > phi:
                    return None
    return ref, comps


def divisible(e, s):
    """Is the integer polynomial e (numerator, no scale) a multiple of 2^s?"""
    if isinstance(e, int):
        return e & ((1 << s) - 1) == 0
    if e.s:
        return False
    M = (1 << s) - 1
    for _ in range(4):
        t = {m: c for m, c in e.t.items() if c & M}
        if not t:
            return True
        e2 = Poly(t, 0, False)
        ch = False
        for m, c in t.items():
            if len(m) == 1:
                d = ATOMS[m[0]].dfn
                if d and d[0] == "low" and d[1].s == 0 and val2(c) + d[2] >= s:
                    e2 = P(_padd(_psub(e2, Poly({m: c}, 0, False)), _pscale(d[1], c)))
                    ch = True
        if not ch:
            return False
        e = e2
    return False


_FLOOR = {}


def floor_of(p):
    """Q such that p == floor(Q / 2^s), when p has that shape."""
    k = p.key
    if k in _FLOOR:
        return _FLOOR[k]
    r = None
    s = p.s
    for m, c in p.t.items():
        if c == -1 and len(m) == 1:
            d = ATOMS[m[0]].dfn
            if d and d[0] == "low" and d[2] == s and d[1].s == 0:
                Q = _padd(Poly(dict(p.t), 0, False), Poly({m: 1}, 0, False))
                if isinstance(Q, Poly) and divisible(_psub(Q, d[1]), s):
                    r = Q
                    break
    _FLOOR[k] = r
    return r


def _bound_cube(p, ref, comps, depth=2):
    best = [None, None]

    def upd(lo, hi):
        if lo is not None and (best[0] is None or lo > best[0]):
            best[0] = lo
        if hi is not None and (best[1] is None or hi < best[1]):
            best[1] = hi

    def go(q, addlo, addhi, used, d):
        # value p = (q + extra)/2^S ; extra in [addlo, addhi] (rationals as Fractions)
        r = split_iv(q, ref)
        if r is not None:
            from fractions import Fraction as F

            lo = None if addlo is None else F(r[0], 1 << q.s) + addlo
            hi = None if addhi is None else F(r[1], 1 << q.s) + addhi
            upd(lo, hi)
        if d == 0:
            return
        from fractions import Fraction as F

        for i, (t, lo, hi) in enumerate(comps):
            if i in used:
                continue
            cnt = {}
            for m, c in t.t.items():
                if not m:
                    continue
                x = q.t.get(m)
                if x is None:
                    continue
                # lam = (x / 2^q.s) / (c / 2^t.s); power-of-two denominators only
                v = val2(c)
                x, c = x, c >> v
                if x % c:
                    continue
                lk = (x // c, q.s + v - t.s)
                v = val2(lk[0])
                lk = (lk[0] >> v, lk[1] - v)
                cnt[lk] = cnt.get(lk, 0) + 1
            for lk in sorted(cnt, key=lambda z: -cnt[z])[:2]:
                lam = F(lk[0]) / (1 << lk[1]) if lk[1] >= 0 else F(lk[0] << -lk[1])
                den = lam.denominator
                k = den.bit_length() - 1
                scaled = Poly({mm: cc * lam.numerator for mm, cc in t.t.items()}, t.s + k)
                q2 = P(_psub(q, scaled))
                if lam > 0:
                    el = None if lo is None else lam * lo
                    eh = None if hi is None else lam * hi
                else:
                    el = None if hi is None else lam * hi
                    eh = None if lo is None else lam * lo
                nl = None if (addlo is None or el is None) else addlo + el
                nh = None if (addhi is None or eh is None) else addhi + eh
                if nl is None and nh is None:
                    continue
                go(q2, nl, nh, used | {i}, d - 1)

    from fractions import Fraction as F

    # equalities are substituted first (in order, each at most once)
    rem = comps
    q, add = p, F(0)
    if comps:
        used = set()
        progress = True
        while progress:
            progress = False
            for i, (t, lo, hi) in enumerate(comps):
                if i in used or lo is None or lo != hi:
                    continue
                ms = [m for m in t.t if m]
                common = [m for m in ms if m in q.t]
                if not common or len(common) * 2 < len(ms):
                    continue
                m = max(common, key=lambda m: abs(t.t[m]))
                lam = F(q.t[m], 1 << q.s) / F(t.t[m], 1 << t.s)
                den = lam.denominator
                if den & (den - 1):
                    continue
                scaled = Poly({mm: cc * lam.numerator for mm, cc in t.t.items()}, t.s + den.bit_length() - 1)
                q = P(_psub(q, scaled))
                add += lam * lo
                used.add(i)
                progress = True
        if used:
            go(q, add, add, frozenset(used), depth)
        # disjoint constraints that tile the polynomial (words made of bytes)
        q, alo, ahi, n = p, F(0), F(0), 0
        for t, lo, hi in sorted(comps, key=lambda e: len(e[0].t)):
            if lo is None or hi is None or len(t.t) < 2:
                continue
            lam = None
            for m, c in t.t.items():
                if not m:
                    continue
                x = q.t.get(m)
                if x is None or x % c or (lam is not None and x // c != lam):
                    break
                lam = x // c
            else:
                if lam is None or t.s or q.s or abs(lam) & (abs(lam) - 1):
                    continue
                q = P(_psub(q, Poly({m: c * lam for m, c in t.t.items()})))
                alo += min(lam * lo, lam * hi)
                ahi += max(lam * lo, lam * hi)
                n += 1
        if n > depth:
            go(q, alo, ahi, frozenset(), 0)
    go(p, F(0), F(0), frozenset(), depth if comps else 0)
    lo, hi = best
    if lo is not None:
        lo = -((-lo.numerator) // lo.denominator)
    if hi is not None:
        hi = hi.numerator // hi.denominator
    return lo, hi


def _unfold(p):
    """The low-atom of p with the largest weight (linear occurrences only)."""
    best = None
    for m, c in p.t.items():
        if len(m) != 1:
            continue
        d = ATOMS[m[0]].dfn
        if d and d[0] == "low" and (best is None or abs(c) > abs(best[1])):
            best = (m, c, d[1], d[2])
    if best is None:
        return None
    a = best[0][0]
    if any(a in m and len(m) > 1 for m in p.t):
        return None
    return best


def _bound_deep(p, ref, comps, depth):
    """_bound_cube, additionally unfolding low_k(D) = D - 2^k*q for every
    possible quotient q.  None when the case is empty."""
    l, h = _bound_cube(p, ref, comps)
    g = iv(p)
    if g[0] is not None:
        l = g[0] if l is None else max(l, g[0])
    if g[1] is not None:
        h = g[1] if h is None else min(h, g[1])
    if l is not None and h is not None and l > h:
        return None
    if depth == 0:
        return l, h
    # quotients already determined: substitute all of them
    p2 = p
    for _ in range(4):
        ch = False
        for m, c in list(p2.t.items()):
            if len(m) != 1 or m not in p2.t:
                continue
            d = ATOMS[m[0]].dfn
            if not (d and d[0] == "low") or any(m[0] in x and len(x) > 1 for x in p2.t):
                continue
            b = _bound_cube(d[1], ref, comps)
            g = iv(d[1])
            bl = b[0] if g[0] is None else g[0] if b[0] is None else max(b[0], g[0])
            bh = b[1] if g[1] is None else g[1] if b[1] is None else min(b[1], g[1])
            if bl is None or bh is None or bl >> d[2] != bh >> d[2]:
                continue
            c = p2.t[m]
            p2 = _padd(_psub(p2, Poly({m: c}, p2.s)), _scale_frac(_psub(d[1], (bl >> d[2]) << d[2]), c, p2.s))
            ch = True
            if isinstance(p2, int):
                return p2, p2
        if not ch:
            break
    if p2 is not p:
        r = _bound_cube(p2, ref, comps)
        l = r[0] if l is None else l if r[0] is None else max(l, r[0])
        h = r[1] if h is None else h if r[1] is None else min(h, r[1])
        if l is not None and h is not None and l > h:
            return None
        p = p2
    u = _unfold(p)
    if u is None:
        return l, h
    m, c, D, k = u
    b = _bound_deep(D, ref, comps, depth - 1)
    if b is None:
        return None
    if b[0] is None or b[1] is None or (b[1] >> k) - (b[0] >> k) > 3:
        return l, h
    nl = nh = None
    first = True
    for q in range(b[0] >> k, (b[1] >> k) + 1):
        p2 = _psub(p, Poly({m: c}, p.s))
        p2 = _padd(p2, _scale_frac(_psub(D, q << k), c, p.s))
        dl, dh = max(q << k, b[0]), min(((q + 1) << k) - 1, b[1])
        cs = comps
        if not isinstance(D, int):
            cs = comps + [(D, dl, dh), (P(_psub(D, Poly({m: 1}, 0, False))), q << k, q << k)]
        if isinstance(p2, int):
            r = (p2, p2)
        else:
            r = _bound_deep(p2, ref, cs, depth - 1)
        if r is None:
            continue
        r = (l if r[0] is None else r[0] if l is None else max(l, r[0]), h if r[1] is None else r[1] if h is None else min(h, r[1]))
        if r[0] is not None and r[1] is not None and r[0] > r[1]:
            continue
        if first:
            nl, nh, first = r[0], r[1], False
        else:
            nl = None if nl is None or r[0] is None else min(nl, r[0])
            nh = None if nh is None or r[1] is None else max(nh, r[1])
    if first:
        return None
    return nl, nh


def quotients(a, pc, deep=True):
    """Possible values of D >> k for the atom a = low_k(D) under pc."""
    d = ATOMS[a].dfn
    D, k = d[1], d[2]
    b = bounds(D, pc)
    if b is None:
        return []
    if b[0] is None or b[1] is None:
        return None
    if b[0] >> k == b[1] >> k:
        return [b[0] >> k]
    if not deep:
        return None
    b = bounds_deep(D, pc)
    if b is None:
        return []
    if b[0] >> k == b[1] >> k:
        return [b[0] >> k]
    if (b[1] >> k) - (b[0] >> k) > 4:
        return None
    L = Poly({(a,): 1}, 0, False)
    out = []
    sup = bsupport(pc)
    more = _def_atoms(L, 4)
    keep = set()
    while True:
        k2 = set(v for v in sup if v not in keep and var_atoms(v) & more)
        if not k2:
            break
        keep |= k2
        for v in k2:
            more |= var_atoms(v)
    cubes = [_refinements(c) for c in (bcubes(bexists(pc, keep)) if pc != 1 else [{}])]
    for q in range(b[0] >> k, (b[1] >> k) + 1):
        for rr in cubes:
            if rr is None:
                continue
            cs = rr[1] + [(D, q << k, ((q + 1) << k) - 1), (P(_psub(D, L)), q << k, q << k)]
            l, h = _bound_cube(L, rr[0], cs)
            if l is not None and h is not None and max(l, 0) > min(h, (1 << k) - 1):
                continue
            l, h = _bound_cube(D, rr[0], cs)
            l = b[0] if l is None else max(l, b[0], q << k)
            h = b[1] if h is None else min(h, b[1], ((q + 1) << k) - 1)
            if l > h:
                continue
            out.append(q)
            break
    return out


def _scale_frac(p, c, s):
    """c * p / 2^s"""
    if isinstance(p, int):
        return simp(Poly({(): p * c}, s))
    return simp(Poly({m: x * c for m, x in p.t.items()}, p.s + s))


_DCACHE = {}


def bounds_deep(p, pc, depth=4):
    """Interval of p under pc with quotient case distinction; None if empty."""
    if isinstance(p, int):
        return p, p
    k = (p.key, pc, depth)
    if k in _DCACHE:
        return _DCACHE[k]
    seen = {}
    ats = _def_atoms(p, depth)
    sup = bsupport(pc)
    more = set(ats)
    keep = set()
    while True:
        k2 = set(v for v in sup if v not in keep and var_atoms(v) & more)
        if not k2:
            break
        keep |= k2
        for v in k2:
            more |= var_atoms(v)
    lo = hi = None
    first = True
    for cube in bcubes(bexists(pc, keep)) if pc != 1 else [{}]:
        rr = _refinements(cube)
        if rr is None:
            continue
        r = _bound_deep(p, rr[0], rr[1], depth)
        if r is None:
            continue
        if first:
            lo, hi, first = r[0], r[1], False
        else:
            lo = None if lo is None or r[0] is None else min(lo, r[0])
            hi = None if hi is None or r[1] is None else max(hi, r[1])
    res = None if first else (lo, hi)
    _DCACHE[k] = res
    return res


def _def_atoms(p, depth):
    s = set(p.atoms())
    fr = s
    for _ in range(depth):
        nx = set()
        for a in fr:
            d = ATOMS[a].dfn
            if d and d[0] == "low":
                nx |= d[1].atoms()
        fr = nx - s
        s |= fr
    return s


_VAR_ATOMS = {}


def var_atoms(v):
    r = _VAR_ATOMS.get(v)
    if r is None:
        var = VARS[v]
        r = frozenset(var.data[0].atoms()) if var.kind == "ge" else frozenset()
        _VAR_ATOMS[v] = r
    return r


def closure_atoms(p):
    """Atoms of p plus atoms in the definitions of its low_k atoms (1 level)."""
    s = set(p.atoms())
    return s


_BCACHE = {}


def bounds(p, pc=1):
    """Interval of poly p over the states satisfying BDD pc.  Returns
    (lo, hi), or None if pc is contradictory w.r.t. intervals."""
    if isinstance(p, int):
        return p, p
    g = iv(p)
    if pc == 1:
        return g
    if g[0] is not None and g[0] == g[1]:
        return g
    k = (p.key, pc)
    r = _BCACHE.get(k)
    if r is not None:
        return r[0]
    if p.s:
        Q = floor_of(p)
        if Q is not None:
            x = bounds(Q, pc)
            if x is None:
                _BCACHE[k] = (None,)
                return None
            g = (g[0] if x[0] is None else x[0] >> p.s if g[0] is None else max(g[0], x[0] >> p.s),
                 g[1] if x[1] is None else x[1] >> p.s if g[1] is None else min(g[1], x[1] >> p.s))
            if g[0] is not None and g[1] is not None and g[0] >= g[1]:
                r = None if g[0] > g[1] else g
                _BCACHE[k] = (r,)
                return r
    ats = closure_atoms(p)
    sup = bsupport(pc)
    keep = set(v for v in sup if var_atoms(v) & ats)
    # one level of sharing: constraints that share atoms with kept ones
    more = set()
    for v in keep:
        more |= var_atoms(v)
    keep |= set(v for v in sup if var_atoms(v) & more)
    if not keep:
        return g
    q = bexists(pc, keep)
    if q == 1:
        return g
    lo = hi = None
    first = True
    unb_lo = unb_hi = False
    for cube in bcubes(q):
        rr = _refinements(cube)
        if rr is None:
            continue
        l, h = _bound_cube(p, rr[0], rr[1])
        if g[0] is not None:
            l = g[0] if l is None else max(l, g[0])
        if g[1] is not None:
            h = g[1] if h is None else min(h, g[1])
        if l is None:
            unb_lo = True
        if h is None:
            unb_hi = True
        if l is not None and h is not None and l > h:
            continue
        if first:
            lo, hi, first = l, h, False
        else:
            if l is not None and lo is not None:
                lo = min(lo, l)
            if h is not None and hi is not None:
                hi = max(hi, h)
    if first:
        res = None
    else:
        res = (None if unb_lo else lo, None if unb_hi else hi)
    _BCACHE[k] = (res,)
    return res


def feasible(pc):
    """Cheap satisfiability: some cube has non-contradictory intervals."""
    if pc < 2:
        return pc == 1
    try:
        for cube in _icubes(pc, 3000):
            if _refinements(cube) is not None:
                return True
    except Unsupported:
        # weaken: forget the low bits of bytes, and ask again
        q = _forget(pc)
        if q == pc:
            return True
        try:
            for cube in _icubes(q, 3000):
                if _refinements(cube) is not None:
                    return True
        except Unsupported:
            return True
    return False


_FORGET = {}


def _forget(n):
    """n with the variables for the low seven bits of atoms quantified away
    (implied by n, so its infeasibility is n's)"""
    if n < 2:
        return n
    r = _FORGET.get(n)
    if r is None:
        v, h, l = BV[n]
        h, l = _forget(h), _forget(l)
        var = VARS[v]
        drop = False
        if var.kind == "ge":
            p = var.data[0]
            k = [m[0] for m in p.t if len(m) == 1]
            if len(k) == len(p.t) == 2 and 0 < p.s < 7 and any(ATOMS[a].dfn and ATOMS[a].dfn[0] == "low" for a in k):
                drop = True
            elif len(k) == len(p.t) == 1 and ATOMS[k[0]].dfn and ATOMS[k[0]].dfn[0] == "low" and ATOMS[k[0]].hi == 1:
                drop = True
        r = bor(h, l) if drop else bite(bnode(v, 1, 0), h, l)
        _FORGET[n] = r
    return r


def _icubes(n, limit):
    cnt = [0]

    def go(n, cur):
        if n == 0:
            return
        if n == 1:
            cnt[0] += 1
            if cnt[0] > limit:
                raise Unsupported("too many cases")
            yield dict(cur)
            return
        v, h, l = BV[n]
        cur[v] = True
        yield from go(h, cur)
        cur[v] = False
        yield from go(l, cur)
        del cur[v]

    yield from go(n, {})


# --------------------------------------------------------------------------
# comparisons


def small_table(p, pred):
    """BDD of pred(value of p) for p with a small range (<=512)."""
    lo, hi = iv(p)
    n = hi - lo
    q = psub(p, lo)
    # reduce to the single atom if p is univariate linear
    k = n.bit_length()
    bits = [bit_of(q, i, k) for i in range(k)]

    def go(i, val):
        if i < 0:
            return 1 if (val <= n and pred(val + lo)) else 0
        b = bits[i]
        if isinstance(b, int):
            return go(i - 1, val | (b << i))
        return bite(poly_bool(b), go(i - 1, val | (1 << i)), go(i - 1, val))

    # don't-care for values above n: complete arbitrarily but canonically by
    # evaluating pred at n (such bit patterns never occur)
    def go2(i, val):
        if i < 0:
            return 1 if pred(min(val, n) + lo) else 0
        b = bits[i]
        if isinstance(b, int):
            return go2(i - 1, val | (b << i))
        return bite(poly_bool(b), go2(i - 1, val | (1 << i)), go2(i - 1, val))

    return go2(k - 1, 0)


def poly_bool(q):
    """BDD variable of a 0/1-valued poly."""
    if isinstance(q, int):
        return 1 if q else 0
    nc = [(m, x) for m, x in q.t.items() if m]
    lead = max(nc, key=lambda z: (len(z[0]), z[0]))
    if lead[1] < 0:
        # q >= 1 <=> not (1 - q >= 1)
        return bnot(poly_bool(psub(1, q)))
    k = q.t.get((), 0) >> q.s
    b = psub(q, k) if k else q
    if b.s == 0:
        g = 0
        for x in b.t.values():
            g = gcd(g, x)
        if g > 1:
            raise Unsupported("boolean polynomial")
    _set(b, -k, 1 - k)
    return bvar(mkvar("ge", (b, 1 - k), q))


def bit_of(q, i, k):
    """i-th bit (as 0/1 poly) of q in [0,2^k)."""
    if isinstance(q, int):
        return (q >> i) & 1
    r = psub(low(q, i + 1) if i + 1 < k else q, low(q, i))
    return pdiv2k(r, i) if i else r


SMALL = 512


def ge_const(p, c, pc=1):
    """BDD for p >= c."""
    if isinstance(p, int):
        return 1 if p >= c else 0
    lo, hi = iv(p)
    if lo is not None and lo >= c:
        return 1
    if hi is not None and hi < c:
        return 0
    if pc != 1:
        b = bounds(p, pc)
        if b is None:
            return 0
        if b[0] is not None and b[0] >= c:
            return 1
        if b[1] is not None and b[1] < c:
            return 0
    k0 = p.t.get((), 0)
    # univariate linear in one atom
    if lo is not None and hi is not None and hi - lo < SMALL:
        nc = [m for m in p.t if m]
        if len(nc) == 1 and len(nc[0]) == 1 and p.s == 0:
            a = nc[0][0]
            al, ah = ATOMS[a].lo, ATOMS[a].hi
            co = p.t[nc[0]]
            pa = Poly({nc[0]: 1}, 0, False)
            return small_table(pa, lambda x: co * x + k0 >= c)
        if hi - lo == 1:
            return small_table(p, lambda x: x >= c)
    # canonical form: integer part of the constant moved into the threshold,
    # leading coefficient positive, common factor removed (integral polys only)
    q, thr, neg = p, c, False
    nc = [(m, x) for m, x in p.t.items() if m]
    lead = max(nc, key=lambda z: (len(z[0]), z[0]))
    if lead[1] < 0:
        q, thr, neg = pneg(p), -c + 1, True     # p >= c <=> not(-p >= -c+1)
    k = q.t.get((), 0) >> q.s
    if k:
        q = psub(q, k)
        thr -= k
    if q.s == 0:
        g = 0
        for x in q.t.values():
            g = gcd(g, x)
        if g > 1:
            l2, h2 = iv(q)
            q = Poly({m: x // g for m, x in q.t.items()}, 0, False)
            _set(q, None if l2 is None else -((-l2) // g), None if h2 is None else h2 // g)
            thr = -((-thr) // g)
    if q.s == 0 and () not in q.t:
        # p - (p mod 2^k) is the quotient scaled: compare the quotient
        for m, x in q.t.items():
            if x not in (1, -1) or len(m) != 1:
                continue
            for pp, kk in REV.get(Poly({m: 1}, 0, False).key, ()):
                d = psub(pp, Poly({m: 1}, 0, False))
                if not isinstance(d, Poly) or d.s:
                    continue
                if x == -1 and d.t == q.t:
                    r = ge_const(shr(pp, kk), -((-thr) >> kk))
                elif x == 1 and d.t == {a: -b for a, b in q.t.items()}:
                    r = bnot(ge_const(shr(pp, kk), ((-thr) >> kk) + 1))
                else:
                    continue
                return bnot(r) if neg else r
    l2, h2 = iv(q)
    if l2 is not None and l2 >= thr:
        r = 1
    elif h2 is not None and h2 < thr:
        r = 0
    else:
        z = None
        if l2 is not None and h2 is not None and h2 - l2 == 1:
            z = psub(q, l2)
        r = bvar(mkvar("ge", (q, thr), z))
    return bnot(r) if neg else r


REV = {}
ADDS = {}


def carry_of(a, b):
    """If a < b is the carry/borrow test of a wrapping addition/subtraction,
    return the 0/1 poly of a<b."""
    # a = low_w(S), 0<=b<2^w, 0<=S-b<2^w : a<b <=> carry
    if isinstance(a, Poly):
        for x, y, w in ADDS.get(a.key, ()):
            M = (1 << w) - 1
            if (b == x or b == y) and in_range(x, 0, M) and in_range(y, 0, M):
                return _set(pdiv2k(psub(padd(x, y), a), w), 0, 1)
        for S, w in REV.get(a.key, ()):
            x = psub(S, b)
            M = (1 << w) - 1
            if in_range(b, 0, M) and in_range(x, 0, M):
                return _set(pdiv2k(psub(S, a), w), 0, 1)
    # borrow: exists r = low_w(a-b)
    for w in (32, 64, 8, 16, 128):
        M = (1 << w) - 1
        if in_range(a, 0, M) and in_range(b, 0, M):
            df = psub(a, b)
            if isinstance(df, Poly):
                r = ATOM_MEMO.get(("low", df, w))
                if r is not None:
                    return pdiv2k(psub(r, df), w)
            # b = low_w(a - y): b > a <=> borrow
            if isinstance(b, Poly):
                for D, k in REV.get(b.key, ()):
                    if k == w:
                        y = psub(a, D)
                        if in_range(y, 0, M):
                            return pdiv2k(psub(b, D), w)
            break
    return None


def lt(a, b, pc=1):
    if isinstance(a, int) and isinstance(b, int):
        return 1 if a < b else 0
    k = carry_of(a, b)
    if k is not None:
        return ge_const(k, 1, pc)
    return ge_const(psub(b, a), 1, pc)


def _bits_parts(p):
    if isinstance(p, Poly) and len(p.t) == 1 and p.s == 0:
        (m, c), = p.t.items()
        if c == 1 and len(m) == 1:
            d = ATOMS[m[0]].dfn
            if d and d[0] in ("and", "or", "xor"):
                return d
    return None


def eq(a, b, pc=1):
    d = psub(a, b)
    if isinstance(d, int):
        return 1 if d == 0 else 0
    lo, hi = iv(d)
    if lo is not None and (lo > 0 or hi < 0):
        return 0
    # a truncated sum that is zero although the sum is not: it wrapped
    for x, c in ((a, b), (b, a)):
        if isinstance(c, int) and c == 0 and isinstance(x, Poly):
            for D, k in REV.get(x.key, ()):
                if isinstance(D, Poly):
                    bd = bounds(D, pc)
                    if bd is not None and bd[0] is not None and bd[0] >= 1 and bd[1] is not None and bd[1] <= 1 << k:
                        return ge_const(_set(pdiv2k(psub(D, x), k), 0, 1), 1)
    # structural: and(...) == all ones ; or(...) == 0 ; xor == c
    for x, c in ((a, b), (b, a)):
        if isinstance(c, int):
            parts = _bits_parts(x)
            if parts:
                kind, ops = parts[0], parts[1]
                if kind == "or" and c == 0:
                    r = 1
                    for o in ops:
                        r = band(r, eq(o, 0, pc))
                    return r
                if kind == "and":
                    m = c
                    if (m & (m + 1)) == 0 and all(in_range(o, 0, m) for o in ops):
                        r = 1
                        for o in ops:
                            r = band(r, eq(o, m, pc))
                        return r
                if kind == "xor" and len(ops) == 2:
                    if c == 0:
                        return eq(ops[0], ops[1], pc)
                    for o1, o2 in (ops, ops[::-1]):
                        if isinstance(o2, int):
                            return eq(o1, o2 ^ c, pc)
            # a sum of non-negative terms equal to zero
    if lo is not None and lo == 0 and isinstance(d, Poly) and d.s == 0 and all(c > 0 for c in d.t.values()) and len(d.t) > 1 and () not in d.t:
        if all(len(m) == 1 for m in d.t):
            r = 1
            for m in d.t:
                r = band(r, eq(Poly({m: 1}), 0, pc))
            return r
    return band(ge_const(d, 0, pc), bnot(ge_const(d, 1, pc)))


# --------------------------------------------------------------------------
# truncation and bit operations on leaves


def val2(n):
    return (n & -n).bit_length() - 1


# poly key -> [(offset, digit)]: values put together from disjoint digits
PARTS = {}


def joined(parts):
    """sum of digits that do not overlap"""
    r = 0
    for off, x in parts:
        r = padd(r, pscale(x, 1 << off))
    if isinstance(r, Poly) and len(parts) > 1:
        PARTS[r.key] = sorted(parts, key=lambda q: q[0])
    return r


def low(p, k):
    """p mod 2^k (floor), for an integer-valued poly."""
    if isinstance(p, int):
        return p & ((1 << k) - 1)
    if k <= 0:
        return 0
    l, h = iv(p)
    if l is not None and l >= 0 and h < (1 << k):
        return p
    if l is not None and (l >> k) == (h >> k):
        return psub(p, (l >> k) << k)
    key = ("low", p, k)
    r = ATOM_MEMO.get(("lowr", p, k))
    if r is not None:
        return r
    if p.key in PARTS:
        r = joined([(off, low(x, k - off)) for off, x in PARTS[p.key] if off < k])
    else:
        r = _low(p, k)
    ATOM_MEMO[("lowr", p, k)] = r
    if isinstance(r, Poly):
        REV.setdefault(r.key, []).append((p, k))
    return r


def _low(p, k):
    M = 1 << k
    if p.s == 0:
        t = {}
        ch = False
        for m, c in p.t.items():
            c2 = c % M
            if c2 > M // 2 and m:
                c2 -= M
            if c2 != c:
                ch = True
            if c2:
                t[m] = c2
        if ch:
            q = simp(Poly(t, 0))
            return low(q, k)
        # common power of two
        j = min(val2(c) for c in p.t.values())
        if j > 0:
            q = simp(Poly({m: c >> j for m, c in p.t.items()}, 0))
            return pscale(low(q, k - j), 1 << j)
        # disjoint split
        vals = sorted(set(val2(c) for c in p.t.values()))
        for j in vals[1:]:
            if j >= k:
                break
            A = Poly({m: c for m, c in p.t.items() if val2(c) < j}, 0)
            l, h = iv(A)
            if l is not None and l >= 0 and h < (1 << j):
                Bq = Poly({m: c >> j for m, c in p.t.items() if val2(c) >= j}, 0)
                return padd(A, pscale(low(simp(Bq), k - j), 1 << j))
        if len(p.t) == 1:
            (m, c), = p.t.items()
            if c == 1 and len(m) == 1:
                d = ATOMS[m[0]].dfn
                if d and d[0] == "low" and d[2] >= k:
                    return low(d[1], k)
    else:
        # (Q - low_s(Q)) / 2^s
        s = p.s
        N = Poly(dict(p.t), 0, False)
        for m, c in p.t.items():
            if c == -1 and len(m) == 1:
                d = ATOMS[m[0]].dfn
                if d and d[0] == "low" and d[2] == s:
                    Q = padd(N, Poly({m: 1}))
                    if Q == d[1] or simp(low(Q, s)) == Poly({m: 1}):
                        return pdiv2k(psub(low(Q, k + s), Poly({m: 1})), s)
                if d and d[0] == "low" and s < d[2] < k + s:
                    Q = padd(N, Poly({m: 1}))
                    if Q == d[1] or simp(low(Q, d[2])) == Poly({m: 1}):
                        # a multiple of 2^(d-s)
                        e = d[2] - s
                        return pscale(low(pdiv2k(simp(N), d[2]), k - e), 1 << e)
    return memo_atom(("low", p, k), 0, M - 1, "")


def shr(p, k):
    if isinstance(p, int):
        return p >> k
    if k == 0:
        return p
    if p.key in PARTS:
        q = PARTS[p.key]
        nxt = [off for off, _ in q[1:]] + [None]
        return joined([(off - k, x) if off >= k else (0, shr(x, k - off)) for (off, x), e in zip(q, nxt) if e is None or e > k])
    l, h = iv(p)
    r = psub(p, low(p, k))
    r = pdiv2k(r, k)
    if isinstance(r, Poly):
        r = Poly(r.t, r.s, False) if r is p else r
        _set(r, None if l is None else l >> k, None if h is None else h >> k)
    return r


def mid(p, off, cnt):
    return shr(low(p, off + cnt), off)


def bitlen_hi(p):
    l, h = iv(p)
    if l is None or l < 0:
        return None
    return h.bit_length()


def ones_mask(p):
    """Superset of the bits that can be set in p >= 0."""
    if isinstance(p, int):
        return p
    l, h = iv(p)
    if l is None or l < 0:
        return None
    full = (1 << h.bit_length()) - 1
    if p.s == 0 and all(c > 0 for c in p.t.values()):
        m = 0
        for mo, c in p.t.items():
            i = _mono_iv(mo, {}) if mo else (1, 1)
            if i is None or i[0] < 0:
                return full
            j = val2(c)
            mm = (((c >> j) * i[1]).bit_length())
            mm = ((1 << mm) - 1) << j
            if m & mm:
                # overlapping: only trailing zeros known
                j = min(val2(c) for c in p.t.values())
                return full & ~((1 << j) - 1)
            m |= mm
        return m & full if m & full == m else full
    if p.s == 0:
        j = min(val2(c) for c in p.t.values())
        return full & ~((1 << j) - 1)
    return full


def runs(c):
    out = []
    i = 0
    while c >> i:
        if (c >> i) & 1:
            j = i
            while (c >> j) & 1:
                j += 1
            out.append((i, j - i))
            i = j
        else:
            i += 1
    return out


def bit_and(a, b, w):
    if isinstance(a, int) and isinstance(b, int):
        return a & b
    if isinstance(a, int):
        a, b = b, a
    if isinstance(b, int):
        if b < 0:
            b &= (1 << w) - 1
            a = low(a, w)
        om = ones_mask(a)
        if om is not None:
            b &= om
            if b == om:
                return a
        if b == 0:
            return 0
        r = 0
        for off, n in runs(b):
            r = padd(r, pscale(mid(a, off, n), 1 << off))
        return r
    if a == b:
        return a
    ma, mb = ones_mask(a), ones_mask(b)
    if ma is not None and mb is not None and ma & mb == 0:
        return 0
    return nary("and", a, b, w)


def nary(kind, a, b, w):
    ops = []
    for x in (a, b):

        d = _bits_parts(x)
        if d and d[0] == kind:
            ops.extend(d[1])
        else:
            ops.append(x)
    if kind in ("and", "or"):
        seen = []
        for o in ops:
            if not any(o == s for s in seen):
                seen.append(o)
        ops = seen
    else:
        seen = []
        for o in ops:
            for i, s in enumerate(seen):
                if s == o:
                    del seen[i]
                    break
            else:
                seen.append(o)
        ops = seen
        k = 0
        for o in ops:
            if isinstance(o, int):
                k ^= o
        ops = [o for o in ops if not isinstance(o, int)]
        if k:
            ops.append(k)
        if not ops:
            return 0
    if len(ops) == 1:
        return ops[0]
    ops = tuple(sorted(ops, key=lambda o: (isinstance(o, int), hash(o) if not isinstance(o, int) else o)))
    hi = 0
    for o in ops:
        l, h = iv(o)
        if l is None or l < 0 or h >> w:
            # in range wherever the operation happens, but not everywhere:
            # what the atom stands for elsewhere does not matter
            h = (1 << w) - 1
        m = (1 << h.bit_length()) - 1
        hi = (hi & m if hi else m) if kind == "and" else hi | m
    return memo_atom((kind, ops), 0, hi, "")


def bit_or(a, b, w):
    if isinstance(a, int) and isinstance(b, int):
        return a | b
    if isinstance(a, int):
        a, b = b, a
    if b == 0:
        return a
    if isinstance(b, int):
        return padd(psub(a, bit_and(a, b, w)), b)
    if a == b:
        return a
    ma, mb = ones_mask(a), ones_mask(b)
    if ma is not None and mb is not None and ma & mb == 0:
        return padd(a, b)
    return nary("or", a, b, w)


def bit_xor(a, b, w):
    if isinstance(a, int) and isinstance(b, int):
        return a ^ b
    if isinstance(a, int):
        a, b = b, a
    if isinstance(b, int):
        if b == 0:
            return a
        m = ones_mask(a)
        if m is not None:
            if b & m == m:
                # every bit of a is flipped
                return psub(b, a)
            if b & m == 0:
                return padd(a, b)
        return nary("xor", a, b, w)
    if a == b:
        return 0
    ma, mb = ones_mask(a), ones_mask(b)
    if ma is not None and mb is not None and ma & mb == 0:
        return padd(a, b)
    return nary("xor", a, b, w)
