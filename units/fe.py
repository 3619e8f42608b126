"""Field elements as opaque polynomials modulo p, behind the contracts of the
public Field functions (which the field units establish limb by limb).

A Field object is replaced by one leaf FV(value, magnitude, normalised); the
hooks below check the callee's precondition and produce the value its contract
promises.  Anything that looks inside such an object is not decided.
"""
from ai import core as C, interp as I
from ai.core import Node, B, Unsupported, Opaque, band, bor, bnot
from ai.interp import Ptr, Ret, pmap
from .base import P, N, FIELD

FT = FIELD
FST = "libsecp256k1::curve::FieldStorage"


class Alg:
    """polynomial arithmetic modulo a prime, with rewriting and facts"""

    def __init__(self, q=P):
        self.q = q
        self.names = []
        self.nz = set()        # atoms known to be nonzero
        self.rules = {}        # atom -> (exp, FPoly): atom^exp -> poly
        self.nonzero = []      # polynomials known to be nonzero
        self.byname = {}
        self.vars = {}

    def atom(self, name, nz=False):
        i = self.byname.get(name)
        if i is None:
            i = len(self.names)
            self.names.append(name)
            self.byname[name] = i
            if nz:
                self.nz.add(i)
        return FPoly(self, {((i, 1),): 1})

    def const(self, k):
        k %= self.q
        return FPoly(self, {(): k} if k else {})

    def rule(self, a, e, rhs):
        (m, _), = a.t.items()
        self.rules[m[0][0]] = (e, rhs)


def mmul(a, b):
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for x, e in b:
        n = d.get(x, 0) + e
        if n:
            d[x] = n
        else:
            del d[x]
    return tuple(sorted(d.items()))


class FPoly:
    __slots__ = ("a", "t", "_h")

    def __init__(self, a, t):
        self.a = a
        self.t = t
        self._h = None

    def key(self):
        return frozenset(self.t.items())

    def __hash__(self):
        if self._h is None:
            self._h = hash(self.key())
        return self._h

    def __eq__(self, o):
        return isinstance(o, FPoly) and o.a is self.a and o.t == self.t

    def __ne__(self, o):
        return not self.__eq__(o)

    def co(self, o):
        return o if isinstance(o, FPoly) else self.a.const(o)

    def __add__(self, o):
        o = self.co(o)
        t = dict(self.t)
        q = self.a.q
        for m, c in o.t.items():
            n = (t.get(m, 0) + c) % q
            if n:
                t[m] = n
            elif m in t:
                del t[m]
        return FPoly(self.a, t)

    __radd__ = __add__

    def __neg__(self):
        q = self.a.q
        return FPoly(self.a, {m: q - c for m, c in self.t.items()})

    def __sub__(self, o):
        return self + (-self.co(o))

    def __rsub__(self, o):
        return self.co(o) - self

    def __mul__(self, o):
        o = self.co(o)
        q = self.a.q
        t = {}
        if len(self.t) * len(o.t) > 200000:
            raise Unsupported("polynomial too large")
        for m, c in self.t.items():
            for n, d in o.t.items():
                k = mmul(m, n)
                t[k] = (t.get(k, 0) + c * d) % q
        return FPoly(self.a, {m: c for m, c in t.items() if c}).reduce()

    __rmul__ = __mul__

    def __pow__(self, e):
        r = self.a.const(1)
        if e < 0 or e > 16:
            if len(self.t) == 1:
                (m, c), = self.t.items()
                return FPoly(self.a, {tuple((x, k * e) for x, k in m): pow(c, e, self.a.q)}).reduce()
        for _ in range(e):
            r = r * self
        return r

    def reduce(self):
        R = self.a.rules
        if not R:
            return self
        cur = self
        for _ in range(400):
            hit = None
            for m in cur.t:
                for x, e in m:
                    r = R.get(x)
                    if r is not None and e >= r[0]:
                        hit = (m, x, r)
                        break
                if hit:
                    break
            if hit is None:
                return cur
            # rewrite every monomial once
            q = self.a.q
            t = {}
            for m, c in cur.t.items():
                for x, e in m:
                    r = R.get(x)
                    if r is not None and e >= r[0]:
                        rest = mmul(m, ((x, -r[0]),))
                        for n, d in r[1].t.items():
                            k = mmul(rest, n)
                            t[k] = (t.get(k, 0) + c * d) % q
                        break
                else:
                    t[m] = (t.get(m, 0) + c) % q
            cur = FPoly(self.a, {m: c for m, c in t.items() if c})
        raise Unsupported("rewriting does not terminate")

    def is_const(self):
        return not self.t or (len(self.t) == 1 and () in self.t)

    def value(self):
        return self.t.get((), 0)

    def atoms(self):
        return {x for m in self.t for x, e in m}

    def strip(self):
        """divide out nonzero atoms (and clear their denominators)"""
        if not self.t:
            return self
        nz = self.a.nz
        mins = None
        for m in self.t:
            d = {x: e for x, e in m if x in nz}
            if mins is None:
                mins = d
            else:
                ks = set(mins) | set(d)
                mins = {x: min(mins.get(x, 0), d.get(x, 0)) for x in ks}
        mins = {x: e for x, e in mins.items() if e}
        if not mins:
            return self
        inv = tuple(sorted((x, -e) for x, e in mins.items()))
        return FPoly(self.a, {mmul(m, inv): c for m, c in self.t.items()})

    def monic(self):
        if not self.t:
            return self
        m = max(self.t)
        k = pow(self.t[m], -1, self.a.q)
        return FPoly(self.a, {n: c * k % self.a.q for n, c in self.t.items()})

    def divide(self, d):
        """exact quotient or None (leading-term division, lexicographic)"""
        a = self.a
        xs = sorted(self.atoms() | d.atoms())

        def ev(m):
            e = dict(m)
            return tuple(e.get(x, 0) for x in xs)
        lead = max(d.t, key=ev)
        le = dict(lead)
        lc = pow(d.t[lead], -1, a.q)
        r = self
        quo = {}
        for _ in range(4000):
            if not r.t:
                return FPoly(a, quo)
            m = max(r.t, key=ev)
            me = dict(m)
            k = {x: me.get(x, 0) - e for x, e in le.items()}
            if any(v < 0 for v in k.values()):
                return None
            qm = mmul(m, tuple((x, -e) for x, e in lead))
            qc = r.t[m] * lc % a.q
            quo[qm] = qc
            t = dict(r.t)
            for n, c in d.t.items():
                kk = mmul(qm, n)
                v = (t.get(kk, 0) - qc * c) % a.q
                if v:
                    t[kk] = v
                elif kk in t:
                    del t[kk]
            r = FPoly(a, t)
        return None

    def zero(self):
        """BDD of 'this is zero modulo the prime'"""
        v = self.reduce().strip()
        if not v.t:
            return 0 if False else 1
        if v.is_const():
            return 0
        for d in self.a.nonzero:
            while True:
                q = v.divide(d)
                if q is None:
                    break
                v = q.strip()
                if v.is_const():
                    return 0
        if len(v.t) == 1:
            (m, c), = v.t.items()
            r = 0
            for x, e in m:
                r = bor(r, self.a.zero_var(FPoly(self.a, {((x, 1),): 1})))
            return r
        return self.a.zero_var(v.monic())

    def __repr__(self):
        if not self.t:
            return "0"
        o = []
        for m, c in sorted(self.t.items()):
            if c > self.a.q // 2:
                c -= self.a.q
            s = "*".join(self.a.names[x] + ("^%d" % e if e != 1 else "") for x, e in m)
            o.append(("%d" % c if abs(c) < 1 << 40 else "%#x" % c) + ("*" + s if s else ""))
            if len(o) > 12:
                o.append("...")
                break
        return " + ".join(o)


def _zv(self, v):
    k = v.key()
    n = self.vars.get(k)
    if n is None:
        n = self.vars[k] = C.bvar(C.mkvar("op", ("zero", id(self), len(self.vars), repr(v)[:60])))
    return n


Alg.zero_var = _zv


def fmap(fn, *xs):
    return C.mapply(fn, *xs)


class FV(Opaque):
    """an opaque field element"""
    __slots__ = ("v", "mag", "norm")

    def __init__(self, v, mag, norm):
        self.v, self.mag, self.norm = v, mag, norm

    def __eq__(self, o):
        return isinstance(o, FV) and o.mag == self.mag and o.norm == self.norm and o.v == self.v

    def __hash__(self):
        return hash((self.v, self.mag, self.norm))

    def __repr__(self):
        return "F(%r;%s%s)" % (self.v, self.mag, "n" if self.norm else "")


class FSV(Opaque):
    """an opaque field element in storage form (canonical)"""
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v

    def __eq__(self, o):
        return isinstance(o, FSV) and o.v == self.v

    def __hash__(self):
        return hash(("fs", self.v))

    def __repr__(self):
        return "FS(%r)" % (self.v,)


class FBytes(Opaque):
    """byte i of the 32-byte encoding of a field element"""
    __slots__ = ("v", "i")

    def __init__(self, v, i):
        self.v, self.i = v, i

    def __eq__(self, o):
        return isinstance(o, FBytes) and o.i == self.i and o.v == self.v

    def __hash__(self):
        return hash(("fb", self.v, self.i))

    def __repr__(self):
        return "FB(%r)[%d]" % (self.v, self.i)


def const_field(alg, x):
    """a concrete limb tuple as an opaque element, or None"""
    if isinstance(x, tuple) and len(x) == 3 and isinstance(x[0], tuple):
        ls = x[0]
        if all(isinstance(l, int) for l in ls) and isinstance(x[1], int):
            val = sum(l << (26 * i) for i, l in enumerate(ls))
            nm = x[2]
            nm = nm.n if isinstance(nm, B) else nm
            if nm not in (0, 1):
                return None
            return FV(alg.const(val), x[1], bool(nm))
    return None


class FieldDomain:
    """hooks on the public Field functions"""

    def __init__(self, alg, unit=None):
        self.alg = alg
        self.unit = unit
        self.bad = {}

    def val(self, ip, x):
        """-> guarded FV"""
        def f(x):
            if isinstance(x, FV):
                return x
            r = const_field(self.alg, x)
            if r is None:
                if isinstance(x, C.Undef):
                    return x
                raise Unsupported("not a field element: %r" % (x,))
            return r
        if isinstance(x, tuple):
            if any(isinstance(y, Node) for y in (x[0],) + tuple(x[1:])) or (isinstance(x[0], tuple) and any(isinstance(l, Node) for l in x[0])):
                return C.mapply(lambda *ys: f((tuple(ys[:-2]), ys[-2], ys[-1])), *(tuple(x[0]) + (x[1], x[2])))
        return C.mapply(f, x)

    def ld(self, ip, st, p):
        return self.val(ip, ip.load(st, p))

    def need(self, ip, st, pc, ok, what, G):
        """a precondition of a field function"""
        ip.obls.append(I.Obligation("precondition", ip.stack[-1] if ip.stack else "?", what, pc, None, ok or not I.feas(pc)))

    def lift(self, ip, st, G, fn, *xs):
        return pmap(lambda pc, *ys: fn(pc, *ys), st.pc, *xs)

    def zero(self, v):
        return v.v.zero()

    def hooks(self):
        H = {}
        D = self

        def reg(names):
            def d(f):
                for n in names:
                    H[n] = f
                return f
            return d

        def magle(ip, st, pc, x, m, G, what):
            D.need(ip, st, pc, x.mag <= m, "%s: magnitude %d exceeds %d" % (what, x.mag, m), G)

        def mul(ip, st, G, a, b):
            def f(pc, x, y):
                magle(ip, st, pc, x, 8, G, "multiplication operand")
                magle(ip, st, pc, y, 8, G, "multiplication operand")
                return FV(x.v * y.v, 1, False)
            return D.lift(ip, st, G, f, a, b)

        def add(ip, st, G, a, b):
            def f(pc, x, y):
                D.need(ip, st, pc, x.mag + y.mag <= 31, "addition: magnitude %d exceeds 31" % (x.mag + y.mag), G)
                return FV(x.v + y.v, x.mag + y.mag, False)
            return D.lift(ip, st, G, f, a, b)

        def sqr(ip, st, G, a):
            def f(pc, x):
                magle(ip, st, pc, x, 8, G, "squaring operand")
                return FV(x.v * x.v, 1, False)
            return D.lift(ip, st, G, f, a)

        def neg(ip, st, G, a, m):
            def f(pc, x, m):
                if not isinstance(m, int):
                    raise Unsupported("symbolic magnitude")
                magle(ip, st, pc, x, m, G, "negation operand")
                D.need(ip, st, pc, m <= 30, "negation: magnitude %d exceeds 31" % (m + 1), G)
                return FV(-x.v, m + 1, False)
            return D.lift(ip, st, G, f, a, m)

        def iszero(ip, st, G, a, lim=31):
            def f(pc, x):
                magle(ip, st, pc, x, lim, G, "zero test operand")
                return B(D.zero(x))
            return D.lift(ip, st, G, f, a)

        # --- in place
        @reg([FT + "::mul_in_place"])
        def _(ip, st, a, G):
            ip.store(st, a[0], mul(ip, st, G, D.ld(ip, st, a[1]), D.ld(ip, st, a[2])))
            return ()

        @reg([FT + "::sqr_in_place"])
        def _(ip, st, a, G):
            ip.store(st, a[0], sqr(ip, st, G, D.ld(ip, st, a[1])))
            return ()

        @reg([FT + "::sqr"])
        def _(ip, st, a, G):
            return sqr(ip, st, G, D.ld(ip, st, a[0]))

        @reg([FT + "::neg"])
        def _(ip, st, a, G):
            return neg(ip, st, G, D.ld(ip, st, a[0]), a[1])

        @reg([FT + "::neg_in_place"])
        def _(ip, st, a, G):
            ip.store(st, a[0], neg(ip, st, G, D.ld(ip, st, a[1]), a[2]))
            return ()

        @reg([FT + "::mul_int"])
        def _(ip, st, a, G):
            def f(pc, x, k):
                if not isinstance(k, int):
                    raise Unsupported("symbolic factor")
                D.need(ip, st, pc, x.mag * k <= 31, "mul_int: magnitude %d exceeds 31" % (x.mag * k), G)
                return FV(x.v * k, x.mag * k, False)
            ip.store(st, a[0], D.lift(ip, st, G, f, D.ld(ip, st, a[0]), a[1]))
            return ()

        def byval(op):
            def h(ip, st, a, G):
                x = D.ld(ip, st, a[0]) if isinstance(a[0], Ptr) else D.val(ip, a[0])
                y = D.ld(ip, st, a[1]) if isinstance(a[1], Ptr) else D.val(ip, a[1])
                return op(ip, st, G, x, y)
            return h

        def assign(op):
            def h(ip, st, a, G):
                x = D.ld(ip, st, a[0])
                y = D.ld(ip, st, a[1]) if isinstance(a[1], Ptr) else D.val(ip, a[1])
                ip.store(st, a[0], op(ip, st, G, x, y))
                return ()
            return h

        for r in ("&", ""):
            for nm, op in (("Add", add), ("Mul", mul)):
                H["<%s%s as std::ops::%s>::%s" % (r, FT, nm, nm.lower())] = byval(op)
        for nm, op in (("Add", add), ("Mul", mul)):
            H["<%s as std::ops::%sAssign<&%s>>::%s_assign" % (FT, nm, FT, nm.lower())] = assign(op)
            H["<%s as std::ops::%sAssign>::%s_assign" % (FT, nm, nm.lower())] = assign(op)

        def normal(full):
            def h(ip, st, a, G):
                def f(pc, x):
                    magle(ip, st, pc, x, 31, G, "normalisation operand")
                    return FV(x.v, 1, True if full else x.norm and x.mag <= 1)
                ip.store(st, a[0], D.lift(ip, st, G, f, D.ld(ip, st, a[0])))
                return ()
            return h
        H[FT + "::normalize"] = normal(True)
        H[FT + "::normalize_var"] = normal(True)
        H[FT + "::normalize_weak"] = normal(False)

        @reg([FT + "::normalizes_to_zero", FT + "::normalizes_to_zero_var"])
        def _(ip, st, a, G):
            return iszero(ip, st, G, D.ld(ip, st, a[0]))

        @reg([FT + "::is_zero"])
        def _(ip, st, a, G):
            def f(pc, x):
                D.need(ip, st, pc, x.norm, "zero test of an element that is not normalised", G)
                return B(D.zero(x))
            return D.lift(ip, st, G, f, D.ld(ip, st, a[0]))

        @reg([FT + "::is_odd"])
        def _(ip, st, a, G):
            def f(pc, x):
                D.need(ip, st, pc, x.norm, "parity of an element that is not normalised", G)
                return B(D.odd(x))
            return D.lift(ip, st, G, f, D.ld(ip, st, a[0]))

        @reg([FT + "::set_int"])
        def _(ip, st, a, G):
            if not isinstance(a[1], int):
                return NotImplemented
            ip.store(st, a[0], FV(D.alg.const(a[1]), 1, True))
            return ()

        @reg([FT + "::from_int"])
        def _(ip, st, a, G):
            if not isinstance(a[0], int):
                return NotImplemented
            return FV(D.alg.const(a[0]), 1, True)

        @reg([FT + "::clear"])
        def _(ip, st, a, G):
            ip.store(st, a[0], FV(D.alg.const(0), 0, True))
            return ()

        @reg(["<%s as std::default::Default>::default" % FT])
        def _(ip, st, a, G):
            return FV(D.alg.const(0), 0, True)

        def cmov(ip, st, a, G):
            p = ip.tobdd(a[2], st.pc)
            x, y = ip.load(st, a[0]), ip.load(st, a[1])
            if not isinstance(x, (FSV, Node)) or any(not isinstance(l, FSV) for l in C.leafset(x)):
                x, y = D.val(ip, x), D.val(ip, y)

                nx, ny = x, y
            else:
                nx, ny = x, y
            ip.store(st, a[0], C.vite(p, ny, nx))
            return ()
        H[FT + "::cmov"] = cmov
        H[FST + "::cmov"] = cmov

        def inv(ip, st, a, G):
            def f(pc, x):
                magle(ip, st, pc, x, 8, G, "inversion operand")
                return FV(D.inverse(x.v, pc), 1, False)
            return D.lift(ip, st, G, f, D.ld(ip, st, a[0]))
        H[FT + "::inv"] = inv
        H[FT + "::inv_var"] = inv

        @reg([FT + "::sqrt"])
        def _(ip, st, a, G):
            x = D.ld(ip, st, a[0])
            def rt(pc, x):
                magle(ip, st, pc, x, 8, G, "square root operand")
                r, ok = D.root(x.v)[:2]
                sg = (D.root(x.v) + (1,))[2]
                r = FV(r, 1, False) if sg == 1 else C.vite(sg, FV(r, 1, False), FV(-r, 1, False))
                if ok == 1:
                    return r
                j = D.alg.atom("root of a non-square")
                # nothing squares to a non-square
                D.alg.vars[(j * j - x.v).strip().monic().key()] = ok
                return C.vite(ok, r, FV(j, 1, False))
            rs = D.lift(ip, st, G, rt, x)
            ok = D.lift(ip, st, G, lambda pc, x: B(D.root(x.v)[1]), x)
            return (rs, ok)

        @reg([FT + "::is_quad_var"])
        def _(ip, st, a, G):
            def f(pc, x):
                magle(ip, st, pc, x, 8, G, "square test operand")
                return B(D.root(x.v)[1])
            return D.lift(ip, st, G, f, D.ld(ip, st, a[0]))

        def eq(lim):
            def h(ip, st, a, G):
                def f(pc, x, y):
                    if lim is not None:
                        magle(ip, st, pc, x, lim, G, "variable-time comparison operand")
                        D.need(ip, st, pc, lim + 1 + y.mag <= 31, "comparison: magnitude sum exceeds 31", G)
                    else:
                        D.need(ip, st, pc, x.mag + 1 + y.mag <= 31, "comparison: magnitude sum exceeds 31", G)
                    return B((x.v - y.v).zero())
                return D.lift(ip, st, G, f, D.ld(ip, st, a[0]), D.ld(ip, st, a[1]))
            return h
        H[FT + "::eq_var"] = eq(1)
        H["<%s as std::cmp::PartialEq>::eq" % FT] = eq(None)

        @reg(["<%s as std::clone::Clone>::clone" % FT])
        def _(ip, st, a, G):
            return D.ld(ip, st, a[0])

        @reg(["<%s as std::convert::Into<%s>>::into" % (FT, FST)])
        def _(ip, st, a, G):
            def f(pc, x):
                D.need(ip, st, pc, x.norm, "storage form of an element that is not normalised", G)
                return FSV(x.v)
            return D.lift(ip, st, G, f, D.val(ip, a[0]))

        def from_storage(ip, st, a, G):
            def f(x):
                if isinstance(x, FSV):
                    return FV(x.v, 1, True)
                if isinstance(x, tuple) and len(x) == 1 and all(isinstance(w, int) for w in x[0]):
                    v = sum(w << (32 * i) for i, w in enumerate(x[0]))
                    if v < P:
                        return FV(D.alg.const(v), 1, True)
                raise Unsupported("storage form %r" % (x,))
            return C.mapply(f, a[0])
        H["<%s as std::convert::From<%s>>::from" % (FT, FST)] = from_storage
        H["<%s as std::convert::Into<%s>>::into" % (FST, FT)] = from_storage

        def b32(ip, st, G, x):
            def chk(pc, x):
                D.need(ip, st, pc, x.norm, "encoding of an element that is not normalised", G)
                return 0
            D.lift(ip, st, G, chk, x)
            return D.encode(x)

        @reg([FT + "::b32"])
        def _(ip, st, a, G):
            return b32(ip, st, G, D.ld(ip, st, a[0]))

        @reg([FT + "::fill_b32"])
        def _(ip, st, a, G):
            ip.store(st, a[1], b32(ip, st, G, D.ld(ip, st, a[0])))
            return ()

        @reg([FT + "::set_b32"])
        def _(ip, st, a, G):
            return D.decode(ip, st, a[0], ip.load(st, a[1]))

        def cmp(ip, st, a, G):
            def f(pc, x, y):
                D.need(ip, st, pc, x.norm and y.norm, "ordering of elements that are not normalised", G)
                return 0
            D.lift(ip, st, G, f, D.ld(ip, st, a[0]), D.ld(ip, st, a[1]))
            raise Unsupported("ordering of field elements")
        H[FT + "::cmp_var"] = cmp
        H["<%s as std::cmp::Ord>::cmp" % FT] = cmp
        return H

    # -- pieces that units may refine
    def inverse(self, v, pc):
        v = v.reduce()
        if v.is_const():
            k = v.value()
            return self.alg.const(pow(k, -1, self.alg.q) if k else 0)
        s = v
        if len(s.t) == 1:
            (m, c), = s.t.items()
            if all(x in self.alg.nz for x, e in m):
                return FPoly(self.alg, {tuple((x, -e) for x, e in m): pow(c, -1, self.alg.q)})
        # an opaque inverse: nonzero exactly when its argument is
        a = self.alg.atom("inv[%r]" % (v,))
        return a

    def root(self, v):
        """(root, BDD of existence)"""
        raise Unsupported("square root of %r" % (v,))

    def odd(self, x):
        k = ("odd", x.v.key())
        n = self.alg.vars.get(k)
        if x.v.is_const():
            return x.v.value() & 1
        if n is None:
            n = self.alg.vars[k] = C.bvar(C.mkvar("op", ("odd", id(self.alg), len(self.alg.vars))))
        return n

    def encode(self, x):
        if isinstance(x, FV):
            if x.v.is_const():
                return tuple(x.v.value().to_bytes(32, "big"))
            return tuple(FBytes(x.v, i) for i in range(32))
        return tuple(C.mapply(lambda y: FBytes(y.v, i), x) for i in range(32))

    def decode(self, ip, st, dst, bs):
        raise Unsupported("decoding of bytes")
