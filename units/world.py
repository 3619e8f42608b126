"""Field elements, scalars and curve points as opaque values whose canonical
integers are numbers of the analyser's domain.

Field and Scalar objects are opaque residues (see fe.py); the integer in [0,q)
that represents a residue is a guarded linear form over integer unknowns, so
that byte encodings, parities, comparisons with constants and the passage from
one modulus to the other are exact.  Points are linear forms over named curve
points with coefficients modulo the group order.
"""
from ai import core as C, interp as I
from ai.core import Node, B, Poly, Unsupported, Opaque, band, bor, bnot, vite, padd, psub, pmul, pscale
from ai.interp import Ptr, Ret, pmap
from .base import P, N, FIELD, SCALAR
from .fe import Alg, FPoly, FV, FSV, FieldDomain, FT, FST, const_field
from . import group as GR
from .group import JA, AF, AS, rec, unrec, fields, GX, GY

ST = SCALAR


class Residues:
    """canonical integers of the residues of one algebra"""

    def __init__(self, alg, tag):
        self.alg = alg
        self.tag = tag
        self.can = {}      # FPoly -> number
        self.res = {}      # Poly key -> FPoly
        self.n = 0

    def put(self, v, num):
        self.can[v] = num
        if isinstance(num, Poly):
            self.res[num.key] = v
            self.link(v, num)

    def link(self, v, num):
        """the residue is zero exactly when its integer is a multiple of q"""
        b = C.bounds(num, 1)
        if not b or b[0] is None or b[1] is None:
            return
        q = self.alg.q
        ks = range(-(-b[0] // q), b[1] // q + 1)
        if len(ks) > 4:
            return
        z = 0
        for k in ks:
            z = bor(z, C.eq(num, k * q))
        s = v.strip()
        if not s.is_const():
            self.alg.vars[s.monic().key()] = z

    def fresh(self, name, lo=0, hi=None):
        """a residue whose canonical integer is an unknown in [lo, hi]"""
        q = self.alg.q
        hi = q - 1 if hi is None else hi
        a = C.new_atom(lo, hi, name)
        v = self.alg.atom(name, nz=lo > 0)
        self.put(v, a)
        return v, a

    def canon(self, v):
        """guarded canonical integer of the residue v"""
        v = v.reduce()
        q = self.alg.q
        if v.is_const():
            return v.value()
        r = self.can.get(v)
        if r is not None:
            return r
        m = -v
        r = self.can.get(m)
        z = v.zero()
        if r is not None:
            return vite(z, 0, psub(q, r) if not isinstance(r, Node) else C.mapply(lambda x: psub(q, x), r))
        self.n += 1
        a = C.new_atom(1, q - 1, "%s%d" % (self.tag, self.n))
        if z == 0:
            self.put(v, a)
            return a
        self.can[v] = r = vite(z, 0, a)
        self.res[a.key] = v
        return r

    def of(self, num):
        """residue of a (leaf) number"""
        if isinstance(num, int):
            return self.alg.const(num)
        k = num.key
        r = self.res.get(k)
        if r is not None:
            return r
        if num.s == 0 and all(len(m) <= 1 for m in num.t):
            tot = self.alg.const(0)
            ok = True
            for m, c in num.t.items():
                if not m:
                    tot = tot + c
                    continue
                one = Poly({m: 1})
                x = self.res.get(one.key)
                if x is None:
                    ok = False
                    break
                tot = tot + x * c
            if ok:
                return tot
        self.n += 1
        v = self.alg.atom("%s(%d)" % (self.tag, self.n))
        self.res[k] = v
        b = C.bounds(num, 1)
        if b and b[0] is not None and b[1] is not None and b[0] >= 0 and b[1] < self.alg.q:
            self.can[v] = num
            if b[0] > 0:
                self.alg.nz |= v.atoms()
        self.link(v, num)
        return v


class SV(Opaque):
    """an opaque reduced scalar; can: its canonical integer where known"""
    __slots__ = ("v", "can")

    def __init__(self, v, can=None):
        self.v, self.can = v, can

    def __eq__(self, o):
        return isinstance(o, SV) and o.v == self.v and o.can == self.can

    def __hash__(self):
        return hash(("sv", self.v))

    def __repr__(self):
        return "S(%r)" % (self.v,)


class FVc(FV):
    """a canonical field element with its integer"""
    __slots__ = ("can",)

    def __init__(self, v, can):
        FV.__init__(self, v, 1, True)
        self.can = can

    def __eq__(self, o):
        return isinstance(o, FVc) and o.v == self.v and o.can == self.can

    def __hash__(self):
        return hash(("fvc", self.v))


def bytes_num(bs):
    """integer of big-endian guarded bytes"""
    def f(*xs):
        r = 0
        for x in xs:
            r = padd(pscale(r, 256), x)
        return r
    return C.mapply(f, *bs)


def num_bytes(v):
    return tuple(C.mapply(lambda x: C.mid(x, 8 * (31 - i), 8), v) for i in range(32))


def is_bytes(bs):
    return all(C.is_num(x) or (isinstance(x, Node)) for x in bs)


class Dom(FieldDomain):
    """field hooks with canonical integers"""

    def __init__(self, w):
        FieldDomain.__init__(self, w.ap, w.u)
        self.w = w

    def canon(self, x):
        if isinstance(x, FVc):
            return x.can
        return self.w.rp.canon(x.v)

    def zero(self, x):
        return x.v.zero()

    def _b(self, can, f):
        r = 0
        for g, l in C.leaves(can):
            r = bor(r, band(g, f(l)))
        return r

    def odd(self, x):
        m = -x.v.reduce()
        if not isinstance(x, FVc) and x.v not in self.w.rp.can and m in self.w.rp.can and m.zero() == 0:
            # p is odd: of a nonzero residue and its negative one is odd
            return bnot(self._b(self.w.rp.can[m], lambda c: C.eq(C.low(c, 1), 1)))
        return self._b(self.canon(x), lambda c: C.bit_of(c, 0, 1) if False else C.eq(C.low(c, 1), 1))

    def encode(self, x):
        can = C.mapply(lambda y: self.canon(y), x)
        # canon may itself be guarded
        return num_bytes(flat(can))

    def decode(self, ip, st, dst, bs):
        if not isinstance(bs, tuple) or len(bs) != 32:
            raise Unsupported("decoding of %r" % (bs,))
        V = bytes_num(bs)
        ok = vleaf(V, lambda c: bnot(C.ge_const(c, P)))

        def f(pc, c):
            return FVc(self.w.rp.of(c), c)
        good = pmap(f, band(st.pc, ok), V) if band(st.pc, ok) else None
        bad = FV(self.w.ap.atom("rejected encoding"), 1, False)
        val = bad if good is None else (good if not band(st.pc, bnot(ok)) else vite(ok, good, bad))
        ip.store(st, dst, val)
        return B(ok)

    def hooks(self):
        H = FieldDomain.hooks(self)
        base_norm = H[FT + "::normalize"]
        D = self

        def cmp_bdd(ip, st, a, rel):
            def chk(pc, x, y):
                D.need(ip, st, pc, x.norm and y.norm, "ordering of elements that are not normalised", None)
                return 0
            x, y = D.ld(ip, st, a[0]), D.ld(ip, st, a[1])
            D.lift(ip, st, None, chk, x, y)

            def lessv(pc, x, y):
                cx, cy = D.canon(x), D.canon(y)
                return pmap(lambda pc, p, q: rel(pc, p, q), pc, cx, cy)
            return pmap(lessv, st.pc, x, y)

        def ordering(ip, st, a, G):
            def rel(pc, p, q):
                lt = C.lt(p, q, pc)
                eq = C.eq(p, q, pc)
                less, equal, gr = C.EnumV(0, ()), C.EnumV(1, ()), C.EnumV(2, ())
                return vite(lt, less, vite(eq, equal, gr))
            return cmp_bdd(ip, st, a, rel)
        H[FT + "::cmp_var"] = ordering
        H["<%s as std::cmp::Ord>::cmp" % FT] = ordering
        return H


def flat(v):
    """leaves may be guarded numbers themselves"""
    if not isinstance(v, Node):
        return v
    r = None
    for g, l in C.leaves(v):
        r = l if r is None else vite(g, l, r)
    return r


def vleaf(v, f):
    r = 0
    for g, l in C.leaves(v):
        r = bor(r, band(g, f(l)))
    return r


class World:
    def __init__(self, u, points=True):
        self.u = u
        self.mir = u.mir
        self.ap = Alg(P)
        self.an = Alg(N)
        self.rp = Residues(self.ap, "f")
        self.rn = Residues(self.an, "s")
        self.dom = Dom(self)
        self.pts = Pts(self)
        self.nw = 0
        self.roots = {}
        self.log = []
        self.alias = {}
        self.dom.root = self.root
        H = self.dom.hooks()
        H.update(self.scalar_hooks())
        if points:
            H.update(self.point_hooks())
        u.ip.hooks.update(H)

    # ---- square roots: one unknown root per argument
    def root(self, v):
        k = v.reduce()
        r = self.roots.get(k)
        if r is None:
            # roots of points already known
            for x, (L, y) in self.pts.byx.items():
                if (x * x * x + 7).reduce() == k:
                    # its ordinate is one of the two roots; call the one
                    # that is itself a square the given unknown
                    s = C.bvar(C.mkvar("op", ("squareroot", id(self), repr(y))))
                    r = self.roots[k] = (y, 1, s)
                    break
            if r is None:
                n = len(self.roots)
                a = self.ap.atom("root%d" % n)
                ex = C.bvar(C.mkvar("op", "square%d" % n))
                self.ap.rule(a, 2, k)
                # the curve has no point with a zero ordinate
                r = self.roots[k] = (a, ex, 1)
                self.ap.nz |= a.atoms()
                c = C.new_atom(1, P - 1, "root")
                self.rp.put(a, c)
        return r

    # ---- inputs
    def scalar(self, name, lo=0, hi=N - 1):
        v, a = self.rn.fresh(name, lo, hi)
        return SV(v, a), a

    def sv(self, v):
        return SV(self.an.const(v) if isinstance(v, int) else v)

    def sval(self, x):
        def f(x):
            if isinstance(x, SV):
                return x
            if isinstance(x, tuple) and len(x) == 1 and isinstance(x[0], tuple) and all(isinstance(k, int) for k in x[0]):
                k = sum(c << (32 * i) for i, c in enumerate(x[0]))
                if k < N:
                    return SV(self.an.const(k))
            raise Unsupported("not a scalar: %r" % (x,))
        return C.mapply(f, x)

    def minus_n(self, c):
        """c - n, for an integer c known to be at least n where this is used"""
        if isinstance(c, int):
            return c - N
        h = self.alias.get(c.key)
        if h is None:
            b = C.bounds(c, 1)
            h = self.alias[c.key] = C.new_atom(0, b[1] - N, "excess")
            self.rn.res[h.key] = self.rn.of(c)
            self.rp.res[h.key] = self.rp.of(c) - N
        return h

    def scanon(self, x):
        return x.can if x.can is not None else self.rn.canon(x.v)

    def szero(self, x):
        return x.v.zero()

    def sinverse(self, v):
        if v.is_const():
            k = v.value()
            return self.an.const(pow(k, -1, N) if k else 0)
        if len(v.t) == 1:
            (m, c), = v.t.items()
            if all(x in self.an.nz for x, e in m):
                return FPoly(self.an, {tuple((x, -e) for x, e in m): pow(c, -1, N)})
        return self.an.atom("inv[%r]" % (v,), nz=v.zero() == 0)

    def scalar_hooks(self):
        W = self
        H = {}

        def ld(ip, st, p):
            return W.sval(ip.load(st, p))

        def arg(ip, st, a):
            return ld(ip, st, a) if isinstance(a, Ptr) else W.sval(a)

        def lift(st, f, *xs):
            return pmap(lambda pc, *ys: f(*ys), st.pc, *xs)

        ops = {"Add": lambda x, y: SV(x.v + y.v), "Mul": lambda x, y: SV(x.v * y.v)}
        for nm, op in ops.items():
            def byval(ip, st, a, G, op=op):
                return lift(st, op, arg(ip, st, a[0]), arg(ip, st, a[1]))

            def assign(ip, st, a, G, op=op):
                ip.store(st, a[0], lift(st, op, ld(ip, st, a[0]), arg(ip, st, a[1])))
                return ()
            for r in ("", "&"):
                H["<%s%s as std::ops::%s>::%s" % (r, ST, nm, nm.lower())] = byval
                H["<%s%s as std::ops::%s<&%s>>::%s" % (r, ST, nm, ST, nm.lower())] = byval
            H["<%s as std::ops::%sAssign>::%s_assign" % (ST, nm, nm.lower())] = assign
            H["<%s as std::ops::%sAssign<&%s>>::%s_assign" % (ST, nm, ST, nm.lower())] = assign

        def neg(ip, st, a, G):
            return lift(st, lambda x: SV(-x.v), arg(ip, st, a[0]))
        H["<%s as std::ops::Neg>::neg" % ST] = neg
        H["<&%s as std::ops::Neg>::neg" % ST] = neg

        def reg(*names):
            def d(f):
                for n in names:
                    H[ST + "::" + n if not n.startswith("<") else n] = f
                return f
            return d

        @reg("mul_in_place")
        def _(ip, st, a, G):
            ip.store(st, a[0], lift(st, ops["Mul"], ld(ip, st, a[1]), ld(ip, st, a[2])))
            return ()

        @reg("sqr_in_place")
        def _(ip, st, a, G):
            ip.store(st, a[0], lift(st, lambda x: SV(x.v * x.v), ld(ip, st, a[1])))
            return ()

        @reg("sqr")
        def _(ip, st, a, G):
            return lift(st, lambda x: SV(x.v * x.v), ld(ip, st, a[0]))

        @reg("inv_in_place")
        def _(ip, st, a, G):
            ip.store(st, a[0], lift(st, lambda x: SV(W.sinverse(x.v)), ld(ip, st, a[1])))
            return ()

        @reg("inv", "inv_var")
        def _(ip, st, a, G):
            return lift(st, lambda x: SV(W.sinverse(x.v)), ld(ip, st, a[0]))

        @reg("clear")
        def _(ip, st, a, G):
            ip.store(st, a[0], SV(W.an.const(0)))
            return ()

        @reg("set_int")
        def _(ip, st, a, G):
            if not isinstance(a[1], int):
                return NotImplemented
            ip.store(st, a[0], SV(W.an.const(a[1])))
            return ()

        @reg("from_int")
        def _(ip, st, a, G):
            if not isinstance(a[0], int):
                return NotImplemented
            return SV(W.an.const(a[0]))

        @reg("<%s as std::default::Default>::default" % ST)
        def _(ip, st, a, G):
            return SV(W.an.const(0))

        @reg("<%s as std::clone::Clone>::clone" % ST)
        def _(ip, st, a, G):
            return ld(ip, st, a[0])

        @reg("is_zero")
        def _(ip, st, a, G):
            return lift(st, lambda x: B(W.szero(x)), ld(ip, st, a[0]))

        @reg("is_one")
        def _(ip, st, a, G):
            return lift(st, lambda x: B(W.szero(SV(x.v - 1))), ld(ip, st, a[0]))

        @reg("is_high")
        def _(ip, st, a, G):
            return lift(st, lambda x: B(vleaf(W.scanon(x), lambda c: C.ge_const(c, (N - 1) // 2 + 1))), ld(ip, st, a[0]))

        @reg("is_even")
        def _(ip, st, a, G):
            return lift(st, lambda x: B(vleaf(W.scanon(x), lambda c: C.eq(C.low(c, 1), 0))), ld(ip, st, a[0]))

        @reg("<%s as std::cmp::PartialEq>::eq" % ST)
        def _(ip, st, a, G):
            return lift(st, lambda x, y: B(W.szero(SV(x.v - y.v))), ld(ip, st, a[0]), ld(ip, st, a[1]))

        @reg("cond_neg_assign")
        def _(ip, st, a, G):
            c = a[1][0] if isinstance(a[1], tuple) else a[1]
            f = vleaf(c, lambda l: C.eq(l, 1) if not isinstance(l, B) else l.n)
            x = ld(ip, st, a[0])
            ip.store(st, a[0], vite(f, lift(st, lambda x: SV(-x.v), x), x))
            return ()

        @reg("set_b32")
        def _(ip, st, a, G):
            bs = ip.load(st, a[1])
            V = bytes_num(bs)
            ov = vleaf(V, lambda c: C.ge_const(c, N))

            def f(pc, c):
                o = C.ge_const(c, N)
                r = W.rn.of(c)
                hi = None if not band(pc, o) or not I.feas(band(pc, o)) else SV(r, W.minus_n(c))
                lo = None if not band(pc, bnot(o)) or not I.feas(band(pc, bnot(o))) else SV(r, c)
                return lo if hi is None else hi if lo is None else vite(o, hi, lo)
            ip.store(st, a[0], pmap(f, st.pc, V))
            return (ip.b2i(B(band(st.pc, ov))) if ov not in (0, 1) else ov,)

        def enc(ip, st, x):
            return num_bytes(flatten(C.mapply(lambda y: Box(W.scanon(y)), x)))

        @reg("b32")
        def _(ip, st, a, G):
            return enc(ip, st, ld(ip, st, a[0]))

        @reg("fill_b32")
        def _(ip, st, a, G):
            ip.store(st, a[1], enc(ip, st, ld(ip, st, a[0])))
            return ()
        return H

    # ---- points
    def w(self):
        self.nw += 1
        return self.ap.atom("w%d" % self.nw, nz=True)

    def jac_of(self, lin, scale=None):
        """a Jacobian object for a linear form"""
        x, y, inf = self.pts.coords(lin)
        w = self.w()
        if scale is not None:
            x, y = x * scale * scale, y * scale * scale * scale
        return rec(self.mir, JA, x=FV(x * w * w, 8, False), y=FV(y * w * w * w, 8, False), z=FV(w, 8, False), infinity=B(inf))

    def aff_of(self, lin, mag=(8, 8)):
        x, y, inf = self.pts.coords(lin)
        return rec(self.mir, AF, x=FV(x, mag[0], False), y=FV(y, mag[1], False), infinity=B(inf))

    def lin_of(self, ip, st, val, ty, what):
        """guarded Lin of a point object (Lin({}) at infinity)"""
        d = unrec(self.mir, ty, val)
        inf = ip.tobdd(d["infinity"], st.pc)
        x, y = self.dom.val(ip, d["x"]), self.dom.val(ip, d["y"])
        z = self.dom.val(ip, d["z"]) if ty == JA else FV(self.ap.const(1), 1, True)
        lim = 8

        def f(pc, x, y, z):
            for c, nm in ((x, "x"), (y, "y"), (z, "z")):
                self.dom.need(ip, st, pc, c.mag <= lim, "%s: coordinate magnitude %d exceeds %d" % (what, c.mag, lim), None)
            if not band(pc, bnot(inf)) or not I.feas(band(pc, bnot(inf))):
                return self.pts.lin({})
            zi = self.dom.inverse(z.v, pc)
            if z.v.is_const() and not z.v.value():
                raise Unsupported("%s: zero denominator" % what)
            zi2 = zi * zi
            return self.pts.identify(x.v * zi2, y.v * zi2 * zi, pc, what)
        r = pmap(f, st.pc, x, y, z)
        zero = self.pts.lin({})
        if inf == 0:
            return r

        def g(pc, l):
            # a form that vanishes exactly where the flag is set says it all
            e = self.pts.inf(l)
            if l == zero or not band(pc, bor(band(e, bnot(inf)), band(inf, bnot(e)))):
                return l
            return vite(inf, zero, l)
        return pmap(g, st.pc, r)

    def finite(self, ip, st, L, what):
        def f(pc, l):
            inf = band(pc, self.pts.inf(l))
            ip.obls.append(I.Obligation("precondition", ip.stack[-1] if ip.stack else "?", what + " of a point that may be at infinity", pc, None,
                                        inf == 0 or not I.feas(inf)))
            return 0
        pmap(f, st.pc, L)

    def point_hooks(self):
        W = self
        H = {}
        ctx = "libsecp256k1::curve::ECMultContext"
        gen = "libsecp256k1::curve::ECMultGenContext"

        def out(ip, st, lin, ty=JA):
            return C.mapply(lambda l: W.jac_of(l) if ty == JA else W.aff_of(l), lin)

        def sc(ip, st, p):
            return W.sval(ip.load(st, p))

        def ecmult(ip, st, a, G):
            _, r, pa, na, ng = a
            L = W.lin_of(ip, st, ip.load(st, pa), JA, "double multiplication")
            W.finite(ip, st, L, "double multiplication")
            lin = pmap(lambda pc, l, x, y: W.pts.add(W.pts.mul(l, x.v), W.pts.mul(W.pts.G, y.v)), st.pc, L, sc(ip, st, na), sc(ip, st, ng))
            W.log.append(("ecmult", lin))
            ip.store(st, r, out(ip, st, lin))
            return ()
        H[ctx + "::ecmult"] = ecmult

        def ecmult_const(ip, st, a, G):
            _, r, pa, n = a
            L = W.lin_of(ip, st, ip.load(st, pa), AF, "constant-time multiplication")
            W.finite(ip, st, L, "constant-time multiplication")
            lin = pmap(lambda pc, l, x: W.pts.mul(l, x.v), st.pc, L, sc(ip, st, n))
            W.log.append(("ecmult_const", lin))
            ip.store(st, r, out(ip, st, lin))
            return ()
        H[ctx + "::ecmult_const"] = ecmult_const

        def ecmult_gen(ip, st, a, G):
            _, r, n = a
            lin = pmap(lambda pc, x: W.pts.mul(W.pts.G, x.v), st.pc, sc(ip, st, n))
            W.log.append(("ecmult_gen", lin))
            ip.store(st, r, out(ip, st, lin))
            return ()
        H[gen + "::ecmult_gen"] = ecmult_gen

        def binop(inplace, form):
            def h(ip, st, a, G):
                if inplace:
                    dst, pa, pb = a[0], a[1], a[2]
                    rest = a[3:]
                else:
                    pa, pb = a[0], a[1]
                    rest = a[2:]
                if rest and not (isinstance(rest[0], C.EnumV) and rest[0].var == 0):
                    return NotImplemented
                x = W.lin_of(ip, st, ip.load(st, pa), JA, "point addition")
                y = W.lin_of(ip, st, ip.load(st, pb), form, "point addition")
                lin = pmap(lambda pc, p, q: W.pts.add(p, q), st.pc, x, y)
                if inplace:
                    ip.store(st, dst, out(ip, st, lin))
                    return ()
                return out(ip, st, lin)
            return h
        for n, f in (("add_var", JA), ("add_ge_var", AF), ("add_ge", AF)):
            H[JA + "::" + n] = binop(False, f)
            H[JA + "::" + n + "_in_place"] = binop(True, f)

        def dbl(inplace):
            def h(ip, st, a, G):
                dst, pa, rest = (a[0], a[1], a[2:]) if inplace else (None, a[0], a[1:])
                if rest and not (isinstance(rest[0], C.EnumV) and rest[0].var == 0):
                    return NotImplemented
                x = W.lin_of(ip, st, ip.load(st, pa), JA, "point doubling")
                lin = pmap(lambda pc, p: W.pts.add(p, p), st.pc, x)
                if inplace:
                    ip.store(st, dst, out(ip, st, lin))
                    return ()
                return out(ip, st, lin)
            return h
        H[JA + "::double_var"] = dbl(False)
        H[JA + "::double_var_in_place"] = dbl(True)
        H[JA + "::double_nonzero_in_place"] = dbl(True)
        return H


class Box(Opaque):
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v

    def __eq__(self, o):
        return isinstance(o, Box) and o.v == self.v

    def __hash__(self):
        return hash(("box", self.v if not isinstance(self.v, Node) else id(self.v)))


def flatten(v):
    """guarded Boxes of guarded numbers -> guarded number"""
    if isinstance(v, Box):
        return v.v
    if not isinstance(v, Node):
        return v
    r = None
    for g, l in C.leaves(v):
        x = l.v if isinstance(l, Box) else l
        r = x if r is None else vite(g, x, r)
    return r


class Lin(Opaque):
    __slots__ = ("t", "_k")

    def __init__(self, t):
        self.t = t
        self._k = frozenset(t.items())

    def __eq__(self, o):
        return isinstance(o, Lin) and o._k == self._k

    def __hash__(self):
        return hash(self._k)

    def __repr__(self):
        return " + ".join("(%r)%s" % (c, g) for g, c in sorted(self.t.items())) or "O"


class Pts:
    def __init__(self, w):
        self.w = w
        self.byx = {}      # FPoly x -> (Lin, y)
        self.xy = {}       # Lin -> (x, y)
        self.G = Lin({"G": w.an.const(1)})
        self.gens = {}
        self.define(self.G, w.ap.const(GX), w.ap.const(GY))

    def lin(self, t):
        return Lin({g: c for g, c in t.items() if c.t})

    def define(self, lin, x, y):
        self.xy[lin] = (x, y)
        self.byx[x] = (lin, y)
        if not y.is_const():
            W = self.w
            W.ap.nz |= y.atoms() if len(y.t) == 1 else set()

    def gen(self, name):
        """a fresh finite curve point"""
        L = Lin({name: self.w.an.const(1)})
        if L not in self.xy:
            self._fresh(L, name)
        return L

    def _fresh(self, L, name):
        w = self.w
        x, _ = w.rp.fresh("x[%s]" % name)
        y, _ = w.rp.fresh("y[%s]" % name, 1)
        w.ap.rule(y, 2, x * x * x + 7)
        self.define(L, x, y)

    def neg(self, L):
        return Lin({g: -c for g, c in L.t.items()})

    def add(self, a, b):
        t = dict(a.t)
        for g, c in b.t.items():
            t[g] = t[g] + c if g in t else c
        return self.lin(t)

    def mul(self, a, k):
        return self.lin({g: c * k for g, c in a.t.items()})

    def inf(self, L):
        """BDD of 'L is the neutral element'"""
        if not L.t:
            return 1
        if len(L.t) == 1:
            (g, c), = L.t.items()
            return self.w.szero(SV(c))
        an = self.w.an
        tot = an.const(0)
        for g, c in L.t.items():
            tot = tot + c * an.atom("gen:" + g)
        return an.zero_var(tot.strip().monic())

    def coords(self, L):
        """(x, y, BDD at infinity)"""
        if not L.t:
            z = self.w.ap
            return z.atom("junkx"), z.atom("junky"), 1
        inf = self.inf(L)
        r = self.xy.get(L)
        if r is None:
            m = self.neg(L)
            r = self.xy.get(m)
            if r is not None:
                return r[0], -r[1], inf
            self._fresh(L, repr(L)[:40] + "#%d" % len(self.xy))
            r = self.xy[L]
        return r[0], r[1], inf

    def identify(self, x, y, pc, what):
        x, y = x.reduce(), y.reduce()
        r = self.byx.get(x)
        if r is not None:
            if r[1] == y:
                return r[0]
            if r[1] == -y:
                return self.neg(r[0])
        if not (y * y - x * x * x - 7).reduce().t:
            n = "P%d" % len(self.gens)
            self.gens[n] = (x, y)
            L = Lin({n: self.w.an.const(1)})
            self.define(L, x, y)
            return L
        raise Unsupported("%s: operand is not known to be on the curve" % what)
