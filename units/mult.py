"""Scalar multiplication: windows, tables, and the three multipliers.

Points are linear forms over named points with coefficients modulo n (world.py).
A Jacobian or affine object may also hold a point of an isomorphic curve: its
coordinates are then those of the point times s^2 and s^3 for a product s of
nonzero unknowns, and the group law, which does not use the curve's constant
(C07 proves it for every constant), holds among objects of the same s.
"""
from ai import core as C, interp as I
from ai.core import Node, B, Poly, Unsupported, Opaque, EnumV, UNDEF, band, bor, bnot, vite, padd, psub, pmul, pscale
from ai.interp import Ptr, Ret, pmap
from .base import P, N
from ai import vec as VEC
from .fe import Alg, FPoly, FV, FSV, FT, FST
from .group import JA, AF, AS, rec, unrec, fields
from .world import World, Lin, Pts, SV, ST, vleaf, Box, flatten

CTX = "libsecp256k1::curve::ECMultContext"
GEN = "libsecp256k1::curve::ECMultGenContext"


class SLin(Opaque):
    """a linear form on the curve scaled by s"""
    __slots__ = ("l", "s")

    def __init__(self, l, s):
        self.l, self.s = l, s

    def __eq__(self, o):
        return isinstance(o, SLin) and o.l == self.l and o.s == self.s

    def __hash__(self):
        return hash((self.l, self.s))

    def __repr__(self):
        return "%r @%r" % (self.l, self.s)


class MPts(Pts):
    """points that may be scaled; ordinates are not squared here"""

    def _fresh(self, L, name):
        w = self.w
        n = len(self.xy)
        self.define(L, w.ap.atom("x[%d]%s" % (n, name)), w.ap.atom("y[%d]%s" % (n, name), nz=True))

    def gen(self, name):
        L = Lin({name: self.w.an.const(1)})
        if L not in self.xy:
            self._fresh(L, name)
        return L

    def define(self, lin, x, y):
        self.xy[lin] = (x, y)
        (m, c), = x.t.items()
        self.byx[m[0][0] if m else ("const", c)] = (lin, x, y)


def mono(v):
    if len(v.t) != 1:
        raise Unsupported("coordinate %r" % (v,))
    return next(iter(v.t.items()))


def half(m):
    """square root of a monomial, or None"""
    if any(e % 2 for a, e in m):
        return None
    return tuple((a, e // 2) for a, e in m)


class Lazy(Opaque):
    """an array given by a function of the index"""
    __slots__ = ("f", "m")

    def __init__(self, f):
        self.f = f
        self.m = {}

    def index(self, s, pc, ip):
        if isinstance(s, Node):
            return pmap(lambda pc, q: self.index(q, pc, ip), pc, s)
        o = s
        if isinstance(s, Poly):
            b = C.bounds(s, pc)
            if b is None:
                return 0
            if b[0] is not None and b[0] == b[1]:
                s = b[0]
            else:
                s = o = ip.narrow(s, pc)
        k = s if isinstance(s, int) else s.key
        r = self.m.get(k)
        if r is None:
            r = self.m[k] = self.f(o, pc)
        return r

    def __eq__(self, o):
        return self is o

    def __hash__(self):
        return id(self)


class Mult(World):
    def __init__(self, u, points=True):
        World.__init__(self, u, False)
        self.pts = MPts(self)
        self.fin = set()       # forms of points known to be finite
        self.sums = []         # (guard, residue if it holds, residue of the choice with 0)
        self.cands = []        # scalar factors that read digits suggest
        H = u.ip.hooks
        self.bit_hooks(H)
        VEC.install(u)
        u.ip.loop_limit = 20000
        u.ip.liveness = True
        if points:
            self.law(H)
        base = H[FST + "::cmov"]

        def storage(x):
            if isinstance(x, tuple) and len(x) == 1 and all(isinstance(w, int) for w in x[0]):
                return FSV(self.ap.const(sum(w << (32 * i) for i, w in enumerate(x[0]))))
            return x

        def cmov(ip, st, a, G):
            ip.store(st, a[0], C.mapply(storage, ip.load(st, a[0])))
            ip.store(st, a[1], C.mapply(storage, ip.load(st, a[1])))
            return base(ip, st, a, G)
        H[FST + "::cmov"] = cmov

    # ---- integers as residues
    def res(self, num):
        """residue modulo n of a leaf number (a linear form over integer unknowns)"""
        an = self.an
        if isinstance(num, int):
            return an.const(num)
        r = self.rn.res.get(num.key)
        if r is not None:
            return r
        t = an.const(0)
        for m, c in num.t.items():
            if not m:
                t = t + c
                continue
            if len(m) != 1:
                raise Unsupported("residue of %r" % (num,))
            x = self.rn.res.get(Poly({m: 1}).key)
            if x is None:
                x = an.atom("int%d" % m[0])
                self.rn.res[Poly({m: 1}).key] = x
            t = t + x * c
        if num.s:
            t = t * pow(2, -num.s, N)
        return t

    def bit_hooks(self, H):
        W = self

        def bits(ip, st, a, G):
            x = W.sval(ip.load(st, a[0]))
            for g, l in C.leaves(x):
                v = l.v.reduce()
                if l.can is None and not v.is_const() and v not in W.rn.can and -v not in W.rn.can:
                    W.rn.put(v, C.new_atom(0, N - 1, "scalar"))
            can = flatten(C.mapply(lambda y: Box(W.scanon(y)), x))

            def f(pc, c, off, k):
                if not isinstance(off, int) or not isinstance(k, int):
                    raise Unsupported("bits at %r of %r" % (off, k))
                ip.obls.append(I.Obligation("precondition", ip.stack[-1] if ip.stack else "?", "bits within the scalar, at most 32 of them", pc, None, 0 < k <= 32 and off + k <= 256))
                if "var" not in G.name.split("::")[-1]:
                    ip.obls.append(I.Obligation("precondition", ip.stack[-1] if ip.stack else "?", "bits within one word", pc, None, off // 32 == (off + k - 1) // 32))
                v = C.mid(c, off, k)
                if v not in W.cands:
                    W.cands.append(v)
                return v
            return pmap(f, st.pc, can, a[1], a[2])
        H[ST + "::bits"] = bits
        H[ST + "::bits_var"] = bits

    # ---- points
    def scaled(self, x, y, what):
        """(x, y) -> SLin"""
        mx, cx = mono(x)
        my, cy = mono(y)
        byx = self.pts.byx
        for k in [a for a, e in mx if e == 1 and a in byx] + ([("const", cx)] if ("const", cx) in byx else []):
            lin, bx, by = byx[k]
            (bm, bc), = bx.t.items()
            (ym, yc), = by.t.items()
            if cx != bc:
                continue
            s = half(_mdiv(mx, bm))
            if s is None:
                continue
            r = _mdiv(my, ym)
            if r != tuple((a, 3 * e) for a, e in s):
                continue
            S = FPoly(self.ap, {s: 1})
            if cy == yc:
                return SLin(lin, S)
            if (cy + yc) % P == 0:
                return SLin(self.pts.neg(lin), S)
        raise Unsupported("%s: operand %r, %r is not a known point" % (what, x, y))

    def identify(self, x, y, pc, what):
        raise NotImplementedError

    def slin(self, ip, st, val, ty, what, zmul=None):
        """guarded SLin or None (at infinity) of a point object"""
        d = unrec(self.mir, ty, val)
        inf = ip.tobdd(d["infinity"], st.pc)
        x, y = self.dom.val(ip, d["x"]), self.dom.val(ip, d["y"])
        z = self.dom.val(ip, d["z"]) if ty == JA else FV(self.ap.const(1), 1, True)
        if zmul is not None:
            z = zmul

        def f(pc, x, y, z):
            for c, nm in ((x, "x"), (y, "y"), (z, "z")):
                self.dom.need(ip, st, pc, c.mag <= 8, "%s: coordinate magnitude %d exceeds 8" % (what, c.mag), None)
            if not band(pc, bnot(inf)) or not I.feas(band(pc, bnot(inf))):
                return SLin(self.pts.lin({}), self.ap.const(1))
            zi = self.dom.inverse(z.v, pc)
            zi2 = zi * zi
            return self.scaled(x.v * zi2, y.v * zi2 * zi, what)
        r = pmap(f, st.pc, x, y, z)
        zero = SLin(self.pts.lin({}), self.ap.const(1))
        if inf == 0:
            return r

        def g(pc, l):
            e = self.pts.inf(l.l)
            if not l.l.t or not band(pc, bor(band(e, bnot(inf)), band(inf, bnot(e)))):
                return l
            return vite(inf, zero, l)
        return pmap(g, st.pc, r)

    def fold(self, r, pc):
        """one form for a choice among forms, where a digit read before tells
        them apart"""
        ls = [(g, l) for g, l in C.leaves(r) if I.feas(band(g, pc))] if isinstance(r, Node) else [(pc, r)]
        if len(ls) == 1:
            return ls[0][1]
        s = None
        for g, l in ls:
            if l.l.t:
                if s is None:
                    s = l.s
                elif s != l.s:
                    raise Unsupported("points of different scales meet")
        if s is None:
            return ls[0][1]
        gens = {}
        for g, l in ls:
            for k, c in l.l.t.items():
                gens.setdefault(k, []).append((g, c))
        out = {}
        zero = self.an.const(0)
        for k in gens:
            cs = [(g, l.l.t.get(k, zero)) for g, l in ls]
            v = self.fold1(cs, pc)
            if v is None:
                return r
            if v.t:
                out[k] = v
        return SLin(Lin(out), s)

    def fold1(self, cs, pc):
        if all(c == cs[0][1] for g, c in cs):
            return cs[0][1]
        for g, x, X in self.sums[-4:]:
            # a digit or zero
            (m, _), = X.t.items()
            on, off, either = [], [], []
            for p, c in cs:
                k = c.t.get(m, 0)
                if not band(p, bnot(g)):
                    on.append(c - X * k + x * k)
                elif not band(p, g):
                    off.append(c - X * k)
                else:
                    either.append(c)
            if on and off:
                d = off[0] + X
                if all(c == on[0] for c in on) and all(c == off[0] for c in off) and all(c == d for c in either) and not (on[0] - off[0] - x).reduce().t:
                    return d
        # leaves as integers times a common factor: interpolate over a digit
        for d in reversed(self.cands):
            vals = []
            for g, c in cs:
                k = C.vconstrain(d, band(g, pc))
                if isinstance(k, Poly):
                    b = C.bounds(k, band(g, pc))
                    if b is None or b[0] != b[1]:
                        b = C.bounds_deep(k, band(g, pc))
                    k = b[0] if b is not None and b[0] == b[1] else k
                if not isinstance(k, (int, Poly)):
                    vals = None
                    break
                vals.append((k, c))
            if not vals:
                continue
            # slope from two leaves with different constant digits
            for w, base in self.lines(vals):
                if all((base + w * self.res(k) - c).reduce().t == {} for k, c in vals):
                    ls = C.leaves(d) if isinstance(d, Node) else [(1, d)]
                    if len(ls) == 1:
                        return base + w * self.res(ls[0][1])
        return None

    def lines(self, vals):
        for i in range(len(vals)):
            for j in range(i):
                (a, x), (b, y) = vals[i], vals[j]
                if isinstance(a, int) and isinstance(b, int) and a != b:
                    w = (x - y) * pow(a - b, -1, N)
                    yield w, x - w * a
                    return

    def obj(self, s, ty):
        """an object for an SLin"""
        x, y, inf = self.pts.coords(s.l)
        if not s.l.t:
            j = self.ap.atom("junk")
            if ty == AF:
                return rec(self.mir, AF, x=FV(j, 8, False), y=FV(j, 8, False), infinity=B(1))
            return rec(self.mir, JA, x=FV(j, 8, False), y=FV(j, 8, False), z=FV(j, 8, False), infinity=B(1))
        w = self.w() if ty == JA else self.ap.const(1)
        k = w * s.s
        x, y = x * k * k, y * k * k * k
        if ty == AF:
            return rec(self.mir, AF, x=FV(x, 8, False), y=FV(y, 8, False), infinity=B(inf))
        return rec(self.mir, JA, x=FV(x, 8, False), y=FV(y, 8, False), z=FV(w, 8, False), infinity=B(inf))

    def sum(self, a, b):
        if not a.l.t:
            return b
        if not b.l.t:
            return a
        if a.s != b.s:
            raise Unsupported("sum of points on differently scaled curves")
        return SLin(self.pts.add(a.l, b.l), a.s)

    def law(self, H):
        W = self

        def finish(ip, st, dst, lin, rest, z1):
            """stores or returns the result, and the ratio of denominators"""
            v = C.mapply(lambda l: W.obj(l, JA), lin)
            if rest and isinstance(rest[0], EnumV) and rest[0].var == 1:
                p = rest[0].f[0]
                z3 = W.dom.val(ip, unrec(W.mir, JA, v)["z"])

                def ratio(pc, a, b):
                    return FV(b.v * W.dom.inverse(a.v, pc), 8, False)
                inf = ip.tobdd(unrec(W.mir, JA, v)["infinity"], st.pc)
                W.u.ip.obls.append(I.Obligation("precondition", ip.stack[-1] if ip.stack else "?", "ratio of denominators of a sum at infinity", st.pc, None, not band(st.pc, inf) or not I.feas(band(st.pc, inf))))
                ip.store(st, p, pmap(ratio, st.pc, z1, z3))
            elif rest and not (isinstance(rest[0], EnumV) and rest[0].var == 0):
                raise Unsupported("ratio argument")
            if dst is None:
                return v
            ip.store(st, dst, v)
            return ()

        def binop(inplace, form, zinv=False, complete=True):
            def h(ip, st, a, G):
                dst, a = (a[0], a[1:]) if inplace else (None, a)
                va, vb = ip.load(st, a[0]), ip.load(st, a[1])
                rest = a[2:]
                zm = None
                if zinv:
                    zi = W.dom.ld(ip, st, rest[0])
                    zm = pmap(lambda pc, q: FV(W.dom.inverse(q.v, pc), 8, False), st.pc, zi)
                    rest = ()
                x = W.fold(W.slin(ip, st, va, JA, "addition"), st.pc)
                y = W.slin(ip, st, vb, form, "addition", zm)
                if not complete:
                    def nz(pc, l):
                        e = 0 if l.l in W.fin else band(pc, W.pts.inf(l.l))
                        ip.obls.append(I.Obligation("precondition", ip.stack[-1] if ip.stack else "?", "addition of a second operand that may be at infinity", pc, None, not e or not I.feas(e)))
                        return 0
                    pmap(nz, st.pc, y)
                y = W.fold(y, st.pc)
                lin = W.fold(pmap(lambda pc, p, q: W.sum(p, q), st.pc, x, y), st.pc)
                return finish(ip, st, dst, lin, rest, W.dom.val(ip, unrec(W.mir, JA, va)["z"]))
            return h
        for n, f, c in (("add_var", JA, True), ("add_ge_var", AF, True), ("add_ge", AF, False)):
            H[JA + "::" + n] = binop(False, f, complete=c)
            H[JA + "::" + n + "_in_place"] = binop(True, f, complete=c)
        H[JA + "::add_zinv_var"] = binop(False, AF, True)
        H[JA + "::add_zinv_var_in_place"] = binop(True, AF, True)

        def dbl(inplace):
            def h(ip, st, a, G):
                dst, a = (a[0], a[1:]) if inplace else (None, a)
                va = ip.load(st, a[0])
                x = W.fold(W.slin(ip, st, va, JA, "doubling"), st.pc)
                lin = pmap(lambda pc, p: W.sum(p, p), st.pc, x)
                return finish(ip, st, dst, lin, a[1:], W.dom.val(ip, unrec(W.mir, JA, va)["z"]))
            return h
        H[JA + "::double_var"] = dbl(False)
        H[JA + "::double_var_in_place"] = dbl(True)
        H[JA + "::double_nonzero_in_place"] = dbl(True)

    def final(self, u, st, val, ty, want, what):
        """the object is the point `want` of the curve itself"""
        L = self.fold(self.slin(u.ip, st, val, ty, what), st.pc)

        def f(pc, l):
            if not l.l.t:
                e = band(pc, bnot(self.pts.inf(want)))
                u.check(not want.t or not e or not I.feas(e), what, repr(l)[:200])
                return 0
            d = self.pts.add(l.l, self.pts.neg(want))
            ok = all(not c.reduce().t for c in d.t.values())
            u.check(ok, what, "difference %r" % (d,))
            u.check(l.s == self.ap.const(1), what + ": on the curve itself", repr(l.s)[:200])
            return 0
        pmap(f, st.pc, L)


def _mdiv(a, b):
    d = dict(a)
    for x, e in b:
        n = d.get(x, 0) - e
        if n:
            d[x] = n
        else:
            del d[x]
    return tuple(sorted(d.items()))


def stored(w, lin):
    x, y, inf = w.pts.coords(lin)
    return rec(w.mir, AS, x=FSV(x), y=FSV(y))


def ecmult_gen(u):
    w = Mult(u)
    gn, ga = w.scalar("n")
    blind, ba = w.scalar("blind")
    U = [w.pts.gen("U%d" % j) for j in range(63)]
    last = w.pts.lin({})
    for x in U:
        last = w.pts.add(last, w.pts.neg(x))
    U.append(last)

    def entry(j, i):
        if not isinstance(j, int) or not isinstance(i, int):
            raise Unsupported("table entry %r, %r" % (j, i))
        L = w.pts.add(U[j], w.pts.mul(w.pts.G, w.an.const(i << (4 * j))))
        w.fin.add(L)        # the tables hold points (C14)
        return stored(w, L)
    prec = tuple(tuple(entry(j, i) for i in range(16)) for j in range(64))
    st = u.state()
    init = w.obj(SLin(w.pts.mul(w.pts.G, -blind.v), w.ap.const(1)), JA)
    d = unrec(w.mir, JA, init)
    ctx = u.alloc(st, GEN, rec(w.mir, GEN, prec=prec, blind=blind, initial=init))
    r = u.alloc(st, JA, w.obj(SLin(w.pts.gen("old"), w.ap.const(1)), JA))
    n = u.alloc(st, ST, gn)
    o = u.call(GEN + "::ecmult_gen", [ctx, r, n], st)
    if u.check(o is not None, "returns"):
        w.final(u, o.st, u.ip.load(o.st, r), JA, w.pts.mul(w.pts.G, gn.v), "the result is n times the generator")



# --------------------------------------------------------------------------
# tables


def one_fn(u, name):
    c = [x for x in u.mir.byname if x.split("::")[-1] == name and not x.startswith("vroots")]
    if len(c) != 1:
        raise Unsupported("%s not found" % name)
    return c[0]


def array(u, st, ty, vals):
    n = len(vals)
    return Ptr(u.ip.heap(st, tuple(vals), u.ip.arr_ty(u.mir.ty(ty), n)), (0,), n)


def start(w, name="A", inf=False):
    """a Jacobian object for a finite point"""
    L = w.pts.gen(name)
    w.an.nz |= w.an.atom(name).atoms()
    v = w.obj(SLin(L, w.ap.const(1)), JA)
    d = unrec(w.mir, JA, v)
    return L, rec(w.mir, JA, x=d["x"], y=d["y"], z=d["z"], infinity=B(0))


def odd_multiples(n):
    """prej[i] is (2i+1)A on the curve scaled by the denominator of 2A, the
    last one with the scale folded into its own denominator"""
    def run(u):
        w = Mult(u)
        L, a = start(w)
        st = u.state()
        junk = w.obj(SLin(w.pts.gen("old"), w.ap.const(1)), JA)
        pj = array(u, st, JA, [junk] * n)
        pz = array(u, st, FT, [FV(w.ap.atom("oldzr"), 8, False)] * n)
        o = u.call(one_fn(u, "odd_multiples_table"), [pj, pz, u.alloc(st, JA, a)], st)
        if not u.check(o is not None, "returns"):
            return
        js, zs = u.ip.load(o.st, Ptr(pj.obj)), u.ip.load(o.st, Ptr(pz.obj))
        zl = []
        for i in range(n):
            d = unrec(w.mir, JA, js[i])
            z = w.dom.val(u.ip, d["z"])
            zl.append(z.v)
            u.check(u.ip.tobdd(d["infinity"], 1) == 0, "entries are finite")
            x, y = w.dom.val(u.ip, d["x"]), w.dom.val(u.ip, d["y"])
            u.check(max(x.mag, y.mag, z.mag) <= 8, "magnitudes")
            zi = z.v ** -1
            s = w.scaled(x.v * zi * zi, y.v * zi * zi * zi, "entry")
            if i == n - 1:
                # its true denominator: the point of the curve itself
                u.check(s.s == w.ap.const(1), "the last entry is on the curve itself", repr(s))
                last = zl[i]
            u.check(s.l == w.pts.mul(L, w.an.const(2 * i + 1)), "entry i is (2i+1)A", repr(s))
        # the denominators relate by the reported ratios, up to the common scale
        sc = [w.scaled(w.dom.val(u.ip, unrec(w.mir, JA, j)["x"]).v * zz ** -2, w.dom.val(u.ip, unrec(w.mir, JA, j)["y"]).v * zz ** -3, "entry").s for j, zz in zip(js, zl)]
        for i in range(1, n):
            zr = w.dom.val(u.ip, zs[i])
            # true denominators: z * scale
            t1, t0 = zl[i], zl[i - 1]
            k = sc[i - 1] ** -1 if i == n - 1 and n > 1 else w.ap.const(1)
            want = t1 * t0 ** -1
            if i == n - 1:
                # z of the last entry carries the scale of the others
                want = want * sc[0] ** (-1 if n > 1 else 0)
            u.check(zr.v == want, "ratio of denominators", "%r, %r" % (zr.v, want))
            u.check(zr.mag <= 8, "magnitude of the ratio")
    return run


def table_hooks(u, w):
    """contract of odd_multiples_table (its own units prove it)"""


def globalz(u):
    """the eight odd multiples of A over one common denominator"""
    w = Mult(u)
    L, a = start(w)
    st = u.state()
    n = 8
    t = u.ip.arr_ty(u.mir.ty(AF), n)
    junk = w.obj(SLin(w.pts.gen("old"), w.ap.const(1)), AF)
    pa = Ptr(u.ip.heap(st, (junk,) * n, t))
    pz = u.alloc(st, FT, FV(w.ap.atom("oldz"), 8, False))
    o = u.call(one_fn(u, "odd_multiples_table_globalz_windowa"), [pa, pz, u.alloc(st, JA, a)], st)
    if not u.check(o is not None, "returns"):
        return
    z = w.dom.ld(u.ip, o.st, pz)
    u.check(z.mag <= 8, "magnitude of the common denominator")
    es = u.ip.load(o.st, pa)
    for i in range(n):
        s = w.slin(u.ip, o.st, es[i], AF, "entry")
        u.check(isinstance(s, SLin) and s.l == w.pts.mul(L, w.an.const(2 * i + 1)), "entry i is (2i+1)A", repr(s))
        u.check(isinstance(s, SLin) and s.s == z.v, "entries are relative to the common denominator", "%r, %r" % (s, z))


def storage_table(n):
    def run(u):
        w = Mult(u)
        L, a = start(w)
        st = u.state()
        junk = stored(w, w.pts.gen("old"))
        pa = array(u, st, AS, [junk] * n)
        o = u.call(one_fn(u, "odd_multiples_table_storage_var"), [pa, u.alloc(st, JA, a)], st)
        if not u.check(o is not None, "returns"):
            return
        es = u.ip.load(o.st, Ptr(pa.obj))
        for i in range(n):
            d = unrec(w.mir, AS, es[i])
            ok = isinstance(d["x"], FSV) and isinstance(d["y"], FSV)
            s = w.scaled(d["x"].v, d["y"].v, "entry") if ok else None
            u.check(ok and s == SLin(w.pts.mul(L, w.an.const(2 * i + 1)), w.ap.const(1)), "entry i is (2i+1)A", repr(s))
    return run


def inverses(u):
    for n in range(0, 7):
        w = Mult(u)
        st = u.state()
        fs = [w.ap.atom("f%d" % i, nz=True) for i in range(n)]
        p = array(u, st, FT, [FV(f, 8, False) for f in fs])
        o = u.call(one_fn(u, "inv_all_var"), [p], st)
        if not u.check(o is not None, "returns"):
            return
        vs = vec(u, o.st, o.v)
        u.check(len(vs) == n, "as many inverses as elements")
        for f, v in zip(fs, vs):
            v = w.dom.val(u.ip, v)
            u.check((v.v * f).reduce() == w.ap.const(1) and v.mag <= 8, "inverse of the i-th element", repr(v))


def vec(u, st, v):
    """contents of a Vec"""
    return list(VEC.elems(u.ip, st, v))


def all_affine(u):
    for n in range(0, 5):
        for mask in range(1 << n):
            w = Mult(u)
            st = u.state()
            pts, Ls = [], []
            for i in range(n):
                if mask >> i & 1:
                    pts.append(w.obj(SLin(w.pts.lin({}), w.ap.const(1)), JA))
                    Ls.append(None)
                else:
                    L, v = start(w, "A%d" % i)
                    pts.append(v)
                    Ls.append(L)
            o = u.call(one_fn(u, "set_all_gej_var"), [array(u, st, JA, pts)], st)
            if not u.check(o is not None, "returns"):
                return
            vs = vec(u, o.st, o.v)
            u.check(len(vs) == n, "as many points")
            for L, v in zip(Ls, vs):
                inf = u.ip.tobdd(unrec(w.mir, AF, v)["infinity"], 1)
                u.check(inf == (1 if L is None else 0), "infinity is kept")
                if L is not None:
                    s = w.slin(u.ip, o.st, v, AF, "point")
                    u.check(s == SLin(L, w.ap.const(1)), "the point is kept", repr(s))



# --------------------------------------------------------------------------
# the contexts: compiled constants, and the constructors

from .group import GX, GY


def int_of(v, bits):
    """a concrete limb tuple"""
    while isinstance(v, tuple) and len(v) and isinstance(v[0], tuple):
        v = v[0]
    if not isinstance(v, tuple) or not all(isinstance(x, int) for x in v):
        raise Unsupported("constant %r" % (v,))
    return sum(x << (bits * i) for i, x in enumerate(v))


def ec_add(p, q):
    if p is None:
        return q
    if q is None:
        return p
    if p[0] == q[0]:
        if (p[1] + q[1]) % P == 0:
            return None
        k = 3 * p[0] * p[0] * pow(2 * p[1], -1, P) % P
    else:
        k = (q[1] - p[1]) * pow(q[0] - p[0], -1, P) % P
    x = (k * k - p[0] - q[0]) % P
    return x, (k * (p[0] - x) - p[1]) % P


def ec_mul(p, k):
    r = None
    while k:
        if k & 1:
            r = ec_add(r, p)
        p = ec_add(p, p)
        k >>= 1
    return r


def is_sum(r, p, q):
    """r = p + q for distinct abscissas, without inversions"""
    dx, dy = (q[0] - p[0]) % P, (q[1] - p[1]) % P
    return dx != 0 and ((p[0] + q[0] + r[0]) * dx * dx - dy * dy) % P == 0 and ((r[1] + p[1]) * dx - dy * (p[0] - r[0])) % P == 0


GP = (GX, GY)


def spoint(w, e):
    d = unrec(w.mir, AS, e)
    return int_of(d["x"], 32), int_of(d["y"], 32)


def canonical(p):
    return 0 <= p[0] < P and 0 <= p[1] < P


def static_pre(u):
    w = Mult(u)
    st = u.state()
    v = u.ip.read_obj(st, ("S", "libsecp256k1::ECMULT_CONTEXT"))
    es = unrec(w.mir, CTX, v)["pre_g"]
    u.check(len(es) == 1 << 14, "16384 entries")
    u.entry = "libsecp256k1::ECMULT_CONTEXT"
    p = spoint(w, es[0])
    u.check(p == GP, "entry 0 is G")
    g2 = ec_add(GP, GP)
    for i in range(1, len(es)):
        q = spoint(w, es[i])
        u.check(canonical(q) and is_sum(q, p, g2), "entry %d is the one before it plus 2G" % i)
        p = q


def static_gen(u):
    w = Mult(u)
    st = u.state()
    u.entry = "libsecp256k1::ECMULT_GEN_CONTEXT"
    v = unrec(w.mir, GEN, u.ip.read_obj(st, ("S", "libsecp256k1::ECMULT_GEN_CONTEXT")))
    gen_values(u, w, [[spoint(w, e) for e in row] for row in v["prec"]], v["blind"], v["initial"])


def gen_values(u, w, prec, blind, initial):
    u.check(len(prec) == 64 and all(len(r) == 16 for r in prec), "64 rows of 16 entries")
    base, tot = GP, None
    for j in range(64):
        row = prec[j]
        u.check(canonical(row[0]) and (row[0][1] ** 2 - row[0][0] ** 3 - 7) % P == 0, "row %d starts with a curve point" % j)
        for i in range(1, 16):
            u.check(canonical(row[i]) and is_sum(row[i], row[i - 1], base), "entry (%d,%d) is the one before it plus 16^%d G" % (j, i, j))
        tot = ec_add(tot, row[0])
        for _ in range(4):
            base = ec_add(base, base)
    blinding(u, w, blind, initial, tot)


def blinding(u, w, blind, initial, tot):
    b = int_of(blind, 32)
    u.check(b < N, "the blinding scalar is reduced")
    d = unrec(w.mir, JA, initial)
    x, y, z = (int_of(d[k], 26) for k in ("x", "y", "z"))
    u.check(u.ip.tobdd(d["infinity"], 1) == 0 and z % P, "the blinding point is finite")
    zi = pow(z, -1, P)
    pt = (x * zi * zi % P, y * zi * zi * zi % P)
    u.check(ec_add(ec_add(pt, ec_mul(GP, b)), tot) is None, "blinding point, blinding scalar and row offsets cancel")


def allocation(u, ty, val):
    H = u.ip.hooks
    for nm in u.mir.byname:
        last = nm.split("::")[-1]
        if nm in ("std::alloc::alloc", "alloc::alloc::alloc"):
            H[nm] = lambda ip, st, a, G: Ptr(ip.heap(st, val, u.mir.ty(ty)))
        elif nm.startswith("std::alloc::Layout::new::<") or nm.startswith("core::alloc::Layout::new::<"):
            H[nm] = lambda ip, st, a, G: UNDEF
        elif last == "is_null" and ("std::ptr::" in nm or "core::ptr::" in nm):
            H[nm] = lambda ip, st, a, G: B(0) if isinstance(a[0], Ptr) else NotImplemented


def unbox(u, st, v):
    """the pointer inside a Box"""
    while isinstance(v, tuple):
        v = v[0]
    if not isinstance(v, Ptr):
        raise Unsupported("box %r" % (v,))
    return v


def boxed_pre(u):
    """the constructor fills its table with the odd multiples of G"""
    w = Mult(u)
    G = w.pts.gen("A")
    allocation(u, CTX, rec(w.mir, CTX, pre_g=(UNDEF,) * (1 << 14)))
    got = []

    def table(ip, st, a, Gf):
        s, p = a
        L = w.slin(ip, st, ip.load(st, p), JA, "table base")
        got.append((s.meta, L))
        n = s.meta
        u.check(isinstance(n, int), "table length")
        full = ip.load(st, Ptr(s.obj, s.path[:-1]))
        u.check(s.path[-1] == 0 and len(full) == n, "the whole table is filled")
        u.check(all(x is not UNDEF for x in full), "the table holds values before it is borrowed")
        ip.store(st, Ptr(s.obj, s.path[:-1]), tuple(stored(w, w.pts.mul(w.pts.G, w.an.const(2 * i + 1))) for i in range(n)))
        return ()
    u.ip.hooks[one_fn(u, "odd_multiples_table_storage_var")] = table
    o = u.call(CTX + "::new_boxed", [], u.state())
    if not u.check(o is not None, "returns"):
        return
    u.check(len(got) == 1 and got[0][1] == SLin(w.pts.G, w.ap.const(1)), "the table of odd multiples of G", repr(got)[:200])
    es = unrec(w.mir, CTX, u.ip.load(o.st, unbox(u, o.st, o.v)))["pre_g"]
    u.check(len(es) == 1 << 14, "16384 entries")
    for i in range(len(es)):
        d = unrec(w.mir, AS, es[i]) if es[i] is not UNDEF else None
        u.check(d is not None and isinstance(d["x"], FSV) and w.scaled(d["x"].v, d["y"].v, "entry").l == w.pts.mul(w.pts.G, w.an.const(2 * i + 1)), "entry %d" % i)


def boxed_gen(u):
    w = Mult(u)
    H = u.ip.hooks
    allocation(u, GEN, rec(w.mir, GEN, prec=tuple((UNDEF,) * 16 for _ in range(64)), blind=UNDEF, initial=UNDEF))
    from .world import ST

    def lift(ip, st, a, Gf):
        x = w.dom.ld(ip, st, a[1]).v.value()
        y = pow(x ** 3 + 7, (P + 1) // 4, P)
        if (y * y - x ** 3 - 7) % P:
            return B(0)
        odd = a[2].n if isinstance(a[2], B) else a[2]
        if y & 1 != odd:
            y = P - y
        L = Lin({"nums": w.an.const(1)})
        w.pts.define(L, w.ap.const(x), w.ap.const(y))
        ip.store(st, a[0], w.obj(SLin(L, w.ap.const(1)), AF))
        return B(1)
    H[AF + "::set_xo_var"] = lift
    w.an.nz |= w.an.atom("gen:nums").atoms()
    # no multiple of G that occurs below is known to be opposite to one of the
    # other point: the table is checked entry by entry, whatever the branch
    w.pts.inf = lambda L: 1 if not L.t else 0
    o = u.call(GEN + "::new_boxed", [], u.state())
    if not u.check(o is not None, "returns"):
        return
    d = unrec(w.mir, GEN, u.ip.load(o.st, unbox(u, o.st, o.v)))
    tot = w.pts.lin({})
    for j in range(64):
        first = None
        for i in range(16):
            e = d["prec"][j][i]
            q = unrec(w.mir, AS, e) if e is not UNDEF else None
            if not u.check(q is not None and isinstance(q["x"], FSV), "entry (%d,%d) is written" % (j, i)):
                continue
            s = w.scaled(q["x"].v, q["y"].v, "entry")
            if i == 0:
                first = s.l
                u.check(s.l.t and "nums" in s.l.t, "the row offset has an unknown logarithm")
                tot = w.pts.add(tot, s.l)
            u.check(s == SLin(w.pts.add(first, w.pts.mul(w.pts.G, w.an.const(i << (4 * j)))), w.ap.const(1)), "entry (%d,%d) is the row offset plus %d*16^%d G" % (j, i, i, j), repr(s))
    u.check(not tot.t, "the row offsets cancel", repr(tot))

    def conc(v):
        return v
    bl, ini = d["blind"], d["initial"]
    if isinstance(bl, SV):
        b = bl.v.value()
        bl = ((b,),) if False else (tuple((b >> (32 * i)) & 0xFFFFFFFF for i in range(8)),)
    blinding(u, w, bl, raw_jac(w, ini), None)


def raw_jac(w, v):
    d = unrec(w.mir, JA, v)
    out = {}
    for k in ("x", "y", "z"):
        x = d[k]
        if isinstance(x, FV):
            x = x.v.value()
            x = (tuple((x >> (26 * i)) & ((1 << 26) - 1) for i in range(10)),)
        out[k] = x
    return rec(w.mir, JA, x=out["x"], y=out["y"], z=out["z"], infinity=d["infinity"])


# --------------------------------------------------------------------------
# multiplication by a scalar, with the recoding taken by its contract (C10)


def wnaf_const(w, skew, scalar):
    """contract: digits d_i odd and below 16 in size with
    sum d_i 16^i = a + skew modulo n"""
    def h(ip, st, a, G):
        sl, sc, win = a
        if win != 4 or not isinstance(sl.meta, int) or sl.meta < 65:
            raise Unsupported("recoding into %r digits of width %r" % (sl, win))
        x = ip.load(st, sc)
        if isinstance(x, Node):
            raise Unsupported("recoded scalar %r" % (x,))
        r = w.sval(x).v + skew
        ds = []
        for i in range(65):
            e = C.new_atom(-8, 7, "e%d" % i)
            d = padd(pscale(e, 2), 1)
            ds.append((e, d))
            w.cands.append(d)
            if i:
                r = r - w.res(d) * pow(16, i, N)
        w.rn.res[ds[0][0].key] = (r - 1) * pow(2, -1, N)
        for i, (e, d) in enumerate(ds):
            ip.store(st, Ptr(sl.obj, sl.path[:-1] + (sl.path[-1] + i,)) if sl.path else None, d)
        return skew
    return h


def mult_const(skew):
    def run(u):
        w = Mult(u)
        L = w.pts.gen("A")
        w.an.nz |= w.an.atom("A").atoms()
        w.fin.add(L)
        v = w.obj(SLin(L, w.ap.const(1)), AF)
        d = unrec(w.mir, AF, v)
        a = rec(w.mir, AF, x=d["x"], y=d["y"], infinity=B(0))
        sc, _ = w.scalar("q")
        u.ip.hooks[one_fn(u, "ecmult_wnaf_const")] = wnaf_const(w, skew, sc)
        st = u.state()
        r = u.alloc(st, JA, w.obj(SLin(w.pts.gen("old"), w.ap.const(1)), JA))
        ctx = Ptr(("S", "libsecp256k1::ECMULT_CONTEXT"))
        o = u.call(CTX + "::ecmult_const", [ctx, r, u.alloc(st, AF, a), u.alloc(st, ST, sc)], st)
        if u.check(o is not None, "returns"):
            w.final(u, o.st, u.ip.load(o.st, r), JA, w.pts.mul(L, sc.v), "the result is the scalar times the point")
    return run


def wnaf_var(w, tab):
    """contract: the number b of significant digits and the digits; those from
    b on are zero, the others zero or odd and below 2^(w-1) in size;
    sum d_i 2^i = a modulo n"""
    def h(ip, st, a, G):
        sl, sc, win = a
        if sl.meta != 256 or sl.path != (0,):
            raise Unsupported("recoding into %r" % (sl,))
        k = tab["widths"].get(win)
        if k is None:
            raise Unsupported("recoding with window %r" % (win,))
        x = ip.load(st, sc)
        if isinstance(x, Node) or w.sval(x).v != tab["scalar"][k]:
            raise Unsupported("recoded scalar %r" % (x,))
        bits = tab["bits"][k]

        def digit(i, pc):
            v = C.new_atom(-(1 << (win - 2)), (1 << (win - 2)) - 1, "%s%d" % (k, len(tab["dig"])))
            d = padd(pscale(v, 2), 1)
            nz = C.bvar(C.mkvar("op", ("nonzero digit", d.key)))
            key = i if isinstance(i, int) else i.key
            if isinstance(i, int) and isinstance(tab["b"], Poly):
                t = C.bounds(tab["b"], pc)
                if t is not None and t[0] == t[1]:
                    i = psub(tab["b"], t[0] - i)
            g = band(nz, C.lt(i, bits))
            D = vite(g, d, 0)
            w.cands.append(d)
            X = w.an.const(0)
            if g:
                X = w.an.atom("digit%d" % len(tab["dig"]))
                w.sums.append((g, w.res(d), X))
            tab["dig"][k, key] = X
            return D
        ip.store(st, Ptr(sl.obj), Lazy(digit))
        return bits
    return h


def wide(v, most, memo=None):
    """more than `most` nodes in a guarded field value?"""
    seen = set()
    todo = [v]
    while todo:
        x = todo.pop()
        if isinstance(x, Node):
            if id(x) not in seen:
                seen.add(id(x))
                todo += [x.hi, x.lo]
        elif not isinstance(x, (FV, FSV)):
            return False
    return len(seen) > most


def forget(v, most):
    if isinstance(v, tuple) and len(v) <= 32:
        return tuple(forget(x, most) for x in v)
    return C.FORGOTTEN if isinstance(v, Node) and wide(v, most) else v


def settled(v, pc):
    """without the cases that the path condition excludes"""
    if isinstance(v, tuple):
        return tuple(settled(x, pc) for x in v) if len(v) <= 32 else v
    while isinstance(v, Node):
        g = C.bnode(v.var, 1, 0)
        if not I.feas(band(pc, g)):
            v = v.lo
        elif not I.feas(band(pc, bnot(g))):
            v = v.hi
        else:
            break
    return v


def thin(pc):
    """a conjunction of bounds with only the strongest of each"""
    lits, n = [], pc
    while n > 1:
        v, h, l = C.BV[n]
        if l == 0:
            lits.append((v, 1))
            n = h
        elif h == 0:
            lits.append((v, 0))
            n = l
        else:
            return pc
    best = {}
    for v, s in lits:
        V = C.VARS[v]
        if V.kind == "ge":
            k = (V.data[0], s)
            if k not in best or (V.data[1] > C.VARS[best[k]].data[1]) == bool(s):
                best[k] = v
    keep = set(best.values())
    out = 1
    for v, s in lits:
        if C.VARS[v].kind != "ge" or v in keep:
            out = band(out, C.bnode(v, 1, 0) if s else C.bnode(v, 0, 1))
    return out


def pruned(h, most=12):
    """a hook that first drops local values that have become unwieldy: buffers
    that a loop fills anew each turn"""
    def g(ip, st, a, G):
        for k, v in list(st.mem.items()):
            if isinstance(v, (Node, tuple)):
                n = forget(settled(v, st.pc), most)
                if n != v:
                    st.mem[k] = n
        return h(ip, st, a, G)
    return g


def mult_var(longer):
    def run(u):
        small = C.SMALL
        C.SMALL = 64            # lengths are compared as integers, not bit by bit
        try:
            body(u)
        finally:
            C.SMALL = small

    def body(u):
        w = Mult(u)
        L, a = start(w)
        na, _ = w.scalar("na")
        ng, _ = w.scalar("ng")
        b = C.new_atom(1, 256, "b") if longer else 0
        e = C.new_atom(0, 256, "e")
        bits = {"a": b, "g": psub(b, e)} if longer == "a" else {"g": b, "a": psub(psub(b, e), 1)} if longer else {"a": 0, "g": 0}
        tab = {"widths": {5: "a", 16: "g"}, "scalar": {"a": na.v, "g": ng.v}, "bits": bits, "b": b, "dig": {}}
        u.ip.hooks[one_fn(u, "ecmult_wnaf")] = wnaf_var(w, tab)
        st = u.state()
        r = u.alloc(st, JA, w.obj(SLin(w.pts.gen("old"), w.ap.const(1)), JA))

        def tidy(ip, st, a, G):
            """the choices made in this turn as one linear form"""
            st.pc = thin(st.pc)
            v = ip.load(st, r)
            if isinstance(unrec(w.mir, JA, v)["x"], Node):
                v = tuple(settled(x, st.pc) for x in v)
                q = w.fold(w.slin(ip, st, v, JA, "accumulator"), st.pc)
                if isinstance(q, SLin):
                    ip.store(st, r, w.obj(q, JA))
            return NotImplemented

        u.ip.hooks["turn", u.mir.fn(CTX + "::ecmult").name] = lambda ip, st: tidy(ip, st, None, None)
        for n in u.mir.byname:
            if n.endswith("::next") and "Rev<" in n:
                u.ip.hooks[n] = tidy
        for n in ("double_var", "double_var_in_place"):
            u.ip.hooks[JA + "::" + n] = pruned(u.ip.hooks[JA + "::" + n])

        def entry(i, pc):
            s = w.pts.mul(w.pts.G, w.res(i) * 2 + 1)
            w.fin.add(s)
            return stored(w, s)
        ctx = u.alloc(st, CTX, rec(w.mir, CTX, pre_g=Lazy(entry)))
        args = [ctx, r, u.alloc(st, JA, a), u.alloc(st, ST, na), u.alloc(st, ST, ng)]
        o = u.call(CTX + "::ecmult", args, st)
        if not u.check(o is not None, "returns"):
            return
        val = u.ip.load(o.st, r)
        seen = set()

        def leaf(t, pc, l):
            seen.add(t)
            coef = {k: w.an.const(0) for k in "ag"}
            for k in "ag":
                for j in range(t):
                    X = tab["dig"].get((k, psub(b, 1 + j).key))
                    if X is None:
                        X = tab["dig"].get((k, t - 1 - j))
                    if X is not None:
                        coef[k] = coef[k] + X * pow(2, t - 1 - j, N)
                    else:
                        u.check(False, "digit %d is read" % (t - 1 - j))
            want = w.pts.add(w.pts.mul(L, coef["a"]), w.pts.mul(w.pts.G, coef["g"]))
            if not l.l.t:
                e = band(pc, bnot(w.pts.inf(want)))
                u.check(not want.t or not e or not I.feas(e), "infinity only if the sum is, %d digits" % t)
                return 0
            d = w.pts.add(l.l, w.pts.neg(want))
            u.check(all(not c.reduce().t for c in d.t.values()), "the sum of the digits' multiples, %d digits" % t, "difference %r" % (d,))
            u.check(l.s == w.ap.const(1) or not l.l.t, "on the curve itself", repr(l.s)[:200])
            return 0
        def at(x, t, memo):
            """a value when the length is t"""
            if isinstance(x, tuple):
                return tuple(at(y, t, memo) for y in x)
            if isinstance(x, B):
                return B(at(x.n, t, memo) if x.n > 1 else x.n)
            if isinstance(x, Node):
                v, h, l, k = x.var, x.hi, x.lo, id(x)
            elif isinstance(x, int) and x > 1:
                (v, h, l), k = C.BV[x], x
            else:
                return x
            r = memo.get(k)
            if r is None:
                V = C.VARS[v]
                if longer and V.kind == "ge" and V.data[0] == b:
                    r = at(h if t >= V.data[1] else l, t, memo)
                else:
                    h, l = at(h, t, memo), at(l, t, memo)
                    r = C.mknode(v, h, l) if isinstance(x, Node) else C.bnode(v, h, l)
                memo[k] = r
            return r
        for t in range(1, 257) if longer else (0,):
            pc = at(o.st.pc, t, {})
            if longer:
                pc = band(pc, C.eq(b, t))
            if not pc or not I.feas(pc):
                continue
            st2 = o.st.copy(pc)
            pmap(lambda pc, l: leaf(t, pc, l), pc, w.slin(u.ip, st2, at(val, t, {}), JA, "result"))
        u.check(seen == set(range(1, 257) if longer else (0,)), "every length is reached", repr(len(seen)))
    return run


UNITS = {
    "const": [("ecmult_const, skew %d" % k, mult_const(k)) for k in (1, 2)],
    "var": [("ecmult, %s" % x, mult_var(k)) for k, x in (("a", "first scalar longer"), ("g", "second scalar longer"), (None, "both zero"))],
    "gen": [("ecmult_gen", ecmult_gen)],
    "contexts": [("ECMULT_CONTEXT", static_pre), ("ECMULT_GEN_CONTEXT", static_gen), ("ECMultContext::new_boxed", boxed_pre), ("ECMultGenContext::new_boxed", boxed_gen)],
    "tables": [("odd_multiples_table (%d)" % n, odd_multiples(n)) for n in (1, 2, 3, 8, 20)] +
              [("odd_multiples_table_globalz_windowa", globalz)] +
              [("odd_multiples_table_storage_var (%d)" % n, storage_table(n)) for n in (1, 2, 5, 16, 16384)] +
              [("inv_all_var", inverses), ("set_all_gej_var", all_affine)],
}
