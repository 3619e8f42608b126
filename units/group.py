"""Group operations: affine and Jacobian points over opaque field elements.

Every case of the group law (either operand at infinity, distinct abscissas,
equal points, opposite points) is one run of the function on symbolic curve
points x_i, y_i with y_i^2 = x_i^3 + 7 (for additions and doublings y_i^2 =
x_i^3 + 7 s^6 for any s) and symbolic nonzero denominators; the
result is compared with the chord-and-tangent law as an identity of polynomials.
"""
from ai import core as C, interp as I
from ai.core import Node, B, UNDEF, Unsupported, Opaque, band, bor, bnot
from ai.interp import Ptr, Ret
from .base import P, N, Unit
from .fe import Alg, FPoly, FV, FSV, FieldDomain, FT, FST, const_field

AF = "libsecp256k1::curve::Affine"
JA = "libsecp256k1::curve::Jacobian"
AS = "libsecp256k1::curve::AffineStorage"

assert pow(-7, (P - 1) // 3, P) != 1 and P % 3 == 1     # no point has y = 0


def fields(mir, ty):
    T = mir.types[mir.ty(ty)]
    return [f[0] for f in T["vars"][0]["f"]]


def rec(mir, ty, **kw):
    fs = fields(mir, ty)
    if set(fs) != set(kw):
        raise Unsupported("fields of %s are %s" % (ty, fs))
    return tuple(kw[f] for f in fs)


def unrec(mir, ty, v):
    """field name -> guarded value"""
    fs = fields(mir, ty)
    if isinstance(v, Node):
        out = {}
        for i, f in enumerate(fs):
            out[f] = C.mapply(lambda x: x[i] if isinstance(x, tuple) else x, v)
        return out
    return dict(zip(fs, v))


class G:
    """a group unit's context"""

    def __init__(self, u, scaled=False):
        self.u = u
        self.mir = u.mir
        self.alg = Alg(P)
        self.b = self.alg.const(7)
        if scaled:
            # any curve isomorphic to secp256k1: y^2 = x^3 + 7 s^6, s nonzero
            self.b = self.alg.atom("s", nz=True) ** 6 * 7
        self.dom = FieldDomain(self.alg, u)
        u.ip.hooks.update(self.dom.hooks())

    def curve(self, i):
        x = self.alg.atom("x%d" % i)
        y = self.alg.atom("y%d" % i, nz=True)
        self.alg.rule(y, 2, x * x * x + self.b)
        return x, y

    def fv(self, v, mag=8, norm=False):
        return FV(self.alg.const(v) if isinstance(v, int) else v, mag, norm)

    def jac(self, x, y, z, inf=0, mag=(8, 8, 8)):
        return rec(self.mir, JA, x=self.fv(x, mag[0]), y=self.fv(y, mag[1]), z=self.fv(z, mag[2]), infinity=B(inf))

    def aff(self, x, y, inf=0, mag=(8, 8), norm=False):
        return rec(self.mir, AF, x=self.fv(x, mag[0], norm), y=self.fv(y, mag[1], norm), infinity=B(inf))

    def jpoint(self, i, xy=None, znz=True):
        x, y = xy or self.curve(i)
        z = self.alg.atom("z%d" % i, nz=True)
        return self.jac(x * z * z, y * z * z * z, z), (x, y), z

    def garbage(self, n="g"):
        return [self.alg.atom("%s%d" % (n, k)) for k in range(3)]

    def jinf(self, n="g"):
        a, b, c = self.garbage(n)
        return self.jac(a, b, c, 1)

    def ainf(self, n="h"):
        a, b, c = self.garbage(n)
        return self.aff(a, b, 1)

    def junk_j(self):
        a, b, c = self.garbage("j")
        return self.jac(a, b, c, C.bvar(C.mkvar("op", "junkinf")))

    def junk_a(self):
        a, b, c = self.garbage("k")
        return self.aff(a, b, C.bvar(C.mkvar("op", "junkinf")))


def slope_sum(p, n, d, x1, y1, x2):
    d2 = d * d
    xn = n * n - (x1 + x2) * d2
    d3 = d2 * d
    yn = n * (x1 * d2 - xn) - y1 * d3
    return (xn, d2, yn, d3)


def sum_cases(g, kind1, kind2):
    """(label, point1 or None, point2 or None, expected) for one operand shape"""


def check_mags(u, g, r, ty, pc, lim=8):
    d = unrec(u.mir, ty, r)
    for f, v in d.items():
        if f == "infinity":
            continue
        v = g.dom.val(u.ip, v)
        u.check(u.each(v, pc, lambda x, pc: isinstance(x, FV) and x.mag <= lim), "coordinates stay within the magnitude bound", f)


def check_result(u, g, r, pc, expect, what, ty=JA, rzr=None, z1=None):
    """expect: None (infinity) or (xn, xd, yn, yd)"""
    d = unrec(u.mir, ty, r)
    inf = u.ip.tobdd(d["infinity"], pc)
    if expect is None:
        bad = band(pc, bnot(inf))
        u.check(not bad or not I.feas(bad), what + ": the result is the point at infinity")
        check_mags(u, g, r, ty, pc)
        return
    bad = band(pc, inf)
    u.check(not bad or not I.feas(bad), what + ": the result is not the point at infinity")
    xn, xd, yn, yd = expect
    vx, vy = g.dom.val(u.ip, d["x"]), g.dom.val(u.ip, d["y"])
    vz = g.dom.val(u.ip, d["z"]) if ty == JA else g.fv(1, 1)
    rz = g.dom.val(u.ip, rzr) if rzr is not None else g.fv(0, 1)

    def go(pc, x, y, z, rr):
        z2 = z.v * z.v
        okx = not (x.v * xd - xn * z2).reduce().t
        oky = not (y.v * yd - yn * z2 * z.v).reduce().t
        okz = z.v.zero() == 0
        u.check(okx, what + ": abscissa", repr((x.v * xd - xn * z2).reduce())[:200])
        u.check(oky, what + ": ordinate", repr((y.v * yd - yn * z2 * z.v).reduce())[:200])
        u.check(okz, what + ": denominator is nonzero")
        if rzr is not None:
            u.check(not (z1 * rr.v - z.v).reduce().t, what + ": reported ratio of denominators")
        return 0
    I.pmap(go, pc, vx, vy, vz, rz)
    check_mags(u, g, r, ty, pc)


def opt(u, st, g, mk):
    """Option<&mut Field> argument; -> (value, pointer)"""
    if mk is None:
        return C.EnumV(0, ()), None
    p = u.alloc(st, FT, g.fv(g.alg.atom("oldrzr"), 8))
    return C.EnumV(1, (p,)), p


def second(g, case, first, i=2):
    """coordinates of the second operand for a case"""
    x1, y1 = first
    if case == "distinct":
        x2, y2 = g.curve(i)
        g.alg.nonzero += [x2 - x1, y1 + y2]
        return (x2, y2), slope_sum(g, y2 - y1, x2 - x1, x1, y1, x2)
    if case == "mirrored ordinate":
        x2 = g.alg.atom("x%d" % i)
        g.alg.rule(x2, 2, -(x1 * x1) - x1 * x2)
        g.alg.nonzero += [x2 - x1]
        y2 = -y1
        return (x2, y2), slope_sum(g, y2 - y1, x2 - x1, x1, y1, x2)
    if case == "equal":
        return (x1, y1), slope_sum(g, 3 * x1 * x1, 2 * y1, x1, y1, x1)
    if case == "opposite":
        return (x1, -y1), None
    raise Unsupported(case)


CASES = ("distinct", "mirrored ordinate", "equal", "opposite")


def one(x):
    return (x[0], x[0].a.const(1), x[1], x[0].a.const(1))


def add_unit(fn, form, byval=False, zinv=False):
    """form of the second operand: JA or AF"""
    def body(u):
        base = u.ip.hooks
        for rz in ((None, 1) if not zinv and "ge_in_place" not in fn and fn not in ("add_ge",) else (None,)):
            for c1 in ("inf", "pt"):
                for c2 in ("inf",) + CASES:
                    if c1 == "inf" and rz:
                        continue
                    if c2 == "inf" and fn in ("add_ge", "add_ge_in_place"):
                        continue        # excluded by its documentation
                    if c1 == "inf" and c2 in ("mirrored ordinate", "equal", "opposite"):
                        continue
                    u.ip.hooks = dict(base)
                    g = G(u, True)
                    st = u.state()
                    if c1 == "pt":
                        a, xy1, z1 = g.jpoint(1)
                    else:
                        a, xy1, z1 = g.jinf(), None, None
                    exp = None
                    if c2 == "inf":
                        b = g.jinf("i") if form == JA else g.ainf("i")
                        exp = one(xy1) if xy1 else None
                    else:
                        if c1 == "pt":
                            xy2, exp = second(g, c2, xy1)
                        else:
                            xy2 = g.curve(2)
                            exp = one(xy2)
                        if form == JA:
                            b, _, _ = g.jpoint(2, xy2)
                        elif zinv:
                            # b's coordinates are relative to the denominator 1/bzinv
                            zb = g.alg.atom("zb", nz=True)
                            b = g.aff(xy2[0] * zb * zb, xy2[1] * zb * zb * zb)
                        else:
                            b = g.aff(*xy2)
                    pa, pb = u.alloc(st, JA, a), u.alloc(st, form, b)
                    what = "%s + %s%s" % (c1, c2, " with ratio" if rz else "")
                    args = [pa, pb]
                    prz = None
                    if zinv:
                        zi = g.alg.atom("zb", nz=True) ** -1
                        args.append(u.alloc(st, FT, g.fv(zi, 8)))
                    elif "ge_in_place" not in fn and fn != "add_ge":
                        o, prz = opt(u, st, g, rz)
                        args.append(o)
                    if byval:
                        if zinv:
                            # the result is computed into a fresh point
                            pass
                        r = u.call(JA + "::" + fn, args, st)
                        if r is None:
                            u.check(False, what + ": does not return")
                            continue
                        res, st2 = r
                    else:
                        pr = u.alloc(st, JA, g.junk_j())
                        r = u.call(JA + "::" + fn, [pr] + args, st)
                        if r is None:
                            u.check(False, what + ": does not return")
                            continue
                        st2 = r[1]
                        res = u.ip.load(st2, pr)
                    check_result(u, g, res, st2.pc, exp, what, rzr=u.ip.load(st2, prz) if prz is not None and exp is not None else None, z1=z1)
    return body


def double_unit(fn, byval=False):
    def body(u):
        base = u.ip.hooks
        for rz in (None, 1):
            for c in ("inf", "pt"):
                if c == "inf" and "nonzero" in fn:
                    continue
                u.ip.hooks = dict(base)
                g = G(u, True)
                st = u.state()
                if c == "pt":
                    a, xy, z = g.jpoint(1)
                    exp = slope_sum(g, 3 * xy[0] * xy[0], 2 * xy[1], xy[0], xy[1], xy[0])
                else:
                    a, z, exp = g.jinf(), None, None
                pa = u.alloc(st, JA, a)
                o, prz = opt(u, st, g, rz)
                if byval:
                    r = u.call(JA + "::" + fn, [pa, o], st)
                    res, st2 = r
                else:
                    pr = u.alloc(st, JA, g.junk_j())
                    r = u.call(JA + "::" + fn, [pr, pa, o], st)
                    st2 = r[1]
                    res = u.ip.load(st2, pr)
                check_result(u, g, res, st2.pc, exp, "double of " + c, rzr=u.ip.load(st2, prz) if prz is not None and exp is not None else None, z1=z)
    return body


def neg_unit(ty, inplace):
    def body(u):
        base = u.ip.hooks
        for c in ("inf", "pt"):
            u.ip.hooks = dict(base)
            g = G(u)
            st = u.state()
            if ty == JA:
                if c == "pt":
                    a, xy, z = g.jpoint(1)
                else:
                    a = g.jinf()
            else:
                xy = g.curve(1)
                a = g.aff(*xy) if c == "pt" else g.ainf()
            exp = one((xy[0], -xy[1])) if c == "pt" else None
            pa = u.alloc(st, ty, a)
            if inplace:
                pr = u.alloc(st, ty, g.junk_j() if ty == JA else g.junk_a())
                st2 = u.call(ty + "::neg_in_place", [pr, pa], st)[1]
                res = u.ip.load(st2, pr)
            else:
                res, st2 = u.call(ty + "::neg", [pa], st)
            check_result(u, g, res, st2.pc, exp, "negation of " + c, ty)
    return body


def conv_units():
    out = []

    def each_point(u, f):
        base = u.ip.hooks
        for c in ("inf", "pt"):
            u.ip.hooks = dict(base)
            f(c, G(u))

    def to_jac(u):
        def f(c, g):
            st = u.state()
            xy = g.curve(1)
            a = g.aff(*xy) if c == "pt" else g.ainf()
            pa = u.alloc(st, AF, a)
            exp = one(xy) if c == "pt" else None
            pr = u.alloc(st, JA, g.junk_j())
            r = u.call(JA + "::set_ge", [pr, pa], st)
            check_result(u, g, u.ip.load(r[1], pr), r[1].pc, exp, "set_ge of " + c)
            st = u.state()
            pa = u.alloc(st, AF, a)
            r = u.call(JA + "::from_ge", [pa], st)
            check_result(u, g, r[0], r[1].pc, exp, "from_ge of " + c)
        each_point(u, f)
    out.append(("Jacobian from affine", to_jac))

    def to_aff(fn, kind):
        def body(u):
            def f(c, g):
                st = u.state()
                if c == "pt":
                    a, xy, z = g.jpoint(1)
                else:
                    a, xy, z = g.jinf(), None, g.alg.atom("zz", nz=True)
                pa = u.alloc(st, JA, a)
                exp = one(xy) if c == "pt" else None
                if kind == "ret":
                    res, st2 = u.call(AF + "::" + fn, [pa], st)
                else:
                    pr = u.alloc(st, AF, g.junk_a())
                    args = [pr, pa]
                    if kind == "zinv":
                        args.append(u.alloc(st, FT, g.fv(z ** -1, 8)))
                    st2 = u.call(AF + "::" + fn, args, st)[1]
                    res = u.ip.load(st2, pr)
                check_result(u, g, res, st2.pc, exp, fn + " of " + c, AF)
            each_point(u, f)
        return body
    out += [("Affine::from_gej", to_aff("from_gej", "ret")), ("Affine::set_gej", to_aff("set_gej", "mut")),
            ("Affine::set_gej_var", to_aff("set_gej_var", "mut")), ("Affine::set_gej_zinv", to_aff("set_gej_zinv", "zinv"))]

    def rescale(u):
        def f(c, g):
            st = u.state()
            if c == "pt":
                a, xy, z = g.jpoint(1)
            else:
                a = g.jinf()
            s = g.alg.atom("s", nz=True)
            pa = u.alloc(st, JA, a)
            ps = u.alloc(st, FT, g.fv(s, 1, True))
            st2 = u.call(JA + "::rescale", [pa, ps], st)[1]
            check_result(u, g, u.ip.load(st2, pa), st2.pc, one(xy) if c == "pt" else None, "rescaling of " + c)
        each_point(u, f)
    out.append(("Jacobian::rescale", rescale))

    def misc(u):
        g = G(u)
        x, y = g.curve(1)
        # plain construction
        for fn, args in (("new", "vv"), ("set_xy", "rr")):
            st = u.state()
            vx, vy = g.fv(x, 8), g.fv(y, 8)
            if fn == "new":
                res, st2 = u.call(AF + "::new", [vx, vy], st)
            else:
                pr = u.alloc(st, AF, g.junk_a())
                st2 = u.call(AF + "::set_xy", [pr, u.alloc(st, FT, vx), u.alloc(st, FT, vy)], st)[1]
                res = u.ip.load(st2, pr)
            check_result(u, g, res, st2.pc, one((x, y)), fn, AF)
        st = u.state()
        res, st2 = u.call(JA + "::new", [g.fv(x, 8), g.fv(y, 8)], st)
        check_result(u, g, res, st2.pc, one((x, y)), "Jacobian::new")
        # infinity and clearing
        st = u.state()
        pr = u.alloc(st, JA, g.jpoint(1, (x, y))[0])
        st2 = u.call(JA + "::set_infinity", [pr], st)[1]
        check_result(u, g, u.ip.load(st2, pr), st2.pc, None, "set_infinity")
        for ty, v in ((JA, g.jpoint(1, (x, y))[0]), (AF, g.aff(x, y))):
            st = u.state()
            pr = u.alloc(st, ty, v)
            st2 = u.call(ty + "::clear", [pr], st)[1]
            d = unrec(u.mir, ty, u.ip.load(st2, pr))
            u.check(u.ip.tobdd(d.pop("infinity"), st2.pc) == 0, "clearing resets the infinity flag")
            for k, w in d.items():
                u.check(u.each(g.dom.val(u.ip, w), st2.pc, lambda q, pc: not q.v.t), "clearing leaves zero coordinates")
            for inf in (0, 1):
                st = u.state()
                val = (g.jinf() if inf else g.jpoint(1, (x, y))[0]) if ty == JA else (g.ainf() if inf else g.aff(x, y))
                r = u.call(ty + "::is_infinity", [u.alloc(st, ty, val)], st)
                u.check(u.ip.tobdd(r[0], r[1].pc) == inf, "is_infinity reports the flag")
        # constants
        for s, ty, exp in (("libsecp256k1::curve::AFFINE_G", AF, "G"), ("AFFINE_INFINITY", AF, None), ("JACOBIAN_INFINITY", JA, None)):
            v = static_value(u, s.split("::")[-1])
            d = unrec(u.mir, ty, v)
            inf = u.ip.tobdd(d["infinity"], 1)
            u.check(inf == (1 if exp is None else 0), "constant %s: infinity flag" % s)
            if exp:
                vx, vy = g.dom.val(u.ip, d["x"]), g.dom.val(u.ip, d["y"])
                u.check(vx.v.value() == GX and vy.v.value() == GY, "the generator is the standard base point")
                u.check((GY * GY - GX**3 - 7) % P == 0, "the generator lies on the curve")
    out.append(("point constructors and constants", misc))
    return out


GX = 0x79BE667EF9DCBBAC55A06295CE870B07029BFCDB2DCE28D959F2815B16F81798
GY = 0x483ADA7726A3C4655DA4FBFC0E1108A8FD17B448A68554199C47D08FFB10D4B8


def static_value(u, suffix):
    for n in u.mir.statics:
        if n.split("::")[-1] == suffix:
            return u.ip.read_obj(u.state(), ("S", n))
    raise Unsupported("static %s not found" % suffix)


def membership(u):
    """is_valid_var answers y^2 = x^3 + 7 for arbitrary coordinates"""
    base = u.ip.hooks
    for inf in (0, 1):
        u.ip.hooks = dict(base)
        g = G(u)
        st = u.state()
        x, y = g.alg.atom("x"), g.alg.atom("y")
        r = u.call(AF + "::is_valid_var", [u.alloc(st, AF, g.aff(x, y, inf))], st)
        want = 0 if inf else (y * y - x * x * x - 7).zero()
        got = u.ip.tobdd(r[0], r[1].pc)
        u.check(not band(r[1].pc, C.bxor(got, want)), "membership is exactly the curve equation (and not infinity)")


def eq_x(u):
    g = G(u)
    st = u.state()
    a, xy, z = g.jpoint(1)
    w = g.alg.atom("w")
    r = u.call(JA + "::eq_x_var", [u.alloc(st, JA, a), u.alloc(st, FT, g.fv(w, 1, True))], st)
    got = u.ip.tobdd(r[0], r[1].pc)
    want = (w - xy[0]).zero()
    u.check(not band(r[1].pc, C.bxor(got, want)), "compares the affine abscissa")


def lift_x(fn):
    """a point with the given abscissa: exists exactly when x^3+7 is a square"""
    def body(u):
        for odd in ((0, 1, None) if fn == "set_xo_var" else (None,)):
            g = G(u)
            D = g.dom
            x = g.alg.atom("x")
            want = (x * x * x + 7).reduce()
            ex = C.bvar(C.mkvar("op", "issquare"))
            y = g.alg.atom("root")
            seen = []

            def root(v):
                seen.append(v)
                if v.reduce() == want:
                    return y, ex
                raise Unsupported("square root of %r" % (v,))
            D.root = root
            st = u.state()
            pr = u.alloc(st, AF, g.junk_a())
            args = [pr, u.alloc(st, FT, g.fv(x, 8))]
            if fn == "set_xo_var":
                fb = C.bvar(C.mkvar("op", "wantodd")) if odd is None else odd
                args.append(B(fb))
            r = u.call(AF + "::" + fn, args, st)
            got = u.ip.tobdd(r[0], r[1].pc)
            u.check(not band(r[1].pc, C.bxor(got, ex)), "a point exists exactly when x^3+7 is a square")
            pc = band(r[1].pc, ex)
            d = unrec(u.mir, AF, u.ip.load(r[1], pr))
            u.check(not band(pc, u.ip.tobdd(d["infinity"], pc)), "the lifted point is finite")
            vx, vy = D.val(u.ip, d["x"]), D.val(u.ip, d["y"])
            u.check(u.each(vx, pc, lambda q, pc: q.v == x), "the abscissa is the given one")
            if fn == "set_xquad":
                u.check(u.each(vy, pc, lambda q, pc: q.v == y), "the ordinate is the square root")
            else:
                # y is the root r when odd(r) = wanted parity, and -r otherwise
                o = D.odd(FV(y, 1, True))
                flip = C.bxor(o, fb)

                def f(q, pc):
                    if q.v == y:
                        return not band(pc, flip)
                    if q.v == -y:
                        return not band(pc, bnot(flip))
                    return False
                u.check(u.each(vy, pc, f), "the ordinate is the root of the wanted parity")
            check_mags(u, g, u.ip.load(r[1], pr), AF, pc)
    return body


def quad_y(u):
    for inf in (0, 1):
        g = G(u)
        ex = C.bvar(C.mkvar("op", "issquare"))
        a, (x, y), z = g.jpoint(1)

        def root(v):
            # Y*Z = y z^4, a square exactly when y is
            q = v.strip()
            if (v - y * z * z * z * z).reduce().t:
                raise Unsupported("square test of %r" % (v,))
            return y, ex
        g.dom.root = root
        st = u.state()
        if inf:
            a = g.jinf()
        r = u.call(JA + "::has_quad_y_var", [u.alloc(st, JA, a)], st)
        got = u.ip.tobdd(r[0], r[1].pc)
        u.check(not band(r[1].pc, C.bxor(got, 0 if inf else ex)), "reports whether the ordinate is a square")


def storage(u):
    g = G(u)
    x, y = g.curve(1)
    fs = fields(u.mir, AS)
    st = u.state()
    r = u.call("<%s as std::convert::Into<%s>>::into" % (AF, AS), [g.aff(x, y)], st)
    d = dict(zip(fs, r[0]))
    u.check(u.each(d["x"], r[1].pc, lambda q, pc: isinstance(q, FSV) and q.v == x), "stored abscissa")
    u.check(u.each(d["y"], r[1].pc, lambda q, pc: isinstance(q, FSV) and q.v == y), "stored ordinate")
    st = u.state()
    s = rec(u.mir, AS, x=FSV(x), y=FSV(y))
    r = u.call("<%s as std::convert::From<%s>>::from" % (AF, AS), [s], st)
    check_result(u, g, r[0], r[1].pc, one((x, y)), "load from storage", AF)
    for flag in (0, 1):
        st = u.state()
        x2, y2 = g.curve(2)
        p = u.alloc(st, AS, s)
        q = u.alloc(st, AS, rec(u.mir, AS, x=FSV(x2), y=FSV(y2)))
        st2 = u.call(AS + "::cmov", [p, q, B(flag)], st)[1]
        d = unrec(u.mir, AS, u.ip.load(st2, p))
        w = (x2, y2) if flag else (x, y)
        u.check(d["x"] == FSV(w[0]) and d["y"] == FSV(w[1]), "conditional move selects the operand the flag names")


class Limbs(Opaque):
    """the limbs of an unknown field element"""
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v

    def __eq__(self, o):
        return isinstance(o, Limbs) and o.v == self.v

    def __hash__(self):
        return hash(("limbs", self.v))

    def __repr__(self):
        return "limbs(%r)" % (self.v,)


class EqDom(FieldDomain):
    """elements whose magnitude and flag can be looked at"""

    def val(self, ip, x):
        if isinstance(x, tuple) and len(x) == 3 and isinstance(x[0], Limbs) and isinstance(x[1], int):
            nm = x[2].n if isinstance(x[2], B) else x[2]
            if nm in (0, 1):
                return FV(x[0].v, x[1], bool(nm))
        return FieldDomain.val(self, ip, x)


FEQ = "<%s as std::cmp::PartialEq>::eq" % FT


def field_eq(name, lim):
    """equality of field elements answers for the residue, at every pair of magnitudes"""
    def body(u):
        reps = [(0, 1), (1, 1)] + [(m, 0) for m in range(0, 32)]
        for m1, n1 in reps:
            for m2, n2 in reps:
                a = lim if lim is not None else m1
                if m1 > a or a + 1 + m2 > 31:
                    continue
                g = G(u)
                g.dom = EqDom(g.alg, u)
                H = g.dom.hooks()
                for k in (FEQ, FT + "::eq_var"):
                    H.pop(k, None)
                    u.ip.hooks.pop(k, None)
                u.ip.hooks.update(H)
                x, y = g.alg.atom("x"), g.alg.atom("y")
                st = u.state()
                p = u.alloc(st, FT, (Limbs(x), m1, B(n1)))
                q = u.alloc(st, FT, (Limbs(y), m2, B(n2)))
                r = u.call(name, [p, q], st)
                if not u.check(r is not None, "returns"):
                    return
                got = u.ip.tobdd(r[0], r[1].pc)
                u.check(r[1].pc == 1 and not C.bxor(got, (x - y).zero()), "true exactly when both are the same residue", "magnitudes %d and %d" % (m1, m2))
    return body


def affine_eq(u):
    """derived equality of affine points: same residues and same infinity flag"""
    for i1 in (0, 1):
        for i2 in (0, 1):
            g = G(u)
            st = u.state()
            x, y, z, w = (g.alg.atom(n) for n in "xyzw")
            r = u.call("<%s as std::cmp::PartialEq>::eq" % AF, [u.alloc(st, AF, g.aff(x, y, i1)), u.alloc(st, AF, g.aff(z, w, i2))], st)
            got = u.ip.tobdd(r[0], r[1].pc)
            want = band((x - z).zero(), (y - w).zero()) if i1 == i2 else 0
            if i1 == i2 == 0 or i1 != i2:
                u.check(not band(r[1].pc, C.bxor(got, want)), "affine equality compares both coordinates and the infinity flag")


def tables(u):
    """batch conversions of points that share a chain of denominators"""
    for n in (1, 2, 3, 5):
        for fn in ("set_table_gej_var", "globalz_set_table_gej"):
            g = G(u)
            st = u.state()
            js, xys, zs, rz = [], [], [], []
            z = g.alg.atom("z0", nz=True)
            for i in range(n):
                x, y = g.curve(10 + i)
                if i:
                    r = g.alg.atom("r%d" % i, nz=True)
                    z = z * r
                    rz.append(g.fv(r, 8))
                else:
                    rz.append(g.fv(g.alg.atom("unused"), 8))
                js.append(g.jac(x * z * z, y * z * z * z, z))
                xys.append((x, y))
                zs.append(z)
            ta, tj, tf = u.mir.ty(AF), u.mir.ty(JA), u.mir.ty(FT)
            pr = Ptr(u.ip.heap(st, tuple(g.junk_a() for _ in range(n)), u.ip.arr_ty(ta, n)), (0,), n)
            pj = Ptr(u.ip.heap(st, tuple(js), u.ip.arr_ty(tj, n)), (0,), n)
            pz = Ptr(u.ip.heap(st, tuple(rz), u.ip.arr_ty(tf, n)), (0,), n)
            name = [f for f in u.mir.byname if f.split("::")[-1] == fn and "vroots" not in f]
            if len(name) != 1:
                raise Unsupported("%s not found" % fn)
            if fn == "set_table_gej_var":
                r = u.call(name[0], [pr, pj, pz], st)
            else:
                pg = u.alloc(st, FT, g.fv(g.alg.atom("oldz"), 8))
                r = u.call(name[0], [pr, pg, pj, pz], st)
                gz = g.dom.ld(u.ip, r[1], pg)
                u.check(gz.v == zs[-1] and gz.mag <= 8, "the common denominator is that of the last point")
            res = u.ip.load(r[1], Ptr(pr.obj))
            for i in range(n):
                x, y = xys[i]
                if fn == "set_table_gej_var":
                    exp = one((x, y))
                else:
                    Z = zs[-1]
                    exp = one((x * Z * Z, y * Z * Z * Z))
                check_result(u, g, res[i], r[1].pc, exp, "%s entry" % fn, AF)


UNITS = {
    "feq": [("Field::eq", field_eq(FEQ, None)), ("Field::eq_var", field_eq(FT + "::eq_var", 1))],
    "law": [("Jacobian::add_var_in_place", add_unit("add_var_in_place", JA)),
            ("Jacobian::add_var", add_unit("add_var", JA, True)),
            ("Jacobian::add_ge_var_in_place", add_unit("add_ge_var_in_place", AF)),
            ("Jacobian::add_ge_var", add_unit("add_ge_var", AF, True)),
            ("Jacobian::add_ge_in_place", add_unit("add_ge_in_place", AF)),
            ("Jacobian::add_ge", add_unit("add_ge", AF, True)),
            ("Jacobian::add_zinv_var_in_place", add_unit("add_zinv_var_in_place", AF, zinv=True)),
            ("Jacobian::double_var_in_place", double_unit("double_var_in_place")),
            ("Jacobian::double_nonzero_in_place", double_unit("double_nonzero_in_place")),
            ("Jacobian::double_var", double_unit("double_var", True)),
            ("Jacobian::neg_in_place", neg_unit(JA, True)), ("Jacobian::neg", neg_unit(JA, False)),
            ("Affine::neg_in_place", neg_unit(AF, True)), ("Affine::neg", neg_unit(AF, False))],
    "conv": conv_units() + [("batch table conversion", tables), ("point storage", storage)],
    "curve": [("Affine::is_valid_var", membership), ("Jacobian::eq_x_var", eq_x), ("Affine::set_xquad", lift_x("set_xquad")),
              ("Affine::set_xo_var", lift_x("set_xo_var")), ("Jacobian::has_quad_y_var", quad_y), ("Affine equality", affine_eq)],
}
