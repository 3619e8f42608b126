"""Inversion and square roots: the exponent the addition chain computes.

Multiplication and squaring are the contracts of the field and scalar units; a
chain then evaluates to one power a^e of the unknown argument, and e is compared
with the exponent Fermat's and Euler's theorems ask for.
"""
from ai import core as C
from ai.core import Node, B, bor, bnot, band
from .base import P, N, Unit
from .fe import Alg, FPoly, FV, FieldDomain, FT
from .world import World, SV, ST


def skip(H, names):
    for n in names:
        H.pop(n, None)


def powr(a, e):
    (m, c), = a.t.items()
    return FPoly(a.a, {tuple((x, k * e) for x, k in m): pow(c, e, a.a.q)})


def is_power(v, want, a, pc):
    """v is the wanted power of a (a case distinction on a = 0 is allowed)"""
    if (v - want).zero() == 1:
        return True
    if band(pc, bnot(a.zero())):
        return False
    (m, _), = a.t.items()
    return all(m[0][0] in [x for x, e in t] for t in v.t)


def ctx(u):
    alg = Alg(P)
    dom = FieldDomain(alg, u)
    H = dom.hooks()
    skip(H, [FT + "::" + n for n in ("inv", "inv_var", "sqrt", "is_quad_var")])
    u.ip.hooks.update(H)
    return alg, dom


def f_inv(fn):
    def run(u):
        for mag in (1, 8):
            alg, dom = ctx(u)
            a = alg.atom("a")
            st = u.state()
            r = u.call(FT + "::" + fn, [u.alloc(st, FT, FV(a, mag, False))], st)
            if not u.check(r is not None, "returns for every element"):
                return
            v = dom.val(u.ip, r.v)
            want = powr(a, P - 2)
            u.check(u.each(v, r.st.pc, lambda x, pc: isinstance(x, FV) and is_power(x.v, want, a, pc)),
                    "the inverse is the argument to the power p-2", "magnitude %d: %r" % (mag, v))
            u.check(u.each(v, r.st.pc, lambda x, pc: isinstance(x, FV) and x.mag <= 1), "the inverse has magnitude one", repr(v))
    return run


def isquare(u, g, pc, alg, a, what):
    """g must be: a^((p+1)/4) squared is a"""
    root = powr(a, (P + 1) // 4)
    want = (root * root - a).zero()
    g = u.ip.tobdd(g, pc)
    bad = band(pc, bor(band(g, bnot(want)), band(want, bnot(g))))
    u.check(bad == 0, what, "")


def f_sqrt(u):
    for mag in (1, 8):
        alg, dom = ctx(u)
        a = alg.atom("a")
        st = u.state()
        r = u.call(FT + "::sqrt", [u.alloc(st, FT, FV(a, mag, False))], st)
        if not u.check(r is not None, "returns for every element"):
            return
        rt = C.mapply(lambda x: x[0], r.v) if isinstance(r.v, Node) else r.v[0]
        fl = C.mapply(lambda x: x[1], r.v) if isinstance(r.v, Node) else r.v[1]
        v = dom.val(u.ip, rt)
        want = powr(a, (P + 1) // 4)
        u.check(u.each(v, r.st.pc, lambda x, pc: isinstance(x, FV) and is_power(x.v, want, a, pc)),
                "the root is the argument to the power (p+1)/4", "magnitude %d: %r" % (mag, v))
        u.check(u.each(v, r.st.pc, lambda x, pc: isinstance(x, FV) and x.mag <= 1), "the root has magnitude one", repr(v))
        isquare(u, fl, r.st.pc, alg, a, "success is reported exactly when the square of the root is the argument")


def f_quad(u):
    for mag in (1, 8):
        alg, dom = ctx(u)
        a = alg.atom("a")
        st = u.state()
        r = u.call(FT + "::is_quad_var", [u.alloc(st, FT, FV(a, mag, False))], st)
        if not u.check(r is not None, "returns for every element"):
            return
        isquare(u, r.v, r.st.pc, alg, a, "the answer is whether the argument is a square")


def s_inv(fn):
    def run(u):
        w = World(u, points=False)
        skip(u.ip.hooks, [ST + "::" + n for n in ("inv", "inv_var", "inv_in_place")])
        x, a = w.scalar("a")
        st = u.state()
        src = u.alloc(st, ST, x)
        if fn == "inv_in_place":
            junk, _ = w.scalar("j")
            dst = u.alloc(st, ST, junk)
            r = u.call(ST + "::" + fn, [dst, src], st)
            if not u.check(r is not None, "returns for every scalar"):
                return
            v = u.ip.load(r.st, dst)
        else:
            r = u.call(ST + "::" + fn, [src], st)
            if not u.check(r is not None, "returns for every scalar"):
                return
            v = r.v
        v = w.sval(v)
        want = powr(x.v, N - 2)
        u.check(u.each(v, r.st.pc, lambda y, pc: isinstance(y, SV) and is_power(y.v, want, x.v, pc)),
                "the inverse is the argument to the power n-2", repr(v)[:200])
        if fn != "inv_in_place":
            return
        u.check(u.ip.load(r.st, src) == x, "the argument is left alone")
    return run


UNITS = {
    "finv": [("Field::inv", f_inv("inv")), ("Field::inv_var", f_inv("inv_var")),
             ("Field::sqrt", f_sqrt), ("Field::is_quad_var", f_quad)],
    "sinv": [("Scalar::inv_in_place", s_inv("inv_in_place")), ("Scalar::inv", s_inv("inv")), ("Scalar::inv_var", s_inv("inv_var"))],
}
