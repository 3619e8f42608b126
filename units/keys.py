"""Keys, signatures, messages and recovery ids: parsing, printing, tweaking."""
from ai import core as C, interp as I
from ai.core import Node, B, EnumV, Opaque, Unsupported, band, bor, bnot, vite
from ai.interp import Ptr, Ret, pmap
from .base import P, N, Unit
from .fe import FV, FPoly
from .group import JA, AF, rec, unrec, GX, GY
from .world import World, SV, ST, Lin, vleaf, num_bytes, bytes_num
from .ecdsa import (L, OK, ERR, HALF, ctxptr, is_bool, variant, err_code, key, scal, unwrap, parts, num_is, same_bytes, point_is)

PK, SK, SG, MS, RI = (L + n for n in ("PublicKey", "SecretKey", "Signature", "Message", "RecoveryId"))


def arr(u, st, bs):
    return u.alloc(st, u.ip.arr_ty(u.mir.ty("u8"), len(bs)), tuple(bs))


def sl(u, st, bs, n=None):
    p = arr(u, st, bs)
    return Ptr(p.obj, (0,), len(bs) if n is None else n)


def byte(name):
    return C.new_atom(0, 255, name)


def word(name):
    return C.new_atom(0, 2**256 - 1, name)


def iff(u, got, want, pc, what, detail=""):
    bad = band(pc, bor(band(got, bnot(want)), band(want, bnot(got))))
    u.check(bad == 0 or not I.feas(bad), what, detail)


def one_of(x, ks):
    r = 0
    for k in ks:
        r = bor(r, C.eq(x, k))
    return r


def scalar_is(u, w, v, can, pc, what):
    """the (guarded) scalar has exactly this canonical integer"""
    v = C.mapply(lambda x: x if isinstance(x, C.Undef) else w.sval(x), v)
    u.check(u.each(v, pc, lambda l, q: isinstance(l, SV) and num_is(u, w.scanon(l), can, q)), what, repr(v)[:200])


def res_is(u, w, v, want, pc, what):
    v = C.mapply(lambda x: x if isinstance(x, C.Undef) else w.sval(x), v)
    u.check(u.each(v, pc, lambda l, q: isinstance(l, SV) and (l.v - want).zero() == 1), what, repr(v)[:200])


def same(v, want, pc):
    """the value is the given one wherever pc holds"""
    if isinstance(v, Node):
        return all(same(l, want, band(pc, g)) for g, l in C.leaves(v) if I.feas(band(pc, g)))
    if isinstance(v, tuple):
        return isinstance(want, tuple) and len(v) == len(want) and all(same(x, y, pc) for x, y in zip(v, want))
    if isinstance(v, B) and isinstance(want, B):
        d = band(pc, bor(band(v.n, bnot(want.n)), band(want.n, bnot(v.n))))
        return d == 0 or not I.feas(d)
    return v == want


def first(v):
    return parts(v, 1)[0]


def field_of(u, ty, v, name):
    fs = [f[0] for f in u.mir.types[u.mir.ty(ty)]["vars"][0]["f"]]
    return parts(v, len(fs))[fs.index(name)]


# --- public keys ----------------------------------------------------------

def check_pk(u, w, v, x, ypos, yneg, pick, pc, what):
    """affine coordinates are x and (ypos if pick else yneg)"""
    aff = first(v)
    d = unrec(u.mir, AF, aff)
    inf = u.ip.tobdd(d["infinity"], pc)
    u.check(not I.feas(band(pc, inf)), what + ": finite")
    cx, cy = w.dom.val(u.ip, d["x"]), w.dom.val(u.ip, d["y"])
    u.check(u.each(cx, pc, lambda l, q: isinstance(l, FV) and l.v == x and l.mag <= 8), what, "x")
    for g, y in ((pick, ypos), (bnot(pick), yneg)):
        c = band(pc, g)
        if c and I.feas(c):
            z = C.vconstrain(cy, c)
            u.check(u.each(z, c, lambda l, q: isinstance(l, FV) and l.v == y and l.mag <= 8), what, "y")


def full_spec(w, tag, X, Y):
    x, y = w.rp.of(X), w.rp.of(Y)
    ok = band(bnot(C.ge_const(X, P)), bnot(C.ge_const(Y, P)))
    ok = band(ok, (y * y - x * x * x - 7).zero())
    odd = C.eq(C.low(Y, 1), 1)
    t = bor(C.eq(tag, 4), bor(band(C.eq(tag, 6), bnot(odd)), band(C.eq(tag, 7), odd)))
    return band(ok, t), x, y


def comp_spec(w, tag, X):
    x = w.rp.of(X)
    y, ex = w.root((x * x * x + 7).reduce())[:2]
    ok = band(bnot(C.ge_const(X, P)), ex)
    ok = band(ok, one_of(tag, (2, 3)))
    odd = w.dom.odd(FV(y, 1, True))
    pick = bor(band(odd, C.eq(tag, 3)), band(bnot(odd), C.eq(tag, 2)))
    return ok, x, y, pick


def check_parsed(u, w, r, spec, what):
    ok, x = spec[0], spec[1]
    pc = r.st.pc
    vs = variant(u, r.v, pc)
    got = vs.get(OK, 0)
    iff(u, got, ok, pc, "accepted exactly when %s" % what)
    err_code(u, r.v, pc, "InvalidPublicKey", "a rejected encoding reports an invalid public key")
    c = band(got, ok)
    if I.feas(c):
        v = C.vconstrain(unwrap(r.v, "key"), c)
        if len(spec) == 3:
            check_pk(u, w, v, x, spec[2], spec[2], 1, c, "the key is the encoded point")
        else:
            check_pk(u, w, v, x, spec[2], -spec[2], spec[3], c, "the key is the encoded point")


FULL = "the tag is 4, 6 or 7, both coordinates are below p, on the curve and of the tagged parity"
COMP = "the tag is 2 or 3 and the abscissa is below p and on the curve"


def pk_parse(u):
    w = World(u)
    tag, X, Y = byte("tag"), word("X"), word("Y")
    st = u.state()
    r = u.call(PK + "::parse", [arr(u, st, (tag,) + num_bytes(X) + num_bytes(Y))], st)
    if u.check(r is not None, "answers for every input"):
        check_parsed(u, w, r, full_spec(w, tag, X, Y), FULL)


def pk_parse_compressed(u):
    w = World(u)
    tag, X = byte("tag"), word("X")
    st = u.state()
    r = u.call(PK + "::parse_compressed", [arr(u, st, (tag,) + num_bytes(X))], st)
    if u.check(r is not None, "answers for every input"):
        check_parsed(u, w, r, comp_spec(w, tag, X), COMP)


def fmt(u, name):
    T = u.mir.types[u.mir.ty(L + "PublicKeyFormat")]
    return EnumV([v["n"] for v in T["vars"]].index(name), ())


def length_guard(n, ks):
    g = 1
    for k in ks:
        g = band(g, bnot(C.eq(n, k)))
    return g


def wrong_length(u, fn, sizes, extra=(), lab=""):
    """every other length is refused without looking at the bytes"""
    st = u.state()
    n = C.new_atom(0, 2**40, "length")
    g = length_guard(n, sizes)
    p = u.alloc(st, u.ip.arr_ty(u.mir.ty("u8"), 0), ())
    st.pc = g
    r = u.call(fn, [Ptr(p.obj, (0,), n)] + list(extra), st)
    if not u.check(r is not None, "answers for every length " + lab):
        return
    u.check(r.st.pc == g, "answers for every length " + lab)
    vs = variant(u, r.v, r.st.pc)
    u.check(not I.feas(vs.get(OK, 0)), "a wrong length is refused " + lab)
    err_code(u, r.v, r.st.pc, "InvalidInputLength", "a wrong length is reported as such " + lab)


def pk_parse_slice(u):
    fn = PK + "::parse_slice"
    none = EnumV(0, ())
    size = {"Full": 65, "Compressed": 33, "Raw": 64}
    wrong_length(u, fn, (33, 64, 65), [none], "(no format)")
    for f, k in size.items():
        wrong_length(u, fn, (k,), [EnumV(1, (fmt(u, f),))], "(%s)" % f)
    for f, k in size.items():
        for o in (none, EnumV(1, (fmt(u, f),))):
            w = World(u)
            tag, X, Y = byte("tag"), word("X"), word("Y")
            bs = {"Full": (tag,) + num_bytes(X) + num_bytes(Y), "Compressed": (tag,) + num_bytes(X), "Raw": num_bytes(X) + num_bytes(Y)}[f]
            st = u.state()
            r = u.call(fn, [sl(u, st, bs), o], st)
            if not u.check(r is not None, "answers for every input"):
                return
            if f == "Compressed":
                check_parsed(u, w, r, comp_spec(w, tag, X), COMP + " (slice)")
            else:
                check_parsed(u, w, r, full_spec(w, tag if f == "Full" else 4, X, Y), FULL + " (slice, %s)" % f)


def point_bytes(w, lin, compressed):
    x, y, _ = w.pts.coords(lin)
    cx, cy = w.rp.canon(x), w.rp.canon(y)
    if compressed:
        odd = vleaf(cy, lambda c: C.eq(C.low(c, 1), 1))
        return (vite(odd, 3, 2),) + num_bytes(cx)
    return (4,) + num_bytes(cx) + num_bytes(cy)


def pk_serialize(compressed):
    def run(u):
        for mag in ((1, 1), (8, 8)):
            w = World(u)
            Q = w.pts.gen("Q")
            st = u.state()
            p = u.alloc(st, PK, (key(w, u, Q, mag),))
            r = u.call(PK + ("::serialize_compressed" if compressed else "::serialize"), [p], st)
            if not u.check(r is not None, "answers for every key"):
                return
            want = point_bytes(w, Q, compressed)
            u.check(u.each(r.v, r.st.pc, lambda l, q: isinstance(l, tuple) and same_bytes(u, l, want, q)),
                    "the bytes are the tag and the canonical coordinates", "magnitudes %r" % (mag,))
            # and back
            u.check(same(u.ip.load(r.st, p), (key(w, u, Q, mag),), r.st.pc), "the key is left alone")
            st = u.state()
            b = u.call(PK + ("::parse_compressed" if compressed else "::parse"), [arr(u, st, want)], st)
            if not u.check(b is not None, "parses its own output"):
                return
            vs = variant(u, b.v, b.st.pc)
            if u.check(not I.feas(vs.get(ERR, 0)), "parses its own output"):
                point_is(w, u, first(unwrap(b.v, "key")), Q, b.st.pc, "parsing the bytes returns the same key")
    return run


def pk_try_from(u):
    fn = "<%s as std::convert::TryFrom<%s>>::try_from" % (PK, AF)
    for mag in ((1, 1), (8, 8)):
        for inf in (0, 1):
            w = World(u)
            x, _ = w.rp.fresh("x")
            y, _ = w.rp.fresh("y")
            a = rec(u.mir, AF, x=FV(x, mag[0], False), y=FV(y, mag[1], False), infinity=B(inf))
            st = u.state()
            r = u.call(fn, [a], st)
            if not u.check(r is not None, "answers for every point"):
                return
            ok = 0 if inf else (y * y - x * x * x - 7).zero()
            vs = variant(u, r.v, r.st.pc)
            iff(u, vs.get(OK, 0), ok, r.st.pc, "accepted exactly when finite and on the curve")
            err_code(u, r.v, r.st.pc, "InvalidAffine", "a rejected point reports an invalid affine")
            c = vs.get(OK, 0)
            if c and I.feas(c):
                v = C.vconstrain(unwrap(r.v, "key"), c)
                u.check(same(v, (a,), c), "the key is the point given")
    st = u.state()
    w = World(u)
    k = (key(w, u, w.pts.gen("Q")),)
    fn = "<%s as std::convert::Into<%s>>::into" % (PK, AF)
    r = u.call(fn, [k], st)
    u.check(r is not None and r.v == k[0], "conversion to a point returns the point")


def pk_eq(u):
    fn = "<%s as std::cmp::PartialEq>::eq" % PK
    for m1 in ((1, 1), (8, 8)):
        for m2 in ((1, 1), (8, 8)):
            w = World(u)
            pts = []
            for n in ("A", "B"):
                Q = w.pts.gen(n)
                pts.append(Q)
            st = u.state()
            a, b = (u.alloc(st, PK, (key(w, u, q, m),)) for q, m in zip(pts, (m1, m2)))
            r = u.call(fn, [a, b], st)
            if not u.check(r is not None, "answers for every pair"):
                return
            (xa, ya, _), (xb, yb, _) = (w.pts.coords(q) for q in pts)
            is_bool(u, r.v, band((xa - xb).zero(), (ya - yb).zero()), r.st.pc, "equal exactly when both coordinates agree modulo p")
            st = u.state()
            a, b = (u.alloc(st, PK, (key(w, u, pts[0], m),)) for m in (m1, m2))
            r = u.call(fn, [a, b], st)
            if u.check(r is not None, "answers for every pair"):
                is_bool(u, r.v, 1, r.st.pc, "one point in two representations is one key")


def pk_from_secret(fn):
    def run(u):
        w = World(u)
        d, _ = w.scalar("d", 1)
        st = u.state()
        args = [u.alloc(st, SK, (d,))]
        if fn.endswith("_with_context"):
            args.append(ctxptr(u, st, True))
        r = u.call(fn, args, st)
        if u.check(r is not None, "answers for every key"):
            point_is(w, u, first(r.v), w.pts.mul(w.pts.G, d.v), r.st.pc, "the public key is dG")
            u.check(same(u.ip.load(r.st, args[0]), (d,), r.st.pc), "the secret key is left alone")
    return run


def pk_tweak(kind, fn):
    def run(u):
        for zero in ((0, 1) if kind == "mul" else (0,)):
            w = World(u)
            Q = w.pts.gen("Q")
            t, _ = scal(w, "t", zero, 1 if kind == "mul" else 0)
            st = u.state()
            k0 = (key(w, u, Q, (8, 8)),)
            args = [u.alloc(st, PK, k0), u.alloc(st, SK, (t,))]
            if fn.endswith("_with_context"):
                args.append(ctxptr(u, st))
            r = u.call(fn, args, st)
            if not u.check(r is not None, "answers for every tweak"):
                return
            pc = r.st.pc
            lin = w.pts.add(Q, w.pts.mul(w.pts.G, t.v)) if kind == "add" else w.pts.mul(Q, t.v)
            bad = w.pts.inf(lin) if kind == "add" else zero
            vs = variant(u, r.v, pc)
            iff(u, vs.get(ERR, 0), bad, pc, "refused exactly when the result would be infinity")
            err_code(u, r.v, pc, "TweakOutOfRange", "a refused tweak is reported as out of range")
            k = u.ip.load(r.st, args[0])
            c = band(pc, bad)
            if c and I.feas(c):
                u.check(same(k, k0, c), "a refused tweak leaves the key alone")
            c = band(pc, bnot(bad))
            if c and I.feas(c):
                point_is(w, u, first(C.vconstrain(k, c)), lin, c, "the key becomes " + ("Q + tG" if kind == "add" else "tQ"))
            u.check(same(u.ip.load(r.st, args[1]), (t,), r.st.pc), "the tweak is left alone")
    return run


def pk_combine(u):
    for n in range(0, 6):
        for rep in range(3 if n > 1 else 1):
            w = World(u)
            qs = [w.pts.gen("Q%d" % i) for i in range(n)]
            if rep == 1:
                qs[1] = qs[0]
            if rep == 2:
                qs[-1] = w.pts.neg(qs[0])
            st = u.state()
            T = u.ip.arr_ty(u.mir.ty(PK), n)
            o = u.alloc(st, T, tuple((key(w, u, q, (8, 8)),) for q in qs))
            r = u.call(PK + "::combine", [Ptr(o.obj, (0,), n)], st)
            if not u.check(r is not None, "answers for every list"):
                return
            pc = r.st.pc
            tot = w.pts.lin({})
            for q in qs:
                tot = w.pts.add(tot, q)
            bad = w.pts.inf(tot)
            vs = variant(u, r.v, pc)
            iff(u, vs.get(ERR, 0), bad, pc, "refused exactly when the sum is infinity", "%d keys" % n)
            err_code(u, r.v, pc, "InvalidPublicKey", "an infinite sum is reported as an invalid public key")
            c = band(pc, bnot(bad))
            if c and I.feas(c):
                point_is(w, u, first(C.vconstrain(unwrap(r.v, "key"), c)), tot, c, "the key is the sum of all keys")


def tweak_commutes(u):
    """tweaking the secret key and tweaking its public key agree"""
    w = World(u)
    for kind in ("add", "mul"):
        d, _ = w.scalar("d" + kind, 1)
        t, _ = w.scalar("t" + kind, 1)
        st = u.state()
        sk, tp = u.alloc(st, SK, (d,)), u.alloc(st, SK, (t,))
        pk = u.call(PK + "::from_secret_key_with_context", [sk, ctxptr(u, st, True)], st)
        if not u.check(pk is not None, "derives the key"):
            return
        st = pk.st
        pp = u.alloc(st, PK, pk.v)
        r = u.call(PK + "::tweak_%s_assign_with_context" % kind, [pp, tp, ctxptr(u, st)], st)
        if not u.check(r is not None, "tweaks the public key"):
            return
        st = r.st
        e1 = variant(u, r.v, st.pc).get(ERR, 0)
        r = u.call(SK + "::tweak_%s_assign" % kind, [sk, tp], st)
        if not u.check(r is not None, "tweaks the secret key"):
            return
        st = r.st
        e2 = variant(u, r.v, st.pc).get(ERR, 0)
        iff(u, e1, e2, st.pc, "the same tweaks are refused on both sides (%s)" % kind)
        c = band(st.pc, bnot(e1))
        d2 = first(C.vconstrain(u.ip.load(st, sk), c))
        d2 = [l for g, l in C.leaves(d2) if I.feas(band(c, g))]
        if u.check(len(d2) == 1, "one tweaked secret key (%s)" % kind):
            point_is(w, u, first(C.vconstrain(u.ip.load(st, pp), c)), w.pts.mul(w.pts.G, w.sval(d2[0]).v), c,
                     "the tweaked public key belongs to the tweaked secret key (%s)" % kind)


# --- secret keys ----------------------------------------------------------

def check_sk(u, w, r, V):
    pc = r.st.pc
    ok = band(bnot(C.ge_const(V, N)), bnot(C.eq(V, 0)))
    vs = variant(u, r.v, pc)
    iff(u, vs.get(OK, 0), ok, pc, "accepted exactly when the integer is in [1, n-1]")
    err_code(u, r.v, pc, "InvalidSecretKey", "a rejected integer reports an invalid secret key")
    c = band(ok, vs.get(OK, 0))
    if I.feas(c):
        scalar_is(u, w, first(C.vconstrain(unwrap(r.v, "key"), c)), V, c, "the key is the encoded integer")


def sk_parse(u):
    w = World(u)
    V = word("V")
    st = u.state()
    r = u.call(SK + "::parse", [arr(u, st, num_bytes(V))], st)
    if u.check(r is not None, "answers for every input"):
        check_sk(u, w, r, V)


def sk_parse_slice(u):
    wrong_length(u, SK + "::parse_slice", (32,))
    w = World(u)
    V = word("V")
    st = u.state()
    r = u.call(SK + "::parse_slice", [sl(u, st, num_bytes(V))], st)
    if u.check(r is not None, "answers for every input"):
        check_sk(u, w, r, V)


def sk_serialize(u):
    w = World(u)
    d, a = w.scalar("d", 1)
    st = u.state()
    p = u.alloc(st, SK, (d,))
    r = u.call(SK + "::serialize", [p], st)
    if not u.check(r is not None, "answers for every key"):
        return
    u.check(u.each(r.v, r.st.pc, lambda l, q: same_bytes(u, l, num_bytes(a), q)), "the bytes are the integer")
    b = u.call(SK + "::parse", [arr(u, r.st, num_bytes(a))], r.st)
    if u.check(b is not None, "parses its own output"):
        u.check(not I.feas(variant(u, b.v, b.st.pc).get(ERR, 0)), "parses its own output")
        scalar_is(u, w, first(unwrap(b.v, "key")), a, b.st.pc, "parsing the bytes returns the same key")


def sk_tweak(kind):
    def run(u):
        for zero in ((0, 1) if kind == "mul" else (0,)):
            w = World(u)
            d, _ = w.scalar("d", 1)
            t, _ = scal(w, "t", zero, 1 if kind == "mul" else 0)
            st = u.state()
            p, q = u.alloc(st, SK, (d,)), u.alloc(st, SK, (t,))
            r = u.call(SK + "::tweak_%s_assign" % kind, [p, q], st)
            if not u.check(r is not None, "answers for every tweak"):
                return
            pc = r.st.pc
            want = d.v + t.v if kind == "add" else d.v * t.v
            bad = want.zero() if kind == "add" else zero
            vs = variant(u, r.v, pc)
            iff(u, vs.get(ERR, 0), bad, pc, "refused exactly when the result would be zero")
            err_code(u, r.v, pc, "TweakOutOfRange", "a refused tweak is reported as out of range")
            k = u.ip.load(r.st, p)
            c = band(pc, bad)
            if c and I.feas(c):
                res_is(u, w, first(C.vconstrain(k, c)), d.v, c, "a refused tweak leaves the key alone")
            c = band(pc, bnot(bad))
            if c and I.feas(c):
                res_is(u, w, first(C.vconstrain(k, c)), want, c, "the key becomes the %s" % ("sum" if kind == "add" else "product"))
            u.check(same(u.ip.load(r.st, q), (t,), r.st.pc), "the tweak is left alone")
    return run


def sk_misc(u):
    w = World(u)
    d, _ = w.scalar("d", 1)
    st = u.state()
    p = u.alloc(st, SK, (d,))
    r = u.call(SK + "::inv", [p], st)
    if u.check(r is not None, "inverts every key"):
        res_is(u, w, first(r.v), w.sinverse(d.v), r.st.pc, "the inverse is the inverse modulo n")
    st = u.state()
    r = u.call("<%s as std::default::Default>::default" % SK, [], st)
    if u.check(r is not None, "has a default"):
        res_is(u, w, first(r.v), w.an.const(1), r.st.pc, "the default key is one")
    st = u.state()
    p = u.alloc(st, SK, (d,))
    r = u.call(SK + "::clear", [p], st)
    if u.check(r is not None, "clears every key"):
        res_is(u, w, first(u.ip.load(r.st, p)), w.an.const(0), r.st.pc, "a cleared key is zero")
        r = u.call(SK + "::is_zero", [p], r.st)
        is_bool(u, r.v, 1, r.st.pc, "a cleared key reports zero")
    e, ea = w.scalar("e")
    st = u.state()
    r = u.call(SK + "::is_zero", [u.alloc(st, SK, (e,))], st)
    is_bool(u, r.v, C.eq(ea, 0), r.st.pc, "the zero test is exact")
    st = u.state()
    r = u.call("<%s as std::convert::TryFrom<%s>>::try_from" % (SK, ST), [e], st)
    vs = variant(u, r.v, r.st.pc)
    iff(u, vs.get(ERR, 0), C.eq(ea, 0), r.st.pc, "a scalar is refused exactly when it is zero")
    err_code(u, r.v, r.st.pc, "InvalidSecretKey", "a zero scalar reports an invalid secret key")
    c = vs.get(OK, 0)
    res_is(u, w, first(C.vconstrain(unwrap(r.v, "key"), c)), e.v, c, "the key is the scalar given")
    st = u.state()
    r = u.call("<%s as std::convert::Into<%s>>::into" % (SK, ST), [(d,)], st)
    u.check(r is not None and r.v == d, "conversion to a scalar returns it")


def redraw(u, log, name, obj, produce):
    """a hook for a source of candidates: the second attempt must not depend on the first"""
    def h(ip, st, a, G):
        n = len(log["at"])
        log["at"].append(st.pc)
        if n == 0:
            log["mem"] = dict(st.mem)
        else:
            diff = {k for k, v in st.mem.items() if (k in log["mem"] or isinstance(k[0], int)) and not (k in log["mem"] and (log["mem"][k] is v or log["mem"][k] == v))}
            if n == 1:
                log["poison"] = diff
                keep = obj(ip, st, a)
                for k in diff:
                    if k not in keep:
                        st.mem[k] = C.UNDEF
            else:
                u.check(diff <= log["poison"], "every later attempt starts from the same state")
                return I.Diverge
        return produce(ip, st, a, n)
    return h


def sk_random(u):
    w = World(u)
    V = [word("V1"), word("V2")]
    log = {"at": []}
    name = [n for n in u.mir.byname if n.startswith(SK + "::random::")][0]
    fills = [n for n in u.mir.byname if "R0" in n and n.split("::")[-1] in ("fill_bytes", "try_fill_bytes") and "vroots::t" not in n]

    def produce(ip, st, a, n):
        p = a[1]
        if not u.check(p.meta == 32, "draws 32 bytes"):
            raise Unsupported("length of a draw")
        for i, b in enumerate(num_bytes(V[n])):
            ip.store(st, Ptr(p.obj, p.path[:-1] + (p.path[-1] + i,), None), b)
        return EnumV(0, ((),)) if "try_" in cur[0] else ()
    cur = [""]
    for f in fills:
        def h(ip, st, a, G, f=f):
            cur[0] = f
            return hook(ip, st, a, G)
        u.ip.hooks[f] = h
    hook = redraw(u, log, name, lambda ip, st, a: {a[1].obj}, produce)
    st = u.state()
    rng = u.alloc(st, "u8", 0)
    r = u.call(name, [rng], st)
    if not u.check(r is not None and len(log["at"]) == 3, "draws until a key is valid", repr(len(log["at"]))):
        return
    pc = r.st.pc
    prev = 1
    for i in (0, 1):
        good = band(bnot(C.ge_const(V[i], N)), bnot(C.eq(V[i], 0)))
        u.check(not I.feas(band(log["at"][i + 1], good)), "a valid draw is not discarded")
        c = band(pc, band(prev, good))
        if u.check(I.feas(c), "a valid draw is returned"):
            scalar_is(u, w, first(C.vconstrain(r.v, c)), V[i], c, "the key is the first valid draw")
        prev = band(prev, bnot(good))
    u.check(not I.feas(band(pc, prev)), "nothing but a valid draw is returned")


# --- signatures, messages, recovery ids ------------------------------------

def check_overflowing(u, w, v, V, pc, what):
    over = C.ge_const(V, N)
    for g, can in ((over, w.minus_n(V)), (bnot(over), V)):
        c = band(pc, g)
        if c and I.feas(c):
            scalar_is(u, w, C.vconstrain(v, c), can, c, what)


def sg_parse(kind, slice_):
    fn = SG + "::parse_%s%s" % (kind, "_slice" if slice_ else "")

    def run(u):
        if slice_:
            wrong_length(u, fn, (64,))
        w = World(u)
        R, S = word("R"), word("S")
        st = u.state()
        bs = num_bytes(R) + num_bytes(S)
        r = u.call(fn, [(sl if slice_ else arr)(u, st, bs)], st)
        if not u.check(r is not None, "answers for every input"):
            return
        pc = r.st.pc
        if kind == "standard":
            ok = band(bnot(C.ge_const(R, N)), bnot(C.ge_const(S, N)))
            vs = variant(u, r.v, pc)
            iff(u, vs.get(OK, 0), ok, pc, "accepted exactly when both integers are below n")
            err_code(u, r.v, pc, "InvalidSignature", "a rejected pair reports an invalid signature")
            c = band(vs.get(OK, 0), ok)
            v = C.vconstrain(unwrap(r.v, "sig"), c)
            scalar_is(u, w, field_of(u, SG, v, "r"), R, c, "r is the first integer")
            scalar_is(u, w, field_of(u, SG, v, "s"), S, c, "s is the second integer")
            return
        v = r.v
        if slice_:
            u.check(not I.feas(variant(u, v, pc).get(ERR, 0)), "every pair is accepted")
            v = unwrap(v, "sig")
        check_overflowing(u, w, field_of(u, SG, v, "r"), R, pc, "r is the first integer modulo n")
        check_overflowing(u, w, field_of(u, SG, v, "s"), S, pc, "s is the second integer modulo n")
    return run


def sg_serialize(u):
    w = World(u)
    (r, ra), (s, sa) = w.scalar("r"), w.scalar("s")
    st = u.state()
    p = u.alloc(st, SG, rec(u.mir, SG, r=r, s=s))
    o = u.call(SG + "::serialize", [p], st)
    if not u.check(o is not None, "answers for every signature"):
        return
    want = num_bytes(ra) + num_bytes(sa)
    u.check(u.each(o.v, o.st.pc, lambda l, q: same_bytes(u, l, want, q)), "the bytes are r and s")
    b = u.call(SG + "::parse_standard", [arr(u, o.st, want)], o.st)
    if u.check(b is not None and not I.feas(variant(u, b.v, b.st.pc).get(ERR, 0)), "parses its own output"):
        v = unwrap(b.v, "sig")
        scalar_is(u, w, field_of(u, SG, v, "r"), ra, b.st.pc, "parsing the bytes returns the same r")
        scalar_is(u, w, field_of(u, SG, v, "s"), sa, b.st.pc, "parsing the bytes returns the same s")


def sg_normalize(u):
    w = World(u)
    (r, ra), (s, sa) = w.scalar("r"), w.scalar("s")
    st = u.state()
    p = u.alloc(st, SG, rec(u.mir, SG, r=r, s=s))
    o = u.call(SG + "::normalize_s", [p], st)
    if not u.check(o is not None, "answers for every signature"):
        return
    v = u.ip.load(o.st, p)
    high = C.ge_const(sa, HALF + 1)
    vr, vs = field_of(u, SG, v, "r"), field_of(u, SG, v, "s")
    u.check(same(vr, r, o.st.pc), "r is left alone")
    for g, want in ((high, -s.v), (bnot(high), s.v)):
        res_is(u, w, C.vconstrain(vs, g), want, g, "s is negated exactly when it is above n/2")
    u.check(u.each(vs, 1, lambda l, q: u.in_range(w.scanon(l), 0, HALF, q)), "the resulting s is in the lower half")


def msg(u):
    for f, mk in (("parse", arr), ("parse_slice", sl)):
        w = World(u)
        V = word("V")
        if f == "parse_slice":
            wrong_length(u, MS + "::" + f, (32,))
        st = u.state()
        r = u.call(MS + "::" + f, [mk(u, st, num_bytes(V))], st)
        if not u.check(r is not None, "answers for every input"):
            return
        v = r.v
        if f == "parse_slice":
            u.check(not I.feas(variant(u, v, r.st.pc).get(ERR, 0)), "every 32 bytes are accepted")
            v = unwrap(v, "message")
        check_overflowing(u, w, first(v), V, r.st.pc, "the message is the integer modulo n")
    w = World(u)
    m, ma = w.scalar("m")
    st = u.state()
    r = u.call(MS + "::serialize", [u.alloc(st, MS, (m,))], st)
    if u.check(r is not None, "answers for every message"):
        u.check(u.each(r.v, r.st.pc, lambda l, q: same_bytes(u, l, num_bytes(ma), q)), "the bytes are the integer")


def rid(u):
    x = byte("id")
    for f, lo in (("parse", 0), ("parse_rpc", 27)):
        st = u.state()
        r = u.call(RI + "::" + f, [x], st)
        if not u.check(r is not None, "answers for every byte"):
            return
        pc = r.st.pc
        ok = band(C.ge_const(x, lo) if lo else 1, bnot(C.ge_const(x, lo + 4)))
        vs = variant(u, r.v, pc)
        iff(u, vs.get(OK, 0), ok, pc, "accepted exactly from %d to %d" % (lo, lo + 3))
        err_code(u, r.v, pc, "InvalidRecoveryId", "a rejected byte reports an invalid recovery id")
        c = band(ok, vs.get(OK, 0))
        u.check(num_is(u, first(C.vconstrain(unwrap(r.v, "id"), c)), C.psub(x, lo), c), "the id is the byte less the base")
    y = C.new_atom(0, 3, "id")
    st = u.state()
    r = u.call(RI + "::serialize", [u.alloc(st, RI, (y,))], st)
    u.check(r is not None and num_is(u, r.v, y, 1), "the byte is the id")
    for t in ("u8", "i32"):
        st = u.state()
        r = u.call("<%s as std::convert::Into<%s>>::into" % (RI, t), [(y,)], st)
        u.check(r is not None and num_is(u, r.v, y, 1), "conversion to %s is the id" % t)


TA, TM = PK + "::tweak_add_assign", PK + "::tweak_mul_assign"
UNITS = {
    "pk": [("PublicKey::parse", pk_parse), ("PublicKey::parse_compressed", pk_parse_compressed), ("PublicKey::parse_slice", pk_parse_slice),
           ("PublicKey::serialize", pk_serialize(False)), ("PublicKey::serialize_compressed", pk_serialize(True)), ("PublicKey::try_from", pk_try_from),
           ("PublicKey::from_secret_key", pk_from_secret(PK + "::from_secret_key")),
           ("PublicKey::from_secret_key_with_context", pk_from_secret(PK + "::from_secret_key_with_context"))],
    "pkeq": [("PublicKey::eq", pk_eq)],
    "tweak": [("PublicKey::tweak_add_assign", pk_tweak("add", TA)), ("PublicKey::tweak_add_assign_with_context", pk_tweak("add", TA + "_with_context")),
              ("PublicKey::tweak_mul_assign", pk_tweak("mul", TM)), ("PublicKey::tweak_mul_assign_with_context", pk_tweak("mul", TM + "_with_context")),
              ("SecretKey::tweak_add_assign", sk_tweak("add")), ("SecretKey::tweak_mul_assign", sk_tweak("mul")),
              ("PublicKey::combine", pk_combine), ("tweaks commute with key derivation", tweak_commutes)],
    "sk": [("SecretKey::parse", sk_parse), ("SecretKey::parse_slice", sk_parse_slice), ("SecretKey::serialize", sk_serialize),
           ("SecretKey::random", sk_random), ("SecretKey conversions", sk_misc)],
    "sig": [("Signature::parse_standard", sg_parse("standard", False)), ("Signature::parse_standard_slice", sg_parse("standard", True)),
            ("Signature::parse_overflowing", sg_parse("overflowing", False)), ("Signature::parse_overflowing_slice", sg_parse("overflowing", True)),
            ("Signature::serialize", sg_serialize), ("Signature::normalize_s", sg_normalize), ("Message", msg), ("RecoveryId", rid)],
}
