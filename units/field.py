"""Field element representation: every operation of the 10x26-bit limb code
against arithmetic in Z/p (contracts F.*)."""
from .base import *

FT = FIELD
FS = "libsecp256k1::curve::FieldStorage"
M26 = 0x3FFFFFF
M22 = 0x03FFFFF
MAXMAG = 31


def fresh(mag, norm=False, name="a"):
    k = (1 if norm else 2) * mag
    n = tuple(C.new_atom(0, k * (M26 if i < 9 else M22), "%s%d" % (name, i)) for i in range(10))
    if norm and mag:
        # canonical representation: the integer value is below p
        v = limbs_value(n, 26)
        pre = bnot(C.ge_const(v, P))
    else:
        pre = 1
    return (n, mag, B(1 if norm else 0)), pre


def fval(f):
    return limbs_value(f[0], 26)


class FieldUnit:
    pass


def check_field(u, v, pc, spec=None, mag=None, norm=None, what="result"):
    """v: (limbs, magnitude, normalized) satisfies the representation invariant
    with the magnitude it declares and is congruent to spec mod p."""
    if not isinstance(v, tuple):
        return u.check(False, what + " is a field element", repr(v))
    limbs, m, nz = v
    u.check(isinstance(m, int) or isinstance(m, (Node, Poly)), what + " magnitude defined")

    def bound(k):
        def f(x, pc):
            # bound must hold for the declared magnitude / flag under pc
            ok = [True]

            def g(mm, pc2):
                def h(nn, pc3):
                    if nn not in (0, 1):
                        # symbolic flag: take the tighter bound where set
                        a = band(pc3, nn)
                        r = True
                        if a and I.feas(a):
                            r = r and u.in_range(x, 0, mm * k, a)
                        b = band(pc3, bnot(nn))
                        if b and I.feas(b):
                            r = r and u.in_range(x, 0, 2 * mm * k, b)
                        return r
                    return u.in_range(x, 0, (1 if nn else 2) * mm * k, pc3)
                if not isinstance(mm, int):
                    bb = bounds(mm, pc2)
                    return False
                return h(nz.n if isinstance(nz, B) else 0, pc2)
            return u.each(m, pc, g)
        return f
    for i, x in enumerate(limbs):
        u.check(u.each(x, pc, bound(M26 if i < 9 else M22)), "%s limb bound of the declared magnitude" % what, "limb %d: %s" % (i, rng(x, pc)))
    if mag is not None:
        u.check(u.each(m, pc, lambda x, pc: isinstance(x, int) and x <= mag), what + " magnitude at most %s" % mag, repr(m))
    if norm is not None:
        n = u.ip.tobdd(nz, pc)
        if norm:
            u.check(band(pc, bnot(n)) == 0, what + " is marked normalised")
    val = fval(v)
    if spec is not None:
        def cong(pc, x, y):
            return Cong(x, y, pc)
        u.check(cong_all(u, val, spec, P, pc), what + " congruent to its specification mod p")
    # where marked normalised the value must be canonical
    n = u.ip.tobdd(nz, pc)
    g = band(pc, n)
    if g and I.feas(g):
        u.check(u.in_range(C.vconstrain(val, g), 0, P - 1, g), what + " canonical where marked normalised", rng(val, g))
    return val


def rng(x, pc):
    try:
        if isinstance(x, Node):
            return "; ".join("%s" % (bounds(l, band(pc, g)),) for g, l in C.leaves(x)[:4])
        return str(bounds(x, pc))
    except Exception as e:
        return repr(e)


class Cong:
    pass


def cong_all(u, a, b, q, pc):
    ok = [True]

    def f(pc, x, y):
        if not (C.is_num(x) and C.is_num(y)):
            ok[0] = False
            return 0
        if not cong(x, y, q, pc):
            ok[0] = False
        return 0
    if isinstance(a, Node) or isinstance(b, Node):
        I.pmap(f, pc, a, b)
    else:
        f(pc, a, b)
    return ok[0]


def cong(x, y, q, pc):
    # first with the guards on the atoms of the two values alone, then also with
    # those on the atoms their definitions are made of
    return cong_under(x, y, q, pc, 0) or (pc != 1 and cong_under(x, y, q, pc, 9))


def cong_under(x, y, q, pc, depth):
    d = psub(x, y)
    if zero_mod(d, q):
        return True
    if isinstance(d, int):
        return not I.feas(pc)
    if pc == 1:
        return False
    # equalities implied by the guard (single-valued atoms and comparisons)
    ats = d.atoms() if not depth else C._def_atoms(d, depth)
    sup = C.bsupport(pc)
    while True:
        keep = set(v for v in sup if C.var_atoms(v) & ats)
        n = len(ats)
        for v in keep:
            ats = ats | C.var_atoms(v)
        if len(ats) == n:
            break
    ex = C.bexists(pc, keep)
    inv2 = pow(pow(2, d.s, q), -1, q)
    base = {m: c * inv2 % q for m, c in d.t.items()}
    for cube in C.bcubes(ex):
        rr = C._refinements(cube)
        if rr is None:
            continue
        eqs = []
        for a, (lo, hi) in rr[0].items():
            if lo is not None and lo == hi:
                eqs.append(({(a,): 1, (): -lo % q}))
        for t, lo, hi in rr[1]:
            if lo is not None and lo == hi:
                i2 = pow(pow(2, t.s, q), -1, q)
                e = {m: c * i2 % q for m, c in t.t.items()}
                e[()] = (e.get((), 0) - lo) % q
                eqs.append(e)
        cpc = 1
        for v, val in cube.items():
            cpc = band(cpc, C.bnode(v, 1, 0) if val else C.bnode(v, 0, 1))
        dead = False
        d2 = base
        done = set()
        for deep in (0, 1, 2):
            for a in (sorted(set(x for m in d2 for x in m)) if deep == 1 else sorted(ats)):
                # a = w mod 2^k where w has a known quotient under the guard
                df = C.ATOMS[a].dfn
                if a not in done and df and df[0] == "low":
                    w, k = df[1], df[2]
                    qs = C.quotients(a, cpc, deep)
                    if qs == []:
                        dead = True
                        break
                    if qs and len(qs) == 1:
                        t = psub(psub(w, Poly({(a,): 1})), qs[0] << k)
                        i2 = pow(pow(2, t.s, q), -1, q)
                        eqs.append({m: c * i2 % q for m, c in t.t.items()})
                        done.add(a)
            if dead:
                break
            d2 = reduce_lin(dict(base), eqs, q)
            if not d2:
                break
        if not dead and d2:
            return False
    return True


def reduce_lin(d, eqs, q):
    """residue of the linear form d modulo the span of the equalities"""
    basis = []
    for e in eqs:
        e = dict(e)
        for piv, b in basis:
            c = e.get(piv, 0)
            if c:
                for m, x in b.items():
                    e[m] = (e.get(m, 0) - c * x) % q
        e = {m: c for m, c in e.items() if c % q}
        piv = next((m for m in e if m), None)
        if piv is None:
            continue
        iv_ = pow(e[piv], -1, q)
        basis.append((piv, {m: c * iv_ % q for m, c in e.items()}))
    for piv, b in basis:
        c = d.get(piv, 0) % q
        if c:
            for m, x in b.items():
                d[m] = (d.get(m, 0) - c * x) % q
    return {m: c for m, c in d.items() if c % q}


def f_normalize(u, fn, mag=MAXMAG):
    st = u.state()
    a, pre = fresh(mag)
    p = u.alloc(st, FT, a)
    r = u.call(FT + "::" + fn, [p], st)
    v = r[1].mem[p.obj]
    check_field(u, v, r[1].pc, spec=fval(a), mag=1, norm=(fn != "normalize_weak"))


def f_mul(u):
    st = u.state()
    a, _ = fresh(8, name="a")
    b, _ = fresh(8, name="b")
    c, _ = fresh(8, name="c")
    pa, pb, pr = (u.alloc(st, FT, x) for x in (a, b, c))
    r = u.call(FT + "::mul_in_place", [pr, pa, pb], st)
    check_field(u, r[1].mem[pr.obj], r[1].pc, spec=pmul(fval(a), fval(b)), mag=1)


def f_sqr(u):
    st = u.state()
    a, _ = fresh(8, name="a")
    c, _ = fresh(8, name="c")
    pa, pr = (u.alloc(st, FT, x) for x in (a, c))
    r = u.call(FT + "::sqr_in_place", [pr, pa], st)
    check_field(u, r[1].mem[pr.obj], r[1].pc, spec=pmul(fval(a), fval(a)), mag=1)


# ---------------------------------------------------------------- unit bodies


def bytes_value(bs):
    """big-endian integer of 32 guarded bytes"""
    def f(*xs):
        r = 0
        for x in xs:
            r = padd(pscale(r, 256), x)
        return r
    return C.mapply(f, *bs)


def words(n, name="w"):
    return tuple(C.new_atom(0, 0xFFFFFFFF, "%s%d" % (name, i)) for i in range(n))


def same(u, a, b, pc):
    """exact equality of guarded numbers"""
    ok = [True]

    def f(pc, x, y):
        if C.is_num(x) and C.is_num(y):
            d = psub(x, y)
            if d == 0:
                return 0
            bb = bounds(d, pc)
            if bb is None or (bb[0] == 0 and bb[1] == 0):
                return 0
        ok[0] = False
        return 0
    I.pmap(f, pc, a, b)
    return ok[0]


def bool_is(u, v, spec, pc):
    """v (boolean value) equals the BDD spec under pc"""
    n = u.ip.tobdd(v, pc)
    return not I.feas(band(pc, C.bxor(n, spec)))


def zero_spec(v):
    """BDD of 'v = 0 mod p' for limbs of any admissible magnitude, through
    the digits of one reduction step"""
    limbs = v[0]
    t = list(limbs)
    x = C.shr(t[9], 22)
    t[9] = C.low(t[9], 22)
    t[0] = padd(t[0], pscale(x, 0x3D1))
    t[1] = padd(t[1], pscale(x, 64))
    for i in range(9):
        t[i + 1] = padd(t[i + 1], C.shr(t[i], 26))
        t[i] = C.low(t[i], 26)
    pd = [(P >> (26 * i)) & M26 for i in range(9)] + [P >> 234]
    z0 = z1 = 1
    for i in range(10):
        z0 = band(z0, C.eq(t[i], 0))
        z1 = band(z1, C.eq(t[i], pd[i]))
    return bor(z0, z1)


def by_normal_form(u, fn):
    """the same question when the code goes through the normal form: the
    canonical representative (contract of normalize) must be tested for zero"""
    s = Unit(u.mir, u.name)
    st = s.state()
    a, _ = fresh(MAXMAG)
    forms = []

    def norm(ip, st, args, G):
        f = ip.load(st, args[0])
        if not cong_all(s, fval(f), fval(a), P, st.pc):
            raise Unsupported("normal form of another value")
        y, pre = fresh(1, True, "y")
        forms.append(y)
        st.pc = band(st.pc, pre)
        ip.store(st, args[0], y)
        return ()
    for k in ("normalize", "normalize_var"):
        s.ip.hooks[FT + "::" + k] = norm
    try:
        r = s.call(FT + "::" + fn, [s.alloc(st, FT, a)], st)
    except Unsupported:
        return False
    if r is None or len(forms) != 1:
        return False
    z = 1
    for x in forms[0][0]:
        z = band(z, C.eq(x, 0))
    return bool_is(s, r[0], z, r[1].pc) and not s.ip.failed()


def f_to_zero(u, fn):
    st = u.state()
    a, _ = fresh(MAXMAG)
    p = u.alloc(st, FT, a)
    spec = zero_spec(a)
    r = u.call(FT + "::" + fn, [p], st)
    ok = bool_is(u, r[0], spec, r[1].pc)
    u.check(ok or by_normal_form(u, fn), "true exactly for multiples of p")
    same_fe(u, r[1].mem[p.obj], a, r[1].pc, "operand unchanged")


def same_fe(u, v, a, pc, what):
    ok = isinstance(v, tuple) and all(same(u, x, y, pc) for x, y in zip(v[0], a[0])) and same(u, v[1], a[1], pc)
    ok = ok and bool_is(u, v[2], a[2].n, pc)
    u.check(ok, what)


def f_new(u):
    st = u.state()
    w = words(8)          # most significant first
    val = bytes_like(w)
    st.pc = bnot(C.ge_const(val, P))
    r = u.call(FT + "::new", list(w), st)
    check_field(u, r[0], r[1].pc, spec=val, mag=1)


def bytes_like(w):
    r = 0
    for x in w:
        r = padd(pscale(r, 1 << 32), x)
    return r


def f_set_int(u, fn):
    st = u.state()
    a = C.new_atom(0, M26, "a")
    if fn == "from_int":
        r = u.call(FT + "::from_int", [a], st)
        v = r[0]
    else:
        p = u.alloc(st, FT, fresh(8)[0])
        r = u.call(FT + "::set_int", [p, a], st)
        v = r[1].mem[p.obj]
    check_field(u, v, r[1].pc, spec=a, mag=1, norm=True)


def f_zero(u, fn):
    st = u.state()
    if fn == "clear":
        p = u.alloc(st, FT, fresh(8)[0])
        r = u.call(FT + "::clear", [p], st)
        v = r[1].mem[p.obj]
    else:
        r = u.call("<%s as std::default::Default>::default" % FT, [], st)
        v = r[0]
    check_field(u, v, r[1].pc, spec=0, mag=1, norm=True)
    u.check(all(x == 0 for x in v[0]), "all limbs zero")


def f_is_zero(u):
    st = u.state()
    a, pre = fresh(1, True)
    st.pc = pre
    p = u.alloc(st, FT, a)
    r = u.call(FT + "::is_zero", [p], st)
    z = 1
    for x in a[0]:
        z = band(z, C.eq(x, 0))
    u.check(bool_is(u, r[0], z, r[1].pc), "true exactly for zero")


def f_is_odd(u):
    st = u.state()
    a, pre = fresh(1, True)
    st.pc = pre
    p = u.alloc(st, FT, a)
    r = u.call(FT + "::is_odd", [p], st)
    u.check(bool_is(u, r[0], C.eq(C.low(fval(a), 1), 1), r[1].pc), "true exactly for odd values")


def f_set_b32(u):
    st = u.state()
    bs = tuple(C.new_atom(0, 255, "b%d" % i) for i in range(32))
    p = u.alloc(st, FT, fresh(8)[0])
    q = u.alloc(st, u.ip.arr_ty(u.mir.ty("u8"), 32), bs)
    r = u.call(FT + "::set_b32", [p, q], st)
    pc = r[1].pc
    val = bytes_value(bs)
    ok = u.ip.tobdd(r[0], pc)
    g = band(pc, bnot(ok))
    u.check(not g or u.in_range(val, P, 2**256, g), "rejects only values not below p", rng(val, g))
    g = band(pc, ok)
    u.check(u.in_range(val, 0, P - 1, g), "accepts only values below p", rng(val, g))
    v = C.vconstrain(r[1].mem[p.obj], g)
    v = tuple(tuple(C.vconstrain(y, g) for y in x) if isinstance(x, tuple) else C.vconstrain(x, g) for x in v)
    u.check(same(u, fval(v), val, g), "value is the big-endian integer")
    check_field(u, v, g, spec=val, mag=1, norm=True)


def f_b32(u, fn):
    st = u.state()
    a, pre = fresh(1, True)
    st.pc = pre
    p = u.alloc(st, FT, a)
    if fn == "b32":
        r = u.call(FT + "::b32", [p], st)
        out = r[0]
    else:
        q = u.alloc(st, u.ip.arr_ty(u.mir.ty("u8"), 32), tuple(C.new_atom(0, 255, "o") for i in range(32)))
        r = u.call(FT + "::fill_b32", [p, q], st)
        out = r[1].mem[q.obj]
    pc = r[1].pc
    u.check(all(u.in_range(x, 0, 255, pc) for x in out), "bytes are bytes")
    u.check(same(u, bytes_value(out), fval(a), pc), "big-endian digits of the value")


def f_neg(u):
    st = u.state()
    for m in range(1, MAXMAG + 1):
        a, _ = fresh(m)
        st = u.state()
        p = u.alloc(st, FT, a)
        q = u.alloc(st, FT, fresh(8)[0])
        r = u.call(FT + "::neg_in_place", [q, p, m], st)
        check_field(u, r[1].mem[q.obj], r[1].pc, spec=C.pneg(fval(a)), mag=m + 1)
    a, _ = fresh(3)
    st = u.state()
    p = u.alloc(st, FT, a)
    r = u.call(FT + "::neg", [p, 5], st)
    check_field(u, r[0], r[1].pc, spec=C.pneg(fval(a)), mag=6)


def f_mul_int(u):
    for a in range(0, 17):
        for m in sorted(set((1, 2, 3, 32 // max(a, 1)))):
            if m * a > 32 or m > MAXMAG:
                continue
            st = u.state()
            x, _ = fresh(m)
            p = u.alloc(st, FT, x)
            r = u.call(FT + "::mul_int", [p, a], st)
            check_field(u, r[1].mem[p.obj], r[1].pc, spec=pscale(fval(x), a), mag=m * a)


def f_add(u):
    for m1, m2 in [(i, 32 - i) for i in range(1, 32)] + [(1, 1), (2, 3), (8, 8), (1, 4)]:
        st = u.state()
        x, _ = fresh(m1, name="a")
        y, _ = fresh(m2, name="b")
        p = u.alloc(st, FT, x)
        q = u.alloc(st, FT, y)
        r = u.call("<%s as std::ops::AddAssign<&%s>>::add_assign" % (FT, FT), [p, q], st)
        check_field(u, r[1].mem[p.obj], r[1].pc, spec=padd(fval(x), fval(y)), mag=m1 + m2)
    for pre, args in (("<%s as std::ops::Add>::add" % FT, "vv"), ("<&%s as std::ops::Add>::add" % FT, "rr"),
                      ("<%s as std::ops::AddAssign>::add_assign" % FT, "mv")):
        binary(u, pre, args, lambda a, b: padd(a, b), 4, 4, 8)


def binary(u, fn, mode, spec, m1, m2, mag):
    st = u.state()
    x, _ = fresh(m1, name="a")
    y, _ = fresh(m2, name="b")
    p = u.alloc(st, FT, x)
    q = u.alloc(st, FT, y)
    a1 = x if mode[0] == "v" else p
    a2 = y if mode[1] == "v" else q
    r = u.call(fn, [a1, a2], st)
    v = r[1].mem[p.obj] if mode[0] == "m" else r[0]
    check_field(u, v, r[1].pc, spec=spec(fval(x), fval(y)), mag=mag)
    if mode[0] == "r":
        same_fe(u, r[1].mem[p.obj], x, r[1].pc, "left operand unchanged")
    if mode[1] == "r":
        same_fe(u, r[1].mem[q.obj], y, r[1].pc, "right operand unchanged")


def f_mul_ops(u):
    for fn, mode in (("<%s as std::ops::Mul>::mul" % FT, "vv"), ("<&%s as std::ops::Mul>::mul" % FT, "rr"),
                     ("<%s as std::ops::MulAssign<&%s>>::mul_assign" % (FT, FT), "mr"),
                     ("<%s as std::ops::MulAssign>::mul_assign" % FT, "mv")):
        binary(u, fn, mode, pmul, 8, 8, 1)
    st = u.state()
    x, _ = fresh(8)
    p = u.alloc(st, FT, x)
    r = u.call(FT + "::sqr", [p], st)
    check_field(u, r[0], r[1].pc, spec=pmul(fval(x), fval(x)), mag=1)


def order_unit(u, fn, wrap):
    st = u.state()
    x, p1 = fresh(1, True, "a")
    y, p2 = fresh(1, True, "b")
    st.pc = band(p1, p2)
    p = u.alloc(st, FT, x)
    q = u.alloc(st, FT, y)
    r = u.call(fn, [p, q], st)
    d = psub(fval(x), fval(y))

    def f(v, pc):
        if wrap:
            if not (isinstance(v, EnumV) and v.var == 1):
                return False
            return u.each(v.f[0], pc, g)
        return g(v, pc)

    def g(v, pc):
        if not isinstance(v, EnumV):
            return False
        b = bounds(d, pc)
        if b is None:
            return True
        o = v.var           # Less, Equal, Greater
        return (b[1] < 0) if o == 0 else (b[0] == b[1] == 0) if o == 1 else b[0] > 0
    u.check(u.each(r[0], r[1].pc, f), "result orders the values as integers")


def f_cmov(u):
    for flag in (0, 1, None):
        st = u.state()
        x, _ = fresh(3, name="a")
        y, p2 = fresh(1, True, "b")
        fb = C.bvar(C.mkvar("op", "flag")) if flag is None else flag
        p = u.alloc(st, FT, x)
        q = u.alloc(st, FT, y)
        r = u.call(FT + "::cmov", [p, q, B(fb)], st)
        pc = r[1].pc
        v = r[1].mem[p.obj]
        for g, w in ((fb, y), (bnot(fb), x)):
            g = band(pc, g)
            if not g:
                continue
            vv = tuple(tuple(C.vconstrain(z, g) for z in k) if isinstance(k, tuple) else C.vconstrain(k, g) for k in v)
            same_fe(u, vv, w, g, "selects the operand the flag names")


def f_storage(u):
    # into storage
    st = u.state()
    a, pre = fresh(1, True)
    st.pc = pre
    r = u.call("<%s as std::convert::Into<%s>>::into" % (FT, FS), [a], st)
    u.check(all(u.in_range(x, 0, 0xFFFFFFFF, r[1].pc) for x in r[0][0]), "words are words")
    u.check(same(u, limbs_value(r[0][0], 32), fval(a), r[1].pc), "storage words hold the value")
    # from storage
    st = u.state()
    w = words(8)
    val = limbs_value(w, 32)
    st.pc = bnot(C.ge_const(val, P))
    r = u.call("<%s as std::convert::From<%s>>::from" % (FT, FS), [(w,)], st)
    check_field(u, r[0], r[1].pc, spec=val, mag=1, norm=True, what="value from storage")
    u.check(same(u, fval(r[0]), val, r[1].pc), "value from storage is exact")
    st = u.state()
    w = words(8)
    r = u.call(FS + "::new", list(w), st)
    u.check(same(u, limbs_value(r[0][0], 32), bytes_like(w), r[1].pc), "storage constructor order")
    st = u.state()
    r = u.call("<%s as std::default::Default>::default" % FS, [], st)
    u.check(all(x == 0 for x in r[0][0]), "default storage is zero")


def f_storage_cmov(u):
    st = u.state()
    x, y = words(8, "x"), words(8, "y")
    fb = C.bvar(C.mkvar("op", "flag"))
    p = u.alloc(st, FS, (x,))
    q = u.alloc(st, FS, (y,))
    r = u.call(FS + "::cmov", [p, q, B(fb)], st)
    v = r[1].mem[p.obj][0]
    for g, w in ((fb, y), (bnot(fb), x)):
        g = band(r[1].pc, g)
        u.check(all(same(u, C.vconstrain(a, g), b, g) for a, b in zip(v, w)), "selects the operand the flag names")


def f_storage_eq(u):
    st = u.state()
    x, y = words(8, "x"), words(8, "y")
    p = u.alloc(st, FS, (x,))
    q = u.alloc(st, FS, (y,))
    r = u.call("<%s as std::cmp::PartialEq>::eq" % FS, [p, q], st)
    z = 1
    for a, b in zip(x, y):
        z = band(z, C.eq(a, b))
    u.check(bool_is(u, r[0], z, r[1].pc), "equality of all words")


UNITS = {
    "arith": [
        ("Field::mul_in_place", f_mul), ("Field::sqr_in_place", f_sqr), ("Field::mul operators", f_mul_ops),
        ("Field::add", f_add), ("Field::neg", f_neg), ("Field::mul_int", f_mul_int),
        ("Field::set_int", lambda u: f_set_int(u, "set_int")), ("Field::from_int", lambda u: f_set_int(u, "from_int")),
        ("Field::clear", lambda u: f_zero(u, "clear")), ("Field::default", lambda u: f_zero(u, "default")),
        ("Field::cmov", f_cmov), ("Field::new", f_new),
    ],
    "norm": [
        ("Field::normalize", lambda u: f_normalize(u, "normalize")),
        ("Field::normalize_weak", lambda u: f_normalize(u, "normalize_weak")),
        ("Field::normalize_var", lambda u: f_normalize(u, "normalize_var")),
        ("Field::normalizes_to_zero", lambda u: f_to_zero(u, "normalizes_to_zero")),
        ("Field::normalizes_to_zero_var", lambda u: f_to_zero(u, "normalizes_to_zero_var")),
        ("Field::is_zero", f_is_zero), ("Field::is_odd", f_is_odd),
        ("Field::cmp_var", lambda u: order_unit(u, FT + "::cmp_var", False)),
        ("Field::cmp", lambda u: order_unit(u, "<%s as std::cmp::Ord>::cmp" % FT, False)),
        ("Field::partial_cmp", lambda u: order_unit(u, "<%s as std::cmp::PartialOrd>::partial_cmp" % FT, True)),
    ],
    "codec": [
        ("Field::set_b32", f_set_b32), ("Field::fill_b32", lambda u: f_b32(u, "fill_b32")),
        ("Field::b32", lambda u: f_b32(u, "b32")), ("FieldStorage conversions", f_storage),
        ("FieldStorage::cmov", f_storage_cmov), ("FieldStorage::eq", f_storage_eq),
    ],
}
