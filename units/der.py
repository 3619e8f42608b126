"""DER signatures: the strict and the lax parser, and the serializer.

The input is a slice of unknown length whose bytes are unknowns created on
demand, so one run stands for every input of a case of the partition, with
whatever follows the signature."""
import os
from ai import core as C, interp as I
from ai.core import Node, Poly, B, EnumV, Opaque, Unsupported, band, bor, bnot, vite, padd, psub
from ai.interp import Ptr, Ret, pmap
from .base import P, N
from .world import World, SV, ST, bytes_num, num_bytes, vleaf
from .ecdsa import L, OK, ERR, variant, err_code, unwrap, parts, num_is, same_bytes, scal
from .keys import iff, field_of, scalar_is, res_is, same, one_of, SG
from .group import rec

DEC = "libsecp256k1::util::Decoder"


class Bytes(Opaque):
    """bytes by position; positions may be numbers of the domain"""
    __slots__ = ("m", "nm")

    def __init__(self, nm, m=None):
        self.nm, self.m = nm, dict(m or {})

    def index(self, s, pc, ip):
        if isinstance(s, Poly):
            b = C.bounds(s, pc)
            if b is None:
                return 0
            if b[0] is not None and b[0] == b[1]:
                s = b[0]
        k = s if isinstance(s, int) else s.key
        r = self.m.get(k)
        if r is None:
            r = self.m[k] = C.new_atom(0, 255, "%s[%s]" % (self.nm, s))
        return r

    def at(self, i):
        return self.index(i, 1, None)

    def __eq__(self, o):
        return self is o

    def __hash__(self):
        return id(self)


def loops(u):
    u.ip.hooks[("loop", "*")] = lambda ip, *a: ip.accel(*a)


def slice_of(u, st, bs, n):
    o = u.ip.heap(st, bs, u.ip.arr_ty(u.mir.ty("u8"), 2**50))
    return Ptr(o, (0,), n)


def hi_bit(b):
    return int(b >= 128) if isinstance(b, int) else C.eq(C.mid(b, 7, 1), 1)


def positive(bs, at, k):
    """the k bytes at this position are a minimal encoding of an integer below 2^256"""
    if k == 0:
        return 0
    g = bnot(hi_bit(bs.at(at)))
    z = C.eq(bs.at(at), 0)
    if k > 1:
        g = band(g, bnot(band(z, bnot(hi_bit(bs.at(at + 1))))))
    if k == 33:
        g = band(g, z)
    return g if k <= 33 else 0


def value(bs, at, k):
    r = 0
    for i in range(k):
        r = padd(C.pscale(r, 256), bs.at(at + i))
    return r


def component(u, w, v, val, pc, what):
    """an integer at or above n is replaced by zero"""
    over = C.ge_const(val, N) if not isinstance(val, int) else int(val >= N)
    for g, can in ((over, 0), (bnot(over), val)):
        c = band(pc, g)
        if c and I.feas(c):
            scalar_is(u, w, C.vconstrain(v, c), can, c, what)


def known(m, at, k, z):
    """the first of the k bytes is zero (z) or not"""
    if k:
        m[at] = 0 if z else C.new_atom(1, 255, "p[%d]" % at)


def run_parser(u, fn, bs, n, lab, pc0):
    w = World(u)
    loops(u)
    st = u.state()
    st.pc = pc0
    r = u.call(fn, [slice_of(u, st, bs, n)], st)
    if not u.check(r is not None, "answers for every input", lab):
        return None
    pc = r.st.pc
    d = band(pc0, bnot(pc))
    u.check(d == 0 or not I.feas(d), "answers for every input", lab)
    vs = variant(u, r.v, pc)
    err_code(u, r.v, pc, "InvalidSignature", "a rejected encoding reports an invalid signature")
    return w, r, pc, vs.get(OK, 0)


def preset(k, rl, rz, sl, sz):
    m = {}
    if rl is not None:
        m[3 + k] = rl
        known(m, 4 + k, rl, rz)
        if sl is not None:
            m[5 + k + rl] = sl
            known(m, 6 + k + rl, sl, sz)
    if k:
        m[1] = 128 + k
    return Bytes("p", m)


def strict_reject(u, k, rl, rz=0, sl=None, sz=0, form=0, diff=None):
    """inputs that are no canonical encoding; k: extra bytes of the outer
    length; rl, sl: length bytes of r and s (None: any no accepted encoding
    has); rz, sz: first bytes are zero; diff: how the outer length is wrong"""
    fresh(u)
    bs = preset(k, rl, rz, sl, sz)
    n = C.new_atom(0, 2**40, "length")
    pc0 = 1
    lab = "outer length of %d bytes, r of %r, s of %r" % (k + 1, rl, sl)
    if diff:
        tot = 6 + rl + sl
        lab += ", " + diff
        if diff == "other outer length":
            pc0 = band(bnot(hi_bit(bs.at(1))), bnot(C.eq(bs.at(1), psub(n, 2))))
        else:
            n = C.new_atom(2, tot - 1, "length") if diff == "truncated" else C.new_atom(tot + 1, 129, "length")
            bs.m[1] = psub(n, 2)
    elif form:
        pc0 = bor(C.eq(bs.at(1), 128), C.ge_const(bs.at(1), 137))
    elif not k:
        pc0 = bnot(hi_bit(bs.at(1)))
    if not form and (rl is None or sl is None):
        x = bs.at(3 + k if rl is None else 5 + k + rl)
        pc0 = band(pc0, bor(C.eq(x, 0), C.ge_const(x, 34)))
    o = run_parser(u, SG + "::parse_der", bs, n, lab, pc0)
    if o is not None:
        w, r, pc, got = o
        u.check(not I.feas(band(pc, got)), "what is no canonical encoding of two integers is rejected", lab)


def strict_accept(u, rl, rz, sl, sz):
    fresh(u)
    bs = preset(0, rl, rz, sl, sz)
    n = 6 + rl + sl
    bs.m[1] = n - 2
    lab = "r of %r, s of %r" % (rl, sl)
    o = run_parser(u, SG + "::parse_der", bs, n, lab, 1)
    if o is None:
        return
    w, r, pc, got = o
    q = 4 + rl
    ok = band(band(C.eq(bs.at(0), 0x30), C.eq(bs.at(2), 2)), band(positive(bs, 4, rl), C.eq(bs.at(q), 2)))
    ok = band(ok, positive(bs, q + 2, sl))
    if sl == 1 and sz:
        # no statement is made about a zero s
        ok = band(ok, got)
    iff(u, got, ok, pc, "accepted exactly when it is the canonical encoding of two integers", lab)
    c = band(pc, band(got, ok))
    if c and I.feas(c):
        v = C.vconstrain(unwrap(r.v, "sig"), c)
        component(u, w, field_of(u, SG, v, "r"), value(bs, 4, rl), c, "r is the first integer (zero if it is n or more)")
        component(u, w, field_of(u, SG, v, "s"), value(bs, q + 2, sl), c, "s is the second integer (zero if it is n or more)")


EDGE = (0, 1, 2, 31, 32, 33)


def strict_short(rl):
    def run(u):
        for rz in (0, 1) if rl else (0,):
            strict_reject(u, 0, rl, rz)
        for sl in range(34):
            if not (TH or rl in EDGE or sl in EDGE):
                continue
            for rz in (0, 1) if rl else (0,):
                for sz in (0, 1) if sl else (0,):
                    strict_accept(u, rl, rz, sl, sz)
                for d in ("truncated", "trailing bytes", "other outer length"):
                    strict_reject(u, 0, rl, rz, sl, 0, 0, d)
    return run


def fresh(u):
    u.ip.hooks.clear()


def strict_other(k):
    def run(u):
        strict_reject(u, k, None)
        if not k:
            strict_reject(u, 0, None, form=1)
            return
        for rl in range(0, 34):
            for rz in (0, 1) if rl else (0,):
                strict_reject(u, k, rl, rz)
                for sl in range(0, 34):
                    if sl in EDGE and (TH or rl in EDGE):
                        strict_reject(u, k, rl, rz, sl, 0)
    return run


def ranges():
    """(length of the canonical encoding, range of the integer)"""
    yield 1, 0, 0
    yield 1, 1, 127
    for k in range(2, 34):
        yield k, 1 << (8 * k - 9), min((1 << (8 * k - 8)) - 1, N - 1)
        if k < 33:
            yield k, 1 << (8 * k - 8), (1 << (8 * k - 1)) - 1


SA = "libsecp256k1::util::SignatureArray"


def der_bytes(can, k):
    return tuple(C.mapply(lambda x: C.mid(x, 8 * (k - 1 - i), 8), can) for i in range(k))


def serialize_case(u, rr, ss):
    fresh(u)
    w = World(u)
    loops(u)
    (kr, rl, rh), (ks, sl, sh) = rr, ss
    (r, ra), (s, sa) = w.scalar("r", rl, rh), w.scalar("s", sl, sh)
    if rl == rh:
        r = SV(w.an.const(rl), rl)
        ra = rl
    if sl == sh:
        s = SV(w.an.const(sl), sl)
        sa = sl
    lab = "r of %d, s of %d bytes" % (kr, ks)
    st = u.state()
    p = u.alloc(st, SG, rec(u.mir, SG, r=r, s=s))
    o = u.call(SG + "::serialize_der", [p], st)
    if not u.check(o is not None, "answers for every signature", lab):
        return
    want = (0x30, 4 + kr + ks, 2, kr) + der_bytes(ra, kr) + (2, ks) + der_bytes(sa, ks)
    q = u.alloc(o.st, SA, o.v)
    a = u.call("<%s as std::convert::AsRef<[u8]>>::as_ref" % SA, [q], o.st)
    n = u.call(SA + "::len", [q], o.st)
    if not u.check(a is not None and n is not None and n.v == len(want) and u.ip.meta_of(a.v) == len(want), "the length is that of the encoding", lab):
        return
    got = tuple(u.ip.load(a.st, u.ip.ptr_off(a.v, i), u.mir.ty("u8")) for i in range(len(want)))
    u.check(same_bytes(u, got, want, a.st.pc), "the bytes are the canonical encoding", lab)
    if sl == sh:
        return      # a zero s: no statement
    b = u.call(SG + "::parse_der", [a.v], a.st)
    if not u.check(b is not None and not I.feas(variant(u, b.v, b.st.pc).get(ERR, 0)), "parses its own output", lab):
        return
    v = unwrap(b.v, "sig")
    scalar_is(u, w, field_of(u, SG, v, "r"), ra, b.st.pc, "parsing the bytes returns the same r")
    scalar_is(u, w, field_of(u, SG, v, "s"), sa, b.st.pc, "parsing the bytes returns the same s")


def serialize_der(i):
    def run(u):
        rs = list(ranges())
        edge = [x for x in rs if x[0] in (1, 32, 33)]
        for j, rr in enumerate(rs):
            if j % 8 == i:
                for ss in rs if TH or rr in edge else edge:
                    serialize_case(u, rr, ss)
    return run


class Int:
    """layout of an integer of the lax format: m further length bytes (-1: short
    form) of which z are leading zeros, L content bytes, t of them leading zeros"""

    def __init__(self, L, t=0, m=-1, z=0):
        self.L, self.t, self.m, self.z = L, t, m, z

    def put(self, b, q):
        """writes the layout at q; returns (first content byte, end)"""
        if self.m < 0:
            b[q + 1] = self.L
            c = q + 2
        else:
            b[q + 1] = 128 + self.m
            sig = self.m - self.z
            for i in range(self.m):
                b[q + 2 + i] = 0 if i < self.z else (self.L >> (8 * (sig - 1 - (i - self.z)))) & 255
            c = q + 2 + self.m
        for i in range(self.t):
            b[c + i] = 0
        if self.t < self.L:
            b[c + self.t] = C.new_atom(1, 255, "p[%d]" % (c + self.t))
        return c, c + self.L

    def __repr__(self):
        return "(%d bytes, %d zero, form %d/%d)" % (self.L, self.t, self.m, self.z)


def lax_case(u, outer, r, s):
    """outer: None (short form) or the number of further length bytes"""
    fresh(u)
    m = {}
    if outer is not None:
        m[1] = 128 + outer
    q = 2 + (outer or 0)
    rc, re = r.put(m, q)
    sc, end = s.put(m, re)
    bs = Bytes("p", m)
    n = C.new_atom(0, 2**40, "length")
    pc0 = bnot(hi_bit(bs.at(1))) if outer is None else 1
    lab = "outer %r, r %r, s %r" % (outer, r, s)
    o = run_parser(u, SG + "::parse_der_lax", bs, n, lab, pc0)
    if o is None:
        return
    w, res, pc, got = o
    ok = band(band(C.eq(bs.at(0), 0x30), C.eq(bs.at(q), 2)), C.eq(bs.at(re), 2))
    ok = band(ok, C.ge_const(n, end))
    if s.t == s.L:
        # a zero s that ends the input: no statement
        ok = band(ok, bor(got, bnot(C.eq(n, end))))
    iff(u, got, ok, pc, "accepted exactly when both integers are there", lab)
    c = band(pc, band(got, ok))
    if c and I.feas(c):
        v = C.vconstrain(unwrap(res.v, "sig"), c)
        for nm, at, i in (("r", rc, r), ("s", sc, s)):
            val = value(bs, at + i.t, i.L - i.t) if i.L - i.t <= 32 else 0
            component(u, w, field_of(u, SG, v, nm), val, c, nm + " is the integer (zero if it is n or more)")
    else:
        u.check(False, "the case is accepted", lab)


def lax_forms():
    """layouts of one integer"""
    for Ln in tuple(range(0, 35)) + (40, 64, 127):
        for t in sorted({0, 1, 2, Ln - 33, Ln - 32, Ln - 31, Ln - 1, Ln}):
            if 0 <= t <= Ln:
                yield Int(Ln, t)
    for m in (0, 1, 2, 3, 6, 7, 8, 9, 20, 126, 127):
        for sig in (0, 1, 2, 3, 6):
            if sig <= m:
                for Ln in (0, 1, 32, 33, 127, 255, 256, 300):
                    if Ln < 256 ** sig and (sig == 0 or Ln >= 256 ** (sig - 1) or sig > 2 and False):
                        for t in sorted({0, 1, Ln - 32, Ln}):
                            if 0 <= t <= Ln and (Ln < 200 or t in (0, Ln - 32)):
                                yield Int(Ln, t, m, m - sig)


def lax(i, parts):
    def run(u):
        fs = list(lax_forms())
        base = [Int(32, 0), Int(1, 0), Int(33, 1)]
        for j, f in enumerate(fs):
            if j % parts == i:
                for b in base[:3 if TH else 1]:
                    lax_case(u, None, f, b)
                    lax_case(u, None, b, f)
                lax_case(u, 1, f, f)
        for k in range(128):
            if k % parts == i:
                lax_case(u, k, base[0], base[2])
    return run


def dec(u, name):
    """the Decoder method, whatever the lifetime in its path is called"""
    c = [x for x in u.mir.byname if x.startswith(DEC) and x.split("::")[-1] == name]
    return c[0] if c else None


METHODS = ("read", "read_constructed_sequence", "read_len", "read_integer", "read_seq_len_lax", "read_len_lax", "read_integer_lax")


def advance(u, st, p, rem):
    """skips an unknown number of the remaining bytes"""
    k = C.new_atom(0, 2**40, "skipped")
    s = u.call(dec(u, "skip"), [p, k], st)
    ok = variant(u, s.v, s.st.pc).get(OK, 0)
    s.st.pc = band(s.st.pc, ok)
    return s.st


def decoder(u):
    n = C.new_atom(0, 2**40, "length")
    st = u.state()
    d = u.call(dec(u, "new"), [slice_of(u, st, Bytes("p"), n)], st)
    p = u.alloc(d.st, u.mir.fn(dec(u, "new")).locals[0], d.v)
    return n, p, d.st


LENS = ("read_len", "read_len_lax")


def havoc(u, w, names):
    """the named methods consume an unknown number of bytes and return anything
    their own units allow"""
    for nm in names:
        f = dec(u, nm)
        if f is None:
            continue

        def h(ip, st, a, G, nm=nm):
            k = len(ip.obls)
            e = C.bvar(C.mkvar("op", ("error", nm, st.pc, k)))
            z = C.bvar(C.mkvar("op", ("stays", nm, st.pc, k)))
            s2, s3 = st.copy(), st.copy()
            s2.pc, s3.pc = band(st.pc, z), band(st.pc, bnot(z))
            s = ip.join(s2, advance(u, s3, a[0], None))
            if "integer" in nm:
                val = w.scalar("int", 0)[0]
            else:
                val = C.new_atom(0, 2**64 - 1, "len")
                if nm == "read_len_lax":
                    m = u.call(dec(u, "remaining_len"), [a[0]], s)
                    s = m.st
                    s.pc = band(s.pc, vleaf(C.mapply(lambda x: psub(x, val), m.v), lambda d: C.ge_const(d, 0)))
                if nm == "read_seq_len_lax":
                    val = C.new_atom(0, 255, "len")
            del ip.obls[k:]
            E = [v["n"] for v in u.mir.types[u.mir.ty("libsecp256k1::Error")]["vars"]].index("InvalidSignature")
            return Ret(vite(e, EnumV(ERR, (EnumV(E, ()),)), EnumV(OK, (val,))), s)
        u.ip.hooks[f] = h


def cursor(name):
    """from any cursor position the method neither panics nor leaves the input"""
    def run(u):
        if any(dec(u, x) is None for x in (name, "new", "skip", "remaining_len")):
            u.check(True, "no such method")
            return
        for moved in (0, 1):
            fresh(u)
            w = World(u)
            loops(u)
            if "integer" in name:
                havoc(u, w, LENS)
            n, p, st = decoder(u)
            if moved:
                st = advance(u, st, p, n)
            u.ip.trial = 4
            r = u.call(dec(u, name), [p], st)
            if not u.check(r is not None, "answers for every input"):
                continue
            vs = variant(u, r.v, r.st.pc)
            err_code(u, r.v, r.st.pc, "InvalidSignature", "an error is an invalid signature")
            m = u.call(dec(u, "remaining_len"), [p], r.st)
            if u.check(m is not None, "the cursor stays inside the input"):
                d = band(r.st.pc, bnot(m.st.pc))
                u.check(d == 0 or not I.feas(d), "the cursor stays inside the input")
                if name == "read_len_lax":
                    c = band(m.st.pc, vs.get(OK, 0))
                    L = C.vconstrain(unwrap(r.v, "length"), c)
                    x = pmap(lambda pc, a, b: B(C.ge_const(psub(a, b), 0, pc)), c, m.v, L)
                    bad = band(c, bnot(u.ip.tobdd(x, c)))
                    u.check(bad == 0 or not I.feas(bad), "the length does not exceed what remains")
    return run


def whole(fn):
    def run(u):
        fresh(u)
        w = World(u)
        loops(u)
        if all(dec(u, x) for x in ("new", "skip", "remaining_len")):
            havoc(u, w, METHODS[2:])
        u.ip.trial = 4
        n = C.new_atom(0, 2**40, "length")
        st = u.state()
        r = u.call(fn, [slice_of(u, st, Bytes("p"), n)], st)
        if u.check(r is not None, "answers for every input"):
            err_code(u, r.v, r.st.pc, "InvalidSignature", "a rejected encoding reports an invalid signature")
    return run


TH = os.environ.get("VERIF_TIER") == "thorough"
UNITS = {
    "strict": [("Signature::parse_der (r of %d bytes)" % rl, strict_short(rl)) for rl in range(34)] +
              [("Signature::parse_der (%d more length bytes)" % k, strict_other(k)) for k in range(9)] +
              [("Signature::serialize_der (part %d)" % (i + 1), serialize_der(i)) for i in range(8)],
    "lax": [("Signature::parse_der_lax (part %d)" % (i + 1), lax(i, 16)) for i in range(16)],
    "any": [("Decoder::" + m, cursor(m)) for m in METHODS] +
           [("Signature::parse_der", whole(SG + "::parse_der")), ("Signature::parse_der_lax", whole(SG + "::parse_der_lax"))],
}
