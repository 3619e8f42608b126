"""Signing, verification, recovery and ECDH over opaque scalars and points.

The scalar, field, group and multiplication routines are replaced by the
contracts established in the other units; the protocol functions are run on
unknown scalars and points, and their answer is compared with the textbook
equation as a Boolean function of the same unknowns.
"""
from ai import core as C, interp as I
from ai.core import Node, B, EnumV, Opaque, Unsupported, band, bor, bnot, vite
from ai.interp import Ptr, Ret, pmap
from .base import P, N, Unit
from .fe import FV, FPoly
from .group import JA, AF, rec, unrec, GX, GY
from .world import World, SV, ST, Lin, vleaf, num_bytes, bytes_num

L = "libsecp256k1::"
RAW = "libsecp256k1_core::%s::<impl libsecp256k1::curve::%s>::%s"
EM = L + "curve::ECMultContext"
EG = L + "curve::ECMultGenContext"
OK, ERR = 0, 1
HALF = (N - 1) // 2
STATIC = {}


def ctxptr(u, st, gen=False):
    """a context whose tables nothing here may look into"""
    t = u.mir.ty(EG if gen else EM)
    return Ptr(u.ip.heap(st, C.UNDEF, t))


def either(u, fn, args, st, gen=False):
    """call fn, or fn_with_context with a context"""
    if fn.endswith("_with_context") or fn.endswith("_raw"):
        return args + [ctxptr(u, st, gen)]
    return args


def agrees(u, got, want, pc):
    g = u.ip.tobdd(got, pc)
    bad = band(pc, bor(band(g, bnot(want)), band(want, bnot(g))))
    return bad == 0 or not I.feas(bad)


def is_bool(u, got, want, pc, what):
    u.check(agrees(u, got, want, pc), what, "")


def variant(u, v, pc):
    """{variant: BDD}"""
    out = {}
    for g, l in C.leaves(v):
        if not isinstance(l, EnumV):
            raise Unsupported("not an enum: %r" % (l,))
        out[l.var] = bor(out.get(l.var, 0), band(g, pc))
    return out


def err_code(u, v, pc, name, what, ty=L + "Error"):
    """every Err leaf carries the named error"""
    T = u.mir.types[u.mir.ty(ty)]
    names = [x["n"] for x in T["vars"]]
    want = names.index(name)

    def f(l, pc):
        if l.var != ERR:
            return True
        e = l.f[0] if isinstance(l.f[0], EnumV) else None
        return e is not None and e.var == want
    u.check(u.each(v, pc, f), what)


def key(w, u, lin, mag=(1, 1)):
    """an affine public key for a finite point"""
    x, y, inf = w.pts.coords(lin)
    return rec(u.mir, AF, x=FV(x, mag[0], False), y=FV(y, mag[1], False), infinity=B(0))


def scal(w, name, zero=False, lo=1):
    if zero:
        return SV(w.an.const(0)), 0
    return w.scalar(name, lo)


def wrapper(name, ty, inner):
    return inner


# --- verification ---------------------------------------------------------

def mk_verify(fn):
    def run(u):
        for rz, sz in ((0, 0), (1, 0), (0, 1), (1, 1)):
            u2 = u
            w = World(u)
            r, ra = scal(w, "r", rz)
            s, sa = scal(w, "s", sz)
            m, _ = w.scalar("m")
            Q = w.pts.gen("Q")
            st = u.state()
            pk = key(w, u, Q, (8, 8))
            if fn.endswith("_raw"):
                args = [ctxptr(u, st), u.alloc(st, ST, r), u.alloc(st, ST, s), u.alloc(st, AF, pk), u.alloc(st, ST, m)]
            else:
                args = [u.alloc(st, L + "Message", (m,)), u.alloc(st, L + "Signature", rec(u.mir, L + "Signature", r=r, s=s)),
                        u.alloc(st, L + "PublicKey", (pk,))]
                if fn.endswith("_with_context"):
                    args.append(ctxptr(u, st))
            rr = u.call(fn, args, st)
            lab = "r %s 0, s %s 0" % ("=" if rz else "!=", "=" if sz else "!=")
            if not u.check(rr is not None, "answers for every signature", lab):
                continue
            if rz or sz:
                is_bool(u, rr.v, 0, rr.st.pc, "a signature with a zero component is rejected (%s)" % lab)
                continue
            si = w.sinverse(s.v)
            lin = w.pts.add(w.pts.mul(w.pts.G, m.v * si), w.pts.mul(Q, r.v * si))
            x, y, inf = w.pts.coords(lin)
            rf = w.rp.of(ra)
            e0 = (rf - x).zero()
            e1 = (rf + N - x).zero()
            small = bnot(C.ge_const(ra, P - N))
            want = band(bnot(inf), bor(e0, band(small, e1)))
            if not agrees(u, rr.v, want, rr.st.pc):
                # the same thing said with the integer below p that x stands for
                c = w.rp.canon(x)
                want = band(bnot(inf), vleaf(c, lambda k: (w.rn.of(k) - r.v).zero()))
            is_bool(u, rr.v, want, rr.st.pc, "accepts exactly when x((m/s)G + (r/s)Q) mod n is r")
            u.check(u.ip.load(rr.st, args[1]) is not None, "result")
    return run


# --- recovery -------------------------------------------------------------

def unwrap(v, name):
    """payload of the Ok variant"""
    return C.mapply(lambda l: l.f[0] if isinstance(l, EnumV) and l.var == OK else C.UNDEF, v)


def point_is(w, u, v, lin, pc, what, ty=AF):
    """the affine value v is the finite point lin"""
    d = unrec(u.mir, ty, v)
    inf = u.ip.tobdd(d["infinity"], pc)
    bad = band(pc, inf)
    u.check(bad == 0 or not I.feas(bad), what + ": is a finite point")
    x, y, _ = w.pts.coords(lin)
    for nm, e in (("x", x), ("y", y)):
        c = w.dom.val(u.ip, d[nm])
        u.check(u.each(c, pc, lambda l, pc: isinstance(l, FV) and (l.v - e).zero() == 1), what, nm)
        u.check(u.each(c, pc, lambda l, pc: isinstance(l, FV) and l.mag <= 8), what + ": coordinates have bounded magnitude", nm)


def mk_recover(fn):
    def run(u):
        for rid in range(4):
            for rz, sz in ((0, 0), (1, 0), (0, 1), (1, 1)):
                w = World(u)
                r, ra = scal(w, "r", rz)
                s, sa = scal(w, "s", sz)
                m, _ = w.scalar("m")
                st = u.state()
                if fn.endswith("_raw"):
                    args = [ctxptr(u, st), u.alloc(st, ST, r), u.alloc(st, ST, s), rid, u.alloc(st, ST, m)]
                else:
                    args = [u.alloc(st, L + "Message", (m,)), u.alloc(st, L + "Signature", rec(u.mir, L + "Signature", r=r, s=s)),
                            u.alloc(st, L + "RecoveryId", (rid,))]
                    if fn.endswith("_with_context"):
                        args.append(ctxptr(u, st))
                rr = u.call(fn, args, st)
                lab = "id %d, r %s 0, s %s 0" % (rid, "=" if rz else "!=", "=" if sz else "!=")
                if not u.check(rr is not None, "answers for every signature", lab):
                    continue
                pc = rr.st.pc
                vs = variant(u, rr.v, pc)
                err_code(u, rr.v, pc, "InvalidSignature", "a failed recovery reports an invalid signature")
                if rz or sz:
                    u.check(not I.feas(vs.get(OK, 0)), "a zero component yields no key", lab)
                    continue
                xr = w.rp.of(ra) + (N if rid & 2 else 0)
                ok = bnot(C.ge_const(ra, P - N)) if rid & 2 else 1
                y, ex = w.root((xr * xr * xr + 7).reduce())[:2]
                ok = band(ok, ex)
                rp = None
                ri = w.sinverse(r.v)
                R = w.pts.identify(xr, y, 1, "expected point")
                odd = w.dom.odd(FV(y, 1, True))
                want_odd = odd if rid & 1 else bnot(odd)
                allowed = 0
                for g, RR in ((want_odd, R), (bnot(want_odd), w.pts.neg(R))):
                    Q = w.pts.add(w.pts.mul(RR, s.v * ri), w.pts.mul(w.pts.G, -m.v * ri))
                    inf = w.pts.inf(Q)
                    here = band(pc, band(g, band(ok, bnot(inf))))
                    allowed = bor(allowed, here)
                    if not I.feas(here):
                        continue
                    v = C.vconstrain(unwrap(rr.v, "key"), here)
                    if fn.endswith("_raw"):
                        point_is(w, u, v, Q, here, "the recovered key is (s/r)R - (m/r)G")
                    else:
                        point_is(w, u, C.mapply(lambda k: k[0], v) if isinstance(v, Node) else v[0], Q, here, "the recovered key is (s/r)R - (m/r)G")
                got = vs.get(OK, 0)
                bad = bor(band(got, bnot(allowed)), band(allowed, bnot(got)))
                u.check(not I.feas(bad), "a key is returned exactly when the abscissa exists and the key is finite", lab)
    return run


# --- signing --------------------------------------------------------------

def parts(v, n):
    return [C.mapply(lambda l: l[k] if isinstance(l, tuple) else l, v) for k in range(n)]


def num_is(u, v, want, pc):
    """guarded numbers agree under pc"""
    ok = True
    for g, a in C.leaves(v):
        for h, b in (C.leaves(want) if isinstance(want, Node) else [(1, want)]):
            c = band(pc, band(g, h))
            if not c or not I.feas(c):
                continue
            a1 = int(a.n) if isinstance(a, B) and a.n in (0, 1) else a
            if not C.is_num(a1):
                return False
            if a1 != b and band(c, bnot(C.eq(a1, b, c))) and I.feas(band(c, bnot(C.eq(a1, b, c)))):
                ok = False
    return ok


def signature_spec(u, w, d, k, m):
    """(x, y, overflow, r, s0, zero, high, odd)"""
    Kx, Ky, _ = w.pts.coords(w.pts.mul(w.pts.G, k.v))
    cx = w.rp.canon(Kx)
    cy = w.rp.canon(Ky)
    ov = vleaf(cx, lambda c: C.ge_const(c, N))
    rv = w.rn.of(cx)
    t = rv * d.v + m.v
    s0 = t * w.sinverse(k.v)
    zero = s0.zero()
    high = vleaf(w.rn.canon(s0), lambda c: C.ge_const(c, HALF + 1))
    odd = vleaf(cy, lambda c: C.eq(C.low(c, 1), 1))
    return cx, ov, rv, s0, zero, high, odd


def recid_spec(spec):
    cx, ov, rv, s0, zero, high, odd = spec
    par = bor(band(high, bnot(odd)), band(bnot(high), odd))
    return vite(ov, vite(par, 3, 2), vite(par, 1, 0))


def check_signature(u, w, spec, r, s, recid, pc):
    cx, ov, rv, s0, zero, high, odd = spec
    for g, can in ((ov, w.minus_n(cx)), (bnot(ov), cx)):
        c = band(pc, g)
        if not c or not I.feas(c):
            continue
        x = C.vconstrain(r, c)
        u.check(u.each(x, c, lambda l, q: isinstance(l, SV) and l.v == rv), "r is the abscissa of kG modulo n")
        u.check(u.each(x, c, lambda l, q: isinstance(l, SV) and num_is(u, w.scanon(l), can, q)), "r is reduced")
    for g, want in ((high, -s0), (bnot(high), s0)):
        c = band(pc, g)
        if not c or not I.feas(c):
            continue
        x = C.vconstrain(s, c)
        u.check(u.each(x, c, lambda l, q: isinstance(l, SV) and l.v == want), "s is (m + rd)/k up to the sign that makes it low")
        u.check(u.each(x, c, lambda l, q: isinstance(l, SV) and u.in_range(w.scanon(l), 1, HALF, q)), "s is in the lower half")
    want = recid_spec(spec)
    u.check(num_is(u, recid, want, pc), "the recovery id is the overflow bit and the parity of the ordinate")


def mk_sign_raw(fn):
    def run(u):
        w = World(u)
        d, _ = w.scalar("d", 1)
        m, _ = w.scalar("m")
        k, _ = w.scalar("k", 1)
        st = u.state()
        args = [ctxptr(u, st, True), u.alloc(st, ST, d), u.alloc(st, ST, m), u.alloc(st, ST, k)]
        rr = u.call(fn, args, st)
        if not u.check(rr is not None, "answers for every key, message and nonce"):
            return
        pc = rr.st.pc
        spec = signature_spec(u, w, d, k, m)
        zero = spec[4]
        vs = variant(u, rr.v, pc)
        err_code(u, rr.v, pc, "InvalidMessage", "a failed signature reports the message")
        bad = bor(band(vs.get(ERR, 0), bnot(zero)), band(vs.get(OK, 0), zero))
        u.check(not I.feas(bad), "signing fails exactly when s would be zero")
        okpc = vs.get(OK, 0)
        r, s, rec_ = parts(unwrap(C.vconstrain(rr.v, okpc), "sig"), 3)
        check_signature(u, w, spec, r, s, rec_, okpc)
        for a, nm, val in ((args[1], "key", d), (args[2], "message", m), (args[3], "nonce", k)):
            u.check(u.ip.load(rr.st, a) == val, "the %s is left alone" % nm)
    return run


def named(mir, head, tail):
    """function names of the dump with this head and tail"""
    return [n for n in mir.byname if n.startswith(head) and n.endswith(tail) and "vroots" not in n]


GA = "sha2::digest::generic_array::GenericArray<u8, "


def byte_arrays(u):
    """GenericArray<u8, N> is a plain array of bytes"""
    H = u.ip.hooks

    def deref(ip, st, a, G):
        v = ip.load(st, a[0])
        n = len(next(l for g, l in C.leaves(v) if isinstance(l, tuple))) if isinstance(v, Node) else len(v)
        return Ptr(ip.heap(st, v, ip.arr_ty(u.mir.ty("u8"), n)), (0,), n)
    for n in named(u.mir, "<" + GA, "as std::ops::Deref>::deref"):
        H[n] = deref
    for h in ("sha2::digest::generic_array::impls::<impl std::convert::AsRef<[u8]> for " + GA, "sha2::digest::generic_array::GenericArray::<u8, "):
        for t in (">::as_ref", ">::as_slice"):
            for n in named(u.mir, h, t):
                H[n] = deref


class Drbg(Opaque):
    __slots__ = ("n",)

    def __init__(self, n):
        self.n = n

    def __eq__(self, o):
        return isinstance(o, Drbg) and o.n == self.n

    def __hash__(self):
        return hash(("drbg", self.n))

    def __repr__(self):
        return "DRBG#%d" % self.n


def slice_bytes(ip, st, p):
    """contents behind a reference to bytes"""
    if not isinstance(p, Ptr):
        raise Unsupported("bytes behind %r" % (p,))
    if p.meta is None:
        return tuple(ip.load(st, p))
    out = []
    for i in range(p.meta):
        out.append(ip.load(st, Ptr(p.obj, p.path[:-1] + (p.path[-1] + i,), None)))
    return tuple(out)


def mk_sign(fn):
    def run(u):
        w = World(u)
        byte_arrays(u)
        d, da = w.scalar("d", 1)
        m, ma = w.scalar("m")
        log = {"new": [], "gen": [], "poison": None}
        V = [C.new_atom(0, 2**256 - 1, "candidate%d" % i) for i in (1, 2)]
        D = "hmac_drbg::HmacDRBG::<sha2::Sha256>::"

        def new(ip, st, a, G):
            log["new"].append((tuple(slice_bytes(ip, st, p) for p in a), st.pc))
            return Drbg(0)

        def gen(ip, st, a, G):
            n = len(log["gen"])
            dr = ip.load(st, a[0])
            u.check(u.each(dr, st.pc, lambda l, q: isinstance(l, Drbg) and l.n == n), "every candidate comes from one generator, in order", repr(dr))
            u.check(isinstance(a[1], EnumV) and a[1].var == 0, "no additional input is mixed in")
            log["gen"].append(st.pc)
            if n == 0:
                log["mem"] = dict(st.mem)
            else:
                # (objects made meanwhile are reachable through changed cells only)
                diff = {k for k, v in st.mem.items() if k != a[0].obj and (k in log["mem"] or isinstance(k[0], int)) and not (k in log["mem"] and (log["mem"][k] is v or log["mem"][k] == v))}
                if n == 1:
                    # whatever the first attempt changed must not influence the next one
                    log["poison"] = diff
                    for k in diff:
                        st.mem[k] = C.UNDEF
                else:
                    u.check(diff <= log["poison"], "every later attempt starts from the same state")
                    return I.Diverge if hasattr(I, "Diverge") else None
            ip.store(st, a[0], Drbg(n + 1))
            return num_bytes(V[n])
        u.ip.hooks[D + "new"] = new
        gens = named(u.mir, D + "generate::", "")
        for g in gens:
            u.ip.hooks[g] = gen
        st = u.state()
        args = [u.alloc(st, L + "Message", (m,)), u.alloc(st, L + "SecretKey", (d,))]
        if fn.endswith("_with_context"):
            args.append(ctxptr(u, st, True))
        rr = u.call(fn, args, st)
        if not u.check(rr is not None, "signs every message"):
            return
        pc = rr.st.pc
        if not u.check(len(log["new"]) == 1 and len(log["gen"]) == 3, "one generator; candidates are drawn until one is usable", "%d/%d" % (len(log["new"]), len(log["gen"]))):
            return
        (ent, non, per), npc = log["new"][0]
        u.check(npc == 1 and all(same_bytes(u, x, y) for x, y in ((ent, num_bytes(da)), (non, num_bytes(ma)))) and per == (),
                "the generator is seeded with the key and the message and nothing else")
        prev = 1
        for i in (0, 1):
            k = SV(w.rn.of(V[i]), V[i])
            usable = band(bnot(C.ge_const(V[i], N)), bnot(C.eq(V[i], 0)))
            spec = signature_spec(u, w, d, k, m)
            good = band(usable, bnot(spec[4]))
            bad = band(log["gen"][i + 1], good) if i < 2 else 0
            u.check(not I.feas(bad), "a usable candidate is not skipped")
            here = band(pc, band(prev, good))
            if not u.check(I.feas(here), "a usable candidate ends the search"):
                return
            miss = band(prev, band(good, bnot(pc)))
            u.check(not I.feas(miss), "a usable candidate ends the search")
            v = C.vconstrain(rr.v, here)
            sig, rid = parts(v, 2)
            r, s = parts(sig, 2)
            fs = [f[0] for f in u.mir.types[u.mir.ty(L + "Signature")]["vars"][0]["f"]]
            if fs != ["r", "s"]:
                r, s = s, r
            recid = parts(rid, 1)[0]
            check_signature(u, w, spec, r, s, recid, here)
            prev = band(prev, bnot(good))
        u.check(not I.feas(band(pc, prev)), "nothing but a usable candidate ends the search")
        for a, nm, val in ((args[0], "message", (m,)), (args[1], "key", (d,))):
            u.check(u.ip.load(rr.st, a) == val, "the %s is left alone" % nm)
    return run


def roundtrip(high_s):
    """sign, then verify and recover: with d = (s0 k - m)/r the unsigned s is the unknown s0"""
    def run(u):
        w = World(u)
        k, _ = w.scalar("k", 1)
        m, _ = w.scalar("m")
        s0, s0a = w.scalar("s", 1)
        Kx, Ky, _ = w.pts.coords(w.pts.mul(w.pts.G, k.v))
        rv = w.rn.of(w.rp.canon(Kx))
        w.an.nz |= rv.atoms()                 # assumption: r is not zero
        dv = (s0.v * k.v - m.v) * w.sinverse(rv)
        w.an.nonzero.append((s0.v * k.v - m.v))   # the key is not zero
        d = SV(dv)
        st = u.state()
        kp, mp, dp = u.alloc(st, ST, k), u.alloc(st, ST, m), u.alloc(st, ST, d)
        rr = u.call(RAW % ("ecdsa", "ECMultGenContext", "sign_raw"), [ctxptr(u, st, True), dp, mp, kp], st)
        if not u.check(rr is not None, "signs"):
            return
        vs = variant(u, rr.v, rr.st.pc)
        if not u.check(not I.feas(vs.get(ERR, 0)), "a nonzero s is never refused"):
            return
        r, s, rid = parts(unwrap(rr.v, "sig"), 3)
        spec = signature_spec(u, w, d, k, m)
        if not u.check(num_is(u, rid, recid_spec(spec), rr.st.pc), "the recovery id is the overflow bit and the parity of the ordinate"):
            return
        rid = recid_spec(spec)
        st = rr.st
        sk = u.alloc(st, L + "SecretKey", (d,))
        pkr = u.call(L + "PublicKey::from_secret_key_with_context", [sk, ctxptr(u, st, True)], st)
        if not u.check(pkr is not None, "derives the public key"):
            return
        st = pkr.st
        pk = pkr.v
        pkp = u.alloc(st, L + "PublicKey", pk)
        aff = parts(pk, 1)[0]
        point_is(w, u, aff, w.pts.mul(w.pts.G, dv), st.pc, "the public key is dG")
        sig = u.alloc(st, L + "Signature", rec(u.mir, L + "Signature", r=r, s=s))
        msg = u.alloc(st, L + "Message", (m,))
        v = u.call(L + "verify_with_context", [msg, sig, pkp, ctxptr(u, st)], st)
        if u.check(v is not None, "verification answers"):
            is_bool(u, v.v, 1, v.st.pc, "what is signed verifies under the signer's public key")
        # the other s is accepted as well
        ns = C.mapply(lambda x: SV(-x.v), s)
        sg2 = u.alloc(st, L + "Signature", rec(u.mir, L + "Signature", r=r, s=ns))
        v = u.call(L + "verify_with_context", [msg, sg2, pkp, ctxptr(u, st)], st)
        if u.check(v is not None, "verification answers"):
            is_bool(u, v.v, 1, v.st.pc, "verification does not depend on the sign of s")
        ridp = u.alloc(st, L + "RecoveryId", (rid,))
        q = u.call(L + "recover_with_context", [msg, sig, ridp, ctxptr(u, st)], st)
        if u.check(q is not None, "recovery answers"):
            vs = variant(u, q.v, q.st.pc)
            if u.check(not I.feas(vs.get(ERR, 0)), "recovery of what was signed succeeds"):
                aff = parts(unwrap(q.v, "key"), 1)[0]
                point_is(w, u, aff, w.pts.mul(w.pts.G, dv), q.st.pc, "recovery yields the signer's public key")
    return run


# --- ECDH -----------------------------------------------------------------

class HS(Opaque):
    """a hash computation: the bytes fed so far"""
    __slots__ = ("bs",)

    def __init__(self, bs):
        self.bs = bs

    def __eq__(self, o):
        return isinstance(o, HS) and len(o.bs) == len(self.bs) and all(a is b or a == b for a, b in zip(self.bs, o.bs))

    def __hash__(self):
        return hash(("hs", len(self.bs)))

    def __repr__(self):
        return "H(%d bytes)" % len(self.bs)


class HB(Opaque):
    """byte i of a digest"""
    __slots__ = ("h", "i")

    def __init__(self, h, i):
        self.h, self.i = h, i

    def __eq__(self, o):
        return isinstance(o, HB) and o.i == self.i and o.h == self.h

    def __hash__(self):
        return hash(("hb", self.i))


def hashing(u):
    H = u.ip.hooks
    byte_arrays(u)
    T = "sha2::Sha256"

    def fresh(ip, st, a, G):
        return HS(())

    def feed(ip, st, p, q):
        h = ip.load(st, p)
        bs = slice_bytes(ip, st, q) if isinstance(q, Ptr) else q
        if not isinstance(h, HS):
            raise Unsupported("hash state %r" % (h,))
        ip.store(st, p, HS(h.bs + tuple(bs)))

    def update(ip, st, a, G):
        feed(ip, st, a[0], a[1])
        return ()

    def out(h):
        return tuple(HB(h, i) for i in range(32))

    def final_reset(ip, st, a, G):
        h = ip.load(st, a[0])
        ip.store(st, a[0], HS(()))
        return out(h)

    def final(ip, st, a, G):
        return out(a[0])

    def reset(ip, st, a, G):
        ip.store(st, a[0], HS(()))
        return ()

    def chain(ip, st, a, G):
        return HS(a[0].bs + tuple(slice_bytes(ip, st, a[1])))

    def digest(ip, st, a, G):
        return out(HS(tuple(slice_bytes(ip, st, a[0]))))
    for n in named(u.mir, "<%s as " % T, ""):
        tail = n.split(">::", 1)[1] if ">::" in n else ""
        base = tail.split("::")[0]
        f = {"default": fresh, "new": fresh, "update": update, "finalize_reset": final_reset, "finalize_fixed_reset": final_reset,
             "finalize": final, "finalize_fixed": final, "reset": reset, "chain": chain, "digest": digest}.get(base)
        if f is not None and ("Digest" in n or "Default" in n or "Update" in n or "Reset" in n or "FixedOutput" in n):
            H[n] = f


def ecdh_run(u, w, fn, s, lin, st):
    """-> Ret of fn, context last; normal form Option/Result"""
    pk = key(w, u, lin, (8, 8))
    if "ecdh_raw" in fn:
        return u.call(fn, [ctxptr(u, st), u.alloc(st, AF, pk), u.alloc(st, ST, s)], st)
    args = [u.alloc(st, L + "PublicKey", (pk,)), u.alloc(st, L + "SecretKey", (s,))]
    if fn.endswith("_with_context"):
        args.append(ctxptr(u, st))
    return u.call(fn, args, st)


def mk_ecdh(fn):
    raw = "ecdh_raw" in fn
    good = 1 if raw else OK

    def payload(v):
        v = C.mapply(lambda l: l.f[0] if isinstance(l, EnumV) and l.var == good and l.f else C.UNDEF, v)
        return v if raw else parts(v, 1)[0]

    def run(u):
        w = World(u)
        hashing(u)
        st = u.state()
        z, _ = scal(w, "zero", True)
        Q = w.pts.gen("Q")
        r = ecdh_run(u, w, fn, z, Q, st)
        if u.check(r is not None, "answers for a zero scalar"):
            vs = variant(u, r.v, r.st.pc)
            u.check(not I.feas(vs.get(good, 0)), "a zero scalar yields no secret")
            if not raw:
                err_code(u, r.v, r.st.pc, "InvalidSecretKey", "a zero scalar is reported as an invalid key")
        outs = []
        d, _ = w.scalar("d", 1)
        e, _ = w.scalar("e", 1)
        for a, b in ((d, e), (e, d)):
            st = u.state()
            # the other party's key is bG
            lin = w.pts.mul(w.pts.G, b.v)
            r = ecdh_run(u, w, fn, a, lin, st)
            if not u.check(r is not None, "answers for every key pair"):
                return
            pc = r.st.pc
            vs = variant(u, r.v, pc)
            u.check(not I.feas(band(pc, bnot(vs.get(good, 0)))), "a nonzero scalar always yields a secret")
            v = payload(C.vconstrain(r.v, vs.get(good, 0)))
            S = w.pts.mul(lin, a.v)
            x, y, inf = w.pts.coords(S)
            cx, cy = w.rp.canon(x), w.rp.canon(y)
            odd = vleaf(cy, lambda c: C.eq(C.low(c, 1), 1))
            want = (vite(odd, 3, 2),) + num_bytes(cx)

            def same(l, q):
                return (isinstance(l, tuple) and len(l) == 32 and all(isinstance(t, HB) and t.i == i for i, t in enumerate(l))
                        and all(t.h is l[0].h or t.h == l[0].h for t in l) and same_bytes(u, l[0].h.bs, want, q))
            u.check(u.each(v, pc, same), "the secret is the hash of the compressed product point")
            outs.append(want)
        u.check(len(outs) == 2 and same_bytes(u, outs[0], outs[1]), "both parties obtain the same secret")
    return run


def same_bytes(u, a, b, pc=1):
    return len(a) == len(b) and all(num_is(u, x, y, pc) for x, y in zip(a, b))


VR, RR, SR = RAW % ("ecdsa", "ECMultContext", "verify_raw"), RAW % ("ecdsa", "ECMultContext", "recover_raw"), RAW % ("ecdsa", "ECMultGenContext", "sign_raw")
HR = RAW % ("ecdh", "ECMultContext", "ecdh_raw::<sha2::Sha256>")
SS = L + "SharedSecret::<sha2::Sha256>::"

UNITS = {
    "verify": [("verify_raw", mk_verify(VR)), ("verify_with_context", mk_verify(L + "verify_with_context")), ("verify", mk_verify(L + "verify"))],
    "sign": [("sign_raw", mk_sign_raw(SR)), ("sign_with_context", mk_sign(L + "sign_with_context")), ("sign", mk_sign(L + "sign"))],
    "roundtrip": [("sign, verify, recover", roundtrip(None))],
    "ecdh": [("ecdh_raw", mk_ecdh(HR)), ("SharedSecret::new_with_context", mk_ecdh(SS + "new_with_context")), ("SharedSecret::new", mk_ecdh(SS + "new"))],
    "recover": [("recover_raw", mk_recover(RR)), ("recover_with_context", mk_recover(L + "recover_with_context")), ("recover", mk_recover(L + "recover"))],
}
