"""Recoding of scalars into signed windows.

Scalars are canonical integers here (contracts of Scalar: C04, C05).  The
variable-time recoding is cut at every turn of its loop, one abstract state per
bit position and carry: at position k the digits written so far sum to
+-(S mod 2^k - 2^k c), c the top bit consumed, S the (possibly negated) scalar;
each turn is checked to keep that, and to write an odd digit of the right size.
The constant-time one is unrolled.
"""
from ai import core as C, interp as I
from ai.core import Node, B, Poly, Unsupported, Opaque, UNDEF, band, bor, bnot, vite, padd, psub, pmul, pscale
from ai.interp import Ptr, pmap
from .base import P, N, SCALAR as ST, Unit
from .mult import one_fn


class IS(Opaque):
    """a scalar, as the integer below n that it is"""
    __slots__ = ("p",)

    def __init__(self, p):
        self.p = p

    def __eq__(self, o):
        return isinstance(o, IS) and o.p == self.p

    def __hash__(self):
        return hash(self.p if isinstance(self.p, int) else self.p.key)

    def merge(self, v, lo):
        return None

    def __repr__(self):
        return "S(%r)" % (self.p,)


class Tail(Opaque):
    """what is left of the number being recoded after j digits"""
    __slots__ = ("j",)

    def __init__(self, j):
        self.j = j

    def __eq__(self, o):
        return isinstance(o, Tail) and o.j == self.j

    def __hash__(self):
        return 13 + self.j


class Scalars:
    def __init__(self, u):
        self.u = u
        self.first = None        # states of scalars when first shifted
        self.cut = None          # (S, k, S >> k)
        self.install(u.ip.hooks)

    def need(self, ip, pc, ok, msg):
        ip.obls.append(I.Obligation("precondition", ip.stack[-1] if ip.stack else "?", msg, pc, None, ok))

    def install(self, H):
        W = self

        def ld(ip, st, p):
            v = ip.load(st, p) if isinstance(p, Ptr) else p

            def f(x):
                if isinstance(x, tuple) and len(x) == 1 and all(isinstance(k, int) for k in x[0]):
                    return IS(sum(k << (32 * i) for i, k in enumerate(x[0])))
                if not isinstance(x, IS):
                    raise Unsupported("not a scalar: %r" % (x,))
                return x
            return C.mapply(f, v)

        def pure(name, f):
            def h(ip, st, a, G):
                return pmap(lambda pc, x, *r: f(ip, pc, x.p, *r), st.pc, ld(ip, st, a[0]), *a[1:])
            H[name] = h

        def chg(name, f):
            def h(ip, st, a, G):
                ip.store(st, a[0], pmap(lambda pc, x, *r: f(ip, pc, x.p, *r), st.pc, ld(ip, st, a[0]), *a[1:]))
                return ()
            H[name] = h

        def negate(ip, pc, p):
            z = C.eq(p, 0, pc)
            return vite(z, IS(0), IS(psub(N, p)))

        def flag(ip, f, pc):
            if isinstance(f, B):
                return f.n
            if isinstance(f, tuple) and len(f) == 1:
                f = f[0]
            return bnot(C.eq(f, 0, pc))

        def bits(ip, pc, p, off, n):
            if not isinstance(off, int) or not isinstance(n, int):
                raise Unsupported("bits at %r of %r" % (off, n))
            W.need(ip, pc, 0 < n <= 32 and off + n <= 256, "bits within the scalar, at most 32 of them")
            if W.cut is not None:
                S, k, t = W.cut
                if p != S or off < k:
                    raise Unsupported("bits of %r at %d" % (p, off))
                return C.mid(t, off - k, n)
            return C.mid(p, off, n)

        def bits1(ip, pc, p, off, n):
            if isinstance(off, int) and isinstance(n, int):
                W.need(ip, pc, off // 32 == (off + n - 1) // 32, "bits within one word")
            return bits(ip, pc, p, off, n)
        pure(ST + "::bits", bits1)
        pure(ST + "::bits_var", bits)
        pure(ST + "::is_high", lambda ip, pc, p: B(C.ge_const(p, (N + 1) // 2, pc)))
        pure(ST + "::is_even", lambda ip, pc, p: B(C.eq(C.low(p, 1), 0, pc)))
        pure(ST + "::is_one", lambda ip, pc, p: B(C.eq(p, 1, pc)))
        pure(ST + "::is_zero", lambda ip, pc, p: B(C.eq(p, 0, pc)))
        pure("<%s as std::ops::Neg>::neg" % ST, negate)
        pure("<&%s as std::ops::Neg>::neg" % ST, negate)

        def cneg(ip, pc, p, f):
            g = flag(ip, f, pc)
            return vite(g, negate(ip, pc, p), IS(p))
        chg(ST + "::cond_neg_assign", cneg)

        def cadd(ip, pc, p, bit, f):
            g = flag(ip, f, pc)
            if not isinstance(bit, int):
                raise Unsupported("bit %r" % (bit,))
            q = padd(p, 1 << bit)
            big = band(band(pc, g), C.ge_const(q, N, band(pc, g)))
            W.need(ip, pc, bit < 256 and (not big or not I.feas(big)), "the sum stays below the group order")
            return vite(g, IS(q), IS(p))
        chg(ST + "::cadd_bit", cadd)

        def shr(ip, st, a, G):
            """the scalar as 64 unrelated digits from its first shift on"""
            v = ip.load(st, a[0])
            n = a[1]
            if n != 4:
                raise Unsupported("shift by %r" % (n,))
            if not isinstance(v, Tail):
                x = settle(ld(ip, st, a[0]), st.pc)
                if W.first is not None or not isinstance(x, IS):
                    raise Unsupported("shift of %r" % (x,))
                W.first = x.p
                W.need(ip, st.pc, C.low(x.p, 1) == 1, "the recoded number is odd")
                W.digs = [padd(pscale(C.new_atom(0, 7, "h%d" % i), 2), C.new_atom(0, 1, "l%d" % i) if i else 1) for i in range(64)]
                v = Tail(0)
            ip.store(st, a[0], Tail(v.j + 1))
            return W.digs[v.j] if v.j < 64 else 0
        H[ST + "::shr_int"] = shr


def settle(v, pc):
    """the leaf of a guarded value that the path condition leaves"""
    ls = [(g, x) for g, x in C.leaves(v) if band(g, pc) and I.feas(band(g, pc))] if isinstance(v, Node) else [(1, v)]
    return ls[0][1] if len(ls) == 1 else v


def const_cases(u):
    """the scalars, by the odd number S = 2y+1 that is recoded"""
    H = (N - 1) // 2
    y = lambda lo, hi: C.new_atom(lo, hi, "y")
    # low even: S = a+1; low odd: S = a+2; high even (not -1): S = n-a-2;
    # high odd: S = n-a-1; and -1
    c = []
    c.append(("low even", lambda t: pscale(t, 2), 0, H // 2))
    c.append(("low odd", lambda t: padd(pscale(t, 2), 1), 0, (H - 1) // 2))
    c.append(("high even", lambda t: psub(N - 3, pscale(t, 2)), 0, (N - 3 - (H + 1)) // 2))
    c.append(("high odd", lambda t: psub(N - 2, pscale(t, 2)), 0, (N - 2 - (H + 1)) // 2))
    seen = []
    for nm, f, lo, hi in c:
        seen.append((f(lo), f(hi), nm))
    ends = sorted(x for a, b, n in seen for x in (a, b))
    u.check(sorted((min(a, b), max(a, b)) for a, b, n in seen) == sorted([(0, H - H % 2), (1, H - (H + 1) % 2), (H + 1 + (H + 1) % 2, N - 3), (H + 1 + H % 2, N - 2)]), "the cases cover every scalar", repr(seen))
    for nm, f, lo, hi in c:
        yield nm, f(y(lo, hi))
    yield "minus one", N - 1


def wnaf_const(u):
    fn = one_fn(u, "ecmult_wnaf_const")
    base = dict(u.ip.hooks)
    for nm, a in const_cases(u):
        u.ip.hooks = dict(base)
        W = Scalars(u)
        u.ip.liveness = True
        st = u.state()
        t = u.ip.arr_ty(u.mir.ty("i32"), 65)
        arr = u.ip.heap(st, (C.new_atom(-2**31, 2**31 - 1, "old"),) * 65, t)
        o = u.call(fn, [Ptr(arr, (0,), 65), u.alloc(st, ST, IS(a)), 4], st)
        if not u.check(o is not None, nm + ": returns"):
            continue
        pc = o.st.pc
        skew = settle(o.v, pc)
        ds = [settle(d, pc) for d in u.ip.load(o.st, Ptr(arr))]
        ok = all(C.is_num(d) for d in ds) and isinstance(skew, int)
        if not u.check(ok, nm + ": digits are determined", repr([d for d in ds if not C.is_num(d)][:1])[:200]):
            continue
        u.check(skew in (1, 2), nm + ": skew is 1 or 2")
        tot = 0
        for i, d in enumerate(ds):
            odd(u, d, pc, 15, nm + ": digit %d" % i)
            tot = padd(tot, pscale(d, 1 << (4 * i)))
        # the number recoded, from its digits and as it was
        S = 0
        for i, d in enumerate(W.digs):
            S = padd(S, pscale(d, 1 << (4 * i)))
        for sg in (1, -1):
            if psub(tot, pscale(S, sg)) == 0:
                break
        else:
            u.check(False, nm + ": the digits' sum is plus or minus the number recoded", repr(tot)[:300])
            continue
        diff = psub(pscale(W.first, sg), padd(a, skew))
        u.check(isinstance(diff, int) and diff % N == 0, nm + ": the digits' sum is the scalar plus the skew", repr(diff)[:300])


def odd(u, d, pc, most, what):
    u.check(C.low(padd(d, 1 << 40), 1) == 1, what + " is odd", repr(d)[:200])
    u.check(u.in_range(d, -most, most, pc), what + " is at most %d in size" % most, repr(d)[:200])


class Cut:
    """the loop of the variable-time recoding, one turn at a time"""

    def __init__(self, u, W, S, sg, w, arr, what):
        self.u, self.W, self.S, self.sg, self.w, self.arr, self.what = u, W, S, sg, w, arr, what
        self.T = None

    def bad(self, msg, detail=""):
        self.u.check(False, self.what + ": " + msg, detail[:300])

    def hook(self, ip, F, fid, h, inner, nodes, ins, rets):
        """cells: the position; the carry (top bit consumed); the last
        position written (+ a constant); everything else stays"""
        u, W = self.u, self.W
        st0 = ins.get(h)
        if st0 is None or any(k != h for k in ins):
            return False
        if not self.array(ip, st0):
            return False            # the loop that clears the digits, say
        ins.pop(h)
        old = ip.load(st0, Ptr(self.arr))
        zero = all(settle(x, st0.pc) == 0 for x in old)
        u.check(zero, self.what + ": the digits are cleared first")
        cells = {}
        for k, v in st0.mem.items():
            v = settle(v, st0.pc)
            if k[0] == fid:
                cells[k] = v
        bits = Smax = 256

        def turn(st):
            """states at the head after one turn"""
            n = dict() if not hasattr(ins, "dead") else type(ins)()
            if hasattr(ins, "dead"):
                n.dead, n.fid = ins.dead, ins.fid
            ip.block(h, st, n, F, fid, rets)
            ip.run_elems(inner, n, F, fid, rets)
            b = n.pop(h, None)
            return b, n
        # which cells are which, from the first turn
        pos = carry = last = None
        W.cut = (self.S, 0, pscale(C.new_atom(0, 2**254 - 1, "t"), 2))
        W.cut = (self.S, 0, padd(pscale(C.new_atom(0, 2**254 - 1, "t"), 2), 1))
        b, n = turn(st0.copy())
        if b is None:
            raise Unsupported("the loop does not turn")
        lastd = 0
        for k, v in cells.items():
            x = b.mem.get(k)
            if x is None:
                continue
            x = settle(x, b.pc)
            if x == v:
                continue
            if isinstance(x, int) and x == self.w and v == 0 and pos is None:
                pos = k
            elif C.is_num(x) and v == 0 and u.quiet_eq(x, C.mid(W.cut[2], self.w - 1, 1), b.pc) and carry is None:
                carry = k
            elif isinstance(x, int) and isinstance(v, int) and x == v + 1 and last is None:
                last, lastd = k, x
            else:
                raise Unsupported("loop-carried cell %r: %r becomes %r" % (k, v, x))
        if pos is None or carry is None:
            raise Unsupported("the loop's position and carry")
        self.lastd = lastd
        seen = {(0, 0)}
        exits = {}
        for k in range(0, 257):
            T = C.new_atom(-1, k - 1, "T") if k else -1
            for c in (0, 1):
                if (k, c) not in seen:
                    continue
                for r0 in (0, 1):
                    left = 255 - k
                    if left <= 0:
                        if r0:
                            continue
                        tail = 0
                    else:
                        tail = padd(pscale(C.new_atom(0, 2**(left - 1) - 1, "t"), 2), r0) if left > 1 else r0
                    st = st0.copy()
                    st.mem[pos] = k
                    st.mem[carry] = c
                    if last is not None:
                        st.mem[last] = padd(T, lastd)
                    ip.store(st, Ptr(self.arr), (C.FORGOTTEN,) * k + (0,) * (256 - k))
                    W.cut = (self.S, k, tail)
                    b, n = turn(st)
                    for bb, x in n.items():
                        exits.setdefault(bb, []).append(x)
                        if k != 256 or c:
                            self.bad("left at position %d with carry %d" % (k, c))
                        self.T = T
                    if b is None:
                        continue
                    if k == 256:
                        self.bad("goes on at the end")
                    P_ = b.mem[pos]
                    for g, k2 in (C.leaves(P_) if isinstance(P_, Node) else [(1, P_)]):
                        pc = band(b.pc, g)
                        if not pc or not I.feas(pc):
                            continue
                        if not isinstance(k2, int) or not k < k2 <= 256:
                            self.bad("position after %d" % k, repr(k2))
                            continue
                        self.step(ip, b, fid, pc, cells, pos, carry, last, k, k2, c, tail, T, seen)
        W.cut = None
        for bb, xs in exits.items():
            s = xs[0]
            for x in xs[1:]:
                s = ip.join(s, x)
            ip.push(ins, bb, s)
        return True

    def array(self, ip, st):
        """is this the loop whose turns write digits? the clearing loop runs
        over an array with old contents"""
        v = ip.load(st, Ptr(self.arr))
        return all(settle(x, st.pc) == 0 for x in v)

    def step(self, ip, b, fid, pc, cells, pos, carry, last, k, k2, c, tail, T, seen):
        u = self.u
        what = "%s: turn at %d" % (self.what, k)
        for q, v in cells.items():
            if q in (pos, carry, last):
                continue
            x = b.mem.get(q)
            if x is None:
                continue
            x = settle(x, pc)
            if not u.check(x == v, what + ": nothing else changes", "%r: %r, %r" % (q, x, v)):
                return
        top = C.mid(tail, k2 - k - 1, 1)
        x = settle(b.mem[carry], pc)
        u.check(C.is_num(x) and u.quiet_eq(x, top, pc), what + ": the carry is the top bit consumed", repr(x))
        for v in (0, 1):
            if I.feas(band(pc, C.eq(x, v, pc))):
                seen.add((k2, v))
        arr = ip.load(b, Ptr(self.arr))
        ds = [settle(arr[j], pc) for j in range(k, 256)]
        u.check(all(d == 0 for d in ds[k2 - k:]), what + ": digits to come are untouched")
        u.check(all(arr[j] is C.FORGOTTEN for j in range(k)), what + ": digits written stay")
        tot = 0
        nz = -1
        for j, d in enumerate(ds[:k2 - k]):
            if d == 0:
                continue
            if not u.check(C.is_num(d) and nz < 0, what + ": at most one digit is written", repr(d)):
                return
            nz = k + j
            odd(u, d, pc, (1 << (self.w - 1)) - 1, what + ": the digit")
            tot = padd(tot, pscale(d, 1 << j))
        want = pscale(psub(padd(C.mid(tail, 0, k2 - k), c), pscale(top, 1 << (k2 - k))), self.sg)
        u.check(u.quiet_eq(tot, want, pc), what + ": the digit stands for the bits consumed", "%r, %r" % (tot, want))
        if last is not None:
            t = settle(b.mem[last], pc)
            u.check(t == padd(T if nz < 0 else nz, self.lastd), what + ": the last position written", repr(t))


def wnaf_var(w, neg):
    def run(u):
        fn = one_fn(u, "ecmult_wnaf")
        W = Scalars(u)
        u.ip.liveness = True
        if neg:
            S = C.new_atom(1, N - 2**255, "S")
            a = psub(N, S)
        else:
            a = S = C.new_atom(0, 2**255 - 1, "S")
        st = u.state()
        t = u.ip.arr_ty(u.mir.ty("i32"), 256)
        arr = u.ip.heap(st, (C.new_atom(-2**31, 2**31 - 1, "old"),) * 256, t)
        cut = Cut(u, W, S, -1 if neg else 1, w, arr, "window %d" % w)
        u.ip.hooks["loop", "*"] = cut.hook
        o = u.call(fn, [Ptr(arr, (0,), 256), u.alloc(st, ST, IS(a)), w], st)
        if not u.check(o is not None and cut.T is not None, "returns"):
            return
        r = settle(o.v, o.st.pc)
        u.check(r == padd(cut.T, 1), "returns the number of significant digits", repr(r))
    return run


UNITS = {
    "wnaf": [("ecmult_wnaf, window %d, %s" % (w, "high" if n else "low"), wnaf_var(w, n)) for w in (5, 16) for n in (0, 1)],
    "recode": [("ecmult_wnaf_const", wnaf_const)],
}
