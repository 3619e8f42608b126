"""Models of compiler intrinsics and of body-less runtime functions."""
from . import core as C
from .core import (Poly, Node, B, EnumV, UNDEF, Undef, Unsupported, TRUE, FALSE,
                   band, bor, bnot, vite, padd, psub, pscale, bounds)
from . import interp as I


def veq(ip, a, b, pc):
    """BDD of structural equality of two values."""
    if isinstance(a, tuple) and isinstance(b, tuple):
        r = 1
        for x, y in zip(a, b):
            r = band(r, veq(ip, x, y, pc))
        return r
    if C.is_num(a) and C.is_num(b):
        return C.eq(a, b, pc)
    if isinstance(a, B) and isinstance(b, B):
        return bnot(C.bxor(a.n, b.n))
    v = I.pmap(lambda pc, x, y: B(veq(ip, x, y, pc)), pc, a, b) if isinstance(a, Node) or isinstance(b, Node) else None
    if v is not None:
        return v.n
    if isinstance(a, EnumV) and isinstance(b, EnumV):
        if a.var != b.var:
            return 0
        return veq(ip, a.f, b.f, pc)
    raise Unsupported("equality of %r and %r" % (a, b))


def intrinsic(ip, G, a, st, F):
    n = G.intrinsic or G.name.split("::")[-1]
    T = ip.T
    if n == "volatile_store":
        ip.events.append(("volatile_store", a[0], a[1], list(ip.stack), st.pc))
        ip.store(st, a[0], a[1])
        return ()
    if n == "volatile_load":
        return ip.load(st, a[0])
    if n == "bswap":
        w = T[G.targs[0]]["w"]
        nb = w // 8

        def f(pc, x):
            return C.joined([(8 * (nb - 1 - i), C.mid(x, 8 * i, 8)) for i in range(nb)])
        return I.pmap(f, st.pc, a[0])
    if n == "rotate_right" or n == "rotate_left":
        w = T[G.targs[0]]["w"]
        k = a[1]
        if not isinstance(k, int):
            raise Unsupported("symbolic rotate")
        k %= w
        if n == "rotate_left":
            k = (w - k) % w
        return I.pmap(lambda pc, x: padd(C.shr(x, k), pscale(C.low(x, k), 1 << (w - k))) if k else x, st.pc, a[0])
    if n == "raw_eq":
        return B(veq(ip, ip.load(st, a[0]), ip.load(st, a[1]), st.pc))
    if n in ("size_of_val", "align_of_val"):
        t = T[G.targs[0]]
        if t["k"] in ("slice", "str"):
            return C.mapply(lambda p: C.pscale(p.meta, t["stride"]) if C.is_num(p.meta) else p.meta, a[0]) if n[0] == "s" else t["align"]
        return t["size"] if n[0] == "s" else t["align"]
    if n in ("assert_inhabited", "cold_path", "assume", "assert_zero_valid", "assert_mem_uninitialized_valid"):
        return ()
    if n in ("likely", "unlikely", "black_box"):
        return a[0]
    if n == "ptr_offset_from_unsigned" or n == "ptr_offset_from":
        def f(p, q):
            if isinstance(p, I.Ptr) and isinstance(q, I.Ptr) and p.obj == q.obj and p.path[:-1] == q.path[:-1] and p.path:
                return psub(p.path[-1], q.path[-1])
            if isinstance(p, I.Ptr) and p == q:
                return 0
            if isinstance(p, I.NPtr) and isinstance(q, I.NPtr):
                return (p.addr - q.addr) // max(1, T[G.targs[0]]["size"])
            if hasattr(p, "offset_from"):
                return p.offset_from(q)
            raise Unsupported("offset_from %r %r" % (p, q))
        return C.mapply(f, a[0], a[1])
    if n == "saturating_sub":
        def f(pc, x, y):
            d = psub(x, y)
            if isinstance(d, int):
                return max(d, 0)
            g = C.ge_const(d, 0, pc)
            return vite(g, d, 0)
        return I.pmap(f, st.pc, a[0], a[1])
    if n == "saturating_add":
        w = T[G.targs[0]]["w"]

        def f(pc, x, y):
            d = padd(x, y)
            g = C.ge_const(d, 1 << w, pc)
            return vite(g, (1 << w) - 1, d)
        return I.pmap(f, st.pc, a[0], a[1])
    if n in ("integer_max", "integer_min", "maxnumf", "minnumf"):
        def f(pc, x, y):
            l = C.lt(x, y, pc)
            return vite(l, y, x) if n == "integer_max" else vite(l, x, y)
        return I.pmap(f, st.pc, a[0], a[1])
    if n == "three_way_compare":
        return I.pmap(lambda pc, x, y: ip._bin(pc, "Cmp", x, y, T[G.targs[0]], False), st.pc, a[0], a[1])
    if n in ("ctpop", "cttz", "ctlz", "cttz_nonzero", "ctlz_nonzero", "bitreverse"):
        w = T[G.targs[0]]["w"]

        def g(x):
            if n == "ctpop":
                return bin(x).count("1")
            if n.startswith("cttz"):
                return (x & -x).bit_length() - 1 if x else w
            if n == "bitreverse":
                return int(bin(x)[2:].zfill(w)[::-1], 2)
            return w - x.bit_length()

        def f(pc, x):
            if isinstance(x, int):
                return g(x)
            b = bounds(x, pc)
            if b is None:
                return 0
            if n == "ctpop":
                r = 0
                for i in range(b[1].bit_length()):
                    r = padd(r, C.mid(x, i, 1))
                return r
            if n.startswith("ctlz"):
                r = w
                for i in range(b[1].bit_length()):
                    r = vite(C.ge_const(x, 1 << i, pc), w - 1 - i, r)
                return r
            if n.startswith("cttz"):
                r = w
                for i in reversed(range(b[1].bit_length())):
                    r = vite(C.eq(C.mid(x, i, 1), 1, pc), i, r)
                return r
            raise Unsupported(n)
        return I.pmap(f, st.pc, a[0])
    if n == "write_bytes":
        val, cnt = a[1], a[2]
        e = G.targs[0]
        if not isinstance(cnt, int):
            h = ip.hooks.get("$fill")
            if h:
                return h(ip, st, a[0], val, cnt, e)
            raise Unsupported("write_bytes of symbolic length")
        bs = ip.from_bytes([val] * T[e]["size"], e, st.pc)
        for j in range(cnt):
            ip._wr(st, a[0], j, e, bs)
        return ()
    if n == "compare_bytes":
        raise Unsupported("compare_bytes")
    if n.startswith("atomic_load"):
        return C.memo_atom(("atomic", ip.nfid), 0, 255, "atomic")
    if n.startswith("atomic_store"):
        return ()
    if n == "size_of":
        return T[G.targs[0]]["size"]
    if n in ("min_align_of", "align_of"):
        return T[G.targs[0]]["align"]
    if n == "needs_drop":
        return FALSE
    if n == "unreachable":
        ip.obligation(st.pc, "unreachable", F.name, "unreachable", None)
        return None
    if n == "abort":
        ip.obligation(st.pc, "panic", F.name, "abort", None)
        return None
    if n in ("copy_nonoverlapping", "copy"):
        ip.copy(st, a[0], a[1], a[2], G.targs[0])
        return ()
    if n == "ptr_metadata":
        return C.mapply(lambda x: x.meta, a[0])
    if n in ("offset", "arith_offset"):
        return I.pmap(lambda pc, x, y: ip.ptr_off(x, y), st.pc, a[0], a[1])
    if n == "transmute" or n == "transmute_unchecked":
        return ip.reinterpret(a[0], G.targs[0], G.targs[1], st.pc)
    if n in ("wrapping_add", "wrapping_sub", "wrapping_mul", "unchecked_add", "unchecked_sub", "unchecked_mul",
             "unchecked_shl", "unchecked_shr", "exact_div", "unchecked_div", "unchecked_rem"):
        op = {"add": "Add", "sub": "Sub", "mul": "Mul", "shl": "Shl", "shr": "Shr", "div": "Div", "rem": "Rem"}[n.split("_")[-1]]
        return ip.binop(op, a[0], a[1], G.targs[0], st.pc)
    if n in ("add_with_overflow", "sub_with_overflow", "mul_with_overflow"):
        op = {"add": "Add", "sub": "Sub", "mul": "Mul"}[n[:3]]
        return ip.binop(op, a[0], a[1], G.targs[0], st.pc, True)
    return NotImplemented


def external(ip, G, a, st, F):
    n = G.name
    if n in ("alloc::alloc::__rust_alloc", "alloc::alloc::__rust_alloc_zeroed"):
        ip.nheap += 1
        o = ("H", ip.nheap)
        ip.ot[o] = None
        st.mem[o] = UNDEF
        ip.events.append(("alloc", o, a, list(ip.stack), st.pc))
        if "zeroed" in n:
            raise Unsupported("zeroed allocation")
        ok = C.bvar(C.mkvar("op", ("allocok", ip.nheap)))
        return vite(ok, I.Ptr(o), I.NPtr(0))
    if n == "alloc::alloc::__rust_dealloc":
        ip.events.append(("dealloc", a[0], a, list(ip.stack), st.pc))
        return ()
    if n == "alloc::alloc::__rust_no_alloc_shim_is_unstable_v2":
        return ()
    if G.name.startswith("core::fmt::") or G.name.startswith("std::fmt::") or G.name.startswith("std::fmt"):
        return I.Tok(("fmt", n))
    return NotImplemented
