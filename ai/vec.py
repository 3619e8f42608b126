"""Vec<T> as a growing heap array (push, index, length, slices)."""
from . import core as C
from .core import Opaque, Unsupported
from .interp import Ptr


class VecV(Opaque):
    __slots__ = ("obj", "n")

    def __init__(self, obj, n):
        self.obj, self.n = obj, n

    def __eq__(self, o):
        return isinstance(o, VecV) and (o.obj, o.n) == (self.obj, self.n)

    def __hash__(self):
        return hash((self.obj, self.n))

    def __repr__(self):
        return "Vec#%r[%r]" % (self.obj, self.n)


def elems(ip, st, v):
    if not isinstance(v, VecV):
        raise Unsupported("not a vector: %r" % (v,))
    return ip.load(st, Ptr(v.obj))


def install(u):
    ip, mir = u.ip, u.mir
    H = ip.hooks

    def name_ty(nm):
        """element type from a name like std::vec::Vec::<T>::push"""
        s = nm[nm.index("Vec") + 3:]
        s = s[s.index("<") + 1:]
        depth, i = 1, 0
        while depth:
            depth += {"<": 1, ">": -1}.get(s[i], 0)
            i += 1
        return s[:i - 1]

    def fresh(ip, st, nm, vals):
        try:
            t = mir.ty(name_ty(nm))
        except Exception:
            t = mir.ty("u8")
        return VecV(ip.heap(st, tuple(vals), ip.arr_ty(t, 2**50)), len(vals))

    def ld(ip, st, p):
        v = ip.load(st, p)
        if not isinstance(v, VecV):
            raise Unsupported("vector %r" % (v,))
        return v

    def slice_(ip, st, a, G):
        v = ld(ip, st, a[0])
        return Ptr(v.obj, (0,), v.n)

    def push(ip, st, a, G):
        v = ld(ip, st, a[0])
        ip.store(st, Ptr(v.obj), elems(ip, st, v) + (a[1],))
        ip.store(st, a[0], VecV(v.obj, v.n + 1))
        return ()

    def index(ip, st, a, G):
        v = ld(ip, st, a[0])
        i = a[1]
        if not C.is_num(i):
            return NotImplemented
        from .interp import Obligation, feas
        bad = C.band(st.pc, C.bnot(C.lt(i, v.n, st.pc)))
        if bad:
            ok = not feas(bad)
            ip.obls.append(Obligation("panic", ip.stack[-1] if ip.stack else "?", "vector index", bad, None, ok))
        return Ptr(v.obj, (i,), None)
    for nm in list(mir.byname):
        if nm.startswith(("std::ptr::drop_glue::<std::vec::Vec", "std::ptr::drop_glue::<alloc::vec::Vec", "std::ptr::drop_in_place::<std::vec::Vec",
                          "std::ptr::drop_glue::<alloc::raw_vec::RawVec", "std::ptr::drop_in_place::<alloc::raw_vec::RawVec")):
            H[nm] = lambda ip, st, a, G: ()
            continue
        if not ("std::vec::" in nm or "alloc::vec::" in nm):
            continue
        last = nm.split("::")[-1]
        if nm.startswith("std::vec::Vec::<") or nm.startswith("alloc::vec::Vec::<"):
            if last in ("new", "with_capacity"):
                H[nm] = lambda ip, st, a, G, nm=nm: fresh(ip, st, nm, ())
            elif last == "push":
                H[nm] = push
            elif last == "len":
                H[nm] = lambda ip, st, a, G: ld(ip, st, a[0]).n
            elif last == "is_empty":
                H[nm] = lambda ip, st, a, G: C.B(C.eq(ld(ip, st, a[0]).n, 0))
            elif last in ("as_slice", "as_mut_slice"):
                H[nm] = slice_
        elif nm.startswith("std::vec::from_elem") or nm.startswith("alloc::vec::from_elem"):
            def from_elem(ip, st, a, G, nm=nm):
                if not isinstance(a[1], int):
                    raise Unsupported("vector of %r elements" % (a[1],))
                try:
                    t = mir.ty(nm[nm.index("<") + 1:nm.rindex(">")])
                except Exception:
                    t = mir.ty("u8")
                return VecV(ip.heap(st, (a[0],) * a[1], ip.arr_ty(t, 2**50)), a[1])
            H[nm] = from_elem
        elif nm.startswith("<std::vec::Vec<") or nm.startswith("<alloc::vec::Vec<"):
            if last in ("deref", "deref_mut", "as_ref", "as_mut", "borrow"):
                H[nm] = slice_
            elif last in ("index", "index_mut"):
                H[nm] = index
            elif last == "drop":
                H[nm] = lambda ip, st, a, G: ()
