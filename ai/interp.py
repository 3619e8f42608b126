"""Abstract interpreter for MIR over the domain of core.py.

Forward analysis in weak topological order.  States are joined at every
control-flow merge point (guarded by the decision-diagram part of the domain);
calls are analysed in place (context sensitively) unless a contract is
installed for the callee.  Every potential abort (failed assert, panic call,
out-of-bounds access, allocation misuse ...) becomes an obligation which is
discharged when its guard is contradictory in the domain.
"""
import re
from . import core as C
from .mir import dead_on_entry
from .core import (Poly, Node, B, EnumV, UNDEF, Undef, Opaque, Unsupported, TRUE, FALSE,
                   band, bor, bnot, vite, vconstrain, bconstrain, padd, psub, pmul, pscale,
                   iv, bounds, low, shr, BV, bnode)


def settle(x, pc):
    """The constant a value is stuck at under pc, when its own interval is
    not one of an unsigned value."""
    if isinstance(x, int) or (C.iv(x)[0] is not None and C.iv(x)[0] >= 0):
        return x
    b = C.bounds(x, pc)
    return b[0] if b is not None and b[0] is not None and b[0] == b[1] else x


CLOSURE = re.compile(r"::\{closure#\d+\}$")


class St:
    __slots__ = ("mem", "pc")

    def __init__(self, mem, pc):
        self.mem = mem
        self.pc = pc

    def copy(self, pc=None):
        return St(dict(self.mem), self.pc if pc is None else pc)


class Ins(dict):
    """pending states of a function's blocks, without the locals dead there"""
    __slots__ = ("fid", "dead")


class Ptr:
    """Reference to (obj, path); meta = slice length / vtable; as_ = (ty, path)
    when the memory is reinterpreted at another type."""

    __slots__ = ("obj", "path", "meta", "as_")

    def __init__(self, obj, path=(), meta=None, as_=None):
        self.obj = obj
        self.path = path
        self.meta = meta
        self.as_ = as_

    def __eq__(self, o):
        return (isinstance(o, Ptr) and self.obj == o.obj and self.path == o.path
                and self.meta == o.meta and self.as_ == o.as_)

    def __hash__(self):
        return hash((self.obj, self.path))

    def merge(self, v, lo):
        if isinstance(lo, Ptr) and lo.obj == self.obj and lo.as_ == self.as_ and len(lo.path) == len(self.path):
            diff = [i for i, (a, b) in enumerate(zip(self.path, lo.path)) if a != b]
            if not diff:
                return Ptr(self.obj, self.path, C.mknode(v, self.meta, lo.meta), self.as_)
            if len(diff) == 1:
                i = diff[0]
                a, b = self.path[i], lo.path[i]
                if C.is_num(a) and C.is_num(b) and C.VARS[v].poly is not None:
                    m = C.mknode(v, a, b)
                    if C.is_num(m):
                        return Ptr(self.obj, self.path[:i] + (m,) + self.path[i + 1:],
                                   C.mknode(v, self.meta, lo.meta) if self.meta is not None else None, self.as_)
        return None

    def __repr__(self):
        return "&%r%s%s%s" % (self.obj, list(self.path), "" if self.meta is None else "#%r" % (self.meta,),
                              "" if self.as_ is None else " as %r" % (self.as_,))


class FnV:
    __slots__ = ("id",)

    def __init__(self, id):
        self.id = id

    def __eq__(self, o):
        return isinstance(o, FnV) and o.id == self.id

    def __hash__(self):
        return hash(self.id)

    def __repr__(self):
        return "fn " + self.id


class Tok(Opaque):
    """Opaque value without structure."""

    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, Tok) and o.name == self.name

    def __hash__(self):
        return hash(self.name)

    def __repr__(self):
        return "<%s>" % (self.name,)


STALE = Tok("stale value")


class Diverge(Exception):
    pass


class Obligation:
    __slots__ = ("kind", "fn", "msg", "pc", "line", "ok")

    def __init__(self, kind, fn, msg, pc, line, ok):
        self.kind, self.fn, self.msg, self.pc, self.line, self.ok = kind, fn, msg, pc, line, ok

    def __repr__(self):
        return "%s in %s: %s" % (self.kind, self.fn, self.msg)


_FEAS = {}


def feas(pc):
    if pc < 2:
        return pc == 1
    r = _FEAS.get(pc)
    if r is None:
        r = _FEAS[pc] = C.feasible(pc)
    return r


def pmap(fn, pc, *xs):
    """Leaf-wise application with the path condition narrowed per leaf."""
    for x in xs:
        if isinstance(x, Node):
            break
    else:
        return fn(pc, *xs)
    memo = {}

    def go(pc, xs):
        v = None
        for x in xs:
            if isinstance(x, Node) and (v is None or x.var < v):
                v = x.var
        if v is None:
            return fn(pc, *xs)
        k = (pc,) + tuple(id(x) for x in xs)
        r = memo.get(k)
        if r is not None:
            return r[0]
        b = bnode(v, 1, 0)
        p1 = band(pc, b)
        p0 = band(pc, bnot(b))
        hx = tuple(C.cofn(x, v, 1) for x in xs)
        lx = tuple(C.cofn(x, v, 0) for x in xs)
        if p1 == 0 or not feas(p1):
            r = go(p0, lx)
        elif p0 == 0 or not feas(p0):
            r = go(p1, hx)
        else:
            r = C.combine(v, go(p1, hx), go(p0, lx))
        memo[k] = (r, xs)
        return r

    return go(pc, xs)


class Interp:
    def __init__(self, mir, hooks=None, loop_limit=5000):
        self.mir = mir
        self.T = mir.types
        self.hooks = dict(hooks or {})
        self.nfid = 0
        self.nheap = 0
        self.ft = {}  # fid -> local types
        self.ot = {}  # obj -> type
        self.cmem = {}  # constant / static memory
        self.obls = []
        self.calls = {}
        self.stats = {"stmts": 0, "fns": set(), "joins": 0, "iters": 0}
        self.loop_limit = loop_limit
        self.liveness = False
        self.stack = []
        self.kcache = {}
        self.symarr = {}
        self.events = []
        self.edge_hooks = {}   # (fn name) -> callable for loop invariants
        self.written_static = []
        self.opaque_types = {}
        self.depth = 0
        self.budget = None

    # ------------------------------------------------------------------ types
    def arr_ty(self, e, n):
        key = ("arr", e, n)
        t = self.mir.tyname.get(key)
        if t is None:
            E = self.T[e]
            st = E.get("size", 1)
            al = E.get("align", 1)
            st = (st + al - 1) // al * al if al else st
            self.T.append({"n": "[%s; %s]" % (E["n"], n), "k": "array", "e": e, "len": n,
                           "size": st * n if isinstance(n, int) else None, "align": al, "stride": st})
            t = self.mir.tyname[key] = len(self.T) - 1
        return t

    def sub_ty(self, t, step):
        T = self.T[t]
        if isinstance(step, (int, Poly)):
            return T["e"]
        k = step[0]
        if k == "f":
            if T["k"] == "adt":
                v = step[2] if len(step) > 2 else 0
                return T["vars"][v]["f"][step[1]][1]
            return self.mir.fields(t)[step[1]]
        if k == "d":
            return ("variant", t, step[1])
        if k == "u":
            return T["vars"][0]["f"][step[1]][1]
        if k == "S":
            return self.arr_ty(T["e"], step[2])
        raise Unsupported("path step %r" % (step,))

    def ty_at(self, obj, path):
        t = self.obj_ty(obj)
        if t is None:
            return None
        i = 0
        while i < len(path):
            s = path[i]
            if isinstance(s, tuple) and s[0] == "d":
                nx = path[i + 1]
                t = self.T[t]["vars"][s[1]]["f"][nx[1]][1]
                i += 2
                continue
            t = self.sub_ty(t, s)
            i += 1
        return t

    def obj_ty(self, obj):
        if isinstance(obj[0], int):
            return self.ft[obj[0]][obj[1]]
        return self.ot.get(obj)

    def nfields(self, t, var=0):
        T = self.T[t]
        if T["k"] == "adt":
            return len(T["vars"][var]["f"]) if T["vars"] else 0
        return len(T["f"])

    # ---------------------------------------------------------------- objects
    def heap(self, st, val, ty):
        self.nheap += 1
        o = ("H", self.nheap)
        self.ot[o] = ty
        st.mem[o] = val
        return o

    def obligation(self, st_pc, kind, fn, msg, line=None):
        ok = not feas(st_pc)
        self.obls.append(Obligation(kind, fn, msg, st_pc, line, ok))
        return ok

    # ------------------------------------------------------------------ memory
    def read_obj(self, st, obj):
        v = st.mem.get(obj)
        if v is None:
            v = self.cmem.get(obj)
            if v is None:
                if obj[0] == "S":
                    a = self.mir.statics.get(obj[1])
                    if a is None:
                        raise Unsupported("static " + obj[1])
                    self.ot[obj] = a["t"]
                    v = self.cmem[obj] = self.decode(a["b"], a["p"], 0, a["t"])
                    return v
                return UNDEF
        return v

    def get(self, st, v, path, t, pc):
        """value at path inside v (whose type is t)."""
        for i, s in enumerate(path):
            if isinstance(v, Node):
                rest = path[i:]
                return pmap(lambda pc, x: self.get(st, x, rest, None, pc), pc, v)
            if isinstance(v, Undef):
                return UNDEF
            if isinstance(s, int):
                if isinstance(v, tuple):
                    if not 0 <= s < len(v):
                        raise Unsupported("index out of object")
                    v = v[s]
                else:
                    v = v.index(s, pc, self)
            elif isinstance(s, Poly):
                if isinstance(v, tuple):
                    rest = path[i + 1:]
                    r = self.sym_index(v, s, pc)
                    return self.get(st, r, rest, None, pc)
                v = v.index(s, pc, self)
            elif isinstance(s, Node):
                rest = path[i + 1:]
                vv = v
                return pmap(lambda pc, x: self.get(st, vv, (x,) + rest, None, pc), pc, s)
            else:
                k = s[0]
                if k == "f":
                    if isinstance(v, tuple):
                        v = v[s[1]]
                    elif isinstance(v, EnumV):
                        v = v.f[s[1]]
                    elif hasattr(v, "field"):
                        v = v.field(s[1], self)
                    else:
                        raise Unsupported("field of %r" % (v,))
                elif k == "d":
                    if isinstance(v, EnumV):
                        if v.var != s[1]:
                            return UNDEF
                    else:
                        raise Unsupported("downcast of %r" % (v,))
                elif k == "u":
                    pass
                elif k == "S":
                    b, n = s[1], s[2]
                    if isinstance(v, tuple):
                        if isinstance(b, int):
                            v = v[b:b + n]
                        else:
                            v = tuple(self.sym_index(v, padd(b, j), pc) for j in range(n))
                    else:
                        vv = v
                        v = tuple(vv.index(padd(b, j), pc, self) for j in range(n))
                else:
                    raise Unsupported("step")
        return v

    def sym_index(self, v, s, pc):
        b = bounds(s, pc)
        if b is None:
            return v[0] if v else UNDEF
        lo, hi = b
        n = len(v)
        if lo is None or hi is None:
            lo, hi = 0, n - 1
        lo = max(lo, 0)
        hi = min(hi, n - 1)
        if lo > hi:
            raise Unsupported("index out of object")
        if lo == hi:
            return v[lo]
        if hi - lo > 1100:
            raise Unsupported("symbolic index over a large array")

        def rec(lo, hi):
            if lo == hi:
                return v[lo]
            m = (lo + hi + 1) // 2
            f = C.ge_const(s, m, pc)
            return vite(f, rec(m, hi), rec(lo, m - 1))

        if isinstance(s, Poly) and hi - lo < 512:
            f = None
        return rec(lo, hi)

    def put(self, st, v, path, t, new, pc):
        """v with the value at path replaced."""
        if not path:
            return new
        s = path[0]
        if isinstance(v, Node):
            return pmap(lambda pc, x: self.put(st, x, path, t, new, pc), pc, v)
        if isinstance(s, (int, Poly, Node)):
            et = self.T[t]["e"] if t is not None and "e" in self.T[t] else None
            if isinstance(v, Undef):
                n = self.T[t]["len"]
                v = (UNDEF,) * n
            if isinstance(s, Node):
                r = v
                for g, ix in C.leaves(s):
                    r = vite(g, self.put(st, r, (ix,) + path[1:], t, new, band(pc, g)), r)
                return r
            if isinstance(s, int):
                if not isinstance(v, tuple):
                    return v.store_index(s, self.put(st, v.index(s, pc, self), path[1:], et, new, pc), pc, self)
                if not 0 <= s < len(v):
                    raise Unsupported("index out of object")
                return v[:s] + (self.put(st, v[s], path[1:], et, new, pc),) + v[s + 1:]
            b = bounds(s, pc)
            if b is None:
                return v
            if b[0] == b[1] and b[0] is not None:
                return self.put(st, v, (b[0],) + path[1:], t, new, pc)
            if not isinstance(v, tuple):
                return v.store_index(s, new, pc, self) if len(path) == 1 else self._uns("nested symbolic store")
            lo = 0 if b[0] is None else max(0, b[0])
            hi = len(v) - 1 if b[1] is None else min(b[1], len(v) - 1)
            if hi - lo > 600:
                raise Unsupported("symbolic store over a large array")
            out = list(v)
            for k in range(lo, hi + 1):
                g = C.eq(s, k, pc)
                if g == 0:
                    continue
                out[k] = vite(g, self.put(st, v[k], path[1:], et, new, pc), v[k])
            return tuple(out)
        k = s[0]
        if k == "f":
            if isinstance(v, Undef):
                if t is None:
                    raise Unsupported("store into undefined value of unknown type")
                v = (UNDEF,) * self.nfields(t)
            if isinstance(v, Opaque):
                return v.store_field(s[1], path[1:], new, self)
            ft = None if t is None else self.sub_ty(t, s)
            if isinstance(v, EnumV):
                f = v.f
                return EnumV(v.var, f[:s[1]] + (self.put(st, f[s[1]], path[1:], ft, new, pc),) + f[s[1] + 1:])
            return v[:s[1]] + (self.put(st, v[s[1]], path[1:], ft, new, pc),) + v[s[1] + 1:]
        if k == "d":
            nx = path[1]
            if isinstance(v, Undef):
                v = EnumV(s[1], (UNDEF,) * self.nfields(t, s[1]))
            if v.var != s[1]:
                return v
            ft = None if t is None else self.T[t]["vars"][s[1]]["f"][nx[1]][1]
            f = v.f
            i = nx[1]
            return EnumV(v.var, f[:i] + (self.put(st, f[i], path[2:], ft, new, pc),) + f[i + 1:])
        if k == "u":
            ft = None if t is None else self.sub_ty(t, s)
            return self.put(st, v, path[1:], ft, new, pc)
        if k == "S":
            b, n = s[1], s[2]
            if isinstance(v, Undef):
                v = (UNDEF,) * self.T[t]["len"]
            sub = self.get(st, v, (s,), t, pc)
            st_ = self.arr_ty(self.T[t]["e"], n) if t is not None else None
            sub = self.put(st, sub, path[1:], st_, new, pc)
            if isinstance(sub, Node):
                r = v
                for j in range(n):
                    r = self.put(st, r, (padd(b, j),), t, self.get(st, sub, (j,), None, pc), pc)
                return r
            if isinstance(v, tuple) and isinstance(b, int):
                return v[:b] + tuple(sub) + v[b + n:]
            r = v
            for j in range(n):
                r = self.put(st, r, (padd(b, j),), t, sub[j], pc)
            return r
        raise Unsupported("put step %r" % (s,))

    def _uns(self, m):
        raise Unsupported(m)

    def load(self, st, p, ty=None):
        if isinstance(p, Node):
            return pmap(lambda pc, x: self._load1(st, x, ty, pc), st.pc, p)
        return self._load1(st, p, ty, st.pc)

    def _load1(self, st, p, ty, pc):
        if not isinstance(p, Ptr):
            if hasattr(p, "load"):
                return p.load(self, st, ty, pc)
            raise Unsupported("load through %r" % (p,))
        v = self.read_obj(st, p.obj)
        t0 = self.obj_ty(p.obj)
        v = self.get(st, v, p.path, t0, pc)
        if p.as_ is not None:
            src = self.ty_at(p.obj, p.path)
            at, sub = p.as_
            v = self.reinterpret(v, src, at, pc)
            v = self.get(st, v, sub, at, pc)
        return v

    def store(self, st, p, val):
        if isinstance(p, Node):
            ls = C.leaves(vconstrain(p, st.pc))
            for g, x in ls:
                if band(g, st.pc) == 0:
                    continue
                old = self._load1(st, x, None, band(g, st.pc))
                self._store1(st, x, vite(g, val, old))
            return
        self._store1(st, p, val)

    def _store1(self, st, p, val):
        if not isinstance(p, Ptr):
            if hasattr(p, "store"):
                return p.store(self, st, val)
            raise Unsupported("store through %r" % (p,))
        obj = p.obj
        if obj not in st.mem and (obj in self.cmem or obj[0] in ("S", "A")):
            self.written_static.append((obj, self.stack[-1] if self.stack else "?"))
            raise Unsupported("store to constant or static memory %r" % (obj,))
        t0 = self.obj_ty(obj)
        if p.as_ is not None:
            src = self.ty_at(obj, p.path)
            at, sub = p.as_
            if sub:
                cur = self.get(st, st.mem.get(obj, UNDEF), p.path, t0, st.pc)
                cur = self.reinterpret(cur, src, at, st.pc)
                val = self.put(st, cur, sub, at, val, st.pc)
            val = self.reinterpret(val, at, src, st.pc)
        if not p.path:
            st.mem[obj] = val
            return
        st.mem[obj] = self.put(st, st.mem.get(obj, UNDEF), p.path, t0, val, st.pc)

    # ----------------------------------------------------- reinterpretation
    def peel(self, t):
        """list of wrapper steps down to the only non-ZST component, and its type."""
        out = []
        while True:
            T = self.T[t]
            if T["k"] == "pat":
                t = T["e"]
                continue
            if T["k"] == "adt" and T["ak"] in ("struct", "union") and T.get("size"):
                fs = T["vars"][0]["f"]
                nz = [(i, x[1]) for i, x in enumerate(fs) if self.T[x[1]].get("size")]
                if len(nz) == 1 and self.T[nz[0][1]]["size"] == T["size"] or (T["ak"] == "union" and nz):
                    i, ft = nz[0]
                    out.append(("u" if T["ak"] == "union" else "f", i, t))
                    t = ft
                    continue
            elif T["k"] == "tuple" and T.get("size"):
                nz = [(i, x) for i, x in enumerate(T["f"]) if self.T[x].get("size")]
                if len(nz) == 1:
                    out.append(("f", nz[0][0], t))
                    t = nz[0][1]
                    continue
            return out, t

    def unwrap(self, v, steps):
        for k, i, t in steps:
            if k == "f":
                if isinstance(v, Node):
                    v = C.mapply(lambda x: UNDEF if isinstance(x, Undef) else x[i], v)
                elif isinstance(v, Undef):
                    return UNDEF
                elif isinstance(v, Opaque):
                    v = v.field(i, self)
                else:
                    v = v[i]
        return v

    def wrap(self, v, steps):
        for k, i, t in reversed(steps):
            if k == "f":
                n = self.nfields(t)
                v = tuple(v if j == i else self.zst(self.field_ty(t, j)) for j in range(n))
        return v

    def field_ty(self, t, j):
        T = self.T[t]
        if T["k"] == "adt":
            return T["vars"][0]["f"][j][1]
        return T["f"][j]

    def zst(self, t):
        T = self.T[t]
        if T["k"] == "array":
            return (self.zst(T["e"]),) * T["len"]
        if T["k"] == "adt":
            if T["ak"] == "enum":
                return EnumV(0, ())
            return tuple(self.zst(x[1]) for x in T["vars"][0]["f"])
        if T["k"] in ("tuple", "closure"):
            return tuple(self.zst(x) for x in T["f"])
        return ()

    def ptr_like(self, T):
        return T["k"] in ("ref", "ptr", "fnptr")

    def reinterpret(self, v, src, dst, pc):
        if src == dst:
            return v
        if isinstance(v, Undef):
            return UNDEF
        s1, st = self.peel(src)
        d1, dt = self.peel(dst)
        S, D = self.T[st], self.T[dt]
        if st == dt or (self.ptr_like(S) and self.ptr_like(D)):
            x = self.unwrap(v, s1)
            if st != dt and S["k"] != "fnptr" and D["k"] != "fnptr":
                x = self.cast_ptr(x, S["e"], D["e"])
            return self.wrap(x, d1)
        if S["k"] == D["k"] == "int" and S["w"] == D["w"]:
            x = self.unwrap(v, s1)
            return self.wrap(self.cast_int(x, st, dt, pc), d1)
        if self.ptr_like(S) and D["k"] == "int" and D["w"] == 64:
            return self.wrap(self.ptr_addr(self.unwrap(v, s1)), d1)
        if D["k"] == "int" and S["k"] in ("char", "bool"):
            return self.wrap(self.cast_int(self.unwrap(v, s1), st, dt, pc), d1)
        if S["k"] == "array" and D["k"] == "array" and S["len"] == D["len"]:
            x = self.unwrap(v, s1)
            if isinstance(x, tuple):
                return self.wrap(tuple(self.reinterpret(y, S["e"], D["e"], pc) for y in x), d1)
        if S["k"] == "array" and S["len"] == 1 and D["k"] != "array":
            return self.wrap(self.reinterpret(self.unwrap(v, s1)[0], S["e"], dt, pc), d1)
        bs = self.to_bytes(v, src, pc)
        return self.from_bytes(bs, dst, pc)

    def ptr_addr(self, p):
        return C.mapply(lambda x: Addr(x) if isinstance(x, Ptr) else x, p)

    def to_bytes(self, v, t, pc):
        T = self.T[t]
        n = T["size"]
        k = T["k"]
        if k == "pat":
            return self.to_bytes(v, T["e"], pc)
        if isinstance(v, Undef):
            return [UNDEF] * n
        if k == "int":
            return [pmap(lambda pc, x: UNDEF if isinstance(x, Undef) else C.mid(x if not T["s"] else self.to_unsigned(x, T["w"], pc), 8 * i, 8), pc, v) for i in range(n)]
        if k == "char":
            return [pmap(lambda pc, x: C.mid(x, 8 * i, 8), pc, v) for i in range(4)]
        if k == "bool":
            return [self.b2i(v)]
        if k == "array":
            out = []
            st = T["stride"]
            for i in range(T["len"]):
                e = self.to_bytes(self.get(None, v, (i,), t, pc), T["e"], pc)
                out.extend(e + [UNDEF] * (st - len(e)))
            return out
        if k in ("tuple", "closure") or (k == "adt" and T["ak"] == "struct"):
            out = [UNDEF] * n
            fs = T["f"] if k != "adt" else [x[1] for x in T["vars"][0]["f"]]
            for i, f in enumerate(fs):
                if not self.T[f].get("size"):
                    continue
                x = v.field(i, self) if isinstance(v, Opaque) else self.get(None, v, (("f", i),), t, pc)
                bs = self.to_bytes(x, f, pc)
                o = T["offs"][i]
                out[o:o + len(bs)] = bs
            return out
        if k == "adt" and T["ak"] == "union":
            if isinstance(v, tuple) or not isinstance(v, Opaque):
                big = max((x[1] for x in T["vars"][0]["f"]), key=lambda f: self.T[f].get("size") or 0)
                return self.to_bytes(v, big, pc)
        if k in ("ref", "ptr", "fnptr"):
            return [PByte(v, i) for i in range(n)]
        if k == "adt" and T["ak"] == "enum":
            if isinstance(v, Node):
                parts = [(g, self.to_bytes(x, t, pc)) for g, x in C.leaves(v)]
                res = parts[-1][1]
                for g, p in parts[:-1]:
                    res = [vite(g, a, b) for a, b in zip(p, res)]
                return res
            tg = T.get("tag")
            out = [UNDEF] * n
            voffs = tg["voffs"][v.var] if tg else T["offs"]
            for i, x in enumerate(T["vars"][v.var]["f"]):
                f = x[1]
                if not self.T[f].get("size"):
                    continue
                bs = self.to_bytes(v.f[i], f, pc)
                out[voffs[i]:voffs[i] + len(bs)] = bs
            if tg:
                o = T["offs"][tg["field"]]
                if tg["enc"] == "direct":
                    d = T["vars"][v.var]["d"]
                    for i in range(tg["size"]):
                        out[o + i] = (d >> (8 * i)) & 255
                else:
                    e = tg["enc"]
                    if v.var != e["untagged"]:
                        d = (e["start"] + v.var - e["lo"]) & ((1 << (8 * tg["size"])) - 1)
                        for i in range(tg["size"]):
                            out[o + i] = (d >> (8 * i)) & 255
            return out
        raise Unsupported("bytes of " + T["n"])

    def from_bytes(self, bs, t, pc):
        T = self.T[t]
        n = T["size"]
        k = T["k"]
        if k == "pat":
            return self.from_bytes(bs, T["e"], pc)
        bs = bs[:n]
        if n and all(isinstance(b, Undef) for b in bs):
            return UNDEF
        if k in ("int", "char"):
            def mk(pc, *xs):
                if any(isinstance(x, Undef) for x in xs):
                    return UNDEF
                if any(isinstance(x, PByte) for x in xs):
                    raise Unsupported("pointer bytes as integer")
                r = 0
                for i, x in enumerate(xs):
                    r = padd(r, pscale(x, 1 << (8 * i)))
                if k == "int" and T["s"]:
                    r = self.to_signed(r, T["w"], pc)
                return r
            return pmap(mk, pc, *bs)
        if k == "bool":
            return pmap(lambda pc, x: B(C.ge_const(x, 1, pc)), pc, bs[0])
        if k == "array":
            s = T["stride"]
            return tuple(self.from_bytes(bs[i * s:(i + 1) * s], T["e"], pc) for i in range(T["len"]))
        if k in ("tuple", "closure") or (k == "adt" and T["ak"] == "struct"):
            fs = T["f"] if k != "adt" else [x[1] for x in T["vars"][0]["f"]]
            out = []
            for i, f in enumerate(fs):
                sz = self.T[f].get("size")
                if not sz:
                    out.append(self.zst(f))
                    continue
                o = T["offs"][i]
                out.append(self.from_bytes(bs[o:o + sz], f, pc))
            return tuple(out)
        if k == "adt" and T["ak"] == "union":
            big = max((x[1] for x in T["vars"][0]["f"]), key=lambda f: self.T[f].get("size") or 0)
            return self.from_bytes(bs, big, pc)
        if k in ("ref", "ptr", "fnptr"):
            if all(isinstance(b, PByte) for b in bs) and all(b.p == bs[0].p and b.i == i for i, b in enumerate(bs)):
                return bs[0].p
            raise Unsupported("integer bytes as pointer")
        if k == "adt" and T["ak"] == "enum":
            tg = T.get("tag")
            if not tg:
                v = T.get("single")
                return EnumV(v, tuple(self.from_bytes(bs[T["offs"][i]:], x[1], pc) if self.T[x[1]].get("size") else self.zst(x[1])
                                      for i, x in enumerate(T["vars"][v]["f"])))
            o = T["offs"][tg["field"]]
            tb = bs[o:o + tg["size"]]

            def payload(v):
                return tuple(self.from_bytes(bs[tg["voffs"][v][i]:], x[1], pc) if self.T[x[1]].get("size") else self.zst(x[1])
                             for i, x in enumerate(T["vars"][v]["f"]))
            if any(isinstance(x, PByte) for x in tb):
                # niche-encoded pointer: non-null
                if tg["enc"] == "direct":
                    raise Unsupported("tag from pointer")
                return EnumV(tg["enc"]["untagged"], payload(tg["enc"]["untagged"]))
            if any(isinstance(x, Undef) for x in tb):
                return UNDEF

            def mk(pc, *xs):
                r = 0
                for i, x in enumerate(xs):
                    r = padd(r, pscale(x, 1 << (8 * i)))
                M = (1 << (8 * tg["size"])) - 1
                if tg["enc"] == "direct":
                    res = None
                    for v, var in enumerate(T["vars"]):
                        g = C.eq(r, var["d"] & M, pc)
                        e = EnumV(v, payload(v)) if g else None
                        if g == 0:
                            continue
                        res = e if res is None else vite(g, e, res)
                    return UNDEF if res is None else res
                e = tg["enc"]
                u = e["untagged"]
                res = EnumV(u, payload(u))
                for v in range(e["lo"], e["hi"] + 1):
                    if v == u:
                        continue
                    g = C.eq(r, (e["start"] + v - e["lo"]) & M, pc)
                    if g:
                        res = vite(g, EnumV(v, payload(v)), res)
                return res
            return pmap(mk, pc, *tb)
        raise Unsupported("rebuild " + T["n"])

    # ---------------------------------------------------------------- constants
    def decode(self, b, relocs, off, t):
        T = self.T[t]
        k = T["k"]
        n = T.get("size") or 0
        if k == "pat":
            return self.decode(b, relocs, off, T["e"])
        if k in ("int", "char", "bool", "float"):
            h = b[2 * off:2 * (off + n)]
            if "_" in h:
                return UNDEF
            v = int.from_bytes(bytes.fromhex(h), "little")
            if k == "bool":
                return TRUE if v else FALSE
            if k == "int" and T["s"] and v >> (T["w"] - 1):
                v -= 1 << T["w"]
            return v
        if k == "array":
            s = T["stride"]
            return tuple(self.decode(b, relocs, off + i * s, T["e"]) for i in range(T["len"]))
        if k in ("tuple", "closure"):
            return tuple(self.decode(b, relocs, off + (T["offs"][i] if T.get("offs") else 0), f) for i, f in enumerate(T["f"]))
        if k == "fndef" or k == "never":
            return ()
        if k in ("ref", "ptr", "fnptr"):
            h = b[2 * off:2 * (off + 8)]
            rl = dict((o, a) for o, a in relocs)
            add = int.from_bytes(bytes.fromhex(h.replace("_", "0")), "little")
            meta = None
            if n == 16:
                h2 = b[2 * (off + 8):2 * (off + 16)]
                if off + 8 in rl:
                    meta = ("vt", rl[off + 8])
                else:
                    meta = int.from_bytes(bytes.fromhex(h2), "little")
            if off not in rl:
                return NPtr(add, meta)
            return self.const_ptr(rl[off], add, meta, T.get("e"))
        if k == "adt":
            if T["ak"] == "enum":
                if not T["vars"]:
                    return UNDEF
                tg = T.get("tag")
                if not tg:
                    v = T.get("single")
                    voffs = T["offs"]
                else:
                    o = off + T["offs"][tg["field"]]
                    sz = tg["size"]
                    h = b[2 * o:2 * (o + sz)]
                    M = (1 << (8 * sz)) - 1
                    isr = any(r[0] == o for r in relocs)
                    if tg["enc"] == "direct":
                        d = int.from_bytes(bytes.fromhex(h), "little")
                        v = [i for i, x in enumerate(T["vars"]) if x["d"] & M == d][0]
                    else:
                        e = tg["enc"]
                        if isr or "_" in h:
                            v = e["untagged"]
                        else:
                            d = int.from_bytes(bytes.fromhex(h), "little")
                            r = (d - e["start"]) & M
                            v = e["lo"] + r if r <= e["hi"] - e["lo"] else e["untagged"]
                    voffs = tg["voffs"][v]
                return EnumV(v, tuple(self.decode(b, relocs, off + (voffs[i] if i < len(voffs) else 0), x[1])
                                      for i, x in enumerate(T["vars"][v]["f"])))
            if T["ak"] == "union":
                fs = [x[1] for x in T["vars"][0]["f"]]
                big = max(fs, key=lambda f: self.T[f].get("size") or 0)
                return self.decode(b, relocs, off, big)
            return tuple(self.decode(b, relocs, off + T["offs"][i], x[1]) for i, x in enumerate(T["vars"][0]["f"]))
        raise Unsupported("constant of type " + T["n"])

    def const_ptr(self, aid, add, meta, e):
        a = self.mir.allocs.get(aid)
        if a is None:
            raise Unsupported("allocation %r" % aid)
        if a["k"] == "fn":
            return FnV(a.get("f") or a.get("id") or a.get("n"))
        if a["k"] == "static":
            o = ("S", a["n"])
            self.read_obj(St({}, 1), o)
            if add:
                raise Unsupported("pointer into a static")
            return Ptr(o, (), None)
        if a["k"] != "mem":
            return Tok(("alloc", aid))
        E = self.T[e]
        if E["k"] == "str" or E["k"] == "slice":
            et = E["e"] if E["k"] == "slice" else self.mir.tyname["u8"]
            sz = self.T[et]["size"]
            total = len(a["b"]) // 2
            n = total // sz if sz else meta
            o = ("A", aid, et, "s")
            if o not in self.cmem:
                self.ot[o] = self.arr_ty(et, n)
                self.cmem[o] = self.decode(a["b"], a["p"], 0, self.ot[o])
            return Ptr(o, (add // sz if sz else 0,), meta)
        o = ("A", aid, e)
        if add:
            # pointer to an element of an array
            sz = E["size"]
            if sz and add % sz == 0:
                total = len(a["b"]) // 2
                o = ("A", aid, e, "s")
                if o not in self.cmem:
                    self.ot[o] = self.arr_ty(e, total // sz)
                    self.cmem[o] = self.decode(a["b"], a["p"], 0, self.ot[o])
                return Ptr(o, (add // sz,), meta)
            raise Unsupported("pointer into the middle of a constant")
        if o not in self.cmem:
            if "b" not in a or E["k"] == "dyn":
                return Tok(("alloc", aid))
            self.ot[o] = e
            self.cmem[o] = self.decode(a["b"], a["p"], 0, e)
        return Ptr(o, (), meta)

    def const(self, op):
        k = id(op)
        v = self.kcache.get(k)
        if v is None:
            d = op[2]
            t = op[1]
            if "fn" in d:
                v = FnV(d["fn"])
            elif "bad" in d:
                raise Unsupported("constant %r" % d)
            elif "b" in d:
                v = self.decode(d["b"], d["p"], 0, t)
            else:
                raise Unsupported("constant %r" % d)
            self.kcache[k] = v
        return v

    # ---------------------------------------------------------------- integers
    def to_signed(self, x, w, pc):
        if isinstance(x, int):
            x &= (1 << w) - 1
            return x - (1 << w) if x >> (w - 1) else x
        b = bounds(x, pc)
        if b is None or (b[0] is not None and b[0] >= -(1 << (w - 1)) and b[1] < 1 << (w - 1)):
            return x
        x = self.wrapu(x, w, pc)
        top = C.ge_const(x, 1 << (w - 1), pc)
        return vite(top, psub(x, 1 << w), x)

    def to_unsigned(self, x, w, pc):
        return self.wrapu(x, w, pc)

    def wrapu(self, x, w, pc):
        if isinstance(x, int):
            return x & ((1 << w) - 1)
        l, h = iv(x)
        if l is not None and l >= 0 and h < 1 << w:
            return x
        if pc != 1:
            b = bounds(x, pc)
            if b is None:
                return 0
            if b[0] is not None and b[1] is not None and b[0] >= 0 and b[1] < 1 << w:
                return x
            if b[0] is not None and b[1] is not None and b[0] >> w == b[1] >> w:
                return psub(x, (b[0] >> w) << w)
        if l is not None and h is not None and -4096 <= l < 0 and h < 4096 and w >= 16:
            # a small difference: keep both turns of the wrap-around apart
            return vite(C.ge_const(x, 0, pc), x, padd(x, 1 << w))
        return low(x, w)

    def cast_int(self, v, st, dt, pc):
        S, D = self.T[st], self.T[dt]
        if S["k"] == "bool":
            v = self.b2i(v)
            return v
        if isinstance(v, (int, Poly)):
            return self._ci(pc, v, D)
        return pmap(lambda pc, x: self._ci(pc, x, D), pc, v)

    def _ci(self, pc, x, D):
        if isinstance(x, Undef):
            return UNDEF
        if not C.is_num(x):
            if isinstance(x, Addr) and D["w"] == 64:
                return x
            if hasattr(x, "cast_int"):
                return x.cast_int(D, pc)
            raise Unsupported("integer cast of %r" % (x,))
        w = D.get("w", 32)
        if D["k"] == "int" and D["s"]:
            return self.to_signed(x, w, pc)
        return self.wrapu(x, w, pc)

    def b2i(self, v):
        if isinstance(v, B):
            return vite(v.n, 1, 0)
        if isinstance(v, Undef):
            return UNDEF
        return C.mapply(lambda x: vite(x.n, 1, 0), v)

    def tobdd(self, v, pc=1):
        """BDD of a boolean value."""
        if isinstance(v, B):
            return v.n
        if isinstance(v, Undef):
            raise Unsupported("undefined boolean")
        if isinstance(v, Node):
            v = vconstrain(v, pc)
            if isinstance(v, B):
                return v.n
            r = 0
            for g, x in C.leaves(v):
                if isinstance(x, Undef):
                    if band(g, pc) and feas(band(g, pc)):
                        raise Unsupported("possibly undefined boolean")
                    continue
                r = bor(r, band(g, x.n))
            return r
        raise Unsupported("boolean %r" % (v,))

    # ------------------------------------------------------------- binary ops
    def binop(self, op, a, b, t, pc, chk=False):
        T = self.T[t]
        if isinstance(a, B) and isinstance(b, B):
            return self.boolop(op, a, b)
        if isinstance(a, (int, Poly)) and isinstance(b, (int, Poly)):
            return self._bin(pc, op, a, b, T, chk)
        if T["k"] == "bool":
            return self.boolop(op, B(self.tobdd(a, pc)), B(self.tobdd(b, pc)))
        return pmap(lambda pc, x, y: self._bin(pc, op, x, y, T, chk), pc, a, b)

    def boolop(self, op, a, b):
        a, b = a.n, b.n
        if op == "BitAnd":
            return B(band(a, b))
        if op == "BitOr":
            return B(bor(a, b))
        if op in ("BitXor", "Ne"):
            return B(C.bxor(a, b))
        if op == "Eq":
            return B(bnot(C.bxor(a, b)))
        if op == "Lt":
            return B(band(bnot(a), b))
        if op == "Gt":
            return B(band(a, bnot(b)))
        if op == "Le":
            return B(bor(bnot(a), b))
        if op == "Ge":
            return B(bor(a, bnot(b)))
        raise Unsupported("bool op " + op)

    def _prod(self, pc, r, w, sg, chk):
        """each case of a product, checked for overflow"""
        def f(pc, x):
            lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1)
            if not chk:
                return self.norm(x, w, sg, pc)
            bd = bounds(x, pc)
            if bd is None or (bd[0] is not None and bd[0] >= lo and bd[1] is not None and bd[1] <= hi):
                return (x, B(0))
            ok = band(C.ge_const(x, lo, pc), bnot(C.ge_const(x, hi + 1, pc)))
            return (vite(ok, x, self.norm(x, w, sg, pc)), B(bnot(ok)))
        return pmap(f, pc, r)

    def _bin(self, pc, op, a, b, T, chk):
        if isinstance(a, Undef) or isinstance(b, Undef):
            return (UNDEF, B(0)) if chk else UNDEF
        if not C.is_num(a) or not C.is_num(b):
            return self.ptr_bin(pc, op, a, b, T)
        k = T["k"]
        w = T.get("w", 32)
        sg = T.get("s", False)
        if pc != 1:
            a = self.narrow(a, pc)
            b = self.narrow(b, pc)
        if op in ("Lt", "Le", "Gt", "Ge", "Eq", "Ne"):
            if op == "Lt":
                return B(C.lt(a, b, pc))
            if op == "Gt":
                return B(C.lt(b, a, pc))
            if op == "Le":
                return B(bnot(C.lt(b, a, pc)))
            if op == "Ge":
                return B(bnot(C.lt(a, b, pc)))
            e = C.eq(a, b, pc)
            return B(e if op == "Eq" else bnot(e))
        if op in ("Add", "Sub", "Mul", "AddUnchecked", "SubUnchecked", "MulUnchecked"):
            base = op[:3]
            if base == "Add":
                x = padd(a, b)
            elif base == "Sub":
                x = psub(a, b)
            else:
                if sg and isinstance(a, Poly) and isinstance(b, Poly):
                    for p, q in ((a, b), (b, a)):
                        f = C.two_valued(p)
                        if f is not None:
                            r = vite(f[0], pscale(q, f[1]), pscale(q, f[2]))
                            return self._prod(pc, r, w, sg, chk)
                x = pmul(a, b)
            lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if sg else (0, (1 << w) - 1)
            if chk:
                if isinstance(x, int):
                    ov = 0 if lo <= x <= hi else 1
                    return ((x if not ov else self.norm(x, w, sg, pc)), B(ov))
                bd = bounds(x, pc)
                if bd is None:
                    return (x, B(0))
                if bd[0] is not None and bd[0] >= lo and bd[1] is not None and bd[1] <= hi:
                    return (x, B(0))
                ok = band(C.ge_const(x, lo, pc), bnot(C.ge_const(x, hi + 1, pc)))
                if not feas(band(pc, bnot(ok))):
                    return (x, B(0))
                return (vite(ok, x, self.norm(x, w, sg, pc)), B(bnot(ok)))
            if base == "Sub" and not sg and isinstance(x, Poly):
                l, h = iv(x)
                if l is not None and h is not None and -(1 << w) <= l < 0 <= h < 1 << w:
                    # a borrow: keep both turns of the wrap-around apart
                    return vite(C.ge_const(x, 0, pc), x, padd(x, 1 << w))
            r = self.norm(x, w, sg, pc)
            if base == "Add" and isinstance(r, Poly) and r is not x and not sg:
                C.ADDS.setdefault(r.key, []).append((a, b, w))
            return r
        if op in ("BitAnd", "BitOr", "BitXor"):
            if sg:
                for x, m in ((a, b), (b, a)):
                    f = C.two_valued(m) if isinstance(m, Poly) and iv(m) == (-1, 0) else None
                    if f is not None:
                        return vite(f[0], self._bin(pc, op, x, f[1], T, chk), self._bin(pc, op, x, f[2], T, chk))
                    if isinstance(m, int) and m in (0, -1) and C.is_num(x):
                        if op == "BitXor":
                            return x if m == 0 else psub(-1, x)
                        return x if (op == "BitAnd") == (m == -1) else m
                a, b = self.wrapu(a, w, pc), self.wrapu(b, w, pc)
            if op == "BitAnd" and pc != 1:
                for x, m in ((a, b), (b, a)):
                    if isinstance(m, int) and m > 0 and m & (m + 1) == 0 and isinstance(x, Poly):
                        return self.wrapu(x, m.bit_length(), pc)
            f = {"BitAnd": C.bit_and, "BitOr": C.bit_or, "BitXor": C.bit_xor}[op]
            if pc != 1:
                a, b = settle(a, pc), settle(b, pc)
            r = f(a, b, w)
            return self.to_signed(r, w, pc) if sg else r
        if op in ("Shl", "ShlUnchecked", "Shr", "ShrUnchecked"):
            if isinstance(b, int):
                return self.shift(pc, op, a, b % w, w, sg)
            bd = bounds(b, pc)
            if bd is None:
                return 0
            l, h = bd
            if l is None or h is None or h - l > 255:
                b = low(b, w.bit_length() - 1)
                l, h = 0, w - 1

            def rec(l, h):
                if l == h:
                    return self.shift(pc, op, a, l % w, w, sg)
                m = (l + h + 1) // 2
                return vite(C.ge_const(b, m, pc), rec(m, h), rec(l, m - 1))
            return rec(l, h)
        if op in ("Div", "Rem"):
            if not isinstance(b, int) or b == 0:
                raise Unsupported("division by a non-constant")
            if isinstance(a, int):
                q = abs(a) // abs(b) * (1 if (a >= 0) == (b > 0) else -1)
                return q if op == "Div" else a - q * b
            bd = bounds(a, pc)
            if bd is None:
                return 0
            if b > 0 and b & (b - 1) == 0 and bd[0] is not None and bd[0] >= 0:
                s = b.bit_length() - 1
                return shr(a, s) if op == "Div" else low(a, s)
            if b > 0 and bd[0] is not None and bd[0] >= 0 and bd[1] is not None and bd[1] // b - bd[0] // b <= 64:
                q0, q1 = bd[0] // b, bd[1] // b
                r = q1
                for q in range(q1 - 1, q0 - 1, -1):
                    r = vite(C.ge_const(a, (q + 1) * b, pc), r, q)
                if op == "Div":
                    return r
                return C.mapply(lambda q: psub(a, q * b), r)
            if b > 0 and bd[0] is not None and bd[0] >= 0:
                q = C.memo_atom(("div", a, b), bd[0] // b, None if bd[1] is None else bd[1] // b, "")
                if op == "Div":
                    return q
                r = psub(a, pscale(q, b))
                C.KNOWN[r.key] = (0, b - 1) if isinstance(r, Poly) else None
                return r
            if b > 0:
                # truncation towards zero: by the sign of the dividend
                g = C.ge_const(a, 0, pc)
                z = self._bin(band(pc, g), op, a, b, T, chk) if band(pc, g) else 0
                m = self._bin(band(pc, bnot(g)), op, pscale(a, -1), b, T, chk) if band(pc, bnot(g)) else 0
                return vite(g, z, C.mapply(lambda q: pscale(q, -1), m))
            raise Unsupported("signed division")
        if op == "Cmp":
            l = C.lt(a, b, pc)
            e = C.eq(a, b, pc)
            return vite(l, EnumV(0, ()), vite(e, EnumV(1, ()), EnumV(2, ())))
        if op == "Offset":
            raise Unsupported("integer offset")
        raise Unsupported("binary op " + op)

    def narrow(self, x, pc):
        """constant when the guard leaves a single value (flags and carries)"""
        if isinstance(x, Poly):
            l, h = iv(x)
            if l is not None and h is not None and h - l <= 3:
                b = bounds(x, pc)
                if b is None:
                    return l
                if b[0] == b[1]:
                    return b[0]
        return x

    def norm(self, x, w, sg, pc):
        return self.to_signed(x, w, pc) if sg else self.wrapu(x, w, pc)

    def shift(self, pc, op, a, k, w, sg):
        if op.startswith("Shr"):
            if pc != 1 and isinstance(a, Poly):
                bd = bounds(a, pc)
                if bd is None:
                    return 0
                if bd[0] is not None and bd[1] is not None and bd[0] >> k == bd[1] >> k:
                    return bd[0] >> k
            if sg and k == w - 1 and isinstance(a, Poly):
                return vite(C.ge_const(a, 0, pc), 0, -1)    # the sign
            return shr(a, k)
        x = pscale(a, 1 << k)
        return self.norm(x, w, sg, pc)

    def ptr_bin(self, pc, op, a, b, T):
        if op in ("Eq", "Ne", "Lt", "Gt", "Le", "Ge"):
            if isinstance(a, FnV) and isinstance(b, FnV):
                return B(int((a == b) == (op == "Eq")))
            r = self.ptr_cmp(pc, op, a, b)
            if r is not None:
                return r
        if op == "Offset":
            if isinstance(a, NPtr):
                return a
            return self.ptr_off(a, b)
        if isinstance(a, Addr) and op in ("BitAnd", "Rem") :
            return 0   # alignment tests: addresses of typed places are aligned
        if isinstance(a, Addr) or isinstance(b, Addr):
            pa = a.p if isinstance(a, Addr) else a
            pb = b.p if isinstance(b, Addr) else b
            if op in ("Eq", "Ne"):
                if isinstance(pa, int) or isinstance(pb, int):
                    return B(1 if op == "Ne" else 0)
                return self.ptr_cmp(pc, op, pa, pb)
        if hasattr(a, "binop"):
            return a.binop(self, pc, op, a, b, T)
        if hasattr(b, "binop"):
            return b.binop(self, pc, op, a, b, T)
        raise Unsupported("operation %s on %r, %r" % (op, a, b))

    def ptr_cmp(self, pc, op, a, b):
        if isinstance(a, NPtr) and isinstance(b, NPtr):
            x, y = a.addr, b.addr
            return B({"Eq": x == y, "Ne": x != y, "Lt": x < y, "Gt": x > y, "Le": x <= y, "Ge": x >= y}[op] and 1 or 0)
        if isinstance(a, NPtr) or isinstance(b, NPtr):
            if op in ("Eq", "Ne"):
                n, q = (a, b) if isinstance(a, NPtr) else (b, a)
                if n.addr == 0 or True:
                    return B(1 if op == "Ne" else 0)
            return None
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            pa, pb = self.canon(a), self.canon(b)
            if pa.obj == pb.obj and len(pa.path) == len(pb.path) and pa.path and pa.path[:-1] == pb.path[:-1] \
                    and C.is_num(pa.path[-1]) and C.is_num(pb.path[-1]):
                x, y = pa.path[-1], pb.path[-1]
                return self._bin(pc, op, x, y, {"k": "int", "w": 64, "s": True}, False)
            if pa.obj == pb.obj and pa.path == pb.path and op in ("Eq", "Ne"):
                return B(1 if op == "Eq" else 0)
            if pa.obj != pb.obj and op in ("Eq", "Ne"):
                return B(1 if op == "Ne" else 0)
        return None

    def canon(self, p):
        return p

    def ptr_off(self, p, n):
        if not isinstance(p, Ptr):
            if hasattr(p, "offset"):
                return p.offset(n)
            raise Unsupported("offset of %r" % (p,))
        if isinstance(n, int) and n == 0:
            return p
        if p.path and C.is_num(p.path[-1]) and p.as_ is None:
            return Ptr(p.obj, p.path[:-1] + (padd(p.path[-1], n),), p.meta, p.as_)
        if p.path and C.is_num(p.path[-1]) and p.as_ is not None:
            # reinterpreted elements of the same size
            et = self.ty_at(p.obj, p.path)
            if self.T[et].get("size") == self.T[p.as_[0]].get("size") and not p.as_[1]:
                return Ptr(p.obj, p.path[:-1] + (padd(p.path[-1], n),), p.meta, p.as_)
        if p.as_ is not None and not p.path:
            pass
        if p.as_ is not None and self.T[p.as_[0]]["k"] == "array" and p.as_[1] and C.is_num(p.as_[1][-1]):
            return Ptr(p.obj, p.path, p.meta, (p.as_[0], p.as_[1][:-1] + (padd(p.as_[1][-1], n),)))
        raise Unsupported("pointer arithmetic on %r" % (p,))

    # ------------------------------------------------------------ pointer casts
    def cast_ptr(self, p, src, dst):
        """pointer to src (type) -> pointer to dst."""
        if src == dst:
            return p
        return C.mapply(lambda x: self._cast_ptr(x, src, dst), p)

    def _cast_ptr(self, p, src, dst):
        if isinstance(p, Undef):
            return UNDEF
        if not isinstance(p, Ptr):
            if isinstance(p, NPtr):
                D = self.T[dst]
                return NPtr(p.addr, p.meta if D["k"] in ("slice", "str", "dyn") else None)
            if hasattr(p, "cast_ptr"):
                return p.cast_ptr(src, dst, self)
            return p
        S, D = self.T[src], self.T[dst]
        if D["k"] in ("slice", "str"):
            if S["k"] in ("slice", "str"):
                if S["k"] == D["k"] == "slice" and S["e"] != D["e"] and self.T[S["e"]]["size"] != self.T[D["e"]]["size"]:
                    raise Unsupported("slice cast")
                return p
            return Ptr(p.obj, p.path, p.meta, p.as_)
        meta = p.meta if D["k"] == "dyn" else None
        if S["k"] in ("slice", "str"):
            e = S["e"] if S["k"] == "slice" else self.mir.tyname["u8"]
            p = Ptr(p.obj, p.path, None, p.as_)
            if D["k"] == "array" and D["e"] == e:
                return self.view_arr(p, D["len"], dst)
            if e == dst:
                return p
            src, S = e, self.T[e]
        p = Ptr(p.obj, p.path, meta, p.as_)
        t = self.obj_ty(p.obj)
        if t is None:
            # untyped heap block: typed by the first cast
            if D["k"] == "int" and D["w"] == 8 and D["n"] != "u8":
                return p
            if D.get("size"):
                self.ot[p.obj] = dst
            return p
        if p.as_ is not None:
            cur = self.ty_at(p.obj, p.path)
            if cur == dst:
                return Ptr(p.obj, p.path, p.meta, None)
            if p.as_[1]:
                if len(p.as_[1]) and C.is_num(p.as_[1][-1]) and self.T[p.as_[0]]["k"] == "array" and p.as_[0] == dst:
                    return Ptr(p.obj, p.path, p.meta, (p.as_[0], ()))
                raise Unsupported("cast of reinterpreted pointer")
            return self.descend(Ptr(p.obj, p.path, p.meta, None), cur, dst)
        cur = self.ty_at(p.obj, p.path)
        return self.descend(p, cur, dst)

    def view_arr(self, p, n, dst):
        """pointer to first element -> pointer to [T; n]."""
        if p.as_ is not None:
            raise Unsupported("array view of reinterpreted pointer")
        if not p.path or not C.is_num(p.path[-1]):
            if n == 1:
                return Ptr(p.obj, p.path, None, (dst, ()))
            raise Unsupported("array view of a non-element")
        i = p.path[-1]
        par = p.path[:-1]
        pt = self.ty_at(p.obj, par)
        L = self.T[pt].get("len")
        if i == 0 and L == n:
            return Ptr(p.obj, par)
        return Ptr(p.obj, par + (("S", i, n),))

    def descend(self, p, cur, dst):
        if cur == dst:
            return p
        D = self.T[dst]
        # go down through leading components
        path, t = p.path, cur
        for _ in range(12):
            T = self.T[t]
            if T["k"] == "array":
                if D["k"] == "array" and D["e"] == T["e"] and False:
                    break
                if path and isinstance(path[-1], tuple) and path[-1][0] == "S":
                    path, t = path[:-1] + (path[-1][1],), T["e"]
                else:
                    path, t = path + (0,), T["e"]
            elif T["k"] == "adt" and T["ak"] == "struct" and T["vars"][0]["f"]:
                i = next((j for j, o in enumerate(T["offs"]) if o == 0 and self.T[T["vars"][0]["f"][j][1]].get("size")), None)
                if i is None:
                    break
                path, t = path + (("f", i),), T["vars"][0]["f"][i][1]
            elif T["k"] == "adt" and T["ak"] == "union":
                i = max(range(len(T["vars"][0]["f"])), key=lambda j: self.T[T["vars"][0]["f"][j][1]].get("size") or 0)
                path, t = path + (("u", i),), T["vars"][0]["f"][i][1]
            elif T["k"] == "tuple" and T["f"]:
                i = next((j for j, o in enumerate(T["offs"]) if o == 0 and self.T[T["f"][j]].get("size")), None)
                if i is None:
                    break
                path, t = path + (("f", i),), T["f"][i]
            else:
                break
            if t == dst:
                return Ptr(p.obj, path, p.meta)
        # array of the current element
        if D["k"] == "array" and D["e"] == cur and p.path and C.is_num(p.path[-1]):
            return self.view_arr(Ptr(p.obj, p.path), D["len"], dst)
        # go up through enclosing components at offset 0
        path = p.path
        for _ in range(12):
            if not path:
                break
            s = path[-1]
            up = path[:-1]
            if isinstance(s, int) and s == 0 or (isinstance(s, tuple) and s[0] in ("f", "u")):
                if up and isinstance(up[-1], tuple) and up[-1][0] == "d":
                    break
                t = self.ty_at(p.obj, up)
                if isinstance(s, tuple) and s[0] == "f" and self.T[t]["offs"][s[1]] != 0:
                    break
                if t == dst:
                    return Ptr(p.obj, up, p.meta)
                path = up
                continue
            break
        if not D.get("size") and D["k"] != "dyn":
            return Ptr(p.obj, p.path, p.meta, (dst, ()))
        if D["k"] == "dyn":
            return p
        return Ptr(p.obj, p.path, p.meta, (dst, ()))

    def unsize(self, p, src, dst):
        S, D = self.T[src], self.T[dst]
        if D["k"] == "slice" and S["k"] == "array":
            def f(x):
                if isinstance(x, NPtr):
                    return NPtr(x.addr, S["len"])
                if not isinstance(x, Ptr):
                    if hasattr(x, "unsize"):
                        return x.unsize(S["len"])
                    raise Unsupported("unsize %r" % (x,))
                if x.as_ is not None:
                    return Ptr(x.obj, x.path, S["len"], (x.as_[0], x.as_[1] + (0,)))
                if x.path and isinstance(x.path[-1], tuple) and x.path[-1][0] == "S":
                    return Ptr(x.obj, x.path[:-1] + (x.path[-1][1],), S["len"])
                return Ptr(x.obj, x.path + (0,), S["len"])
            return C.mapply(f, p)
        if D["k"] == "dyn":
            return C.mapply(lambda x: DynPtr(x, src), p)
        if D["k"] == "adt" or S["k"] == "adt":
            # smart pointer unsizing is not used by the code under analysis
            raise Unsupported("unsize of " + S["n"])
        raise Unsupported("unsize to " + D["n"])

    # ------------------------------------------------------------------ places
    def place(self, st, fid, pl):
        """-> Ptr-like (possibly guarded) address, type."""
        obj = (fid, pl[0])
        t = self.ft[fid][pl[0]]
        if len(pl) == 1:
            return Ptr(obj), t
        p = Ptr(obj)
        var = None
        for s in pl[1:]:
            if s == "*":
                v = self.load(st, p)
                if isinstance(v, Node):
                    v = vconstrain(v, st.pc)
                T = self.T[t]
                if T["k"] == "adt":      # Box deref
                    steps, t2 = self.peel_box(t)
                    v = self.unwrap(v, steps)
                    t = self.T[t2]["e"]
                else:
                    t = T["e"]
                p = v
                continue
            k = s[0]
            if k == "f":
                T = self.T[t]
                if T["k"] == "adt" and T["ak"] == "union":
                    step = ("u", s[1])
                else:
                    step = ("f", s[1])
                p = self.addpath(p, step)
                t = s[2]
            elif k == "i":
                ix = st.mem.get((fid, s[1]), UNDEF)
                if isinstance(ix, Node):
                    ix = vconstrain(ix, st.pc)
                t0 = t
                t = self.elem(t)
                p = self.addidx(st, p, ix, t0)
            elif k == "c":
                off, fe, mn = s[1], s[2], s[3]
                T = self.T[t]
                if fe:
                    n = T["len"] if T["k"] == "array" else self.meta_of(p)
                    ix = psub(n, off)
                else:
                    ix = off
                t0 = t
                t = self.elem(t)
                p = self.addidx(st, p, ix, t0)
            elif k == "d":
                p = self.addpath(p, ("d", s[1]))
            elif k == "s":
                fr, to, fe = s[1], s[2], s[3]
                T = self.T[t]
                n = T["len"] if T["k"] == "array" else self.meta_of(p)
                end = psub(n, to) if fe else to
                q = self.addidx(st, p, fr, t)
                if T["k"] == "array":
                    L = psub(end, fr)
                    q = Ptr(q.obj, q.path[:-1] + (("S", fr, L),))
                    t = self.arr_ty(T["e"], L)
                else:
                    q = C.mapply(lambda x: Ptr(x.obj, x.path, psub(end, fr), x.as_), q)
                p = q
            elif k == "o":
                t = s[1]
            else:
                raise Unsupported("projection %r" % (s,))
        return p, t

    def elem(self, t):
        T = self.T[t]
        return T["e"] if "e" in T else self.mir.tyname["u8"]

    def peel_box(self, t):
        steps = []
        while True:
            T = self.T[t]
            if T["k"] == "pat":
                t = T["e"]
                continue
            if T["k"] in ("ptr", "ref"):
                return steps, t
            if T["k"] != "adt":
                raise Unsupported("deref of " + T["n"])
            steps.append(("f", 0, t))
            t = T["vars"][0]["f"][0][1]

    def meta_of(self, p):
        if isinstance(p, Node):
            return C.mapply(lambda x: x.meta, p)
        return p.meta

    def addpath(self, p, step):
        if isinstance(p, Ptr):
            if p.as_ is not None:
                return Ptr(p.obj, p.path, p.meta, (p.as_[0], p.as_[1] + (step,)))
            return Ptr(p.obj, p.path + (step,), p.meta)
        if isinstance(p, Node):
            return C.mapply(lambda x: self.addpath(x, step), p)
        if hasattr(p, "addpath"):
            return p.addpath(step)
        raise Unsupported("projection of %r" % (p,))

    def addidx(self, st, p, ix, t):
        """address of element ix of the array/slice p points to."""
        if isinstance(p, Node) or isinstance(ix, Node):
            return pmap(lambda pc, x, i: self._addidx(pc, x, i, t), st.pc, p, ix)
        return self._addidx(st.pc, p, ix, t)

    def _addidx(self, pc, p, ix, t):
        if isinstance(ix, Undef):
            raise Unsupported("undefined index")
        if not isinstance(p, Ptr):
            if hasattr(p, "addidx"):
                return p.addidx(ix)
            raise Unsupported("index of %r" % (p,))
        if isinstance(ix, Poly) and pc != 1:
            b = bounds(ix, pc)
            if b is not None and b[0] is not None and b[0] == b[1]:
                ix = b[0]
        k = self.T[t]["k"]
        if k in ("slice", "str"):
            if p.as_ is not None:
                return Ptr(p.obj, p.path, None, (p.as_[0], p.as_[1][:-1] + (padd(p.as_[1][-1], ix),)))
            if not p.path:
                raise Unsupported("slice of a non-array")
            return Ptr(p.obj, p.path[:-1] + (padd(p.path[-1], ix),))
        if p.as_ is not None:
            return Ptr(p.obj, p.path, None, (p.as_[0], p.as_[1] + (ix,)))
        if p.path and isinstance(p.path[-1], tuple) and p.path[-1][0] == "S":
            return Ptr(p.obj, p.path[:-1] + (padd(p.path[-1][1], ix),))
        return Ptr(p.obj, p.path + (ix,))

    # --------------------------------------------------------------- operands
    def operand(self, st, fid, op):
        k = op[0]
        if k == "c" or k == "m":
            pl = op[1]
            if len(pl) == 1:
                v = st.mem.get((fid, pl[0]), UNDEF)
            else:
                v = self.load(st, self.place(st, fid, pl)[0])
            if isinstance(v, Node) or (isinstance(v, B) and v.n > 1):
                if st.pc != 1:
                    v = vconstrain(v, st.pc)
            return v
        if k == "k":
            return self.const(op)
        if k == "r":
            return FALSE
        raise Unsupported("operand %r" % (op,))

    def optype(self, fid, op):
        if op[0] in ("c", "m"):
            pl = op[1]
            t = self.ft[fid][pl[0]]
            for s in pl[1:]:
                t = self.proj_ty(t, s)
            return t
        if op[0] == "k":
            return op[1]
        return self.mir.tyname["bool"]

    def proj_ty(self, t, s):
        T = self.T[t]
        if s == "*":
            if T["k"] == "adt":
                return self.T[self.peel_box(t)[1]]["e"]
            return T["e"]
        if s[0] == "f":
            return s[2]
        if s[0] in ("i", "c"):
            return self.elem(t)
        if s[0] == "o":
            return s[1]
        return t

    # --------------------------------------------------------------- rvalues
    def rvalue(self, st, fid, rv, F):
        k = rv[0]
        if k == "use":
            return self.operand(st, fid, rv[1])
        if k == "ref" or k == "addr":
            p, t = self.place(st, fid, rv[1])
            return p
        if k == "bin":
            a = self.operand(st, fid, rv[2])
            b = self.operand(st, fid, rv[3])
            if rv[1] == "Offset":
                return pmap(lambda pc, x, y: x if isinstance(x, NPtr) else self.ptr_off(x, y), st.pc, a, b)
            return self.binop(rv[1], a, b, rv[4], st.pc)
        if k == "chk":
            a = self.operand(st, fid, rv[2])
            b = self.operand(st, fid, rv[3])
            return self.binop(rv[1], a, b, rv[4], st.pc, True)
        if k == "un":
            a = self.operand(st, fid, rv[2])
            if rv[1] == "PtrMetadata":
                m = C.mapply(lambda x: x.meta, a)
                return () if m is None else m
            t = rv[3]
            T = self.T[t]
            if rv[1] == "Not":
                if T["k"] == "bool":
                    return B(bnot(self.tobdd(a, st.pc)))
                w = T["w"]
                if T["s"]:
                    return pmap(lambda pc, x: psub(-1, x), st.pc, a)
                return pmap(lambda pc, x: UNDEF if isinstance(x, Undef) else psub((1 << w) - 1, x), st.pc, a)
            if rv[1] == "Neg":
                w = T["w"]
                return pmap(lambda pc, x: self.norm(psub(0, x), w, True, pc), st.pc, a)
            raise Unsupported("unary " + rv[1])
        if k == "cast":
            return self.cast(st, fid, rv)
        if k == "agg":
            return self.agg(st, fid, rv)
        if k == "discr":
            p, t = self.place(st, fid, rv[1])
            v = self.load(st, p)
            T = self.T[t]
            vs = T["vars"]

            def d(x):
                if isinstance(x, EnumV):
                    k = vs[x.var]["d"]
                    if T["n"] == "std::cmp::Ordering" and k > 127:
                        k -= 256
                    return k
                if isinstance(x, Undef):
                    return UNDEF
                if hasattr(x, "discr"):
                    return x.discr(self)
                raise Unsupported("discriminant of %r" % (x,))
            return C.mapply(d, v)
        if k == "len":
            p, t = self.place(st, fid, rv[1])
            T = self.T[t]
            return T["len"] if T["k"] == "array" else self.meta_of(p)
        if k == "rep":
            x = self.operand(st, fid, rv[1])
            return (x,) * rv[2]
        raise Unsupported("rvalue " + k)

    def agg(self, st, fid, rv):
        kind, ty, var, ops = rv[1], rv[2], rv[3], rv[4]
        vs = tuple(self.operand(st, fid, o) for o in ops)
        if kind in ("array", "tuple", "closure"):
            return vs
        if kind == "adt":
            if self.T[ty]["ak"] == "enum":
                return EnumV(var, vs)
            return vs
        if kind == "union":
            return vs[0]
        if kind == "rawptr":
            T = self.T[ty]
            e = self.T[T["e"]] if "e" in T else T

            def f(x, m):
                if isinstance(m, tuple):
                    return x
                if isinstance(x, NPtr):
                    return NPtr(x.addr, m)
                if not isinstance(x, Ptr):
                    if hasattr(x, "with_meta"):
                        return x.with_meta(m)
                    raise Unsupported("fat pointer from %r" % (x,))
                if x.as_ is None and (not x.path or not C.is_num(x.path[-1])):
                    # pointer to a single element
                    return Ptr(x.obj, x.path, m, x.as_)
                return Ptr(x.obj, x.path, m, x.as_)
            if isinstance(vs[1], Node) and not isinstance(vs[0], Node):
                return f(vs[0], vs[1])
            return C.mapply(f, vs[0], vs[1])
        raise Unsupported("aggregate " + kind)

    def cast(self, st, fid, rv):
        kind, op, to, frm = rv[1], rv[2], rv[3], rv[4]
        v = self.operand(st, fid, op)
        if kind == "IntToInt":
            # the dump orders target, source
            return self.cast_int(v, self.optype(fid, op), self.cast_target(rv, fid), st.pc)
        dst = self.cast_target(rv, fid)
        src = self.optype(fid, op)
        if kind == "PtrToPtr":
            return self.cast_ptr(v, self.T[src]["e"], self.T[dst]["e"])
        if kind == "Transmute" or kind == "BoxDerefTransmute":
            return self.reinterpret(v, src, dst, st.pc)
        if kind == "PointerCoercion(Unsize)":
            S, D = self.T[src], self.T[dst]
            if S["k"] == "adt":
                s1, a = self.peel_box(src)
                d1, b = self.peel_box(dst)
                x = self.unwrap(v, s1)
                x = self.unsize(x, self.T[a]["e"], self.T[b]["e"])
                return self.rewrap_box(v, x, src)
            return self.unsize(v, S["e"], D["e"])
        if kind.startswith("PointerCoercion"):
            return v
        if kind in ("PointerExposeProvenance", "PointerExposeAddress"):
            return self.ptr_addr(v)
        raise Unsupported("cast " + kind)

    def rewrap_box(self, v, x, t):
        raise Unsupported("unsize box")

    def cast_target(self, rv, fid):
        return rv[3] if self._cast_to_first else rv[4]

    _cast_to_first = True

    # ------------------------------------------------------------ statements
    def stmt(self, st, fid, s, F):
        k = s[0]
        if k == "=":
            v = self.rvalue(st, fid, s[2], F)
            pl = s[1]
            if len(pl) == 1:
                st.mem[(fid, pl[0])] = v
            else:
                p, t = self.place(st, fid, pl)
                self.store(st, p, v)
        elif k == "dead" or k == "live":
            st.mem.pop((fid, s[1]), None)
        elif k == "setd":
            p, t = self.place(st, fid, s[1])
            v = self.load(st, p)
            var = s[2]
            n = self.nfields(t, var)

            def f(x):
                if isinstance(x, EnumV):
                    if x.var == var:
                        return x
                return EnumV(var, (UNDEF,) * n)
            self.store(st, p, C.mapply(f, v))
        elif k == "copy":
            src = self.operand(st, fid, s[1])
            dst = self.operand(st, fid, s[2])
            cnt = self.operand(st, fid, s[3])
            self.copy(st, src, dst, cnt, self.T[self.optype(fid, s[1])]["e"])
        elif k == "nop":
            pass
        else:
            raise Unsupported("statement " + k)

    def copy(self, st, src, dst, cnt, ety):
        """copy_nonoverlapping / memmove of cnt elements of type ety."""
        if isinstance(cnt, Node):
            cnt = vconstrain(cnt, st.pc)
        if isinstance(cnt, Poly):
            b = bounds(cnt, st.pc)
            if b is not None and b[0] is not None and b[0] == b[1]:
                cnt = b[0]
        if isinstance(cnt, Node) or isinstance(cnt, Poly):
            lv = []
            for g, x in (C.leaves(cnt) if isinstance(cnt, Node) else [(1, cnt)]):
                g = band(g, st.pc)
                if not g or not feas(g):
                    continue
                if isinstance(x, Poly):
                    b = bounds(x, g)
                    if b is None:
                        continue
                    if b[0] is None or b[1] is None or b[1] - b[0] > 64:
                        b = C.bounds_deep(x, g)
                        if b is None:
                            continue
                    if b[0] is not None and b[1] is not None and b[1] - b[0] <= 64:
                        for k in range(max(0, b[0]), b[1] + 1):
                            lv.append((band(g, C.eq(x, k, g)), k))
                        continue
                lv.append((g, x))
            if not all(isinstance(x, int) for g, x in lv):
                lv = None
            if lv is None:
                if True:
                    h = self.hooks.get("$copy")
                    if h:
                        return h(self, st, src, dst, cnt, ety)
                    raise Unsupported("copy of symbolic length")
            base = st.mem
            out = None
            for g, k in lv:
                if not g or not feas(g):
                    continue
                s2 = St(dict(base), g)
                sp, dp = self.settle(src, g), self.settle(dst, g)
                vals = [self._rd(s2, sp, j, ety, g) for j in range(k)]
                for j, v in enumerate(vals):
                    self._wr(s2, dp, j, ety, v)
                out = s2 if out is None else self.join(out, s2)
            if out is not None:
                st.mem = out.mem
            return
        vals = [self._rd(st, src, j, ety, st.pc) for j in range(cnt)]
        for j, v in enumerate(vals):
            self._wr(st, dst, j, ety, v)

    def settle(self, p, pc):
        """p with the indices the condition pins down made constant"""
        def f(pc, x):
            if not isinstance(x, Ptr) or not any(isinstance(i, Poly) for i in x.path):
                return x

            def one(i):
                if isinstance(i, Poly):
                    b = bounds(i, pc)
                    if b is not None and b[0] is not None and b[0] == b[1]:
                        return b[0]
                return i
            return Ptr(x.obj, tuple(one(i) for i in x.path), x.meta, x.as_)
        return pmap(f, pc, p)

    def _rd(self, st, p, j, ety, pc):
        q = C.mapply(lambda x: self.ptr_off(x, j), p)
        s2 = St(st.mem, pc)
        return self.load(s2, q, ety)

    def _wr(self, st, p, j, ety, v):
        q = C.mapply(lambda x: self.ptr_off(x, j), p)
        self.store(st, q, v)

    # ------------------------------------------------------------------ control
    def push(self, ins, bb, st):
        if st.pc == 0:
            return
        if self.liveness and type(ins) is Ins:
            fid, mem = ins.fid, st.mem
            for l in ins.dead[bb]:
                mem.pop((fid, l), None)
        o = ins.get(bb)
        ins[bb] = st if o is None else self.join(o, st)

    def join(self, a, b):
        self.stats["joins"] += 1
        pc = bor(a.pc, b.pc)
        f = bconstrain(a.pc, pc) if pc != 1 else a.pc
        mem = {}
        bm = b.mem
        for k, x in a.mem.items():
            y = bm.get(k)
            if y is None:
                if isinstance(k[0], int):
                    continue     # out of scope on one side
                mem[k] = x
                continue
            if x is y:
                mem[k] = x
            else:
                mem[k] = vite(f, x, y)
        for k, y in bm.items():
            if k not in mem and k not in a.mem and not isinstance(k[0], int):
                mem[k] = y
        return St(mem, pc)

    def run_fn(self, F, args, st):
        """-> (value, St) or None when the call cannot return."""
        if F.blocks is None:
            raise Unsupported("no body: " + F.name)
        self.nfid += 1
        fid = self.nfid
        self.ft[fid] = F.locals
        self.stats["fns"].add(F.name)
        st = st.copy()
        if F.spread:
            n = F.spread
            if len(args) != F.argc:
                args = list(args[:n - 1]) + [tuple(args[n - 1:])]
        elif len(args) != F.argc:
            if len(args) and isinstance(args[-1], tuple) and len(args) - 1 + len(args[-1]) == F.argc:
                args = list(args[:-1]) + list(args[-1])
            else:
                raise Unsupported("argument count of " + F.name)
        elif len(args) == 2 and isinstance(args[1], tuple) and len(args[1]) == 1 and CLOSURE.search(F.name):
            T = self.T[F.locals[2]]
            if not (T["k"] == "tuple" and len(T["f"]) == 1):
                args = [args[0], args[1][0]]
        for i, a in enumerate(args):
            st.mem[(fid, i + 1)] = a
        self.stack.append(F.name)
        if len(self.stack) > 120:
            raise Unsupported("call depth")
        ins = {0: st}
        if self.liveness:
            ins = Ins(ins)
            ins.fid = fid
            if F.dead is None:
                F.dead = dead_on_entry(F)
            ins.dead = F.dead
        rets = []
        self.run_elems(self.mir.order(F), ins, F, fid, rets)
        self.stack.pop()
        if not rets:
            return None
        r = rets[0]
        for x in rets[1:]:
            r = self.join(r, x)
        val = r.mem.get((fid, 0), ())
        if isinstance(val, Undef) and not self.T[F.locals[0]].get("size"):
            val = self.zst(F.locals[0])
        mem = r.mem
        for i in range(len(F.locals)):
            mem.pop((fid, i), None)
        if isinstance(val, (Node,)) and r.pc != 1:
            val = vconstrain(val, r.pc)
        return val, r

    def run_elems(self, elems, ins, F, fid, rets):
        for e in elems:
            if isinstance(e, int):
                st = ins.pop(e, None)
                if st is not None:
                    self.block(e, st, ins, F, fid, rets)
            else:
                h, inner, nodes = e
                lh = self.hooks.get(("loop", F.name)) or self.hooks.get(("loop", "*"))
                if lh is not None:
                    done = lh(self, F, fid, h, inner, nodes, ins, rets)
                    if done:
                        continue
                n = 0
                while True:
                    st = ins.pop(h, None)
                    if st is None:
                        break
                    if n and not feas(st.pc):
                        break
                    n += 1
                    self.stats["iters"] += 1
                    if n > self.loop_limit:
                        raise Unsupported("loop in %s does not terminate in the domain" % F.name)
                    turn = self.hooks.get(("turn", F.name))
                    if turn is not None:
                        turn(self, st)
                    self.block(h, st, ins, F, fid, rets)
                    self.run_elems(inner, ins, F, fid, rets)

    trial = 40

    def accel(self, F, fid, h, inner, nodes, ins, rets):
        """Replace a loop of unknown trip count by the set of its head states
        x0 + d*j, where every iteration is seen to add the constant d to the
        changed number cells; cells that are written before being read become
        undefined at the head.  False when the loop has another shape (or a
        small trip count) and is to be unrolled."""
        st0 = ins.get(h)
        if st0 is None:
            return False
        nobl, depth = len(self.obls), len(self.stack)

        def body(st):
            i2, r2 = {}, []
            self.block(h, st, i2, F, fid, r2)
            self.run_elems(inner, i2, F, fid, r2)
            b = i2.pop(h, None)
            if b is not None and not feas(b.pc):
                b = None
            return b, i2, r2
        try:
            # a small number of turns is simply followed
            i2, r2 = {h: st0.copy()}, []
            for turn in range(600):
                s = i2.pop(h, None)
                if turn >= self.trial and s is not None and s.pc != st0.pc and feas(s.pc):
                    break
                if s is None or (turn and not feas(s.pc)):
                    ins.pop(h, None)
                    for bb, s in i2.items():
                        self.push(ins, bb, s)
                    rets.extend(r2)
                    return True
                self.block(h, s, i2, F, fid, r2)
                self.run_elems(inner, i2, F, fid, r2)
        except (Diverge, Unsupported):
            pass
        del self.obls[nobl:]
        del self.stack[depth:]
        try:
            b, _, _ = body(st0.copy())
            del self.obls[nobl:]
            if b is None:
                return False
            POISON = object()
            found = [0]

            def shape(x, y):
                if x is y or (not isinstance(x, Node) and not isinstance(y, Node) and type(x) == type(y) and x == y):
                    return None
                if isinstance(x, tuple) and isinstance(y, tuple) and len(x) == len(y):
                    q = [shape(p, r) for p, r in zip(x, y)]
                    return POISON if any(z is POISON for z in q) else q
                try:
                    d = vconstrain(C.mapply(lambda p, r: psub(r, p) if C.is_num(p) and C.is_num(r) else UNDEF, x, y), b.pc)
                except Unsupported:
                    return POISON
                ls = C.leaves(d) if isinstance(d, Node) else [(1, d)]
                ks = {l for g, l in ls if feas(band(g, b.pc)) and not isinstance(l, Undef)}
                if len(ks) == 1 and not any(isinstance(l, Undef) and feas(band(g, b.pc)) for g, l in ls) and isinstance(next(iter(ks)), int):
                    found[0] += 1
                    k = next(iter(ks))
                    return k if k else None
                return POISON
            shapes = {}
            for k, y in b.mem.items():
                x = st0.mem.get(k)
                if x is None:
                    if isinstance(k[0], int) and k[0] == fid:
                        shapes[k] = POISON
                    continue
                s = shape(x, y)
                if s is POISON and not (isinstance(k[0], int) and k[0] == fid):
                    return False
                if s is not None:
                    shapes[k] = s
            for k in st0.mem:
                if k not in b.mem and isinstance(k[0], int):
                    shapes[k] = POISON
            if not found[0]:
                return False
            j = C.new_atom(0, 2**40, "turns")

            def at(x, s, i):
                if s is None:
                    return x
                if s is POISON:
                    return UNDEF
                if isinstance(s, list):
                    return tuple(at(p, q, i) for p, q in zip(x, s))
                return C.mapply(lambda p: padd(p, pscale(i, s)), x)

            def head(st, i):
                r = st.copy()
                for k, s in shapes.items():
                    if s is POISON:
                        r.mem[k] = STALE
                    elif i is not None:
                        r.mem[k] = at(st0.mem[k], s, i)
                return r
            g = head(st0, j)
            b, _, _ = body(g.copy())
            del self.obls[nobl:]
            if b is None:
                return False
            bj = bounds(j, b.pc)
            if bj is None or (bj[1] is not None and bj[1] <= 64):
                return False

            def same(x, y, pc):
                if x is y:
                    return True
                if isinstance(x, tuple) and isinstance(y, tuple) and len(x) == len(y):
                    return all(same(p, q, pc) for p, q in zip(x, y))
                if isinstance(x, (Node, Poly, int)) and isinstance(y, (Node, Poly, int)):
                    d = vconstrain(C.mapply(lambda p, r: psub(r, p) if C.is_num(p) and C.is_num(r) else (0 if p == r else UNDEF), x, y), pc)
                    return all((isinstance(l, int) and l == 0) or not feas(band(gg, pc)) for gg, l in (C.leaves(d) if isinstance(d, Node) else [(1, d)]))
                return x == y
            want = head(st0, padd(j, 1))
            for k, y in b.mem.items():
                if shapes.get(k) is POISON:
                    continue
                x = want.mem.get(k)
                if x is None:
                    if isinstance(k[0], int):
                        shapes[k] = POISON
                        continue
                    return False
                if not same(x, y, b.pc):
                    return False
        except (Diverge, Unsupported):
            del self.obls[nobl:]
            del self.stack[depth:]
            return False
        # some changed number is bounded in the direction it moves
        rank = [False]

        def ranks(x, s):
            if isinstance(s, list):
                for p, q in zip(x, s):
                    ranks(p, q)
            elif isinstance(s, int) and s < 0:
                v = C.mapply(lambda p: padd(p, pscale(padd(j, 1), s)), x)
                ls = C.leaves(v) if isinstance(v, Node) else [(1, v)]
                if all((lambda q: q is None or (q[0] is not None and q[0] >= 0))(bounds(l, band(g, b.pc))) for g, l in ls if feas(band(g, b.pc))):
                    rank[0] = True
        for k, s in shapes.items():
            if s is not POISON and s is not None:
                ranks(st0.mem[k], s)
        self.obls.append(Obligation("termination", F.name, "a loop may not terminate", b.pc, None, rank[0]))
        f = C.bvar(C.mkvar("op", ("first turn", self.nheap, id(j))))
        self.keep = getattr(self, "keep", []) + [j]
        a = head(st0, None)
        a.pc = band(a.pc, f)
        for k, s in shapes.items():
            if s is POISON:
                b.mem[k] = STALE
            elif s is not None:
                b.mem[k] = want.mem[k]
        b.pc = band(b.pc, bnot(f))
        hs = self.join(a, b) if feas(b.pc) else a
        self.stats["accelerated"] = self.stats.get("accelerated", 0) + 1
        self.facts_loop = getattr(self, "facts_loop", []) + [(F.name, j, f)]
        _, i2, r2 = body(hs)
        ins.pop(h, None)
        for bb, s in i2.items():
            self.push(ins, bb, s)
        rets.extend(r2)
        return True

    def block(self, bb, st, ins, F, fid, rets):
        b = F.blocks[bb]
        for s in b["s"]:
            self.stmt(st, fid, s, F)
        self.stats["stmts"] += len(b["s"]) + 1
        if self.budget is not None and self.stats["stmts"] > self.budget:
            raise Unsupported("analysis budget exceeded")
        t = b["t"]
        k = t[0]
        if k == "goto":
            self.push(ins, t[1], st)
        elif k == "switch":
            self.switch(t, st, ins, fid)
        elif k == "call":
            self.do_call(t, st, ins, F, fid)
        elif k == "assert":
            c = self.tobdd(self.operand(st, fid, t[1]), st.pc)
            if not t[2]:
                c = bnot(c)
            bad = band(st.pc, bnot(c))
            if bad:
                ok = self.obligation(bad, "assert", F.name, t[3], t[-1])
                if not ok:
                    st.pc = band(st.pc, c)
                    if st.pc == 0:
                        return
                else:
                    pass
            else:
                self.obls.append(Obligation("assert", F.name, t[3], 0, t[-1], True))
            self.push(ins, t[4], st)
        elif k == "return":
            rets.append(st)
        elif k == "drop":
            if t[3] is not None:
                G = self.mir.fns.get(t[3])
                if G is not None and self.needs_drop(G):
                    p, ty = self.place(st, fid, t[1])
                    r = self.call(G, [p], st, F, [ty])
                    if r is None:
                        return
                    st = r[1]
            self.push(ins, t[2], st)
        elif k == "unreachable":
            self.obligation(st.pc, "unreachable", F.name, "unreachable", t[-1])
        elif k in ("resume", "abort"):
            pass
        else:
            raise Unsupported("terminator " + k)

    def needs_drop(self, G):
        return True

    def switch(self, t, st, ins, fid):
        v = self.operand(st, fid, t[1])
        cases, other = t[2], t[3]
        pc = st.pc
        if isinstance(v, B) or (isinstance(v, Node) and any(isinstance(x, B) for g, x in C.leaves(v))):
            n = self.tobdd(v, pc)
            rest = pc
            out = []
            for val, bb in cases:
                g = n if val else bnot(n)
                out.append((band(rest, g), bb))
                rest = band(rest, bnot(g))
            out.append((rest, other))
        elif isinstance(v, int):
            for val, bb in cases:
                if val == v or (v < 0 and (v & ((1 << 128) - 1)) == val) or (v < 0 and self.sw_match(v, val)):
                    self.push(ins, bb, st)
                    return
            self.push(ins, other, st)
            return
        else:
            out = []
            rest = pc
            ls = C.leaves(v) if isinstance(v, Node) else [(1, v)]
            for val, bb in cases:
                g = 0
                for gg, x in ls:
                    if isinstance(x, Undef):
                        if band(gg, pc) and feas(band(gg, pc)):
                            raise Unsupported("switch on an undefined value")
                        continue
                    if isinstance(x, int):
                        e = 1 if (x == val or (x < 0 and self.sw_match(x, val))) else 0
                    elif isinstance(x, Poly):
                        e = C.eq(x, val, band(gg, pc))
                    else:
                        raise Unsupported("switch on %r" % (x,))
                    g = bor(g, band(gg, e))
                out.append((band(rest, g), bb))
                rest = band(rest, bnot(g))
            out.append((rest, other))
        live = [(g, bb) for g, bb in out if g and feas(g)]
        for i, (g, bb) in enumerate(live):
            s2 = st if i == len(live) - 1 else St(dict(st.mem), g)
            s2.pc = g
            self.push(ins, bb, s2)

    def ctor(self, G, vals):
        """a tuple-struct or variant constructor used as a function"""
        if "{impl" in G.path or G.crate in ("core", "alloc", "std") and "::" not in G.path:
            return NotImplemented
        head, _, tail = G.path.rpartition("::")
        for T in self.T:
            if T["k"] != "adt":
                continue
            if T["ak"] == "struct" and T["path"] == G.path:
                if len(T["vars"][0]["f"]) == len(vals):
                    return tuple(vals)
            if T["ak"] == "enum" and T["path"] == head:
                for i, v in enumerate(T["vars"]):
                    if v["n"] == tail and len(v["f"]) == len(vals):
                        return EnumV(i, tuple(vals))
        return NotImplemented

    def sw_match(self, v, val):
        for w in (8, 16, 32, 64, 128):
            if v + (1 << w) == val:
                return True
        return False

    def do_call(self, t, st, ins, F, fid):
        tgt, args, dest, target = t[1], t[2], t[3], t[4]
        vals = [self.operand(st, fid, a) for a in args]
        argtys = t[5] if len(t) > 6 else None
        if "f" in tgt:
            G = self.mir.fns.get(tgt["f"])
            if G is None:
                raise Unsupported("unknown callee " + tgt["f"])
        elif "ptr" in tgt:
            fv = self.operand(st, fid, tgt["ptr"])
            if isinstance(fv, Node):
                raise Unsupported("guarded function pointer")
            G = self.mir.fns.get(fv.id) if isinstance(fv, FnV) else None
            if G is None:
                raise Unsupported("call through %r in %s" % (fv, F.name))
        else:
            raise Unsupported("unresolved call %r in %s" % (tgt, F.name))
        # locals moved out: nothing to do
        r = self.call(G, vals, st, F, argtys, t)
        if r is None:
            return
        val, st = r
        if target is None:
            return
        if len(dest) == 1:
            st.mem[(fid, dest[0])] = val
        else:
            p, ty = self.place(st, fid, dest)
            self.store(st, p, val)
        self.push(ins, target, st)

    def call(self, G, vals, st, F=None, argtys=None, term=None):
        self.calls[G.name] = self.calls.get(G.name, 0) + 1
        h = self.hooks.get(G.name)
        if h is None and G.path != G.name:
            h = self.hooks.get("path:" + G.path)
        if h is not None:
            r = h(self, st, vals, G)
            if r is not NotImplemented:
                if r is Diverge:
                    return None
                if isinstance(r, St):
                    raise Unsupported("hook")
                return r if isinstance(r, Ret) else Ret(r, st)
        if G.kind in ("intrinsic", "llvm") or G.intrinsic:
            from . import models
            r = models.intrinsic(self, G, vals, st, F)
            if r is not NotImplemented:
                return r if (r is None or isinstance(r, Ret)) else Ret(r, st)
        if term is not None and term[4] is None and self.is_panic(G):
            self.obligation(st.pc, "panic", F.name, self.panic_name(G), term[-1])
            return None
        if G.blocks is None:
            from . import models
            r = models.external(self, G, vals, st, F)
            if r is NotImplemented:
                r = self.ctor(G, vals)
            if r is NotImplemented:
                raise Unsupported("no model for " + G.name)
            return r if (r is None or isinstance(r, Ret)) else Ret(r, st)
        r = self.run_fn(G, vals, st)
        if r is None:
            return None
        return Ret(r[0], r[1])

    def is_panic(self, G):
        return True

    def panic_name(self, G):
        return G.name

    # ------------------------------------------------------------- conveniences
    def failed(self):
        return [o for o in self.obls if not o.ok]


class Ret(tuple):
    def __new__(cls, v, st):
        return tuple.__new__(cls, (v, st))

    v = property(lambda self: self[0])
    st = property(lambda self: self[1])


class NPtr(Opaque):
    """Dangling/null pointer with integer address."""

    __slots__ = ("addr", "meta")

    def __init__(self, addr, meta=None):
        self.addr = addr
        self.meta = meta

    def __eq__(self, o):
        return isinstance(o, NPtr) and o.addr == self.addr and o.meta == self.meta

    def __hash__(self):
        return hash(("np", self.addr))

    def __repr__(self):
        return "ptr(%d)" % self.addr


class Addr(Opaque):
    """Integer address of a pointer."""

    __slots__ = ("p",)

    def __init__(self, p):
        self.p = p

    def __eq__(self, o):
        return isinstance(o, Addr) and o.p == self.p

    def __hash__(self):
        return hash(("addr", self.p))


class PByte(Opaque):
    __slots__ = ("p", "i")

    def __init__(self, p, i):
        self.p, self.i = p, i

    def __eq__(self, o):
        return isinstance(o, PByte) and o.p == self.p and o.i == self.i

    def __hash__(self):
        return hash((self.p, self.i))


class DynPtr(Opaque):
    __slots__ = ("p", "ty", "meta")

    def __init__(self, p, ty):
        self.p, self.ty = p, ty
        self.meta = None

    def __eq__(self, o):
        return isinstance(o, DynPtr) and o.p == self.p and o.ty == self.ty

    def __hash__(self):
        return hash(self.p)
