"""Ambient effects, erasure of secrets, and the boxed constructors' use of the
allocator."""
import re
from ai import core as C, interp as I
from ai.core import B, UNDEF, Unsupported, Opaque, vite, band, bnot
from ai.interp import Ptr, NPtr
from .base import Unit
from .group import JA, AF, rec, unrec
from .mult import CTX, GEN, one_fn

L = "libsecp256k1"
OWN = ("libsecp256k1", "libsecp256k1_core")

# --- no ambient state -----------------------------------------------------

AMBIENT = re.compile(r"^<?(?:&(?:mut )?)?(?:std|core|alloc)::(time|env|fs|net|process|thread|os|sys|io)::|getrandom|rand::rngs|thread_rng|OsRng|"
                     r"_print|_eprint|std::random|catch_unwind|RandomState|HashMap|read_volatile$|black_box_read")
STATE = re.compile(r"\b(Cell|RefCell|UnsafeCell|OnceCell|LazyCell|OnceLock|LazyLock|Once|Mutex|RwLock|LocalKey|Atomic\w*|AtomicPtr)\b")


def closure(mir):
    """functions reachable from the library's own, by crate"""
    own = [f for f in mir.fns.values() if f.crate in OWN]
    return own


def type_state(T, types, seen):
    """does a type hold something that can change behind a shared reference?"""
    if T in seen:
        return None
    seen.add(T)
    t = types[T]
    m = STATE.search(t["n"])
    if m:
        return t["n"]
    subs = []
    if t.get("e") is not None:
        if t["k"] == "ptr" and t.get("mut"):
            return t["n"]
        subs.append(t["e"])
    for v in t.get("vars") or []:
        subs += [x[1] for x in v["f"]]
    subs += [x for x in (t.get("f") or []) if isinstance(x, int)]
    for x in subs:
        r = type_state(x, types, seen)
        if r:
            return r
    return None


def statics(u):
    n = 0
    for name, a in sorted(u.mir.statics.items()):
        if name.split("::")[0] not in OWN:
            continue
        n += 1
        u.entry = u.entry or name
        r = type_state(a["t"], u.mir.types, set())
        u.check(r is None, "the static %s can change" % name, "it holds a %s" % r)
    u.check(n >= 2, "the statics were found", "%d" % n)
    # a static reached through a mutable pointer is a mutable static
    for f in closure(u.mir):
        for b in f.blocks or []:
            for s in b["s"]:
                consts(u, f, s, s[-1])
            consts(u, f, b["t"], b["t"][-1])


def consts(u, f, x, line):
    if isinstance(x, list):
        if len(x) >= 3 and x[0] == "k" and isinstance(x[1], int) and isinstance(x[2], dict):
            for off, aid in x[2].get("p") or []:
                a = u.mir.allocs.get(aid)
                if a and a["k"] == "static":
                    u.nchecks += 1
                    T = u.mir.types[x[1]]
                    own = a["n"].split("::")[0] in OWN
                    u.check(not (T["k"] == "ptr" and T.get("mut")), "%s uses the static %s as a mutable global" % (f.name, a["n"]), "line %s" % line)
                    u.check(own, "%s uses the foreign static %s" % (f.name, a["n"]), "line %s" % line)
            return
        for y in x:
            consts(u, f, y, line)


def locals_state(u):
    """no cell, lock, atomic or thread-local in any function of the library"""
    for f in closure(u.mir):
        u.entry = u.entry or f.name
        u.ip.stats["fns"].add(f.name)
        for i, t in enumerate(f.locals or []):
            n = u.mir.types[t]["n"]
            u.check(not STATE.search(n), "%s handles shared mutable state" % f.name, "a value of type %s" % n)
        for b in f.blocks or []:
            for s in b["s"]:
                if s[0] == "=" and s[2][0] == "tls":
                    u.fail("%s uses a thread-local" % f.name, "line %s" % s[-1])


def calls(u):
    """nothing the library reaches reads a clock, the environment, files,
    the network or a source of randomness of its own"""
    own = closure(u.mir)
    seen = {}
    todo = [(f, None) for f in own]
    while todo:
        f, by = todo.pop()
        if f.id in seen:
            continue
        seen[f.id] = by
        u.ip.stats["fns"].add(f.name)
        u.entry = u.entry or f.name
        if AMBIENT.search(f.name) and f.crate not in ("sha2",):
            ch = [f.name]
            while by is not None:
                ch.append(by.name)
                by = seen.get(by.id)
            u.fail("%s is reachable from %s" % (ch[0], ch[-1]), " < ".join(ch[:8]))
        u.nchecks += 1
        for b in f.blocks or []:
            t = b["t"]
            if t[0] == "call" and "f" in t[1]:
                g = u.mir.fns.get(t[1]["f"])
                if g is not None:
                    todo.append((g, f))
                else:
                    u.fail("unknown callee in %s" % f.name, t[1]["f"])


# --- erasure --------------------------------------------------------------

def volatile_cells(u, o):
    """(object, path) of every volatile store"""
    return [(e[1], e[2]) for e in u.ip.events if e[0] == "volatile_store"]


def zero(v):
    if isinstance(v, (tuple, list)):
        return all(zero(x) for x in v)
    return isinstance(v, int) and v == 0 or isinstance(v, B) and v.n == 0


def secret_clear(name, ty):
    def body(u):
        st = u.state()
        n = 8
        limbs = tuple(C.new_atom(0, 2**32 - 1, "w%d" % i) for i in range(8))
        v = (limbs,) if ty.endswith("Scalar") else ((limbs,),)
        p = u.alloc(st, ty, v)
        o = u.call(name, [p], st)
        if not u.check(o is not None, "returns"):
            return
        got = u.ip.load(o.st, p)
        u.check(zero(got), "every limb is zero afterwards", repr(got)[:200])
        u.check(o.st.pc == 1, "on every path")
        # the writes are ones the compiler may not leave out
        words = set()
        for q, val in volatile_cells(u, o):
            if isinstance(q, Ptr) and q.obj == p.obj and zero(val):
                rest = q.path[(0 if ty.endswith("Scalar") else 1):]
                k = len(val) if isinstance(val, tuple) and not (len(val) == 1 and isinstance(val[0], tuple)) else None
                if len(rest) >= 2:
                    words.add(rest[1])
                else:
                    words |= set(range(8))
        u.check(words >= set(range(8)), "every limb is overwritten by a volatile store", "limbs %s" % sorted(words))
    return body


def point_clear(name, ty, coords):
    def body(u):
        st = u.state()
        from .field import FIELD
        def fe(i):
            return rec(u.mir, FIELD, n=tuple(C.new_atom(0, 2**30, "%s%d" % (i, k)) for k in range(10)), magnitude=C.new_atom(0, 31, "m" + i), normalized=B(C.bvar(C.mkvar("op", "norm" + i))))
        if coords:
            v = rec(u.mir, ty, infinity=B(C.bvar(C.mkvar("op", "inf"))), **{c: fe(c) for c in coords})
        else:
            v = fe("n")
        p = u.alloc(st, ty, v)
        o = u.call(name, [p], st)
        if not u.check(o is not None, "returns"):
            return
        got = unrec(u.mir, ty, u.ip.load(o.st, p))
        for c in coords or ["n"]:
            g = unrec(u.mir, FIELD, got[c])["n"] if coords else got["n"]
            u.check(zero(g), "%s is zero afterwards" % c, repr(g)[:200])
    return body


# --- the allocator --------------------------------------------------------

def boxed(ty):
    def body(u):
        H = u.ip.hooks
        u.ip.loop_limit = 20000
        T = u.mir.types[u.mir.ty(ty)]
        val = rec(u.mir, ty, pre_g=(UNDEF,) * (1 << 14)) if ty == CTX else rec(u.mir, ty, prec=tuple((UNDEF,) * 16 for _ in range(64)), blind=UNDEF, initial=UNDEF)
        seen = {"alloc": 0, "err": 0, "stop": 0}
        works = [True]

        def layout(nm):
            def h(ip, st, a, G):
                t = ip.T[G.targs[0]] if G.targs else None
                if t is None:
                    raise Unsupported("layout type")
                return ("layout", t["size"], t["align"])
            return h

        def alloc(ip, st, a, G):
            seen["alloc"] += 1
            l = a[0]
            ok = isinstance(l, tuple) and l[0] == "layout" and l[1] >= T["size"] and l[2] % T["align"] == 0
            u.check(ok, "the allocation has the size and alignment of the table", "%r for %d bytes aligned to %d" % (l, T["size"], T["align"]))
            u.check(isinstance(l, tuple) and l[0] == "layout" and l[1:] == (T["size"], T["align"]), "the Box frees with the layout it was allocated with", repr(l))
            return Ptr(ip.heap(st, val, u.mir.ty(ty))) if works[0] else NPtr(0)

        def is_null(ip, st, a, G):
            def f(pc, x):
                if isinstance(x, NPtr):
                    return B(1 if x.addr == 0 else 0)
                return B(0)
            return I.pmap(f, st.pc, a[0])

        def err(ip, st, a, G):
            seen["err"] += 1
            u.check(not works[0], "gives up only when the allocation failed")
            return I.Diverge

        def stop(ip, st, a, G):
            u.check(works[0], "goes on only when the allocation succeeded")
            seen["stop"] += 1
            return I.Diverge
        for nm in u.mir.byname:
            last = nm.split("::")[-1]
            if nm in ("std::alloc::alloc", "alloc::alloc::alloc"):
                H[nm] = alloc
            elif re.match(r"(std|core)::alloc::Layout::new::<", nm):
                H[nm] = layout(nm)
            elif last == "is_null" and re.match(r"(std|core)::ptr::", nm):
                H[nm] = is_null
            elif last == "handle_alloc_error":
                H[nm] = err
            elif nm.endswith("Jacobian::set_ge") or nm.endswith("Affine::set_xo_var") or last == "odd_multiples_table_storage_var":
                H[nm] = stop
        # the two outcomes of the allocation, one after the other
        for ok in (True, False):
            works[0] = ok
            seen.update(alloc=0, err=0, stop=0)
            u.call(ty + "::new_boxed", [], u.state())
            u.check(seen["alloc"] == 1, "allocates once", repr(seen))
            u.check(seen["stop" if ok else "err"] == 1, "a successful allocation is used" if ok else "a failed allocation is handled", repr(seen))
    return body


UNITS = {
    "ambient": [("statics", statics), ("shared state in functions", locals_state), ("reachable effects", calls)],
    "erase": [("SecretKey::clear", secret_clear(L + "::SecretKey::clear", L + "::SecretKey")), ("Scalar::clear", secret_clear(L + "::curve::Scalar::clear", L + "::curve::Scalar")),
              ("Field::clear", point_clear(L + "::curve::Field::clear", L + "::curve::Field", None)),
              ("Affine::clear", point_clear(L + "::curve::Affine::clear", L + "::curve::Affine", "xy")),
              ("Jacobian::clear", point_clear(L + "::curve::Jacobian::clear", L + "::curve::Jacobian", "xyz"))],
    "boxed": [("ECMultContext::new_boxed", boxed(CTX)), ("ECMultGenContext::new_boxed", boxed(GEN))],
}
