"""Common machinery of the analysis units."""
import time
from ai import core as C, interp as I
from ai.core import Poly, Node, B, EnumV, UNDEF, Unsupported, padd, psub, pmul, pscale, iv, bounds, band, bor, bnot, vite
from ai.interp import St, Ptr, Interp

P = 2**256 - 0x1000003D1
N = 0xFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141

FIELD = "libsecp256k1::curve::Field"
SCALAR = "libsecp256k1::curve::Scalar"


class Finding:
    def __init__(self, key, detail, where=None):
        self.key = key          # stable identification (no line numbers)
        self.detail = detail
        self.where = where
        self.kind = "result"    # or "panic": an obligation of the code itself

    def __repr__(self):
        return "%s: %s" % (self.key, self.detail)


class Unit:
    """One analysed function (or composition) against one contract."""

    def __init__(self, mir, name, hooks=None):
        self.mir = mir
        self.name = name
        self.ip = Interp(mir, hooks)
        self.findings = []
        self.nchecks = 0
        self.t0 = time.time()
        self.entry = None

    # -- states
    def state(self):
        return St({}, 1)

    def fail(self, what, detail=""):
        self.findings.append(Finding("%s: %s" % (self.name, what), detail, self.entry))

    def alloc(self, st, tyname, val):
        t = tyname if isinstance(tyname, int) else self.mir.ty(tyname)
        return Ptr(self.ip.heap(st, val, t))

    def call(self, fname, args, st):
        self.entry = self.entry or fname
        F = self.mir.fn(fname)
        r = self.ip.call(F, args, st)
        return r

    def quiet_eq(self, a, b, pc):
        """are two numbers equal wherever pc holds?"""
        if not C.is_num(a) or not C.is_num(b):
            return False
        d = psub(a, b)
        if isinstance(d, int):
            return d == 0
        n = bnot(C.eq(d, 0, pc))
        n = band(pc, n)
        return not n or not I.feas(n)

    # -- predicates on guarded values
    def each(self, v, pc, fn):
        """fn(leaf, pc) -> bool for every feasible leaf"""
        ok = [True]

        def go(v, pc):
            if pc == 0 or not I.feas(pc):
                return
            if isinstance(v, Node):
                b = C.bnode(v.var, 1, 0)
                go(v.hi, band(pc, b))
                go(v.lo, band(pc, bnot(b)))
                return
            if not fn(v, pc):
                ok[0] = False
        go(v, pc)
        return ok[0]

    def check(self, ok, what, detail=""):
        self.nchecks += 1
        if not ok:
            self.fail(what, detail)
        return ok

    def in_range(self, v, lo, hi, pc):
        def f(x, pc):
            if not C.is_num(x):
                return False
            b = bounds(x, pc)
            if b is None:
                return True
            if b[0] is not None and b[0] >= lo and b[1] is not None and b[1] <= hi:
                return True
            b = C.bounds_deep(x, pc)
            return b is None or (b[0] is not None and b[0] >= lo and b[1] is not None and b[1] <= hi)
        return self.each(v, pc, f)

    def finish(self):
        """obligations raised inside the analysed code"""
        seen = set()
        for o in self.ip.failed():
            k = (o.kind, o.fn, o.msg)
            if k in seen:
                continue
            seen.add(k)
            self.fail("%s may fail in %s" % (o.msg if o.kind == "assert" else o.kind + " " + o.msg, o.fn),
                      "reachable under the unit's precondition")
            self.findings[-1].kind = "panic"
        return self

    @property
    def obligations(self):
        return len(self.ip.obls) + self.nchecks


def guarded(fn):
    """Run a unit body; analysis failures become findings (fail closed)."""
    return fn


def run_unit(mir, name, body, hooks=None):
    u = Unit(mir, name, hooks)
    try:
        body(u)
    except Unsupported as e:
        u.fail("not decided", "%s (in %s)" % (e, " > ".join(u.ip.stack[-4:])))
    except RecursionError:
        u.fail("not decided", "recursion limit")
    except (TypeError, AttributeError, IndexError, KeyError, ValueError, AssertionError) as e:
        import traceback
        tb = traceback.extract_tb(e.__traceback__)[-1]
        u.fail("not decided", "%s: %s at %s:%d (in %s)" % (type(e).__name__, e, tb.filename.split("/")[-1], tb.lineno, " > ".join(u.ip.stack[-4:])))
    u.finish()
    u.wall = time.time() - u.t0
    return u


def zero_mod(p, q):
    if isinstance(p, int):
        return p % q == 0
    return all(c % q == 0 for c in p.t.values())


def limbs_value(ls, bits):
    """weighted sum of guarded limbs"""
    def f(*xs):
        r = 0
        for i, x in enumerate(xs):
            r = padd(r, pscale(x, 1 << (bits * i)))
        return r
    return C.mapply(f, *ls)
