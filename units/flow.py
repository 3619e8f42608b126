"""Secret-independent control flow: an information-flow analysis over the MIR.

Every local has, per level of indirection, a class of memory cells (classes
merge when pointers may alias) and for each class two bits: the data may
depend on a secret; an enum's variant may depend on a secret.  The analysis is
flow-insensitive within a function and context-sensitive across calls (a
callee is analysed once per combination of argument bits).

Reported: a branch on secret data that is more than a choice between values
that are already computed, an element access at a secret index, a load
or store through a secret-dependent address, a division with a secret operand,
and a byte comparison of secret memory.
"""
import heapq
from ai.core import Unsupported
from ai.mir import succs

K = 4           # levels of indirection told apart
DATA, TAG = 1, 2

# crates whose code is taken as constant-time (hashes and HMAC work on
# fixed-size blocks; subtle is the library of constant-time choices)
TRUSTED = ("sha2", "digest", "hmac_drbg", "hmac", "crypto_mac", "block_buffer", "typenum", "cpufeatures",
           "cipher", "opaque_debug")

VARTIME = ("Div", "Rem")


def ints(x):
    return x


class Summary:
    __slots__ = ("bits", "groups", "found")

    def __init__(self):
        self.bits = ()
        self.groups = ()
        self.found = ()


class Flow:
    def __init__(self, mir, public=(), allowed=None):
        self.mir = mir
        self.public = public
        self.memo = {}
        self.active = []
        self.allowed = allowed or {}
        self.found = {}
        self.fns = set()
        self.branches = 0
        self.tainted = 0
        self.accesses = 0
        self.used = set()

    def report(self, F, kind, what, line):
        k = (F.name, kind, what)
        if (F.path, kind) in self.allowed or (F.name, kind) in self.allowed:
            self.used.add((F.name, kind))
            return
        if k not in self.found:
            self.found[k] = (line, [g.name for g in self.active])

    # ------------------------------------------------------------- one call
    def run(self, F, args):
        """args: per argument a tuple of K+1 bit sets -> (per argument and for
        the result the same, the list of classes shared between them)"""
        key = (F.id, args)
        m = self.memo.get(key)
        if m is not None:
            return m
        n = len(args)
        z = tuple([0] * (K + 1))
        # a recursive call: start from no effect and repeat until it stands
        self.memo[key] = (args + (z,), ())
        self.fns.add(F.name)
        while True:
            b = Body(self, F, args)
            b.solve()
            r = b.result(n)
            if any(F.name.endswith(x) for x in self.public):
                r = (r[0][:-1] + (z,), r[1])
            if r == self.memo[key]:
                break
            self.memo[key] = r
        return self.memo[key]

    def opaque(self, args):
        """a function not looked into: everything reachable mixes"""
        allb = 0
        for a in args:
            for x in a:
                allb |= x
        d = DATA if allb else 0
        out = tuple((a[0],) + tuple(x | d for x in a[1:]) for a in args)
        return out + (tuple([d] * (K + 1)),), ()


def constants(F):
    """locals only ever assigned one constant (a debug assertion's switch is
    one): their value as an integer"""
    got = {}
    for b in F.blocks:
        if b is None:
            continue
        for s in b["s"]:
            if s[0] == "=":
                loc = s[1][0]
                v = None
                if len(s[1]) == 1 and s[2][0] == "use":
                    o = s[2][1]
                    if o[0] == "k" and o[2].get("b") and not o[2].get("p"):
                        v = int.from_bytes(bytes.fromhex(o[2]["b"].replace("_", "0")), "little")
                    elif o[0] == "r":
                        v = 0
                got[loc] = v if loc not in got or got[loc] == v else None
                if s[2][0] in ("ref", "addr"):
                    got[s[2][1][0]] = None
        t = b["t"]
        if t[0] == "call":
            got[t[3][0]] = None
    for i in range(F.argc + 1):
        got[i] = None
    return {k: v for k, v in got.items() if v is not None}


def loop_blocks(F, reach):
    """blocks that can come back to themselves"""
    sc = {i: succs(F.blocks[i]) for i in reach}
    heads = set()
    # depth-first search: targets of back edges
    state = {}
    st = [(0, iter(sc[0]))]
    state[0] = 1
    while st:
        x, it = st[-1]
        for y in it:
            if y not in sc:
                continue
            if state.get(y) == 1:
                heads.add(y)
            elif y not in state:
                state[y] = 1
                st.append((y, iter(sc[y])))
                break
        else:
            state[x] = 2
            st.pop()
    return heads


def ranks(F):
    """reverse postorder"""
    seen, out = {0}, []
    st = [(0, iter(succs(F.blocks[0])))]
    while st:
        x, it = st[-1]
        for y in it:
            if y not in seen:
                seen.add(y)
                st.append((y, iter(succs(F.blocks[y]))))
                break
        else:
            out.append(x)
            st.pop()
    return {x: i for i, x in enumerate(reversed(out))}


def place_locals(p, out):
    out.add(p[0])
    for e in p[1:]:
        if e != "*" and e[0] == "i":
            out.add(e[1])


def op_locals(o, out):
    if o[0] in ("c", "m"):
        place_locals(o[1], out)


def rv_locals(rv, out):
    k = rv[0]
    if k in ("ref", "addr", "discr", "len"):
        place_locals(rv[1], out)
    elif k in ("use", "rep"):
        op_locals(rv[1], out)
    elif k in ("bin", "chk"):
        op_locals(rv[2], out)
        op_locals(rv[3], out)
    elif k in ("un", "cast"):
        op_locals(rv[2], out)
    elif k == "agg":
        for o in agg_ops(rv):
            op_locals(o, out)


def agg_ops(rv):
    o = rv[4]
    return [o] if o and isinstance(o[0], str) else o


def block_locals(b):
    """locals read in a block"""
    o = set()
    for s in b["s"]:
        if s[0] == "=":
            rv_locals(s[2], o)
            if len(s[1]) > 1:
                place_locals(s[1], o)
        elif s[0] == "setd":
            place_locals(s[1], o)
    t = b["t"]
    if t[0] in ("switch", "assert"):
        op_locals(t[1], o)
    elif t[0] == "call":
        for x in t[2]:
            op_locals(x, o)
        if len(t[3]) > 1:
            place_locals(t[3], o)
    elif t[0] == "drop":
        place_locals(t[1], o)
    return o


def reachable(F):
    k = constants(F)
    seen, todo = set(), [0]
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        t = F.blocks[x]["t"]
        if t[0] == "switch":
            o = t[1]
            v = None
            if o[0] in ("c", "m") and len(o[1]) == 1:
                v = k.get(o[1][0])
            elif o[0] == "k" and o[2].get("b"):
                v = int.from_bytes(bytes.fromhex(o[2]["b"]), "little")
            elif o[0] == "r":
                v = 0
            if v is not None:
                todo.append(next((b for c, b in t[2] if int(c) == v), t[3]))
                continue
        todo.extend(succs(F.blocks[x]))
    return sorted(seen)


class Body:
    def __init__(self, flow, F, args):
        self.flow = flow
        self.F = F
        n = len(F.locals)
        self.par = list(range(n * (K + 1)))
        self.size = [1] * (n * (K + 1))
        self.bits = {}
        self.init = {}
        self.args = args
        # arguments are locals 1..argc; a closure called with spread arguments
        self.argl = list(range(1, F.argc + 1))
        self.reach = set(reachable(F))
        self.uses = None
        self.rank = ranks(F)
        self.loops = loop_blocks(F, sorted(self.reach))
        for i, a in zip(self.argl, args):
            for l in range(K + 1):
                if a[l]:
                    self.init[self.node(i, l)] = a[l]

    def node(self, loc, l):
        return loc * (K + 1) + min(l, K)

    def find(self, x):
        p = self.par
        while p[x] != x:
            p[x] = p[p[x]]
            x = p[x]
        return x

    def union(self, a, b):
        a, b = self.find(a), self.find(b)
        if a != b:
            self.par[b] = a
            self.size[a] += self.size[b]
            x = self.bits.pop(b, 0)
            if x:
                self.bits[a] = self.bits.get(a, 0) | x
            self.merged = True

    def orb(self, a, bits):
        if bits:
            a = self.find(a)
            self.bits[a] = self.bits.get(a, 0) | bits

    def get(self, a):
        return self.bits.get(self.find(a), 0)

    def overwritten(self, p):
        """a whole local of its own gets a new value"""
        if len(p) == 1:
            a = self.find(self.node(p[0], 0))
            if self.size[a] == 1:
                self.bits.pop(a, None)

    # places -----------------------------------------------------------
    def place(self, p, line=None):
        """(local, level) the place lives in; reports secret indices"""
        l = 0
        for e in p[1:]:
            if e == "*":
                if line is not None:
                    self.flow.accesses += 1
                    if self.get(self.node(p[0], l)) & DATA:
                        self.flow.report(self.F, "address", "access through a secret-dependent address", line)
                l += 1
            elif e[0] == "i":
                if line is not None:
                    self.flow.accesses += 1
                    if self.get(self.node(e[1], 0)) & DATA:
                        self.flow.report(self.F, "index", "element access at a secret index", line)
        return p[0], l

    def copy(self, dst, src, ro=False):
        """dst, src: (local, level): values copied"""
        self.orb(self.node(*dst), self.get(self.node(*src)))
        for k in range(1, K + 1):
            self.union(self.node(dst[0], dst[1] + k), self.node(src[0], src[1] + k))

    def flag(self, p):
        """is the place a point's infinity flag?"""
        if len(p) < 2 or p[-1] == "*" or p[-1][0] != "f":
            return False
        T = self.flow.mir.types
        if T[p[-1][2]]["k"] != "bool":
            return False
        t = self.F.locals[p[0]]
        for e in p[1:-1]:
            if e == "*":
                t = T[t].get("e")
            elif e[0] == "f":
                t = e[2]
            elif e[0] in ("i", "c"):
                t = T[t].get("e")
            elif e[0] == "d":
                pass
            else:
                return False
            if t is None:
                return False
        n = T[t]["n"]
        return n.endswith("::Jacobian") or n.endswith("::Affine")

    def opbits(self, o, line):
        if o[0] in ("c", "m"):
            if self.flag(o[1]):
                self.place(o[1], line)
                return 0
            return self.get(self.node(*self.place(o[1], line)))
        return 0

    def assign_op(self, dst, o, line):
        if o[0] in ("c", "m"):
            if self.flag(o[1]):
                self.place(o[1], line)
                return
            self.copy(dst, self.place(o[1], line))

    def hasptr(self, t, seen=()):
        T = self.flow.mir.types[t]
        return T["k"] not in ("int", "bool", "float", "char")

    # statements -------------------------------------------------------
    def rvalue(self, dst, rv, line):
        k = rv[0]
        d = self.node(*dst)
        if k == "use":
            self.assign_op(dst, rv[1], line)
        elif k in ("ref", "addr"):
            loc, l = self.place(rv[1], None if rv[1][-1:] == ["*"] else line)
            # a reference to what a pointer points to is that pointer
            for j in range(K + 1):
                self.union(self.node(dst[0], dst[1] + 1 + j), self.node(loc, l + j))
            if l:
                self.orb(d, self.get(self.node(loc, l - 1)))
        elif k in ("bin", "chk"):
            b = (self.opbits(rv[2], line) | self.opbits(rv[3], line)) & DATA
            if rv[1] == "Offset":
                self.assign_op(dst, rv[2], line)
            if rv[1] in VARTIME and b and rv[3][0] != "k":
                self.flow.report(self.F, "division", "division with a secret operand", line)
            self.orb(d, b)
        elif k == "un":
            if rv[1] != "PtrMetadata":
                self.orb(d, self.opbits(rv[2], line) & DATA)
        elif k == "cast":
            self.assign_op(dst, rv[2], line)
        elif k == "agg":
            for o in agg_ops(rv):
                self.assign_op(dst, o, line)
        elif k == "discr":
            b = self.get(self.node(*self.place(rv[1], line)))
            self.orb(d, DATA if b & TAG else 0)
        elif k == "len":
            pass
        elif k == "rep":
            self.assign_op(dst, rv[1], line)
        elif k == "tls":
            pass
        else:
            raise Unsupported("rvalue " + k)

    def stmt(self, s):
        line = s[-1]
        if s[0] == "=":
            dst = self.place(s[1], line)
            if len(s[1]) == 1:
                # into a fresh cell first: the right-hand side may read the old value
                used = set()
                rv_locals(s[2], used)
                if s[1][0] not in used:
                    self.overwritten(s[1])
            self.rvalue(dst, s[2], line)
            f = self.forced.get(self.cur)
            if f and (len(s[1]) > 1 or self.outside(s[1][0], f)):
                self.orb(self.node(*dst), DATA | TAG)
        elif s[0] == "copy":
            self.intrinsic("copy", [self.place(o[1], line) if o[0] in ("c", "m") else None for o in s[1:3]], (), None, line)

    # branches ---------------------------------------------------------
    def select(self, t):
        """the blocks of a switch's arms, if they only move or combine values
        that are at hand and then meet again"""
        F = self.F
        region, todo, ends = set(), [x[1] for x in t[2]] + [t[3]], set()
        j = self.join(t)
        if j is None:
            return None
        while todo:
            x = todo.pop()
            if x == j or x in region:
                continue
            if x in self.loops or len(region) > 24:
                return None
            region.add(x)
            b = F.blocks[x]
            k = b["t"][0]
            if k == "unreachable":
                continue
            if k == "call" and self.trivial(b["t"]):
                k = "goto"
            if k not in ("goto", "assert", "switch") or any(s[0] not in ("=", "live", "dead") for s in b["s"]):
                return None
            todo.extend(succs(b))
        return region

    def trivial(self, t):
        """a call of a function that is one straight line"""
        if t[0] != "call" or "f" not in t[1] or t[4] is None or len(t[3]) != 1:
            return False
        G = self.flow.mir.fns.get(t[1]["f"])
        if G is None or G.blocks is None or G.intrinsic:
            return False
        return len(G.blocks) <= 4 and all(b["t"][0] in ("goto", "return", "assert", "resume") and not any(s[0] == "copy" for s in b["s"]) for b in G.blocks)

    def outside(self, loc, region):
        """is the local used anywhere but in these blocks?"""
        u = self.uses
        if u is None:
            u = self.uses = {i: block_locals(self.F.blocks[i]) for i in self.reach}
        return loc == 0 or any(loc in o for i, o in u.items() if i not in region)

    def join(self, t):
        """the first block every arm comes to"""
        F = self.F
        arms = [x[1] for x in t[2]] + [t[3]]
        reach = []
        for a in arms:
            if F.blocks[a]["t"][0] == "unreachable" and not F.blocks[a]["s"]:
                continue
            seen, order = set(), []
            todo = [a]
            while todo and len(seen) < 40:
                x = todo.pop(0)
                if x in seen:
                    continue
                seen.add(x)
                order.append(x)
                if F.blocks[x]["t"][0] in ("goto", "assert", "switch") or self.trivial(F.blocks[x]["t"]):
                    todo.extend(succs(F.blocks[x]))
            reach.append(order)
        for x in reach[0]:
            if all(x in r for r in reach) and all(self.through(a, x) for a in arms):
                return x
        return None

    def through(self, a, j):
        """does every way on from a come to j (or nowhere)?"""
        seen, todo = set(), [a]
        while todo:
            x = todo.pop()
            if x == j or x in seen:
                continue
            seen.add(x)
            if len(seen) > 40:
                return False
            b = self.F.blocks[x]
            if b["t"][0] == "unreachable":
                continue
            if b["t"][0] not in ("goto", "assert", "switch") and not self.trivial(b["t"]):
                return False
            todo.extend(succs(b))
        return True

    def term(self, t):
        k = t[0]
        line = t[-1]
        fl = self.flow
        if k == "switch":
            fl.branches += 1
            if t[1][0] in ("c", "m"):
                b = self.opbits(t[1], line)
                if b & DATA:
                    fl.tainted += 1
                    region = self.select(t)
                    if region is None:
                        fl.report(self.F, "branch", "branch on secret data", line)
                        return
                    # what the arms assign now depends on the secret
                    for x in region:
                        self.forced.setdefault(x, set()).update(region)
        elif k == "call":
            self.call(t)
        elif k == "drop" and t[3] is not None:
            pass

    def call(self, t):
        tgt, args, dest, target = t[1], t[2], t[3], t[4]
        line = t[-1]
        fl = self.flow
        if target is None:
            return
        if "f" not in tgt:
            raise Unsupported("call through a pointer in " + self.F.name)
        G = fl.mir.fns.get(tgt["f"])
        if G is None:
            raise Unsupported("unknown callee " + tgt["f"])
        ops = []
        for o in args:
            if o[0] in ("c", "m"):
                ops.append(self.place(o[1], line))
            else:
                ops.append(None)
        def vec(o):
            return tuple([0] * (K + 1)) if o is None else tuple(self.get(self.node(o[0], o[1] + l)) for l in range(K + 1))
        vs = tuple(vec(o) for o in ops)
        d = self.place(dest, line)
        self.overwritten(dest)
        n = (G.intrinsic or "") or (G.name.split("::")[-1].split("<")[0] if G.kind in ("intrinsic", "llvm") else "")
        if n:
            self.intrinsic(n, ops, vs, d, line)
            return
        if G.crate in TRUSTED:
            r, groups = fl.opaque(vs)
        elif G.blocks is None:
            if G.name.split("::")[-1].startswith("__rust"):
                return
            # a constructor used as a function, or a runtime function
            r, groups = fl.opaque(vs)
            r = r[:-1] + ((r[-1][0] if any(v[0] for v in vs) else 0,) + r[-1][1:],)
        else:
            cv = vs
            spread = None
            if len(vs) != G.argc:
                # a closure's arguments arrive as one tuple
                if G.argc > len(vs) and len(vs) == 2:
                    cv = (vs[0],) + (vs[1],) * (G.argc - 1)
                    spread = [0] + [1] * (G.argc - 1)
                elif G.argc < len(vs):
                    cv = vs[:G.argc]
                else:
                    raise Unsupported("arity of " + G.name)
            fl.active.append(G)
            fl.fns.add(G.name)
            try:
                r, groups = fl.run(G, cv)
            finally:
                fl.active.pop()
            if spread is not None:
                out = [[0] * (K + 1) for _ in vs]
                for i, x in zip(spread, r[:-1]):
                    out[i] = [a | b for a, b in zip(out[i], x)]
                m = {i: s for i, s in enumerate(spread)}
                m[len(cv)] = len(vs)
                groups = tuple(tuple((m[i], l) for i, l in g) for g in groups)
                r = tuple(tuple(x) for x in out) + (r[-1],)
        for o, x in zip(ops, r):
            if o is not None:
                for l in range(1, K + 1):
                    self.orb(self.node(o[0], o[1] + l), x[l])
        for l in range(K + 1):
            self.orb(self.node(d[0], d[1] + l), r[-1][l])
        if self.cur in self.forced:
            self.orb(self.node(*d), DATA | TAG)
        na = len(vs)
        for g in groups:
            ns = []
            for i, l in g:
                if i == na:
                    ns.append(self.node(d[0], d[1] + l))
                elif ops[i] is not None and l:
                    ns.append(self.node(ops[i][0], ops[i][1] + l))
            for x in ns[1:]:
                self.union(ns[0], x)

    def intrinsic(self, n, ops, vs, d, line):
        dn = self.node(*d) if d else None
        data = 0
        for v in vs:
            data |= v[0] & DATA
        if n in ("copy_nonoverlapping", "copy", "volatile_copy_nonoverlapping_memory"):
            s, t = ops[0], ops[1]
            if s and t:
                self.copy((t[0], t[1] + 1), (s[0], s[1] + 1))
        elif n in ("volatile_load", "read_via_copy", "unaligned_volatile_load") or n.startswith("atomic_load"):
            if ops[0]:
                self.copy(d, (ops[0][0], ops[0][1] + 1))
        elif n in ("volatile_store", "write_via_move", "unaligned_volatile_store"):
            if ops[0] and ops[1]:
                self.copy((ops[0][0], ops[0][1] + 1), ops[1])
        elif n == "write_bytes":
            if ops[0]:
                self.orb(self.node(ops[0][0], ops[0][1] + 1), vs[1][0] & DATA)
        elif n in ("raw_eq", "compare_bytes"):
            b = (vs[0][1] | vs[1][1]) & DATA
            if b:
                self.flow.report(self.F, "compare", "byte comparison of secret memory", line)
            self.orb(dn, b)
        elif n in ("exact_div", "unchecked_div", "unchecked_rem") and data:
            self.flow.report(self.F, "division", "division with a secret operand", line)
            self.orb(dn, data)
        elif n in ("size_of_val", "align_of_val", "size_of", "align_of", "min_align_of", "needs_drop", "type_id", "ptr_metadata"):
            pass
        elif n in ("three_way_compare",):
            self.orb(dn, DATA | TAG if data else 0)
        else:
            self.orb(dn, data)
            for o in ops:
                if o is not None:
                    for k in range(1, K + 1):
                        self.union(self.node(d[0], d[1] + k), self.node(o[0], o[1] + k))

    def solve(self):
        F = self.F
        # first the shape of memory alone
        self.merged = True
        self.cur = None
        self.forced = {}
        while self.merged:
            self.merged = False
            self.bits = {}
            for i in sorted(self.reach):
                for s in F.blocks[i]["s"]:
                    self.stmt(s)
                if F.blocks[i]["t"][0] == "call":
                    self.bits = {}
                    self.call(F.blocks[i]["t"])
                    self.bits = {}
        while True:
            self.merged = False
            self.out = {}
            ins = {0: {}}
            self.bits = ins[0]
            for k, v in self.init.items():
                self.orb(k, v)
            work = [(0, 0)]
            queued = {0}
            while work and not self.merged:
                i = heapq.heappop(work)[1]
                queued.discard(i)
                self.bits = dict(ins[i])
                b = F.blocks[i]
                self.cur = i
                for s in b["s"]:
                    self.stmt(s)
                self.term(b["t"])
                if b["t"][0] == "return":
                    for k, v in self.bits.items():
                        self.out[k] = self.out.get(k, 0) | v
                for j in succs(b):
                    if j not in self.reach:
                        continue
                    if j not in ins:
                        ins[j] = dict(self.bits)
                        heapq.heappush(work, (self.rank[j], j))
                        queued.add(j)
                        continue
                    d = ins[j]
                    ch = False
                    for k, v in self.bits.items():
                        o = d.get(k, 0)
                        if v & ~o:
                            d[k] = o | v
                            ch = True
                    if ch and j not in queued:
                        heapq.heappush(work, (self.rank[j], j))
                        queued.add(j)
            if not self.merged:
                break
        self.bits = self.out

    def result(self, n):
        locs = self.argl[:n] + [0]
        out = tuple(tuple(self.get(self.node(i, l)) for l in range(K + 1)) for i in locs)
        cls = {}
        for j, i in enumerate(locs):
            for l in range(K + 1):
                cls.setdefault(self.find(self.node(i, l)), []).append((j, l))
        groups = tuple(sorted(tuple(v) for v in cls.values() if len(v) > 1))
        return out, groups


PUB = tuple([0] * (K + 1))
SEC = (DATA,) + tuple([0] * K)          # a secret value
PSEC = (0, DATA) + tuple([0] * (K - 1))  # a reference to a secret

# What may be known of the secrets: whether a scalar is zero, whether 32 bytes
# are n or more (both decide between a result and an error or a new nonce),
# and whether the first half of a signature's s was taken.
PUBLIC = ("Scalar::is_zero", "Scalar::set_b32", "Scalar::is_high")

# entry point -> which arguments are secret: p public, s a secret value,
# r a reference to one
ENTRY = [
    ("libsecp256k1::sign_with_context", "prp"),
    ("libsecp256k1_core::ecdsa::<impl libsecp256k1::curve::ECMultGenContext>::sign_raw", "prpr"),
    ("libsecp256k1::PublicKey::from_secret_key_with_context", "rp"),
    ("libsecp256k1::SharedSecret::<D>::new_with_context", "prp"),
    ("libsecp256k1::curve::ECMultGenContext::ecmult_gen", "ppr"),
    ("libsecp256k1::curve::ECMultContext::ecmult_const", "pppr"),
    ("libsecp256k1::SecretKey::parse", "r"),
    ("libsecp256k1::SecretKey::parse_slice", "r"),
    ("libsecp256k1::SecretKey::serialize", "r"),
    ("libsecp256k1::SecretKey::tweak_add_assign", "rr"),
    ("libsecp256k1::SecretKey::tweak_mul_assign", "rr"),
    ("libsecp256k1::SecretKey::inv", "r"),
    ("libsecp256k1::SecretKey::clear", "r"),
    ("libsecp256k1::curve::Jacobian::add_ge", "rr"),
    ("libsecp256k1::curve::Jacobian::double_nonzero_in_place", "rrp"),
    ("libsecp256k1::curve::AffineStorage::cmov", "rrs"),
    ("libsecp256k1::curve::Field::cmov", "rrs"),
    ("libsecp256k1::curve::Field::normalize", "r"),
    ("libsecp256k1::curve::Field::normalizes_to_zero", "r"),
    ("libsecp256k1::curve::Field::inv", "r"),
    ("libsecp256k1::curve::Field::fill_b32", "rr"),
    ("libsecp256k1::curve::Scalar::cond_neg_assign", "rs"),
    ("libsecp256k1::curve::Scalar::inv", "r"),
    ("libsecp256k1::curve::Scalar::set_b32", "rr"),
    ("libsecp256k1::curve::Scalar::fill_b32", "rr"),
    ("<libsecp256k1::SecretKey as std::convert::TryFrom<libsecp256k1::curve::Scalar>>::try_from", "s"),
]


def find(u, name):
    if u.mir.has(name):
        return u.mir.fn(name)
    import re
    pat = re.compile("^" + re.escape(name).replace("<D>", "<.*>") + "$")
    fs = [f for f in u.mir.fns.values() if f.blocks is not None and pat.match(f.name)]
    if not fs:
        raise Unsupported("function not found: " + name)
    return fs[0]


def entry(name, spec):
    def body(u):
        F = find(u, name)
        u.entry = F.name
        fl = Flow(u.mir, PUBLIC)
        vec = {"p": PUB, "s": SEC, "r": PSEC}
        args = tuple(vec[c] for c in spec)
        if len(args) != F.argc:
            raise Unsupported("%d arguments instead of %d" % (F.argc, len(args)))
        fl.run(F, args)
        u.nchecks += fl.branches + fl.accesses
        u.ip.stats["fns"].update(fl.fns)
        u.check(fl.tainted > 0 or name not in [n for n, _ in ENTRY[:6]], "follows the secret to at least one choice")
        for (fn, kind, what), (line, chain) in sorted(fl.found.items()):
            u.fail("%s in %s" % (what, fn), "line %s, by way of %s" % (line, " > ".join(chain[-6:])))
    return body


UNITS = {"ct": [(n.split("::")[-1] + " (" + n.split("::")[1 if n.startswith("lib") else 1].split("<")[0] + ")", entry(n, s)) for n, s in ENTRY]}
