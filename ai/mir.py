"""Loading of the MIR dump: types, functions, constants, control-flow order."""
import json
from .core import B, TRUE, FALSE, EnumV, UNDEF, Unsupported


class Fn:
    __slots__ = ("id", "name", "path", "kind", "crate", "targs", "file", "line", "argc",
                 "spread", "locals", "names", "blocks", "intrinsic", "order", "raw", "code", "dead")

    def __init__(self, d):
        self.raw = d
        for k in ("id", "name", "path", "kind", "crate", "targs", "file", "line"):
            setattr(self, k, d.get(k))
        self.argc = d.get("argc")
        self.spread = d.get("spread")
        self.locals = d.get("locals")
        self.names = d.get("names")
        self.blocks = d.get("blocks")
        self.intrinsic = d.get("intrinsic")
        self.order = None
        self.code = None
        self.dead = None

    def __repr__(self):
        return "Fn(%s)" % self.name


def _ints(x, out):
    if isinstance(x, bool):
        return
    if isinstance(x, int):
        out.add(x)
    elif isinstance(x, (list, tuple)):
        for y in x:
            _ints(y, out)


def _address(x, out):
    """locals whose address is taken in an rvalue"""
    if x[0] in ("ref", "addr"):
        _ints(x, out)


def dead_on_entry(F):
    """block -> locals no path from there reads before writing them whole.
    Any integer in an operand counts as a use of that local."""
    n = len(F.locals)
    always = {0}
    gens, kills, nexts = [], [], []
    for b in F.blocks:
        if b is None:
            gens.append(set()), kills.append(set()), nexts.append(())
            continue
        gen, kill = set(), set()

        def use(x):
            o = set()
            _ints(x, o)
            gen.update(o - kill)
        for s in b["s"]:
            if s[0] == "=":
                use(s[2])
                _address(s[2], always)
                if len(s[1]) == 1:
                    kill.add(s[1][0])
                else:
                    use(s[1])
            elif s[0] in ("live", "dead"):
                pass
            else:
                use(s[1:])
        t = b["t"]
        use(t[1:])
        gens.append(gen), kills.append(kill), nexts.append(tuple(succs(b)))
    live = [set() for b in F.blocks]
    work = True
    while work:
        work = False
        for i in reversed(range(len(F.blocks))):
            o = set(gens[i])
            for j in nexts[i]:
                o |= live[j] - kills[i]
            if o != live[i]:
                live[i] = o
                work = True
    every = set(range(n))
    return [every - l - always for l in live]


def succs(b):
    t = b["t"]
    k = t[0]
    if k == "goto":
        return [t[1]]
    if k == "switch":
        r = [x[1] for x in t[2]] + [t[3]]
        return r
    if k == "drop":
        return [t[2]]
    if k == "call":
        return [t[4]] if t[4] is not None else []
    if k == "assert":
        return [t[4]]
    return []


class Mir:
    def __init__(self, path):
        d = json.load(open(path))
        self.types = d["types"]
        self.fns = {}
        self.byname = {}
        for f in d["fns"]:
            F = Fn(f)
            self.fns[F.id] = F
            self.byname.setdefault(F.name, []).append(F)
        self.allocs = {}
        self.statics = {}
        for i, a in d["allocs"]:
            if a["k"] == "staticdef":
                self.statics[a["n"]] = a
            else:
                self.allocs[i] = a
        self.roots = d["roots"]
        self.tyname = {}
        for i, t in enumerate(self.types):
            self.tyname.setdefault(t["n"], i)

    def fn(self, name):
        fs = self.byname.get(name)
        if not fs:
            raise Unsupported("function not found: " + name)
        return fs[0]

    def has(self, name):
        return name in self.byname

    def ty(self, name):
        return self.tyname[name]

    # -- control-flow order (Bourdoncle weak topological order)
    def order(self, F):
        if F.order is None:
            F.order = wto(F.blocks)
        return F.order

    # -- types
    def fields(self, t, variant=0):
        T = self.types[t]
        k = T["k"]
        if k == "adt":
            return [x[1] for x in T["vars"][variant]["f"]] if T["vars"] else []
        if k in ("tuple", "closure"):
            return T["f"] if "f" in T else T.get("up", [])
        raise Unsupported("fields of " + T["n"])

    def size(self, t):
        return self.types[t].get("size")

    def is_enum(self, t):
        T = self.types[t]
        return T["k"] == "adt" and T["ak"] == "enum"

    def is_union(self, t):
        T = self.types[t]
        return T["k"] == "adt" and T["ak"] == "union"


def wto(blocks):
    n = len(blocks)
    sc = [succs(b) for b in blocks]
    # reachable
    seen = set()
    st = [0]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        st.extend(sc[x])

    def comp(nodes, entry):
        """WTO of the subgraph induced by nodes, DFS from entry."""
        # Tarjan SCC (iterative), output in topological order
        index = {}
        lowl = {}
        onst = set()
        stack = []
        out = []
        cnt = [0]

        def strong(v0):
            work = [(v0, iter([y for y in sc[v0] if y in nodes]))]
            index[v0] = lowl[v0] = cnt[0]
            cnt[0] += 1
            stack.append(v0)
            onst.add(v0)
            while work:
                v, it = work[-1]
                adv = False
                for w in it:
                    if w not in index:
                        index[w] = lowl[w] = cnt[0]
                        cnt[0] += 1
                        stack.append(w)
                        onst.add(w)
                        work.append((w, iter([y for y in sc[w] if y in nodes])))
                        adv = True
                        break
                    elif w in onst:
                        lowl[v] = min(lowl[v], index[w])
                if adv:
                    continue
                work.pop()
                if work:
                    lowl[work[-1][0]] = min(lowl[work[-1][0]], lowl[v])
                if lowl[v] == index[v]:
                    c = []
                    while True:
                        w = stack.pop()
                        onst.discard(w)
                        c.append(w)
                        if w == v:
                            break
                    out.append(c)

        strong(entry)
        for v in sorted(nodes):
            if v not in index:
                strong(v)
        out.reverse()
        return out

    def build(nodes, entry, preds_entry):
        res = []
        for c in comp(nodes, entry):
            if len(c) == 1 and c[0] not in sc[c[0]]:
                res.append(c[0])
                continue
            cs = set(c)
            # head: the node entered from outside the component
            heads = set()
            for x in seen:
                if x not in cs:
                    for y in sc[x]:
                        if y in cs:
                            heads.add(y)
            if 0 in cs:
                heads.add(0)
            if len(heads) != 1:
                raise Unsupported("irreducible loop")
            h = heads.pop()
            # inner: remove edges to head
            inner = cs - {h}
            res.append((h, build_inner(h, inner), cs))
        return res

    def build_inner(h, inner):
        if not inner:
            return []
        # start DFS from successors of h inside
        res = []
        # treat as a graph with several entries; use a virtual ordering
        order = comp_multi(inner, [y for y in sc[h] if y in inner])
        for c in order:
            if len(c) == 1 and c[0] not in sc[c[0]]:
                res.append(c[0])
                continue
            cs = set(c)
            heads = set()
            for x in seen:
                if x not in cs:
                    for y in sc[x]:
                        if y in cs:
                            heads.add(y)
            if len(heads) != 1:
                raise Unsupported("irreducible loop")
            hh = heads.pop()
            res.append((hh, build_inner(hh, cs - {hh}), cs))
        return res

    def comp_multi(nodes, entries):
        # SCCs of the induced graph in topological order
        done = {}
        index = {}
        lowl = {}
        onst = set()
        stack = []
        out = []
        cnt = [0]
        for v0 in list(entries) + sorted(nodes):
            if v0 in index:
                continue
            work = [(v0, iter([y for y in sc[v0] if y in nodes]))]
            index[v0] = lowl[v0] = cnt[0]
            cnt[0] += 1
            stack.append(v0)
            onst.add(v0)
            while work:
                v, it = work[-1]
                adv = False
                for w in it:
                    if w not in index:
                        index[w] = lowl[w] = cnt[0]
                        cnt[0] += 1
                        stack.append(w)
                        onst.add(w)
                        work.append((w, iter([y for y in sc[w] if y in nodes])))
                        adv = True
                        break
                    elif w in onst:
                        lowl[v] = min(lowl[v], index[w])
                if adv:
                    continue
                work.pop()
                if work:
                    lowl[work[-1][0]] = min(lowl[work[-1][0]], lowl[v])
                if lowl[v] == index[v]:
                    c = []
                    while True:
                        w = stack.pop()
                        onst.discard(w)
                        c.append(w)
                        if w == v:
                            break
                    out.append(c)
        out.reverse()
        return out

    return build(seen, 0, None)
