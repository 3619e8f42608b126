"""Public keys through serde, for a serializer and a deserializer of unknown
behaviour (contracts of the base64 crate and of PublicKey::parse_slice and
PublicKey::serialize, which C19 decides)."""
from ai import core as C, interp as I
from ai.core import Opaque, B, EnumV, Unsupported, band, bor, bnot, vite
from ai.interp import Ptr
from ai.vec import VecV, install
from .ecdsa import L, OK, ERR, variant
from .keys import PK, byte, iff, same

SIZES = {"Compressed": 33, "Full": 65, "Raw": 64}
STD = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"
S0 = "vroots::sd::S0"


class Key(Opaque):
    """some public key, named"""
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, Key) and o.name == self.name

    def __hash__(self):
        return hash(self.name)

    def __repr__(self):
        return "Key(%s)" % self.name


def text(u, ip, st, p):
    """the elements behind a slice with a constant length"""
    if not isinstance(p, Ptr) or not isinstance(p.meta, int):
        raise Unsupported("slice %r" % (p,))
    return tuple(ip.load(st, Ptr(p.obj, tuple(p.path[:-1]) + (p.path[-1] + i,))) for i in range(p.meta))


def string_(u):
    """String: the vector inside"""
    def deref(ip, st, a, G):
        v = ip.load(st, a[0])
        v = v[0] if isinstance(v, tuple) else v
        if not isinstance(v, VecV):
            raise Unsupported("string %r" % (v,))
        return Ptr(v.obj, (0,), v.n)
    for nm in u.mir.byname:
        last = nm.split("::")[-1]
        if nm.startswith(("<std::string::String as ", "<alloc::string::String as ")) and last in ("deref", "as_ref", "borrow") \
                or nm in ("std::string::String::as_str", "alloc::string::String::as_str", "std::string::String::as_bytes"):
            u.ip.hooks[nm] = deref
        if nm.startswith(("std::ptr::drop_glue::<std::string::String", "std::ptr::drop_in_place::<std::string::String", "std::ptr::drop_glue::<alloc::string::String")):
            u.ip.hooks[nm] = lambda ip, st, a, G: ()


def standard(u, ip, st, p):
    """is this engine the standard base64 alphabet with canonical padding?"""
    v = ip.load(st, p)
    T = u.mir.types[u.mir.ty("base64::engine::general_purpose::GeneralPurpose")]
    names = [f[0] for f in T["vars"][0]["f"]]
    d = dict(zip(names, v))
    c = u.mir.types[u.mir.ty("base64::engine::general_purpose::GeneralPurposeConfig")]
    cf = dict(zip([f[0] for f in c["vars"][0]["f"]], d["config"]))
    dec = [255] * 256
    for i, ch in enumerate(STD):
        dec[ch] = i
    m = u.mir.types[_padmode(c)]
    mode = [x["n"] for x in m["vars"]][cf["decode_padding_mode"].var]
    return (tuple(d["encode_table"]) == tuple(STD) and tuple(d["decode_table"]) == tuple(dec) and cf["encode_padding"] == B(1)
            and cf["decode_allow_trailing_bits"] == B(0) and mode == "RequireCanonical")


def _padmode(c):
    for f in c["vars"][0]["f"]:
        if f[0] == "decode_padding_mode":
            return f[1]
    raise Unsupported("no padding mode")


def hook(u, pred, fn):
    n = 0
    for nm in u.mir.byname:
        if pred(nm):
            u.ip.hooks[nm] = fn
            n += 1
    return n


def find(u, pred, what):
    c = [nm for nm in u.mir.byname if pred(nm)]
    if len(c) != 1:
        raise Unsupported("%s: %d functions" % (what, len(c)))
    return c[0]


def serialize(u):
    install(u)
    string_(u)
    hr = C.bvar(C.mkvar("op", ("human readable",)))
    bs = tuple(byte("k%d" % i) for i in range(65))
    cs = tuple(byte("c%d" % i) for i in range(33))
    b64 = tuple(byte("t%d" % i) for i in range(88))
    out = []
    st = u.state()
    kp = u.alloc(st, PK, Key("K"))

    def ser(vals):
        def f(ip, st, a, G):
            if ip.load(st, a[0]) != Key("K"):
                raise Unsupported("another key is serialized")
            return vals
        return f
    u.ip.hooks[PK + "::serialize"] = ser(bs)
    u.ip.hooks[PK + "::serialize_compressed"] = ser(cs)

    def encode(ip, st, a, G):
        if not standard(u, ip, st, a[0]):
            raise Unsupported("another base64 engine")
        p = a[1]
        got = p if isinstance(p, tuple) else text(u, ip, st, p) if isinstance(p.meta, int) else ip.load(st, p)
        ok = same(got, bs, st.pc) if len(got) == 65 else False
        u.check(ok, "the 65 bytes of the key are what is encoded", repr(got)[:200])
        return (VecV(ip.heap(st, b64, ip.arr_ty(u.mir.ty("u8"), 2**50)), 88),)
    hook(u, lambda n: " as base64::engine::Engine>::encode::" in n or n.startswith("base64::engine::Engine::encode::<"), encode)
    hook(u, lambda n: n == "vroots::ext::vx_bool", lambda ip, st, a, G: B(hr))

    def sink(kind):
        def f(ip, st, a, G):
            out.append((kind, st.pc, text(u, ip, st, a[0])))
            return ()
        return f
    hook(u, lambda n: n == "vroots::ext::vx_sink_str", sink("str"))
    hook(u, lambda n: n == "vroots::ext::vx_sink_bytes", sink("bytes"))
    fn = find(u, lambda n: "PublicKey as " in n and "Serialize>::serialize::<" + S0 in n and n.startswith("<"), "Serialize for PublicKey")
    r = u.call(fn, [kp, ()], st)
    if not u.check(r is not None, "returns"):
        return
    vs = variant(u, r.v, r.st.pc)
    iff(u, vs.get(OK, 0), 1, r.st.pc, "serialization succeeds")
    seen = {"str": 0, "bytes": 0}
    for kind, pc, got in out:
        u.check(not I.feas(band(pc, seen["str"])) and not I.feas(band(pc, seen["bytes"])), "one value is emitted")
        seen[kind] = bor(seen[kind], pc)
        want = b64 if kind == "str" else bs
        u.check(len(got) == len(want) and same(got, want, pc), "%s output" % kind, repr(got)[:200])
    iff(u, seen["str"], hr, 1, "text exactly for human-readable formats: the base64 of the 65 bytes")
    iff(u, seen["bytes"], bnot(hr), 1, "bytes exactly for binary formats: the 65 bytes")


def one_of(n, ks):
    r = 0
    for k in ks:
        r = bor(r, C.eq(n, k))
    return r


def deserialize(u):
    install(u)
    string_(u)
    hr = C.bvar(C.mkvar("op", ("human readable",)))
    good = C.bvar(C.mkvar("op", ("valid base64",)))
    ns, nd, nb = (C.new_atom(0, 2**40, x) for x in ("length of text", "length decoded", "length of bytes"))
    st = u.state()
    u8 = u.mir.ty("u8")
    objs = {x: u.ip.heap(st, (), u.ip.arr_ty(u8, 2**50)) for x in ("text", "decoded", "bytes")}
    valid = {x: C.bvar(C.mkvar("op", ("valid key in", x))) for x in ("decoded", "bytes")}
    size = {"decoded": nd, "bytes": nb}
    hook(u, lambda n: n == "vroots::ext::vx_bool", lambda ip, st, a, G: B(hr))
    hook(u, lambda n: n == "vroots::ext::vx_str", lambda ip, st, a, G: Ptr(objs["text"], (0,), ns))
    hook(u, lambda n: n == "vroots::ext::vx_bytes", lambda ip, st, a, G: Ptr(objs["bytes"], (0,), nb))
    hook(u, lambda n: n == "vroots::ext::vx_err", lambda ip, st, a, G: ())

    def decode(ip, st, a, G):
        if not standard(u, ip, st, a[0]):
            raise Unsupported("another base64 engine")
        if a[1] != Ptr(objs["text"], (0,), ns):
            raise Unsupported("decodes %r" % (a[1],))
        v = VecV(objs["decoded"], nd)
        return vite(good, EnumV(0, (v,)), EnumV(1, (Key("decode error"),)))
    hook(u, lambda n: " as base64::engine::Engine>::decode::<" in n or n.startswith("base64::engine::Engine::decode::<"), decode)
    T = u.mir.types[u.mir.ty(L + "PublicKeyFormat")]
    fmts = [v["n"] for v in T["vars"]]

    def parse(ip, st, a, G):
        def f(pc, p, o):
            which = [x for x in ("decoded", "bytes") if isinstance(p, Ptr) and p == Ptr(objs[x], (0,), size[x])]
            if not which:
                raise Unsupported("parses %r" % (p,))
            x = which[0]

            def g(pc, o):
                return g2(o)

            def g2(o):
                if o.var == 0:
                    ks = SIZES.values()
                else:
                    k = o.f[0]
                    if not isinstance(k, EnumV):
                        return C.mapply(lambda k: g2(EnumV(1, (k,))), k)
                    ks = [SIZES[fmts[k.var]]]
                ok = band(one_of(size[x], ks), valid[x])
                return vite(ok, EnumV(0, (Key(x),)), EnumV(1, (Key("error"),)))
            return I.pmap(g, pc, o)
        return I.pmap(f, st.pc, a[0], a[1])
    u.ip.hooks[PK + "::parse_slice"] = parse
    fn = find(u, lambda n: "PublicKey as " in n and "Deserialize<" in n and "::deserialize::<vroots::sd::D0>" in n and n.startswith("<"), "Deserialize for PublicKey")
    r = u.call(fn, [()], st)
    if not u.check(r is not None, "returns"):
        return
    vs = variant(u, r.v, r.st.pc)
    ok = vs.get(OK, 0)
    u.check(r.st.pc == 1, "answers for every input")
    t = band(band(hr, good), band(one_of(nd, SIZES.values()), valid["decoded"]))
    b = band(bnot(hr), band(one_of(nb, SIZES.values()), valid["bytes"]))
    iff(u, band(hr, ok), t, 1, "text: accepted exactly if it is the base64 of a valid encoding")
    iff(u, band(bnot(hr), ok), b, 1, "bytes: accepted exactly if they are a valid encoding")
    for g, want in ((t, "decoded"), (b, "bytes")):
        def leaf(x, pc):
            return isinstance(x, EnumV) and x.var == OK and u.each(x.f[0], pc, lambda k, q: k == Key(want))
        u.check(u.each(r.v, g, leaf), "the result is the key the %s stand for" % want, repr(r.v)[:200])


UNITS = {"serde": [("PublicKey as Serialize", serialize), ("PublicKey as Deserialize", deserialize)]}
