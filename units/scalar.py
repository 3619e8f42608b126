"""Scalars: every operation of the 8x32-bit code against arithmetic in Z/n
(contracts S.*)."""
from .base import *
from .field import cong_all, same, bool_is, bytes_value, rng, limbs_value

ST = SCALAR


def words(name="a"):
    return tuple(C.new_atom(0, 0xFFFFFFFF, "%s%d" % (name, i)) for i in range(8))


def sval(s):
    return limbs_value(s[0], 32)


def fresh(name="a"):
    """a reduced scalar and its precondition"""
    w = words(name)
    return (w,), bnot(C.ge_const(limbs_value(w, 32), N))


def check_scalar(u, v, pc, spec=None, what="result"):
    if not (isinstance(v, tuple) and len(v) == 1 and len(v[0]) == 8):
        return u.check(False, what + " is a scalar", repr(v))
    for i, x in enumerate(v[0]):
        u.check(u.in_range(x, 0, 0xFFFFFFFF, pc), what + " words are words", "word %d: %s" % (i, rng(x, pc)))
    val = C.vconstrain(sval(v), pc)
    u.check(u.in_range(val, 0, N - 1, pc), what + " is reduced below the group order", rng(val, pc))
    if spec is not None:
        u.check(cong_all(u, val, spec, N, pc), what + " congruent to its specification mod n")
    return val


def op_unit(u, fn, mode, spec, pre_reduced=True):
    """mode: one letter per operand: v by value, r by reference, m mutated (result),
    o output reference"""
    st = u.state()
    args, ins, out = [], [], None
    for i, m in enumerate(mode):
        s, pre = fresh("abc"[i])
        if m != "o" and pre_reduced:
            st.pc = band(st.pc, pre)
        if m == "o":
            s = (words("o"),)
        p = u.alloc(st, ST, s)
        if m in "mo":
            out = p
        if m != "o":
            ins.append((s, p, m))
        args.append(s if m == "v" else p)
    r = u.call(fn, args, st)
    v = r[1].mem[out.obj] if out else r[0]
    check_scalar(u, v, r[1].pc, spec(*[sval(s) for s, _, _ in ins]))
    for s, p, m in ins:
        if m == "r":
            u.check(all(same(u, x, y, r[1].pc) for x, y in zip(r[1].mem[p.obj][0], s[0])), "operand unchanged")


def ops(u):
    A = "<%s as std::ops::%s>::%s"
    for tr, meth, sp, pr in (("Add", "add", padd, True), ("Mul", "mul", pmul, False)):
        op_unit(u, A % (ST, tr, meth), "vv", sp, pr)
        op_unit(u, A % ("&" + ST, tr, meth), "rr", sp, pr)
        op_unit(u, A % (ST, tr + "Assign<&%s>" % ST, meth + "_assign"), "mr", sp, pr)
        op_unit(u, A % (ST, tr + "Assign", meth + "_assign"), "mv", sp, pr)
    op_unit(u, A % (ST, "Neg", "neg"), "v", C.pneg)
    op_unit(u, A % ("&" + ST, "Neg", "neg"), "r", C.pneg)


def s_mul(u):
    op_unit(u, ST + "::mul_in_place", "orr", pmul, False)


def s_sqr(u):
    op_unit(u, ST + "::sqr_in_place", "or", lambda a: pmul(a, a), False)
    op_unit(u, ST + "::sqr", "r", lambda a: pmul(a, a), False)


def s_add(u):
    op_unit(u, "<%s as std::ops::AddAssign<&%s>>::add_assign" % (ST, ST), "mr", padd)


def choice(b):
    """subtle::Choice holding a 0/1 value"""
    return (C.vite(b, 1, 0),)


def s_cond_neg(u):
    fb = C.bvar(C.mkvar("op", "flag"))
    for flag in (0, 1, fb):
        st = u.state()
        a, pre = fresh()
        st.pc = pre
        p = u.alloc(st, ST, a)
        r = u.call(ST + "::cond_neg_assign", [p, choice(flag)], st)
        v = sval(a)
        check_scalar(u, r[1].mem[p.obj], r[1].pc, vite(flag, C.pneg(v), v))


def s_set_int(u):
    st = u.state()
    p = u.alloc(st, ST, (words(),))
    k = C.new_atom(0, 0xFFFFFFFF, "k")
    r = u.call(ST + "::set_int", [p, k], st)
    check_scalar(u, r[1].mem[p.obj], r[1].pc, k)
    r = u.call(ST + "::from_int", [k], u.state())
    check_scalar(u, r[0], r[1].pc, k)
    st = u.state()
    p = u.alloc(st, ST, (words(),))
    r = u.call(ST + "::clear", [p], st)
    u.check(all(x == 0 for x in r[1].mem[p.obj][0]), "clear leaves zero")
    r = u.call("<%s as std::default::Default>::default" % ST, [], u.state())
    u.check(all(x == 0 for x in r[0][0]), "default is zero")


def s_run(u, fn):
    st = u.state()
    a, pre = fresh()
    st.pc = pre
    p = u.alloc(st, ST, a)
    r = u.call(ST + "::" + fn, [p], st)
    return a, r[0], r[1].pc


def s_is_small(fn, k):
    def body(u):
        a, v, pc = s_run(u, fn)
        z = C.eq(a[0][0], k)
        for x in a[0][1:]:
            z = band(z, C.eq(x, 0))
        u.check(bool_is(u, v, z, pc), fn + " exact")
    return body


def s_is_even(u):
    a, v, pc = s_run(u, "is_even")
    u.check(bool_is(u, v, C.eq(C.low(sval(a), 1), 0), pc), "is_even exact")


def s_is_high(u):
    a, v, pc = s_run(u, "is_high")
    n = u.ip.tobdd(v, pc)
    g = band(pc, n)
    u.check(g != 0 and u.in_range(sval(a), (N - 1) // 2 + 1, N, g), "is_high only above half the order", rng(sval(a), g))
    g = band(pc, bnot(n))
    u.check(g != 0 and u.in_range(sval(a), 0, (N - 1) // 2, g), "is_high everywhere above half the order", rng(sval(a), g))


def s_eq(u):
    st = u.state()
    x, y = words("x"), words("y")
    p = u.alloc(st, ST, (x,))
    q = u.alloc(st, ST, (y,))
    r = u.call("<%s as std::cmp::PartialEq>::eq" % ST, [p, q], st)
    z = 1
    for a, b in zip(x, y):
        z = band(z, C.eq(a, b))
    u.check(bool_is(u, r[0], z, r[1].pc), "equality of all words")


def s_set_b32(u):
    st = u.state()
    bs = tuple(C.new_atom(0, 255, "b%d" % i) for i in range(32))
    p = u.alloc(st, ST, (words(),))
    q = u.alloc(st, u.ip.arr_ty(u.mir.ty("u8"), 32), bs)
    r = u.call(ST + "::set_b32", [p, q], st)
    pc = r[1].pc
    val = bytes_value(bs)
    ov = r[0][0] if isinstance(r[0], tuple) else r[0]
    n = u.ip.tobdd(ov, pc) if isinstance(ov, B) else C.bor(0, mkbool(u, ov, pc))
    g = band(pc, n)
    u.check(u.in_range(val, N, 2**256, g), "reports overflow only for values not below n", rng(val, g))
    g = band(pc, bnot(n))
    u.check(u.in_range(val, 0, N - 1, g), "reports every value not below n", rng(val, g))
    check_scalar(u, r[1].mem[p.obj], pc, val)


def mkbool(u, v, pc):
    """BDD of a guarded 0/1 number"""
    return u.ip.tobdd(C.mapply(lambda x: B(C.ge_const(x, 1, pc)), v), pc)


def s_b32(u):
    for fn in ("b32", "fill_b32"):
        st = u.state()
        a, pre = fresh()
        st.pc = pre
        p = u.alloc(st, ST, a)
        if fn == "b32":
            r = u.call(ST + "::b32", [p], st)
            out = r[0]
        else:
            q = u.alloc(st, u.ip.arr_ty(u.mir.ty("u8"), 32), tuple(C.new_atom(0, 255, "o") for i in range(32)))
            r = u.call(ST + "::fill_b32", [p, q], st)
            out = r[1].mem[q.obj]
        pc = r[1].pc
        u.check(all(u.in_range(x, 0, 255, pc) for x in out), "bytes are bytes")
        u.check(same(u, bytes_value(out), sval(a), pc), "big-endian digits of the value")


def s_bits(u):
    """bits(offset, count) for every admissible constant offset and width"""
    for count in (1, 2, 3, 4, 5, 8, 12, 14, 15, 16, 31):
        for off in range(0, 257 - count):
            if (off + count - 1) >> 5 == off >> 5:
                st = u.state()
                a = (words(),)
                p = u.alloc(st, ST, a)
                r = u.call(ST + "::bits", [p, off, count], st)
                u.check(same(u, r[0], C.mid(a[0][off >> 5], off & 31, count), r[1].pc), "bits exact", "%d,%d" % (off, count))
            if count < 17 or off % 7 == 0:
                st = u.state()
                a = (words(),)
                p = u.alloc(st, ST, a)
                r = u.call(ST + "::bits_var", [p, off, count], st)
                w = C.padd(a[0][off >> 5], C.pscale(a[0][(off >> 5) + 1], 1 << 32)) if off >> 5 < 7 else a[0][7]
                u.check(same(u, r[0], C.mid(w, off & 31, count), r[1].pc), "bits_var exact", "%d,%d" % (off, count))


def s_shr(u):
    for n in range(1, 16):
        st = u.state()
        a = (words(),)
        p = u.alloc(st, ST, a)
        r = u.call(ST + "::shr_int", [p, n], st)
        v = sval(a)
        u.check(same(u, r[0], C.low(v, n), r[1].pc), "low bits returned")
        out = r[1].mem[p.obj]
        u.check(all(u.in_range(x, 0, 0xFFFFFFFF, r[1].pc) for x in out[0]), "words are words")
        u.check(same(u, sval(out), C.shr(v, n), r[1].pc), "shifted value exact")


def s_cadd(u):
    """value + flag * 2^bit when that stays below 2^256"""
    for bit in range(256):
        for flag in ((1, 0) if bit > 2 else (1, 0, C.bvar(C.mkvar("op", "flag")))):
            st = u.state()
            a = (words(),)
            v = sval(a)
            st.pc = bnot(C.ge_const(v, 2**256 - (1 << bit)))
            p = u.alloc(st, ST, a)
            r = u.call(ST + "::cadd_bit", [p, bit, B(flag)], st)
            out = r[1].mem[p.obj]
            u.check(all(u.in_range(x, 0, 0xFFFFFFFF, r[1].pc) for x in out[0]), "words are words")
            u.check(same(u, sval(out), vite(flag, padd(v, 1 << bit), v), r[1].pc), "value plus the flagged power of two", "bit %d" % bit)


UNITS = {
    "sarith": [("Scalar::mul_in_place", s_mul), ("Scalar::sqr", s_sqr), ("Scalar::add_assign", s_add),
               ("Scalar operators", ops), ("Scalar::cond_neg_assign", s_cond_neg), ("Scalar::set_int", s_set_int)],
    "spred": [("Scalar::is_zero", s_is_small("is_zero", 0)), ("Scalar::is_one", s_is_small("is_one", 1)), ("Scalar::is_even", s_is_even), ("Scalar::is_high", s_is_high), ("Scalar::eq", s_eq)],
    "sbits": [("Scalar::bits", s_bits), ("Scalar::shr_int", s_shr), ("Scalar::cadd_bit", s_cadd)],
    "scodec": [("Scalar::set_b32", s_set_b32), ("Scalar::b32", s_b32)],
}
