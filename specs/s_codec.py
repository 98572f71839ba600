"""Stored integer forms and hex text (C18)."""
import z3
from contract import *
from sym import Fact


def codec(v, n):
    W, G = "mabain::Write%dBInteger" % n, "mabain::Get%dBInteger" % n
    st = v.state()
    b = v.obj(st, "buf", None, "bytes")
    off = v.bv("off")
    x = v.bv("x")
    before = v.byte(st, b, x)
    for o in v.run(st, W, [Ptr(b.obj, 64), off]):
        v.check(o, "stores the low bytes, least significant first", z3.And(*[v.byte(o, b, 64 + i) == z3.Extract(8 * i + 7, 8 * i, off) for i in range(n)]))
        v.check(o, "touches only its own bytes", z3.Or(z3.And(z3.UGE(x, 64), z3.ULT(x, 64 + n)), v.byte(o, b, x) == before))
        o.result = None
        o.frames = []
        o.assume(z3.ULT(off, 1 << (8 * n)))
        for o2 in v.run(o, G, [Ptr(b.obj, 64)]):
            v.check(o2, "reads back the number written", bv(o2.result[1], 64) == off)
    st = v.state()
    b = v.obj(st, "buf", n, "bytes")
    bs = [v.byte(st, b, i) for i in range(n)]
    for o in v.run(st, G, [b]):
        r = bv(o.result[1], 64)
        v.check(o, "value of the stored bytes", r == z3.ZeroExt(64 - 8 * n, z3.Concat(*reversed(bs))))


@proof("C18", "mabain::Write5BInteger", "5-byte stored form")
def codec5(v):
    codec(v, 5)


@proof("C18", "mabain::Write6BInteger", "6-byte stored form")
def codec6(v):
    codec(v, 6)


def hexval(c):
    """value of a hex digit, as a 32-bit number; -1 if it is none"""
    e = z3.BitVecVal(-1, 32)
    for lo, hi, base in ((48, 57, 0), (65, 70, 10), (97, 102, 10)):
        e = z3.If(z3.And(z3.UGE(c, lo), z3.ULE(c, hi)), z3.ZeroExt(24, c) - lo + base, e)
    return e


@proof("C18", "hex_to_half_byte", "one hex digit, every byte value")
def hex_digit(v):
    st = v.state()
    c = v.bv("c", 8)
    for o in v.run(st, "hex_to_half_byte", [c]):
        v.check(o, "value of the digit or -1", bv(o.result[1], 32) == hexval(c))


class HalfByte:
    """contract of hex_to_half_byte, proved by hex_digit"""
    def names(self, V):
        return [V.fn("hex_to_half_byte")]

    def apply(self, X, st, a):
        r = HV(bv(a[0], 8))
        st.assume(z3.And(r >= -1, r <= 15))
        return r


HV = z3.Function("hexdigit", z3.BitVecSort(8), z3.BitVecSort(32))   # the function specified by hexval()


@proof("C18", "hex_2_bin", "hex text to bytes, any length")
def hex_to_bin(v):
    v.use(HalfByte())
    st = v.state()
    src = v.obj(st, "text", None, "bytes")
    dst = v.obj(st, "out", None, "bytes")
    n, size = v.bv("len", 32), v.bv("size", 32)
    st.assume(z3.And(n >= 0, size >= 0))
    x, j = v.bv("x"), v.bv("j")
    before = v.byte(st, dst, x)
    s0 = st.mem[src.obj]

    def ch(k):
        return bv(s0.byte(simp(k), None), 8)
    cnt = z3.ZeroExt(32, z3.LShR(n, 1))
    outs = v.run(st, "hex_2_bin", [src, n, dst, size])
    for o in outs:
        r = bv(o.result[1], 32)
        good = z3.And(HV(ch(2 * j)) >= 0, HV(ch(2 * j + 1)) >= 0)
        v.check(o, "accepted text: length halves", z3.Or(r == -1, z3.And(r == z3.LShR(n, 1), n & 1 == 0, r <= size)))
        v.check(o, "accepted text: all digits valid, bytes exact",
                z3.Implies(z3.And(r != -1, z3.ULT(j, cnt)), z3.And(good, v.byte(o, dst, j) == z3.Extract(7, 0, HV(ch(2 * j)) * 16 + HV(ch(2 * j + 1))))), hints=[j])
        v.check(o, "writes only the output bytes", z3.Implies(z3.Or(z3.UGE(x, cnt), z3.UGE(x, z3.ZeroExt(32, size))), v.byte(o, dst, x) == before))
    # refused only for a reason: all-valid text that fits is accepted
    st = v.state()
    src = v.obj(st, "text", None, "bytes")
    dst = v.obj(st, "out", None, "bytes")
    st.assume(z3.And(n >= 0, size >= 0, n & 1 == 0, z3.LShR(n, 1) <= size))
    s0 = st.mem[src.obj]
    st.facts.append(Fact(lambda q: z3.Implies(z3.ULT(q, z3.ZeroExt(32, n)), HV(bv(s0.byte(simp(q), None), 8)) >= 0), "all digits valid"))
    outs = v.run(st, "hex_2_bin", [src, n, dst, size])
    for o in outs:
        v.check(o, "valid text that fits is accepted", bv(o.result[1], 32) == z3.LShR(n, 1))
    v.cover("hex_2_bin accepts", [o for o in outs])
