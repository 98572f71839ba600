"""Symbolic memory: persistent update chains read lazily (quantifier free)."""
import z3

BV64 = z3.BitVecSort(64)
BV8 = z3.BitVecSort(8)
M64 = (1 << 64) - 1


class Unsupported(Exception):
    pass


class Ptr:
    __slots__ = ("obj", "off")

    def __init__(self, obj, off=0):
        self.obj = obj
        self.off = off

    def __repr__(self):
        return "Ptr(%s,%s)" % (self.obj, self.off)


NULL = Ptr(0, 0)


class FnPtr:
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return "Fn(%s)" % self.name


class Opaque:
    """value the verifier does not model (floats, undef aggregates)"""
    def __init__(self, why=""):
        self.why = why


_simpcache = {}


def simp(e):
    if isinstance(e, int):
        return e
    k = e.get_id()
    c = _simpcache.get(k)
    if c is not None:
        return c[1]
    r = z3.simplify(e)
    if z3.is_bv_value(r):
        r = r.as_long()
    elif z3.is_true(r):
        r = 1
    elif z3.is_false(r):
        r = 0
    if len(_simpcache) > 200000:
        _simpcache.clear()
    _simpcache[k] = (e, r)
    return r


def bv(v, w):
    if isinstance(v, int):
        return z3.BitVecVal(v, w)
    if z3.is_bool(v):
        return z3.If(v, z3.BitVecVal(1, w), z3.BitVecVal(0, w))
    return v


def b_(v):
    """to z3 Bool"""
    if isinstance(v, bool):
        return z3.BoolVal(v)
    if isinstance(v, int):
        return z3.BoolVal(v != 0)
    if z3.is_bool(v):
        return v
    return v == z3.BitVecVal(1, v.size())


def split(off):
    """offset -> (symbolic part or None, int const)"""
    off = simp(off)
    if isinstance(off, int):
        return None, off
    if z3.is_app_of(off, z3.Z3_OP_BADD):
        a0 = off.arg(0)
        if z3.is_bv_value(a0):
            rest = [off.arg(i) for i in range(1, off.num_args())]
            r = rest[0]
            for x in rest[1:]:
                r = r + x
            c = a0.as_long()
            if len(rest) > 1:
                r = z3.simplify(r)
            return r, c
    return off, 0


def add64(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return (a + b) & M64
    return simp(bv(a, 64) + bv(b, 64))


def sub64(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return (a - b) & M64
    return simp(bv(a, 64) - bv(b, 64))


def delta(a, b):
    """a-b if statically known (signed int) else None"""
    d = sub64(a, b)
    if isinstance(d, int):
        return d - (1 << 64) if d >> 63 else d
    return None


def to_bytes(val, n):
    """value -> list of n byte values (little endian)"""
    if isinstance(val, Ptr) or isinstance(val, FnPtr) or isinstance(val, Opaque):
        return [("pb", val, i) for i in range(n)]
    if isinstance(val, int):
        return [(val >> (8 * i)) & 0xff for i in range(n)]
    val = bv(val, 8 * n)
    if n == 1:
        return [val]
    return [simp(z3.Extract(8 * i + 7, 8 * i, val)) for i in range(n)]


def from_bytes(bs):
    n = len(bs)
    if isinstance(bs[0], tuple):
        v = bs[0][1]
        if all(isinstance(b, tuple) and b[1] is v and b[2] == i for i, b in enumerate(bs)):
            return v
        if all(isinstance(b, tuple) for b in bs) and isinstance(v, Ptr) and n == 8:
            if all(isinstance(b[1], Ptr) and b[1].obj == v.obj and delta(b[1].off, v.off) == 0 and b[2] == i for i, b in enumerate(bs)):
                return v
        raise Unsupported("partial read of a pointer")
    if any(isinstance(b, tuple) for b in bs):
        raise Unsupported("mixed pointer/byte read")
    if n == 1:
        return bs[0]
    if all(isinstance(b, int) for b in bs):
        r = 0
        for i, b in enumerate(bs):
            r |= b << (8 * i)
        return r
    return simp(z3.Concat(*[bv(b, 8) for b in reversed(bs)]))


def ite(c, a, b):
    if isinstance(a, tuple) or isinstance(b, tuple):
        if isinstance(a, tuple) and isinstance(b, tuple) and a[1] is b[1] and a[2] == b[2]:
            return a
        raise Unsupported("ite on pointer bytes")
    c = simp(c)
    if isinstance(c, int):
        return a if c else b
    if isinstance(a, int) and isinstance(b, int) and a == b:
        return a
    return z3.If(c, bv(a, 8), bv(b, 8))


class Base:
    """kind 'bytes': an SMT array; kind 'struct': named scalar fields, lazily
    created; kind 'zero'."""
    __slots__ = ("kind", "name", "fields", "arr", "lazy")

    def __init__(self, kind, name, lazy=None):
        self.kind = kind
        self.name = name
        self.fields = {}
        self.arr = z3.Array(name + "!mem", BV64, BV8) if kind in ("bytes",) else None
        self.lazy = lazy

    def byte(self, off, ctx):
        if self.kind == "zero":
            return 0
        if self.kind == "bytes":
            return simp(z3.Select(self.arr, bv(off, 64)))
        off = simp(off)
        if not isinstance(off, int):
            if self.arr is None:
                self.arr = z3.Array(self.name + "!arr", BV64, BV8)
            if self.fields:
                raise Unsupported("symbolic offset into structured object " + self.name)
            self.kind = "bytes"
            return simp(z3.Select(self.arr, bv(off, 64)))
        for o, (n, v) in self.fields.items():
            if o <= off < o + n:
                return to_bytes(v, n)[off - o]
        v = z3.BitVec("%s+%d" % (self.name, off), 8)
        self.fields[off] = (1, v)
        return v

    def read(self, off, n, ctx, isptr=False):
        if self.kind == "zero":
            return NULL if isptr else 0
        if self.kind == "struct":
            off = simp(off)
            if isinstance(off, int):
                f = self.fields.get(off)
                if f and f[0] == n:
                    return f[1]
                over = any(o < off + n and off < o + k for o, (k, _) in self.fields.items())
                if not over:
                    if self.lazy is not None:
                        v = self.lazy(off, n, isptr)
                        if v is not None:
                            self.fields[off] = (n, v)
                            return v
                    if isptr:
                        raise Unsupported("uninitialised pointer field %s+%d" % (self.name, off))
                    v = z3.BitVec("%s+%d_%d" % (self.name, off, n), 8 * n)
                    self.fields[off] = (n, v)
                    return v
        if isptr and self.kind == "bytes":
            raise Unsupported("pointer read from byte object " + self.name)
        return from_bytes([self.byte(add64(off, i), ctx) for i in range(n)])


class Cells:
    __slots__ = ("parent", "d", "cov")

    def __init__(self, parent, d, cov):
        self.parent, self.d, self.cov = parent, d, cov

    def store(self, off, n, val):
        d = dict(self.d)
        cov = dict(self.cov)
        old = d.get(off)
        if not (old and old[0] == n):
            olds = {cov[i] for i in range(off, off + n) if i in cov}
            for o in olds:
                on, ov = d.pop(o)
                bs = to_bytes(ov, on)
                for i in range(on):
                    del cov[o + i]
                for i in range(on):
                    if not (off <= o + i < off + n):
                        d[o + i] = (1, bs[i])
                        cov[o + i] = o + i
            for i in range(n):
                cov[off + i] = off
        d[off] = (n, val)
        return Cells(self.parent, d, cov)

    def byte(self, off, ctx):
        off = simp(off)
        if isinstance(off, int):
            o = self.cov.get(off)
            if o is None:
                return self.parent.byte(off, ctx)
            n, v = self.d[o]
            if n == 1 and isinstance(v, tuple):
                return v
            return to_bytes(v, n)[off - o]
        v = self.parent.byte(off, ctx)
        for o, (n, cv) in sorted(self.d.items()):
            if isinstance(cv, tuple):
                raise Unsupported("symbolic read over pointer cells")
            if isinstance(cv, (Ptr, FnPtr, Opaque)):
                # a symbolic byte read cannot mix with pointers: require disjoint
                if ctx is not None and ctx.entails(z3.UGE(bv(off, 64) - o, n)):
                    continue
                raise Unsupported("symbolic byte read over pointer cells")
            bs = to_bytes(cv, n)
            for i in range(n):
                v = ite(bv(off, 64) == o + i, bs[i], v)
        return v

    def read(self, off, n, ctx, isptr=False):
        off = simp(off)
        if isinstance(off, int):
            c = self.d.get(off)
            if c and c[0] == n:
                if isinstance(c[1], tuple):
                    return from_bytes([c[1]])
                return c[1]
            if not any((off + i) in self.cov for i in range(n)):
                return self.parent.read(off, n, ctx, isptr)
        return from_bytes([self.byte(add64(off, i), ctx) for i in range(n)])


class SymStore:
    __slots__ = ("parent", "off", "n", "val", "bs")

    def __init__(self, parent, off, n, val):
        self.parent, self.off, self.n, self.val = parent, off, n, val
        self.bs = None

    def byte(self, off, ctx):
        if self.bs is None:
            self.bs = to_bytes(self.val, self.n)
        d = delta(off, self.off)
        if d is not None:
            if 0 <= d < self.n:
                return self.bs[d]
            return self.parent.byte(off, ctx)
        v = self.parent.byte(off, ctx)
        for i in range(self.n):
            v = ite(bv(off, 64) == bv(self.off, 64) + i, self.bs[i], v)
        return v

    def read(self, off, n, ctx, isptr=False):
        d = delta(off, self.off)
        if d is not None:
            if d == 0 and n == self.n:
                return self.val
            if d <= -n or d >= self.n:
                return self.parent.read(off, n, ctx, isptr)
        elif ctx is not None:
            # disjoint?
            dis = z3.And(z3.UGE(bv(off, 64) - bv(self.off, 64), self.n), z3.UGE(bv(self.off, 64) - bv(off, 64), n))
            if ctx.entails(dis):
                return self.parent.read(off, n, ctx, isptr)
            if n == self.n and ctx.entails(bv(off, 64) == bv(self.off, 64)):
                return self.val
        return from_bytes([self.byte(add64(off, i), ctx) for i in range(n)])


class Range:
    """bytes [off, off+n) come from src (a content) at soff, or from fn(j)."""
    __slots__ = ("parent", "off", "n", "src", "soff", "fn")

    def __init__(self, parent, off, n, src=None, soff=0, fn=None):
        self.parent, self.off, self.n, self.src, self.soff, self.fn = parent, off, n, src, soff, fn

    def inner(self, rel, ctx):
        if self.src is not None:
            return self.src.byte(add64(self.soff, rel), ctx)
        return self.fn(rel)

    def byte(self, off, ctx):
        rel = sub64(off, self.off)
        if isinstance(rel, int) and isinstance(self.n, int):
            if rel < self.n:
                return self.inner(rel, ctx)
            return self.parent.byte(off, ctx)
        c = simp(z3.ULT(bv(rel, 64), bv(self.n, 64)))
        if isinstance(c, int):
            return self.inner(rel, ctx) if c else self.parent.byte(off, ctx)
        return ite(c, self.inner(rel, ctx), self.parent.byte(off, ctx))

    def read(self, off, n, ctx, isptr=False):
        rel = sub64(off, self.off)
        inside = outside = None
        if isinstance(rel, int) and isinstance(self.n, int):
            srel = rel - (1 << 64) if rel >> 63 else rel
            inside = 0 <= srel and srel + n <= self.n
            outside = srel >= self.n or srel + n <= 0
        elif ctx is not None:
            r = bv(rel, 64)
            N = bv(self.n, 64)
            if ctx.entails(z3.And(z3.ULE(n, N), z3.ULE(r, N - n))):
                inside = True
            elif ctx.entails(z3.And(z3.UGE(r, N), z3.Or(z3.ULE(r, M64 + 1 - n)), z3.BoolVal(True))):
                outside = True
        if inside:
            if self.src is not None:
                return self.src.read(add64(self.soff, rel), n, ctx, isptr)
            return from_bytes([self.fn(add64(rel, i)) for i in range(n)])
        if outside:
            return self.parent.read(off, n, ctx, isptr)
        return from_bytes([self.byte(add64(off, i), ctx) for i in range(n)])


def store(content, off, n, val):
    off = simp(off)
    if isinstance(off, int):
        if isinstance(content, Cells):
            return content.store(off, n, val)
        return Cells(content, {}, {}).store(off, n, val)
    return SymStore(content, off, n, val)
