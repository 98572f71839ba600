"""FreeList accounting (C09): every operation adds or takes at most one buffer, of the class its size
says, and count / tot_size follow the queues.  Queues are used through the contracts proved in s_lsq."""
import z3
from contract import *
from mem import Ptr, NULL, simp, add64, sub64, bv
from sym import Fact

CNT0 = z3.Function("qcount", z3.BitVecSort(64), z3.BitVecSort(64))


class QArr:
    """the array of queue pointers: element i points to queue i"""
    def __init__(self, obj, size):
        self.obj, self.size = obj, size

    def read(self, off, n, ctx, isptr=False):
        if n != 8:
            raise Unsupported("queue array access")
        return Ptr(self.obj, simp(z3.LShR(bv(off, 64), 3) * self.size))

    def byte(self, off, ctx):
        raise Unsupported("queue array access")


class FL:
    def __init__(self, v, align=None):
        self.v = v
        L = v.L
        self.st = st = v.state()
        self.f = v.obj(st, "free_list", L.size("FreeList"))
        self.qs = L.size("MBlsq")
        self.queues = v.obj(st, "queues", None)
        arr = v.obj(st, "queue_array", None)
        st.mem[arr.obj] = QArr(self.queues.obj, self.qs)
        self.maxn, self.maxper = v.bv("max_num"), v.bv("max_per")
        self.cnt, self.tot = v.bv("count"), v.bv("tot")
        st.assume(z3.And(z3.UGT(self.maxn, 0), z3.ULE(self.maxn, 65535), z3.ULT(self.maxper, 1 << 31), z3.ULT(self.cnt, 1 << 62), z3.ULT(self.tot, 1 << 62)))
        for n, x in (("alignment", 1), ("max_num_buffer", self.maxn), ("max_buffer_per_list", self.maxper),
                     ("buffer_free_list", arr), ("count", self.cnt), ("tot_size", self.tot)):
            v.set(st, self.f, L.off("FreeList", n), 8, x)
        st.ghost["q"] = ()          # (queue, delta) updates of the ghost counts
        for c in (QAdd, QRem, QCount):
            v.use(c(self))

    def q(self, p):
        return simp(z3.UDiv(bv(p.off, 64), z3.BitVecVal(self.qs, 64))) if not self.direct(p) is not None else self.direct(p)

    def direct(self, p):
        """i for the offset i*size (syntactically)"""
        o = p.off
        if isinstance(o, int):
            return o // self.qs
        return z3.UDiv(o, z3.BitVecVal(self.qs, 64))

    def count(self, st, q):
        e = CNT0(bv(q, 64))
        for (k, d) in st.ghost["q"]:
            e = e + z3.If(bv(k, 64) == bv(q, 64), z3.BitVecVal(d & ((1 << 64) - 1), 64), z3.BitVecVal(0, 64))
        return simp(e)

    def fld(self, st, n):
        return bv(self.v.get(st, self.f, self.v.L.off("FreeList", n), 8), 64)

    def idx(self, size):
        return size - 1

    def unchanged(self, o):
        return z3.And(self.fld(o, "count") == self.cnt, self.fld(o, "tot_size") == self.tot, z3.BoolVal(not events(o)))


def events(o):
    return [e for e in o.trace if e[0] in ("add", "rem")]


class QC:
    def __init__(self, fl):
        self.fl = fl


class QAdd(QC):
    def names(self, V):
        return [V.fn("mabain::MBlsq::AddIntToTail")]

    def apply(self, X, st, a):
        q = self.fl.direct(a[0])
        st.event("add", q, a[1])
        st.ghost["q"] = st.ghost["q"] + ((q, 1),)
        return 0


class QRem(QC):
    def names(self, V):
        return [V.fn("mabain::MBlsq::RemoveIntFromHead")]

    def apply(self, X, st, a):
        q = self.fl.direct(a[0])
        X.oblige(st, "takes only from a queue that holds a buffer", z3.UGT(self.fl.count(st, q), 0))
        r = X.fresh("buffer", 64)
        st.event("rem", q, r)
        st.ghost["q"] = st.ghost["q"] + ((q, -1),)
        return r


class QCount(QC):
    def names(self, V):
        return [V.fn("mabain::MBlsq::Count")]

    def apply(self, X, st, a):
        return self.fl.count(st, self.fl.direct(a[0]))


def added(v, F, o, offset, idx):
    """post of giving back buffer [offset, offset+idx+1)"""
    ev = events(o)
    v.check(o, "a released buffer enters at most one queue", z3.BoolVal(len(ev) <= 1 and all(e[0] == "add" for e in ev)))
    room = z3.ULE(CNT0(bv(idx, 64)), F.maxper)
    if not ev:
        v.check(o, "a buffer is dropped only when its queue is full", z3.Not(room))
        v.check(o, "nothing is counted for a dropped buffer", F.unchanged(o))
        return
    q, val = ev[0][1], ev[0][2]
    v.check(o, "the queue holds the offset that was released", bv(val, 64) == bv(offset, 64))
    v.check(o, "the queue's buffer size is not above the size released", z3.ULE(bv(q, 64), bv(idx, 64)))
    v.check(o, "a buffer enters the queue of its own size unless that is full", z3.Implies(room, bv(q, 64) == bv(idx, 64)))
    v.check(o, "count grows by one", F.fld(o, "count") == F.cnt + 1)
    v.check(o, "total size grows by the buffer's size", F.fld(o, "tot_size") == F.tot + bv(q, 64) + 1)


def sized(F, v, name="size"):
    size = v.bv(name)
    F.st.assume(z3.And(z3.UGE(size, 1), z3.ULE(size, F.maxn)))
    return size


@proof("C09", "mabain::FreeList::AddBuffer", "giving back a buffer")
def fl_add(v):
    F = FL(v)
    size, off = sized(F, v), v.bv("off")
    for o in v.run(F.st, "mabain::FreeList::AddBuffer", [F.f, off, size]):
        added(v, F, o, off, size - 1)


@proof("C09", "mabain::FreeList::ReleaseBuffer", "giving back a buffer (inline form)")
def fl_release(v):
    F = FL(v)
    size, off = sized(F, v), v.bv("off")
    for o in v.run(F.st, "mabain::FreeList::ReleaseBuffer", [F.f, off, size]):
        added(v, F, o, off, size - 1)


@proof("C09", "mabain::FreeList::AddBufferByIndex", "giving back a buffer by class")
def fl_addidx(v):
    F = FL(v)
    idx, off = v.bv("idx"), v.bv("off")
    F.st.assume(z3.ULT(idx, F.maxn))
    for o in v.run(F.st, "mabain::FreeList::AddBufferByIndex", [F.f, idx, off]):
        added(v, F, o, off, idx)


@proof("C09", "mabain::FreeList::ReleaseAlignmentBuffer", "giving back the gap before an aligned buffer")
def fl_align(v):
    F = FL(v)
    a, b = v.bv("old"), v.bv("new")
    F.st.assume(z3.Or(z3.ULE(b, a), z3.ULE(b - a, F.maxn)))
    for o in v.run(F.st, "mabain::FreeList::ReleaseAlignmentBuffer", [F.f, a, b]):
        if not events(o):
            v.check(o, "nothing released: nothing counted", F.unchanged(o))
            v.check(o, "a gap is dropped only when its queue is full", z3.Or(z3.ULE(b, a), z3.UGT(CNT0(b - a - 1), F.maxper)))
        else:
            v.check(o, "only a real gap is released", z3.UGT(b, a))
            added(v, F, o, a, b - a - 1)


def taken(v, F, o, idx, got, outv):
    ev = events(o)
    v.check(o, "at most one buffer is handed out", z3.BoolVal(len(ev) <= 1 and all(e[0] == "rem" for e in ev)))
    if not ev:
        v.check(o, "refused only when there is none", CNT0(bv(idx, 64)) == 0)
        v.check(o, "refusal reported", z3.Not(got))
        v.check(o, "nothing changes on refusal", F.unchanged(o))
        return
    v.check(o, "success reported", got)
    v.check(o, "taken from the queue of the size asked for", bv(ev[0][1], 64) == bv(idx, 64))
    v.check(o, "hands out the offset the queue gave", bv(outv, 64) == bv(ev[0][2], 64))
    v.check(o, "count shrinks by one", F.fld(o, "count") == F.cnt - 1)
    v.check(o, "total size shrinks by the buffer's size", F.fld(o, "tot_size") == F.tot - bv(idx, 64) - 1)


@proof("C09", "mabain::FreeList::RemoveBuffer", "taking a buffer of a size")
def fl_remove(v):
    F = FL(v)
    size = sized(F, v)
    out = v.obj(F.st, "out", 8)
    for o in v.run(F.st, "mabain::FreeList::RemoveBuffer", [F.f, out, size]):
        taken(v, F, o, size - 1, bv(o.result[1], 32) == 0, v.get(o, out, 0, 8))


@proof("C09", "mabain::FreeList::GetBufferByIndex", "taking a buffer by class")
def fl_getidx(v):
    F = FL(v)
    idx = v.bv("idx")
    F.st.assume(z3.ULT(idx, F.maxn))
    out = v.obj(F.st, "out", 8)
    for o in v.run(F.st, "mabain::FreeList::GetBufferByIndex", [F.f, idx, out]):
        taken(v, F, o, idx, b_(o.result[1]), v.get(o, out, 0, 8))


@proof("C09", "mabain::FreeList::RemoveBufferByIndex", "taking a buffer by class, known to exist")
def fl_remidx(v):
    F = FL(v)
    idx = v.bv("idx")
    F.st.assume(z3.And(z3.ULT(idx, F.maxn), z3.UGT(CNT0(idx), 0)))
    for o in v.run(F.st, "mabain::FreeList::RemoveBufferByIndex", [F.f, idx]):
        taken(v, F, o, idx, z3.BoolVal(True), o.result[1])


@proof("C09", "mabain::FreeList::GetBufferIndex", "size classes are exact: class i holds buffers of i+1 bytes")
def fl_class(v):
    F = FL(v)
    size = sized(F, v)
    for fn, want in (("GetBufferIndex", size - 1), ("GetAlignmentSize", size)):
        for o in v.run(F.st.fork(), "mabain::FreeList::" + fn, [F.f, size]):
            v.check(o, fn, bv(o.result[1], 64) == want)
    for o in v.run(F.st.fork(), "mabain::FreeList::GetBufferSizeByIndex", [F.f, size - 1]):
        v.check(o, "size of a class", bv(o.result[1], 64) == size)
    for fn, want in (("GetTotSize", F.tot), ("Count", F.cnt)):
        for o in v.run(F.st.fork(), "mabain::FreeList::" + fn, [F.f]):
            v.check(o, fn, bv(o.result[1], 64) == want)
