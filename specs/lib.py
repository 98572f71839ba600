"""Shared vocabulary of the contracts: the objects of an open database, the ghost storage
arrays (index file I, data file D), and the contracts of the storage layer."""
import z3
from contract import *
from mem import Range, Base, simp, add64, sub64, bv, b_, store as mstore
from sym import Fact

EDGE = 13


class Content:
    """custom content: value of the 4-byte table node_size[i] = 8 + 14*(i+1) (DictMem constructor)"""
    def byte(self, off, ctx):
        e = 22 + 14 * z3.LShR(bv(off, 64), 2)
        k = bv(off, 64) & 3
        r = z3.Extract(7, 0, e)
        for i in (1, 2, 3):
            r = z3.If(k == i, z3.Extract(8 * i + 7, 8 * i, e), r)
        return simp(r)

    def read(self, off, n, ctx, isptr=False):
        if n == 4:
            # element reads are 4-aligned: the index expressions are 4*i
            o = bv(off, 64)
            return simp(z3.Extract(31, 0, 22 + 14 * z3.LShR(o, 2)))
        return from_bytes([self.byte(add64(off, i), ctx) for i in range(n)])


def le(bs):
    """little endian number from byte expressions, zero-extended to 64 bits"""
    e = z3.Concat(*[bv(b, 8) for b in reversed(bs)]) if len(bs) > 1 else bv(bs[0], 8)
    return simp(z3.ZeroExt(64 - 8 * len(bs), e)) if len(bs) < 8 else simp(e)


def sx(e):
    return z3.SignExt(64 - e.size(), e)


def zx(e):
    return z3.ZeroExt(64 - e.size(), e)


def disjoint(o1, n1, o2, n2):
    """[o1,o1+n1) and [o2,o2+n2) do not overlap (no wrap: offsets are below 2^48)"""
    o1, n1, o2, n2 = bv(o1, 64), bv(n1, 64), bv(o2, 64), bv(n2, 64)
    return z3.Or(z3.ULE(o1 + n1, o2), z3.ULE(o2 + n2, o1))


def inside(x, o, n):
    return z3.And(z3.UGE(x, bv(o, 64)), z3.ULT(x, bv(o, 64) + bv(n, 64)))


LIM = 1 << 47     # storage offsets are 6-byte numbers


class World:
    """the objects behind an open database"""
    def __init__(self, v, jemalloc=None, writer=True):
        self.v = v
        L = v.L
        self.st = st = v.state()
        self.hdr = v.obj(st, "header", L.size("IndexHeader"))
        self.I = v.obj(st, "Ifile", None, "bytes")
        self.D = v.obj(st, "Dfile", None, "bytes")
        self.ikv = v.obj(st, "index_kv", None)
        self.dkv = v.obj(st, "data_kv", None)
        self.ifl = v.obj(st, "index_fl", L.size("FreeList"))
        self.dfl = v.obj(st, "data_fl", L.size("FreeList"))
        self.dict = v.obj(st, "dict", L.size("Dict"))
        self.mm = Ptr(self.dict.obj, L.off("Dict", "mm"))
        self.lf = Ptr(self.dict.obj, L.off("Dict", "lfree"))
        self.nsz = v.obj(st, "node_size", 1024)
        st.mem[self.nsz.obj] = Content()
        self.nptr = v.obj(st, "node_ptr", 22 + 14 * 255, "bytes")
        self.opt = v.bv("options", 32)
        jm = L.const("CONSTS::OPTION_JEMALLOC")
        if jemalloc is not None:
            st.assume((self.opt & jm) == (jm if jemalloc else 0))
        self.jemalloc = (self.opt & jm) != 0
        d, m = "Dict", "DictMem"
        for c, base, kv, fl in ((d, self.dict, self.dkv, self.dfl), (m, self.mm, self.ikv, self.ifl)):
            v.set(st, base, L.off(c, "options"), 4, self.opt)
            v.set(st, base, L.off(c, "header"), 8, self.hdr)
            v.set(st, base, L.off(c, "kv_file"), 8, kv)
            v.set(st, base, L.off(c, "free_lists"), 8, fl if jemalloc is not True else NULL)
        v.set(st, self.mm, L.off(m, "node_size"), 8, self.nsz)
        v.set(st, self.mm, L.off(m, "node_ptr"), 8, self.nptr)
        v.set(st, self.mm, L.off(m, "lfree"), 8, self.lf)
        self.root = 0
        v.set(st, self.mm, L.off(m, "root_offset"), 8, 0)
        self.rcroot = v.bv("root_offset_rc")
        v.set(st, self.mm, L.off(m, "root_offset_rc"), 8, self.rcroot)
        v.set(st, self.lf, L.off("LockFree", "shm_data_ptr"), 8, Ptr(self.hdr.obj, L.off("IndexHeader", "lock_free")))
        v.set(st, self.lf, L.off("LockFree", "header"), 8, self.hdr)
        self.I0, self.D0 = st.mem[self.I.obj], st.mem[self.D.obj]
        st.ghost["live_I"] = ()
        st.ghost["live_D"] = ()
        st.ghost["fresh_I"] = ()
        st.ghost["fresh_D"] = ()
        for f in ("m_index_offset", "m_data_offset"):
            st.assume(z3.ULT(self.h(st, f), LIM))

    # header field
    def hoff(self, f):
        return self.v.L.off("IndexHeader", f)

    HW = {"excep_updating_status": 4, "data_size": 4, "eviction_bucket_index": 2, "rebuild_active": 4,
          "reader_epoch_tracking_active": 4, "rc_flag": 4, "queue_index": 4, "writer_index": 4, "async_queue_size": 4}

    def h(self, st, f):
        n = self.HW.get(f, 8)
        return bv(self.v.get(st, self.hdr, self.hoff(f), n), 8 * n)

    def hset(self, st, f, val):
        self.v.set(st, self.hdr, self.hoff(f), self.HW.get(f, 8), val)

    def hb(self, st, i):
        """byte i of the saved edge in the header"""
        return self.v.byte(st, self.hdr, self.hoff("excep_buff") + i)

    def lfo(self, st):
        return bv(self.v.get(st, self.hdr, self.hoff("lock_free") + self.v.L.off("LockFreeShmData", "offset"), 8), 64)

    # file bytes
    def i(self, st, off):
        self.v.X.cur = st
        return bv(st.mem[self.I.obj].byte(simp(bv(off, 64)), self.v.X), 8)

    def d(self, st, off):
        self.v.X.cur = st
        return bv(st.mem[self.D.obj].byte(simp(bv(off, 64)), self.v.X), 8)

    def i0(self, off):
        return bv(self.I0.byte(simp(bv(off, 64)), None), 8)

    def d0(self, off):
        return bv(self.D0.byte(simp(bv(off, 64)), None), 8)

    def live(self, st, which, off, n):
        st.ghost["live_" + which] = st.ghost["live_" + which] + ((off, n),)
        st.assume(z3.And(z3.ULT(bv(off, 64), LIM), z3.ULE(bv(n, 64), 1 << 17)))

    def which(self, p):
        return "I" if p.obj == self.ikv.obj else "D"

    def file(self, p):
        return self.I if p.obj == self.ikv.obj else self.D

    # edge pointers object (a caller's EdgePtrs)
    def edgeptrs(self, st, name, buf=None, base=None):
        """EdgePtrs; ptr.. point into buf (Ptr) or, by default, its own edge_buff"""
        v, L = self.v, self.v.L
        e = base if base is not None else v.obj(st, name, L.size("EdgePtrs"))
        b = buf if buf is not None else Ptr(e.obj, add64(e.off, L.off("EdgePtrs", "edge_buff")))
        self.setptrs(st, e, b)
        return e

    def setptrs(self, st, e, b):
        v, L = self.v, self.v.L
        v.set(st, e, L.off("EdgePtrs", "ptr"), 8, b)
        v.set(st, e, L.off("EdgePtrs", "len_ptr"), 8, Ptr(b.obj, add64(b.off, 5)))
        v.set(st, e, L.off("EdgePtrs", "flag_ptr"), 8, Ptr(b.obj, add64(b.off, 6)))
        v.set(st, e, L.off("EdgePtrs", "offset_ptr"), 8, Ptr(b.obj, add64(b.off, 7)))

    EW = {"curr_nt": 4, "curr_edge_index": 4}

    def eset(self, st, e, f, val):
        self.v.set(st, e, self.v.L.off("EdgePtrs", f), self.EW.get(f, 8), val)

    def eget(self, st, e, f):
        n = self.EW.get(f, 8)
        return bv(self.v.get(st, e, self.v.L.off("EdgePtrs", f), n), 8 * n)

    MW = {"data_len": 4, "buff_len": 4, "options": 4, "match_len": 4, "bucket_index": 2, "free_buffer": 1}

    def mbdata(self, st, name="mbdata", buff=True):
        v, L = self.v, self.v.L
        m = v.obj(st, name, L.size("MBData"))
        self.mset(st, m, "options", v.bv(name + ".options", 32))
        self.mset(st, m, "match_len", v.bv(name + ".match_len", 32))
        self.mset(st, m, "data_len", v.bv(name + ".data_len", 32))
        self.mset(st, m, "data_offset", v.bv(name + ".data_offset", 64))
        ep = Ptr(m.obj, L.off("MBData", "edge_ptrs"))
        self.edgeptrs(st, name + ".edge", base=ep)
        self.eset(st, ep, "offset", v.bv(name + ".edge.offset", 64))
        return m

    def mset(self, st, m, f, val):
        self.v.set(st, m, self.v.L.off("MBData", f), self.MW.get(f, 8), val)

    def mget(self, st, m, f, isptr=False):
        n = self.MW.get(f, 8)
        x = self.v.get(st, m, self.v.L.off("MBData", f), n, isptr)
        return x if isptr else bv(x, 8 * n)

    # ---------------- contracts of the storage layer ----------------
    def storage(self, names="read write shm malloc free reserve"):
        for c in (KVRead, KVWrite, KVShm, KVMalloc, KVFree, KVReserve):
            if c.key in names.split():
                self.v.use(c(self))


class KV:
    def __init__(self, W):
        self.W = W


class KVRead(KV):
    """RollableFile::RandomRead/MemRead(buf, n, off): copies bytes [off,off+n) of the ghost
    storage array and returns n (proved against the block files under C10)."""
    key = "read"

    def names(self, V):
        return [V.fn("mabain::RollableFile::RandomRead"), V.fn("mabain::RollableFile::MemRead")]

    def apply(self, X, st, a):
        kv, buf, n, off = a
        F = self.W.file(kv)
        if not isinstance(n, int):
            n = simp(n)
        X.copy_bytes(st, buf, Ptr(F.obj, off), n)
        return n


class KVWrite(KV):
    """RollableFile::RandomWrite/MemWrite: the bytes become the content, nothing else changes."""
    key = "write"

    def names(self, V):
        return [V.fn("mabain::RollableFile::RandomWrite"), V.fn("mabain::RollableFile::MemWrite")]

    def apply(self, X, st, a):
        kv, buf, n, off = a
        F = self.W.file(kv)
        st.event("write", self.W.which(kv), off, n)
        X.copy_bytes(st, Ptr(F.obj, off), buf, n)
        return n


class KVShm(KV):
    """RollableFile::GetShmPtr: NULL, or a pointer to the bytes at off."""
    key = "shm"

    def names(self, V):
        return [V.fn("mabain::RollableFile::GetShmPtr")]

    def apply(self, X, st, a):
        kv, off, n = a
        F = self.W.file(kv)
        s2 = st.fork()
        return [(st, "ret", Ptr(F.obj, off)), (s2, "ret", NULL)]


def fresh_region(W, X, st, which, n, base=None):
    """offset of a region of n bytes disjoint from everything that is live"""
    o = base if base is not None else X.fresh("newoff" + which, 64)
    if base is None:
        st.assume(z3.ULT(o, LIM))
    for (p, k) in st.ghost["live_" + which] + st.ghost["fresh_" + which]:
        st.assume(disjoint(o, n, p, k))
    st.ghost["fresh_" + which] = st.ghost["fresh_" + which] + ((o, n),)
    return o


class KVMalloc(KV):
    """RollableFile::Malloc(size, &off): NULL (allocation refused), or a fresh region of the
    storage array, disjoint from every live region; its bytes are arbitrary."""
    key = "malloc"

    def names(self, V):
        return [V.fn("mabain::RollableFile::Malloc")]

    def apply(self, X, st, a):
        kv, n, po = a
        w = self.W.which(kv)
        s2 = st.fork()
        n64 = simp(bv(n, 64))
        o = fresh_region(self.W, X, st, w, n64)
        X.store(st, po, 8, o)
        F = self.W.file(kv)
        X.store(s2, po, 8, X.fresh("badoff", 64))
        return [(st, "ret", Ptr(F.obj, o)), (s2, "ret", NULL)]


class KVFree(KV):
    """RollableFile::Free(off): the region may be handed out again; contents unaffected here."""
    key = "free"

    def names(self, V):
        return [V.fn("mabain::RollableFile::Free")]

    def apply(self, X, st, a):
        st.event("free", self.W.which(a[0]), a[1])
        return None


class LastErr(KV):
    key = "malloc"

    def names(self, V):
        return [V.fn("mabain::RollableFile::GetLastAllocError")]

    def apply(self, X, st, a):
        r = X.fresh("allocerr", 32)
        st.assume(r != 0)
        return r


class KVReserve(KV):
    """RollableFile::Reserve(off&, n, ptr&, map): moves off up to a block boundary if [off,off+n)
    would straddle one (never down), gives a pointer to it or NULL; or fails and returns an error."""
    key = "reserve"

    def names(self, V):
        return [V.fn("mabain::RollableFile::Reserve")]

    def apply(self, X, st, a):
        kv, po, n, pp = a[:4]
        F = self.W.file(kv)
        outs = []
        old = bv(X.load(st, po, 8), 64)
        n64 = simp(sx(bv(n, 32)))
        for mode in ("mapped", "unmapped", "fail"):
            s = st.fork()
            new = X.fresh("reserved", 64)
            s.assume(z3.And(z3.UGE(new, old), z3.ULT(new, LIM), z3.ULT(new - old, n64)))
            if mode == "fail":
                r = X.fresh("reserve_err", 32)
                s.assume(r != 0)
                outs.append((s, "ret", r))
                continue
            s.ghost["reserve"] = s.ghost.get("reserve", ()) + ((self.W.which(kv), old, new, n64),)
            X.store(s, po, 8, new)
            X.store(s, pp, 8, Ptr(F.obj, new) if mode == "mapped" else NULL)
            outs.append((s, "ret", 0))
        return outs
