"""Models (trusted contracts) of functions outside /repo.  Each one used is
listed in the evidence."""
import re
import z3
from mem import Ptr, NULL, FnPtr, Opaque, Unsupported, Base, Range, bv, b_, simp, add64, sub64, store as mstore
import llir

TABLE = {}
PREFIX = []


def reg(*names):
    def d(f):
        for n in names:
            TABLE[n] = f
        return f
    return d


def regre(pat):
    def d(f):
        PREFIX.append((re.compile(pat), f))
        return f
    return d


_cache = {}


def lookup(X, name):
    if name in _cache:
        f = _cache[name]
        if f is not None:
            X.trusted.add(name)
        return f
    f = TABLE.get(name)
    if f is None:
        for pat, g in PREFIX:
            if pat.match(name):
                f = g
                break
    _cache[name] = f
    if f is not None:
        X.trusted.add(name)
    return f


def truthy(X, st, c):
    return X.entails_pc(st.pc, c)


@regre(r"llvm\.memcpy\.|llvm\.memmove\.")
def memcpy_i(X, st, a, I):
    X.copy_bytes(st, a[0], a[1], a[2])
    return None


@reg("memcpy", "memmove")
def memcpy_f(X, st, a, I):
    X.copy_bytes(st, a[0], a[1], a[2])
    return a[0]


@regre(r"llvm\.memset\.|memset$")
def memset(X, st, a, I):
    d, v, n = a[0], a[1], a[2]
    v = v if isinstance(v, int) else z3.Extract(7, 0, v) if v.size() > 8 else v
    if isinstance(v, int):
        v &= 0xff
    if isinstance(n, int) and n == 0:
        return d
    if not X.need_ptr(st, d, "memset"):
        st.pc.append(z3.BoolVal(False))
        return d
    X.cur = st
    X.size_ok(st, d, n, "memset")
    if X.on_store:
        X.on_store(X, st, d, n, ("set", v), "pre")
    if isinstance(n, int) and n <= 64 and isinstance(d.off, int):
        c = st.mem[d.obj]
        i = 0
        while i < n:
            k = 8 if n - i >= 8 else 1
            if isinstance(v, int):
                c = mstore(c, d.off + i, k, int.from_bytes(bytes([v]) * k, "little"))
            else:
                k = 1
                c = mstore(c, d.off + i, 1, v)
            i += k
        st.mem[d.obj] = c
    elif isinstance(n, int) and isinstance(d.off, int) and d.off == 0 and X.objs[d.obj].size == n and v == 0:
        st.mem[d.obj] = Base("zero", "zero")
    else:
        st.mem[d.obj] = Range(st.mem[d.obj], simp(d.off), simp(n), None, 0, lambda rel, v=v: v)
    if X.on_store:
        X.on_store(X, st, d, n, ("set", v), "post")
    return d


@reg("memcmp", "bcmp")
def memcmp(X, st, a, I):
    from sym import Fact
    p, q, n = a
    if isinstance(n, int) and n == 0:
        return 0
    for w in (p, q):
        if not isinstance(w, Ptr) or w.obj == 0:
            X.oblige(st, "memory safety: memcmp with null pointer", bv(n, 64) == 0)
            st.assume(bv(n, 64) == 0)
            return 0
    X.size_ok(st, p, n, "memcmp read (1st)")
    X.size_ok(st, q, n, "memcmp read (2nd)")
    cp, cq = st.mem[p.obj], st.mem[q.obj]

    def A(c, base, j, s):
        X.cur = s
        return bv(c.byte(add64(base, j), X), 8)
    if isinstance(n, int) and n <= 8:
        av = [A(cp, p.off, i, st) for i in range(n)]
        qv = [A(cq, q.off, i, st) for i in range(n)]
        r = z3.BitVecVal(0, 32)
        for i in reversed(range(n)):
            r = z3.If(av[i] == qv[i], r, z3.If(z3.ULT(av[i], qv[i]), z3.BitVecVal(-1, 32), z3.BitVecVal(1, 32)))
        return simp(r)
    outs = []
    s1 = st.fork()
    N = bv(n, 64)
    s1.facts.append(Fact(lambda j: z3.Implies(z3.ULT(j, N), A(cp, p.off, j, s1) == A(cq, q.off, j, s1)), "memcmp-eq"))
    outs.append((s1, "ret", 0))
    s2 = st
    k = X.fresh("cmpk", 64)
    s2.facts.append(Fact(lambda j: z3.Implies(z3.ULT(j, k), A(cp, p.off, j, s2) == A(cq, q.off, j, s2)), "memcmp-pre"))
    s2.assume(z3.ULT(k, N))
    ak, qk = A(cp, p.off, k, s2), A(cq, q.off, k, s2)
    s2.assume(ak != qk)
    r = X.fresh("cmp", 32)
    s2.assume(r != 0)
    s2.assume((r < 0) == z3.ULT(ak, qk))
    if X.feasible(s2):
        outs.append((s2, "ret", r))
    return outs


@reg("_Znwm", "_Znam")
def op_new(X, st, a, I):
    p = X.new_obj(st, "heap", a[0], "struct" if isinstance(a[0], int) else "bytes")
    X.objs[p.obj].kind = "heap"
    st.ghost["heap"] = st.ghost.get("heap", ()) + (p.obj,)
    return p


@reg("_ZdlPv", "_ZdaPv", "_ZdlPvm", "_ZdaPvm", "free")
def op_delete(X, st, a, I):
    p = a[0]
    if isinstance(p, Ptr) and p.obj == 0:
        return None
    if not isinstance(p, Ptr):
        raise Unsupported("delete")
    o = X.objs[p.obj]
    if p.obj in st.freed:
        X.oblige(st, "memory safety: double free of " + o.name, z3.BoolVal(False))
    X.oblige(st, "memory safety: free of heap block start (%s)" % o.name,
             z3.And(bv(p.off, 64) == 0, z3.BoolVal(o.kind == "heap" or o.external)))
    st.freed = st.freed | {p.obj}
    return None


@reg("malloc")
def malloc(X, st, a, I):
    p = X.new_obj(st, "heap", a[0], "struct" if isinstance(a[0], int) else "bytes")
    X.objs[p.obj].kind = "heap"
    st.ghost["heap"] = st.ghost.get("heap", ()) + (p.obj,)
    if X.malloc_fail:
        s2 = st.fork()
        return [(st, "ret", p), (s2, "ret", NULL)]
    return p


@reg("calloc")
def calloc(X, st, a, I):
    n = X.binop("mul", 64, a[0], a[1])
    p = X.new_obj(st, "heap", n, "struct", content=Base("zero", "calloc"))
    X.objs[p.obj].kind = "heap"
    st.ghost["heap"] = st.ghost.get("heap", ()) + (p.obj,)
    return p


@reg("realloc")
def realloc(X, st, a, I):
    old, n = a
    p = X.new_obj(st, "heap", n, "bytes")
    X.objs[p.obj].kind = "heap"
    if old.obj != 0:
        so = X.objs[old.obj].size
        cnt = z3.If(z3.ULT(bv(so, 64), bv(n, 64)), bv(so, 64), bv(n, 64))
        st.mem[p.obj] = Range(st.mem[p.obj], 0, simp(cnt), st.mem[old.obj], 0)
        st.freed = st.freed | {old.obj}
    return p


@reg("__clang_call_terminate", "_ZSt9terminatev", "abort", "exit", "__assert_fail", "_ZSt17__throw_bad_allocv")
def noreturn(X, st, a, I):
    st.event("terminate")
    X.oblige(st, "program termination not reached (abort/assert/terminate) in " + X.curfn(st), z3.BoolVal(False))
    return [(st, "noreturn", None)]


@regre(r"_ZSt\d+__throw_")
def std_throw(X, st, a, I):
    X.oblige(st, "standard library exception not raised in " + X.curfn(st), z3.BoolVal(False))
    return [(st, "noreturn", None)]


@reg("__cxa_allocate_exception")
def cxa_alloc(X, st, a, I):
    return X.new_obj(st, "exc", a[0], "struct")


@reg("__cxa_throw")
def cxa_throw(X, st, a, I):
    ti = a[1]
    name = X.objs[ti.obj].name[1:] if isinstance(ti, Ptr) and ti.obj else None
    return [(st, "throw", (name, a[0]))]


@reg("__cxa_begin_catch")
def cxa_begin(X, st, a, I):
    return a[0]


@reg("__cxa_end_catch", "__cxa_free_exception")
def cxa_end(X, st, a, I):
    return None


@reg("__cxa_rethrow")
def cxa_rethrow(X, st, a, I):
    return [(st, "throw", st.xc)]


@regre(r"llvm\.eh\.typeid\.for")
def typeid_for(X, st, a, I):
    p = a[0]
    return X.typeid(X.objs[p.obj].name[1:])


@regre(r"llvm\.umax\.")
def umax(X, st, a, I):
    w = I.ty[1]
    return simp(z3.If(z3.UGT(bv(a[0], w), bv(a[1], w)), bv(a[0], w), bv(a[1], w)))


@regre(r"llvm\.umin\.")
def umin(X, st, a, I):
    w = I.ty[1]
    return simp(z3.If(z3.ULT(bv(a[0], w), bv(a[1], w)), bv(a[0], w), bv(a[1], w)))


@regre(r"llvm\.smax\.")
def smax(X, st, a, I):
    w = I.ty[1]
    return simp(z3.If(bv(a[0], w) > bv(a[1], w), bv(a[0], w), bv(a[1], w)))


@regre(r"llvm\.smin\.")
def smin(X, st, a, I):
    w = I.ty[1]
    return simp(z3.If(bv(a[0], w) < bv(a[1], w), bv(a[0], w), bv(a[1], w)))


@regre(r"llvm\.abs\.")
def iabs(X, st, a, I):
    w = I.ty[1]
    x = bv(a[0], w)
    return simp(z3.If(x < 0, -x, x))


@regre(r"llvm\.expect\.")
def expect(X, st, a, I):
    return a[0]


@regre(r"llvm\.bswap\.")
def bswap(X, st, a, I):
    w = I.ty[1]
    x = bv(a[0], w)
    n = w // 8
    return simp(z3.Concat(*[z3.Extract(8 * i + 7, 8 * i, x) for i in range(n)]))


@regre(r"llvm\.(uadd|usub|umul|sadd|ssub|smul)\.with\.overflow\.")
def with_overflow(X, st, a, I):
    name = I.x[0][1]
    m = re.match(r"llvm\.(\w)(\w+)\.with\.overflow", name)
    sgn, op = m.group(1), m.group(2)
    w = I.ty[1][0][1]
    A, B = bv(a[0], w), bv(a[1], w)
    ext = z3.ZeroExt if sgn == "u" else z3.SignExt
    EA, EB = ext(w, A), ext(w, B)
    R = {"add": EA + EB, "sub": EA - EB, "mul": EA * EB}[op]
    r = simp(z3.Extract(w - 1, 0, R))
    ov = simp(ext(w, z3.Extract(w - 1, 0, R)) != R)
    return (r, ov)


@regre(r"llvm\.(donothing|stacksave|stackrestore|va_start|va_end|trap)")
def nothing(X, st, a, I):
    return NULL


@regre(r"_ZN6mabain6Logger3Log")
def logger(X, st, a, I):
    return None


@regre(r"_ZN6mabain7MBError9get_error")
def errstr(X, st, a, I):
    return X.new_obj(st, "errstr", None, "bytes")


@regre(r"(_ZNK?Sa|_ZNK?St15__new_allocatorIc|_ZNSaIcE)")
def allocator(X, st, a, I):
    return a[0] if a else None


@reg("__errno_location")
def errno_loc(X, st, a, I):
    p = st.ghost.get("errno")
    if p is None:
        p = X.new_obj(st, "errno", 4)
        st.ghost["errno"] = p
    return p


@regre(r"(_ZNK?St7__cxx1112basic_string|_ZStpl|_ZNSt7__cxx119to_string|_ZNKSt7__cxx11|_ZNSt7__cxx11|_ZStlsI|_ZNSo|_ZNKSo|_ZSt4endl)")
def stdstring(X, st, a, I):
    """std::string / stream formatting: no effect on verified state"""
    if I.ty[0] == "ptr":
        return a[0] if a and isinstance(a[0], Ptr) else X.new_obj(st, "strdata", None, "bytes")
    if I.ty[0] == "i":
        return X.fresh("str", I.ty[1]) if I.ty[1] > 1 else X.fresh_bool("str")
    return None


@reg("__cxa_atexit", "__cxa_guard_abort", "__cxa_guard_release")
def noop(X, st, a, I):
    return 0


@reg("__cxa_guard_acquire")
def guard(X, st, a, I):
    return 0


@reg("getpid", "gettid", "pthread_self")
def someid(X, st, a, I):
    k = I.x[0][1]
    v = st.ghost.get(k)
    if v is None:
        v = X.fresh(k, I.ty[1])
        if k == "gettid" or k == "getpid":
            st.assume(v > 0)
        st.ghost[k] = v
    return v


@reg("time")
def time_(X, st, a, I):
    return X.fresh("time", 64)


@reg("usleep", "sleep", "nanosleep", "sched_yield", "umask", "fsync", "close", "syscall", "madvise", "posix_fadvise", "pthread_yield")
def sys_noeff(X, st, a, I):
    return X.fresh("sys", I.ty[1]) if I.ty[0] == "i" else None


@reg("strlen")
def strlen(X, st, a, I):
    n = X.fresh("strlen", 64)
    st.assume(z3.ULT(n, 1 << 31))
    return n
